package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"
)

// IsoVec is a schedule: several objects, each with its text, taking their steps in turn.
type IsoVec struct {
	Texts   [][]rune `json:"texts"`
	Sched   [][2]int `json:"sched"`
	Script  []string `json:"script"`
	Verdict []string `json:"verdict"`
	Reads   []int    `json:"reads"` // tokens read, the end of the text included
}

// isoObj is one parser object at work.
type isoObj struct {
	text   string
	script []string
	a      *ast.AstNode
	err    error
	res    map[string]string // what the operations gave
	ruined bool
	reads  int       // (the end of the text is read more than once)
	go_    chan bool // a step may be taken (false: go on to the end)
	at     chan bool // the step has been taken (false: at the end)
	free   bool      // steps need no leave
	crash  any
}

var isoObjs sync.Map // *ast.AstNode -> *isoObj

// isoToken is called by the parser before every token it reads.
func isoToken(a *ast.AstNode) {
	if o, ok := isoObjs.Load(a); ok {
		if o := o.(*isoObj); o.reads > 0 {
			o.reads--
			o.pause()
		}
	}
}

func (o *isoObj) pause() {
	if o.free {
		return
	}
	o.at <- true
	o.free = !<-o.go_
}

// run takes the object through everything, stopping before every step.
func (o *isoObj) run() {
	defer func() {
		if o.a != nil {
			isoObjs.Delete(o.a)
		}
		o.crash = recover()
		o.at <- false
	}()
	o.free = !<-o.go_
	o.a = ast.NewAST(o.text)
	isoObjs.Store(o.a, o)
	o.err = o.a.Parse()
	o.res["parse"] = isoErr(o.err)
	if o.err != nil {
		return
	}
	for i := 0; i < len(o.script); i++ {
		op := o.script[i]
		if op == "callback" {
			continue // stops inside of the walk before
		}
		o.pause()
		o.res[op] = o.op(op)
	}
}

func isoErr(err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return "accepted"
}

// op does one operation; what it gives must depend on the text alone.
func (o *isoObj) op(op string) string {
	a := o.a
	switch op {
	case "lex":
		b := ast.NewAST(o.text)
		var t ast.Token
		var sb strings.Builder
		for i := 0; i < len(o.text)+2; i++ {
			k, err := t.Next(b)
			p := t.GetPosition()
			fmt.Fprint(&sb, k, " ", p.Line, ":", p.Column, " ", err, "\n")
			if err != nil || k == ast.EOF {
				break
			}
		}
		return sb.String()
	case "print":
		s := a.Print(ast.PrintConf{Margin: 3})
		for _, x := range a.ModuleStatement.Body {
			s += "\n--\n" + a.PrintStatement(x)
		}
		return s
	case "line":
		return a.Print(ast.PrintConf{OneLine: true})
	case "json":
		b, err := a.JSON()
		return string(b) + isoErr(err)
	case "walk":
		var sb strings.Builder
		n := 0
		a.ModuleStatement.Walk(func(owner *ast.FunctionOrProcedure, parent, st *ast.Statement) {
			name := ""
			if owner != nil {
				name = owner.Name
			}
			up := "none"
			if parent != nil {
				up = fmt.Sprintf("%T", *parent)
			}
			fmt.Fprintf(&sb, "%s %s %T\n", name, up, *st)
			if n++; n <= 2 && !o.free {
				o.pause()
			}
		})
		return sb.String()
	case "fold":
		return fast_tolower.FastToLower(o.text)
	case "ruin":
		o.ruined = true
		ruin(a)
		return ""
	case "source":
		return a.SrsCode()
	case "tree":
		return realModule(a).String()
	}
	panic("operation " + op)
}

var isoAlone = struct {
	sync.Mutex
	m map[string]map[string]string
}{m: map[string]map[string]string{}}

var isoOps = []string{"parse", "lex", "print", "line", "json", "walk", "fold", "source", "tree"}

// alone is what the operations give in a process that does nothing else.
func (w *W) alone(text string) map[string]string {
	isoAlone.Lock()
	defer isoAlone.Unlock()
	if r, ok := isoAlone.m[text]; ok {
		return r
	}
	r := map[string]string{}
	me, err := os.Executable()
	if err != nil {
		w.defect("no executable: %v", err)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := ""
	for _, op := range isoOps {
		op := op
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(me, "solo", op)
			cmd.Stdin = strings.NewReader(text)
			var out, errOut bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errOut
			err := cmd.Run()
			var s string
			i := bytes.LastIndexByte(bytes.TrimRight(out.Bytes(), "\n"), '\n')
			if err != nil || json.Unmarshal(out.Bytes()[i+1:], &s) != nil {
				s = "\x00"
			}
			mu.Lock()
			defer mu.Unlock()
			if s == "\x00" {
				bad = fmt.Sprintf("%s alone fails: %v %s %s", op, err, trunc(out.String(), 300), trunc(errOut.String(), 600))
				return
			}
			r[op] = s
		}()
	}
	wg.Wait()
	if bad != "" {
		w.fail("%s", bad)
	}
	isoAlone.m[text] = r
	return r
}

// solo: one operation on the text of the standard input.
func solo(op string) {
	var b bytes.Buffer
	b.ReadFrom(os.Stdin)
	o := &isoObj{text: b.String(), free: true}
	o.a = ast.NewAST(o.text)
	err := o.a.Parse()
	s := isoErr(err)
	if op != "parse" && (err == nil || op == "lex" || op == "fold" || op == "source") {
		s = o.op(op)
	}
	j, _ := json.Marshal(s)
	os.Stdout.Write(append(append([]byte("\n"), j...), '\n'))
}

func (w *W) isoVec(raw string) *IsoVec {
	v := &IsoVec{}
	if err := json.Unmarshal([]byte(unquoteTLC(raw)), v); err != nil {
		w.defect("vector %.200s: %v", raw, err)
	}
	var sb strings.Builder
	for i, t := range v.Texts {
		fmt.Fprintf(&sb, "object %d: %s\n", i+1, string(t))
	}
	fmt.Fprint(&sb, "steps: ", v.Sched)
	w.src = sb.String()
	return v
}

func (v *IsoVec) objects() []*isoObj {
	var os []*isoObj
	for i, t := range v.Texts {
		os = append(os, &isoObj{text: string(t), reads: v.Reads[i], script: v.Script, res: map[string]string{}, go_: make(chan bool), at: make(chan bool, 1)})
	}
	return os
}

// judge compares what the objects gave with what their texts give alone.
func (v *IsoVec) judge(w *W, obs []*isoObj) {
	for i, o := range obs {
		if o.crash != nil {
			w.fail("object %d: panic: %v", i+1, o.crash)
		}
		ref := w.alone(o.text)
		if ok := ref["parse"] == "accepted"; ok != (v.Verdict[i] == "acc") {
			w.fail("the text %q alone: %s, but the machine says %s", o.text, ref["parse"], v.Verdict[i])
		}
		for _, op := range append([]string{"parse"}, v.Script...) {
			got, ok := o.res[op]
			if !ok || op == "ruin" {
				continue
			}
			w.inc("operations compared")
			if got != ref[op] {
				w.fail("object %d: %s gives another result than in a process of its own: %s\nalone: %s\nhere:  %s", i+1, op, firstDiff(ref[op], got), trunc(ref[op], 800), trunc(got, 800))
			}
		}
		if o.a == nil {
			w.fail("object %d has not run", i+1)
		}
		if s := o.a.SrsCode(); s != o.text {
			w.fail("object %d: the source has become %q", i+1, trunc(s, 300))
		}
	}
	// no two trees share anything that can be changed
	own := map[uintptr]int{}
	for i, o := range obs {
		if o.err != nil || o.a == nil {
			continue
		}
		shared := ""
		memory(reflect.ValueOf(&o.a.ModuleStatement).Elem(), "the module", func(p uintptr, what string) bool {
			j, seen := own[p]
			if seen && j != i+1 && shared == "" {
				shared = fmt.Sprintf("%s of object %d is the same memory as a part of object %d", what, i+1, j)
			}
			own[p] = i + 1
			return !seen
		})
		if shared != "" {
			w.fail("%s", shared)
		}
	}
	// whatever was done with the others, a tree that nobody touched is as it was
	for i, o := range obs {
		if o.ruined || o.err != nil {
			continue
		}
		ref := w.alone(o.text)
		o.free = true
		for _, op := range []string{"tree", "print", "json", "walk", "line"} {
			if got := o.op(op); got != ref[op] {
				w.fail("object %d at the end: %s gives another result than in a process of its own: %s\nalone: %s\nhere:  %s", i+1, op, firstDiff(ref[op], got), trunc(ref[op], 800), trunc(got, 800))
			}
		}
	}
}

// judgeIso: the steps in the order of the schedule.
func judgeIso(w *W, raw string, variant int) {
	v := w.isoVec(raw)
	obs := v.objects()
	for i, o := range obs {
		if i%2 == 1 { // every other object is left as it is
			o.script = nil
			for _, op := range v.Script {
				if op != "ruin" {
					o.script = append(o.script, op)
				}
			}
		}
		go o.run()
	}
	end := make([]bool, len(obs))
	wait := func(i int) {
		select {
		case more := <-obs[i].at:
			end[i] = !more
		case <-time.After(15 * time.Second):
			w.fail("object %d does not take its step", i+1)
		}
	}
	for _, s := range v.Sched {
		for k := 0; k < s[1] && !end[s[0]-1]; k++ {
			obs[s[0]-1].go_ <- true
			wait(s[0] - 1)
			w.inc("steps")
		}
	}
	for i := range obs { // what the machine did not foresee
		for !end[i] {
			w.inc("steps beyond the schedule")
			obs[i].go_ <- false
			wait(i)
		}
	}
	v.judge(w, obs)
}

// judgeParallel: all objects at the same time.
func judgeParallel(w *W, raw string, variant int) {
	v := w.isoVec(raw)
	obs := v.objects()
	for rep := 0; rep < 3; rep++ {
		start := make(chan bool)
		for i, o := range obs {
			*o = isoObj{text: o.text, res: map[string]string{}, go_: make(chan bool), at: make(chan bool, 1)}
			for _, op := range v.Script {
				if op != "ruin" || i%2 == 0 {
					o.script = append(o.script, op)
				}
			}
			o := o
			go func() {
				<-start
				go func() { o.go_ <- false }()
				o.run()
			}()
		}
		close(start)
		for i, o := range obs {
			select {
			case <-o.at:
			case <-time.After(15 * time.Second):
				w.fail("object %d does not end", i+1)
			}
		}
		v.judge(w, obs)
		w.inc("parallel runs")
	}
}

func iso(n int, catalogue, picks string, sw int) *Gen {
	return &Gen{Module: "IsoProfiles", Name: fmt.Sprintf("%d objects, %s of %s, %d switches", n, picks, catalogue, sw), Workers: 4,
		Invs: []string{"Good"}, Props: []string{"OneAtATime"},
		Consts: []string{fmt.Sprintf("N = %d", n), "Catalogue <- " + catalogue, "Picks <- " + picks, "Script <- Ops", fmt.Sprintf("MaxSw = %d", sw), "Fold <- SourceFold", `Ask = ""`}}
}

func isoRandom(n, count int, seed int64) *Gen {
	g := iso(n, "Texts", "", 99)
	g.Name = fmt.Sprintf("%d objects, %d random schedules", n, count)
	g.Next, g.Init, g.Props = "NextRandom", "InitRandom", nil
	from := int(seed%300) * 100
	for i := range g.Consts {
		if g.Consts[i] == "Picks <- " {
			g.Consts[i] = fmt.Sprintf("Picks = {%s}", numbers(from, from+count))
		}
	}
	return g
}

func numbers(a, b int) string {
	var s []string
	for ; a < b; a++ {
		s = append(s, fmt.Sprint(a))
	}
	return strings.Join(s, ", ")
}

func init() {
	register(&Check{ID: "C23", Bin: "-race", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "interleavings", JudgeRaw: judgeIso, Single: true, Gens: gens(iso(2, "Texts", "Pairs", 1))},
			{Name: "two switches", JudgeRaw: judgeIso, Gens: gens(iso(2, "Few", "FewPairs", 2))},
			{Name: "random interleavings", JudgeRaw: judgeIso, Gens: gens(isoRandom(4, 400, seed))},
			{Name: "parallel", JudgeRaw: judgeParallel, Gens: gens(isoRandom(6, 200, seed))},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "interleavings", JudgeRaw: judgeIso, Single: true, Gens: gens(iso(2, "Texts", "Pairs", 1))},
			{Name: "two switches", JudgeRaw: judgeIso, Gens: gens(iso(2, "Texts", "Pairs", 2))},
			{Name: "three objects", JudgeRaw: judgeIso, Gens: gens(iso(3, "Few", "Triples", 1))},
			{Name: "random interleavings", JudgeRaw: judgeIso, Gens: gens(isoRandom(6, 4000, seed))},
			{Name: "parallel", JudgeRaw: judgeParallel, Gens: gens(isoRandom(6, 4000, seed))},
		}
	})})
}

// memory reports what of a tree can be changed: what pointers point to, elements of lists, maps.
func memory(v reflect.Value, what string, see func(p uintptr, what string) bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 || !see(v.Pointer(), what) {
			return
		}
		memory(v.Elem(), what, see)
	case reflect.Interface:
		if !v.IsNil() {
			memory(v.Elem(), what, see)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" || f.Anonymous {
				memory(v.Field(i), v.Type().Name()+"."+f.Name, see)
			}
		}
	case reflect.Slice:
		if v.Len() == 0 || v.Type().Elem().Size() == 0 || !see(v.Pointer(), what) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), what, see)
		}
	case reflect.Map:
		if v.IsNil() || v.Len() == 0 || !see(v.Pointer(), what) {
			return
		}
		for _, k := range v.MapKeys() {
			memory(v.MapIndex(k), what, see)
		}
	}
}

// ruin overwrites every part of a tree that can be written.
func ruin(a *ast.AstNode) {
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			e := v.Elem()
			if e.Kind() == reflect.Pointer {
				rec(e)
				return
			}
			if e.Kind() == reflect.Slice {
				rec(e)
			}
			if v.CanSet() {
				c := reflect.New(e.Type()).Elem()
				c.Set(e)
				rec(c)
				v.Set(c)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
					rec(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
			if n := v.Len(); n > 1 && v.Kind() == reflect.Slice {
				x := reflect.New(v.Type().Elem()).Elem()
				x.Set(v.Index(0))
				v.Index(0).Set(v.Index(n - 1))
				v.Index(n - 1).Set(x)
			}
			if v.Kind() == reflect.Slice && v.CanSet() { // write into the spare room as well
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				c := reflect.New(v.Type().Elem()).Elem()
				c.Set(v.MapIndex(k))
				rec(c)
				v.SetMapIndex(k, c)
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("ИСПОРЧЕНО" + v.String())
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(v.Int() ^ 1)
			}
		case reflect.Float32, reflect.Float64:
			if v.CanSet() {
				v.SetFloat(v.Float() + 1)
			}
		}
	}
	rec(reflect.ValueOf(&a.ModuleStatement))
}
