package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// tree parses the program of a vector; the judge goes on only when the parser delivers the tree of the
// specification (whether it does is decided by the checks of the parsing properties).
func (w *W) tree(v *Vec, variant int) (c *Conc, a *ast.AstNode, m *Module, ok bool) {
	if v.pre != nil {
		return v.pre.c, v.pre.a, v.pre.m, true
	}
	if !valid(v) {
		return
	}
	c, _, a, err := w.program(v, variant)
	if err != nil {
		w.inc("skipped: rejected")
		return
	}
	m = c.module(v)
	if realModule(a).String() != m.String() {
		w.inc("skipped: other tree")
		return
	}
	return c, a, m, true
}

func (w *W) reparse(text, what string) *ast.AstNode {
	src := w.src
	a, err := w.parse(text)
	w.src = src
	if err != nil {
		w.fail("%s does not parse: %v\n%s", what, err, text)
	}
	return a
}

var printConfs = []ast.PrintConf{{OneLine: true}, {Margin: 4}, {Margin: 0}, {Margin: 1}, {Margin: 2}, {Margin: 3}, {Margin: 8}, {Margin: 13}, {OneLine: true, Margin: 4}}

func confs(w *W, n int) []ast.PrintConf {
	r := append([]ast.PrintConf{}, printConfs[:2]...)
	for len(r) < n {
		r = append(r, printConfs[w.rng.Intn(len(printConfs))])
	}
	return r
}

// C17
func judgePrint(w *W, v *Vec, variant int) {
	_, a, _, ok := w.tree(v, variant)
	if !ok {
		return
	}
	want := normModule(realModule(a))
	w.note = want.String()
	for _, conf := range confs(w, 3) {
		text := a.Print(conf)
		w.inc("prints")
		b := w.reparse(text, fmt.Sprintf("the printed text (%+v)", conf))
		got := normModule(realModule(b))
		if want.String() != got.String() {
			w.fail("printed (%+v) and parsed again the tree differs: %s\nprinted text:\n%s", conf, firstDiff(want.String(), got.String()), text)
		}
	}
}

// C18
func judgeStable(w *W, v *Vec, variant int) {
	c, a, _, ok := w.tree(v, variant)
	if !ok {
		return
	}
	before := realModule(a).String()
	j1, _ := a.JSON()
	for _, conf := range confs(w, 3) {
		text := a.Print(conf)
		for i := 0; i < 12; i++ {
			w.inc("prints")
			if t := a.Print(conf); t != text {
				w.fail("printing again (%+v) gives another text: %s", conf, firstDiff(text, t))
			}
		}
		if realModule(a).String() != before {
			w.fail("printing (%+v) changes the tree: %s", conf, firstDiff(before, realModule(a).String()))
		}
		b := w.reparse(text, fmt.Sprintf("the printed text (%+v)", conf))
		if t := b.Print(conf); t != text {
			w.fail("printing the parsed output (%+v) gives another text: %s", conf, firstDiff(text, t))
		}
	}
	j2, _ := a.JSON()
	if !bytes.Equal(j1, j2) {
		w.fail("printing changes the JSON of the tree")
	}
	w.sameAsFresh(a, confs(w, 1)[0], "after printing")
	// other layouts of the same program
	src := w.src
	ts := v.all()
	for i := 0; i < 3; i++ {
		var layout string
		if v.pre != nil {
			layout = v.pre.layouts()
		} else {
			layout = render(w.rng, w.rng.Intn(nStyles), c.toks(moreSeparators(w.rng, ts, i > 0))).Text
		}
		b := ast.NewAST(layout)
		w.inc("parses")
		if b.Parse() != nil {
			w.inc("skipped: layout rejected")
			continue
		}
		for _, conf := range confs(w, 2) {
			t1, t2 := a.Print(conf), b.Print(conf)
			if t1 != t2 {
				w.fail("the same program in another layout prints differently (%+v): %s\nlayouts:\n%q\n%q", conf, firstDiff(t1, t2), src, layout)
			}
		}
	}
}

// moreSeparators repeats separators where that adds no statement.
func moreSeparators(rng *rand.Rand, ts []Tok, on bool) []Tok {
	var r []Tok
	decl := false
	for i, t := range ts {
		r = append(r, t)
		switch t[0] {
		case "Var":
			decl = true
		case ";":
			next := ""
			if i+1 < len(ts) {
				next = ts[i+1][0]
			}
			if on && !decl && next != "Var" && next != "Procedure" && next != "Function" && next != "DIR" && rng.Intn(3) == 0 {
				r = append(r, Tok{";", ""})
			}
			decl = false
		}
	}
	return r
}

// mask replaces the text of string literals and dates so that layout can be compared.
func mask(s string, keep bool) string {
	b := &strings.Builder{}
	in := rune(0)
	for _, r := range s {
		switch {
		case in == 0 && (r == '"' || r == '\''):
			in = r
			b.WriteRune(r)
		case in != 0 && r == in:
			in = 0
			b.WriteRune(r)
		case in != 0:
			if keep && r == '\n' {
				b.WriteRune('¶')
			} else if keep && unicode.IsSpace(r) {
				b.WriteRune('␣')
			} else if keep && (r == '(' || r == ')') {
				b.WriteRune('¤')
			} else if keep {
				b.WriteRune(r)
			} else {
				b.WriteRune('x')
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func noSpace(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

func noParens(s string) string {
	return strings.NewReplacer("(", "", ")", "").Replace(s)
}

// C19
func judgeLayout(w *W, v *Vec, variant int) {
	c, a, _, ok := w.tree(v, variant)
	if !ok {
		return
	}
	var x struct {
		G [][][2]json.RawMessage `json:"g"`
		B [][2]json.RawMessage   `json:"b"`
	}
	if err := json.Unmarshal(v.X, &x); err != nil {
		w.defect("lines: %v", err)
	}
	type line struct {
		depth int
		text  string
	}
	minusZero := false // may be written with its sign or without
	mkLine := func(l [2]json.RawMessage) line {
		var d int
		var ts []Tok
		if json.Unmarshal(l[0], &d) != nil || json.Unmarshal(l[1], &ts) != nil {
			w.defect("line %s", l)
		}
		s := ""
		if len(ts) > 0 && ts[0][0] == "Var*" {
			var names []string
			for _, t := range ts[1:] {
				names = append(names, c.id(t[1]))
			}
			sortStrings(names)
			s = "Перем" + strings.Join(names, ",") + ";"
			return line{d, canonLine(s)}
		}
		for i, t := range ts {
			p := c.tok(t, i > 0 && ts[i-1][0] == ".")
			switch t[0] {
			case "NUM":
				f := mustFloat(p.Lit)
				p.Text = strconv.FormatFloat(f, 'f', -1, 64)
				minusZero = minusZero || f == 0 && i > 0 && ts[i-1][0] == "-"
			case "DATE":
				p.Text = "'x'"
			case "STR":
				p.Text = `"` + p.Lit + `"`
			}
			if k, ok := kwText[t[0]]; ok && !(i > 0 && ts[i-1][0] == ".") && t[0] != "Execute" {
				p.Text = k
			}
			s += mask(p.Text, true)
		}
		return line{d, canonLine(s)}
	}
	var globals, body []line
	for _, g := range x.G {
		t := line{}
		for _, l := range g {
			ml := mkLine(l)
			t.text += ml.text + "\n"
		}
		globals = append(globals, t)
	}
	for _, l := range x.B {
		body = append(body, mkLine(l))
	}
	if minusZero {
		w.inc("skipped: zero")
		return
	}
	one := a.Print(ast.PrintConf{OneLine: true})
	w.inc("prints")
	var base string
	for _, conf := range confs(w, 4) {
		text := a.Print(conf)
		w.inc("prints")
		flat := noSpace(mask(text, true))
		if base == "" {
			base = flat
		} else if base != flat {
			w.fail("the printed tokens differ between options (%+v): %s", conf, firstDiff(base, flat))
		}
		if conf.OneLine {
			continue
		}
		type phys struct {
			indent int
			text   string
			raw    string
		}
		var ph []phys
		for _, l := range strings.Split(mask(text, true), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			n := len(l) - len(strings.TrimLeft(l, " "))
			if strings.HasPrefix(l[n:], "\t") {
				w.fail("a line is indented by a tab (%+v): %q", conf, l)
			}
			ph = append(ph, phys{n, canonLine(l), l})
		}
		// module variables, in any order
		pending := map[string]int{}
		ng := 0
		for _, g := range globals {
			pending[g.text]++
			ng += strings.Count(g.text, "\n")
		}
		if ng > len(ph) {
			w.fail("lines are missing (%+v):\n%s", conf, text)
		}
		for i := 0; i < ng; {
			t := ph[i].text + "\n"
			if strings.HasPrefix(t, "&") && i+1 < ng {
				t += ph[i+1].text + "\n"
			}
			if pending[t] == 0 {
				w.fail("unexpected line %q among the module variables (%+v):\n%s", ph[i].raw, conf, text)
			}
			pending[t]--
			for k := strings.Count(t, "\n"); k > 0; k-- {
				if ph[i].indent != 0 {
					w.fail("line %q is indented (%+v)", ph[i].raw, conf)
				}
				i++
			}
		}
		rest := ph[ng:]
		for i, l := range body {
			if i >= len(rest) {
				w.fail("line %q is missing (%+v):\n%s", l.text, conf, text)
			}
			if rest[i].text != l.text {
				w.fail("line %d should hold %q but is %q (%+v):\n%s", i+1, l.text, rest[i].raw, conf, text)
			}
			if rest[i].indent != l.depth*conf.Margin {
				w.fail("line %q is indented by %d instead of %d (%+v):\n%s", rest[i].raw, rest[i].indent, l.depth*conf.Margin, conf, text)
			}
		}
		if len(rest) > len(body) {
			w.fail("additional line %q (%+v):\n%s", rest[len(body)].raw, conf, text)
		}
	}
	// one line: breaks only around directives and inside strings
	for _, l := range strings.Split(strings.TrimSpace(mask(one, true)), "\n") {
		_ = l
	}
	m := mask(one, true)
	for i, r := range m {
		if r != '\n' {
			continue
		}
		before, after := strings.TrimRight(m[:i], " \n"), strings.TrimLeft(m[i+1:], " \n")
		bl := before[strings.LastIndexAny(before, "\n")+1:]
		if !strings.HasPrefix(after, "&") && !strings.HasPrefix(strings.TrimSpace(bl), "&") {
			w.fail("one-line printing breaks the line:\n%s", one)
		}
	}
}

// canonLine drops white space and parentheses (redundant ones do not matter here).
// and letter case (of keywords; the text of names and literals is the business of C17).
func canonLine(s string) string { return lower(noParens(noSpace(maskDates(s)))) }

// dates may be written with other digits for the same moment
func maskDates(s string) string {
	b := &strings.Builder{}
	in, str := false, false
	for _, r := range s {
		if r == '"' && !in {
			str = !str
		}
		if r == '\'' && !str {
			in = !in
			if in {
				b.WriteString("'x")
				continue
			}
		}
		if !in {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func mustFloat(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return f
}

// C27
func judgeSingle(w *W, v *Vec, variant int) {
	_, a, _, ok := w.tree(v, variant)
	if !ok {
		return
	}
	type item struct{ s ast.Statement }
	var items []item
	var collect func(l ast.Statements)
	collect = func(l ast.Statements) {
		for _, s := range l {
			if isNilValue(s) {
				continue
			}
			items = append(items, item{s})
			switch x := s.(type) {
			case *ast.IfStatement:
				collect(x.TrueBlock)
				for _, e := range x.IfElseBlock {
					if ei, ok := e.(*ast.IfStatement); ok {
						collect(ei.TrueBlock)
					}
				}
				collect(x.ElseBlock)
			case *ast.LoopStatement:
				collect(x.Body)
			case ast.TryStatement:
				collect(x.Body)
				collect(x.Catch)
			case *ast.FunctionOrProcedure:
				collect(x.Body)
			}
		}
	}
	collect(a.ModuleStatement.Body)
	if len(items) > 12 {
		w.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		items = items[:12]
	}
	confsUsed := confs(w, 3)
	whole := make([]string, len(confsUsed))
	for i, conf := range confsUsed {
		whole[i] = noSpace(a.Print(conf))
	}
	for _, it := range items {
		want := norm(realN(it.s))
		for i := -1; i < len(confsUsed); i++ {
			var text, in string
			var conf ast.PrintConf
			if i < 0 {
				text = a.PrintStatement(it.s)
				conf = ast.PrintConf{Margin: 4}
				in = noSpace(a.Print(conf))
			} else {
				conf = confsUsed[i]
				text = a.PrintStatementWithConf(it.s, conf)
				in = whole[i]
			}
			w.inc("statements printed")
			var got *N
			if want.Tag == "func" {
				b := w.reparse(text, fmt.Sprintf("the statement printed by itself (%+v)", conf))
				m := realModule(b)
				if len(m.Body.K) != 1 {
					w.fail("the procedure printed by itself (%+v) is not one procedure: %s", conf, text)
				}
				got = norm(m.Body.K[0])
			} else {
				src := "Функция ф()\nПока а Цикл Попытка Исключение\n" + text + "\nКонецПопытки; КонецЦикла; КонецФункции"
				b := w.reparse(src, fmt.Sprintf("the statement printed by itself (%+v)", conf))
				l := realModule(b).Body.K
				if len(l) == 1 && len(l[0].K) == 3 && len(l[0].K[2].K) == 1 {
					l = l[0].K[2].K[0].K[1].K // while body
					l = l[0].K[1].K           // handler
				}
				if len(l) != 1 {
					w.fail("the statement printed by itself (%+v) is not one statement: %s", conf, text)
				}
				got = norm(l[0])
			}
			if got.String() != want.String() {
				w.fail("the statement printed by itself (%+v) reads differently: %s\nprinted text:\n%s", conf, firstDiff(want.String(), got.String()), text)
			}
			if !strings.Contains(in, noSpace(text)) {
				w.fail("the statement printed by itself (%+v) differs from its text in the module:\n%s\nmodule:\n%s", conf, text, a.Print(conf))
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C20, C21

type walkEvent struct {
	slot          bool
	path          []int
	owner, parent []int
}

func (w *W) events(v *Vec) []walkEvent {
	var raw [][4]any
	if err := json.Unmarshal(v.X, &raw); err != nil {
		w.defect("events: %v", err)
	}
	ints := func(x any) []int {
		var r []int
		for _, e := range x.([]any) {
			r = append(r, int(e.(float64)))
		}
		return r
	}
	var r []walkEvent
	for _, e := range raw {
		r = append(r, walkEvent{e[0].(bool), ints(e[1]), ints(e[2]), ints(e[3])})
	}
	return r
}

func at(root *N, path []int) *N {
	n := root
	for _, i := range path {
		n = n.K[i-1]
	}
	return n
}

// what a visited node looks like: a branch is visited as a conditional of its own
func asVisited(n *N) *N {
	if n.Tag == "br" {
		return mk("if", nil, n, mk("body", nil))
	}
	return n
}

// slotAt finds the place of the real tree a path leads to.
func slotAt(a *ast.AstNode, root *N, path []int) *ast.Statement {
	list := func(l ast.Statements, i int) *ast.Statement {
		if i-1 < len(l) {
			return &l[i-1]
		}
		return nil
	}
	cur := list(a.ModuleStatement.Body, path[0])
	n := root.K[path[0]-1]
	p := path[1:]
	for len(p) > 0 {
		if cur == nil {
			return nil
		}
		switch n.Tag {
		case "neg", "not":
			n = n.K[p[0]-1]
			p = p[1:]
			continue
		}
		switch x := (*cur).(type) {
		case *ast.IfStatement:
			if n.Tag == "br" {
				if p[0] == 1 {
					cur, n, p = &x.Expression, n.K[0], p[1:]
				} else {
					if len(p) < 2 {
						return nil
					}
					cur, n, p = list(x.TrueBlock, p[1]), n.K[1].K[p[1]-1], p[2:]
				}
				continue
			}
			switch {
			case p[0] == len(n.K): // else
				cur, n, p = list(x.ElseBlock, p[1]), n.K[p[0]-1].K[p[1]-1], p[2:]
			case p[0] == 1:
				n, p = n.K[0], p[1:]
				if p[0] == 1 {
					cur, n, p = &x.Expression, n.K[0], p[1:]
				} else {
					cur, n, p = list(x.TrueBlock, p[1]), n.K[1].K[p[1]-1], p[2:]
				}
			default:
				cur, n, p = list(x.IfElseBlock, p[0]-1), n.K[p[0]-1], p[1:]
			}
		case ast.TryStatement:
			l := x.Body
			if p[0] == 2 {
				l = x.Catch
			}
			cur, n, p = list(l, p[1]), n.K[p[0]-1].K[p[1]-1], p[2:]
		case *ast.LoopStatement:
			cur, n, p = list(x.Body, p[1]), n.K[p[0]-1].K[p[1]-1], p[2:]
		case *ast.FunctionOrProcedure:
			cur, n, p = list(x.Body, p[1]), n.K[p[0]-1].K[p[1]-1], p[2:]
		case ast.MethodStatement:
			cur, n, p = list(x.Param.Statements, p[0]), n.K[p[0]-1], p[1:]
		case *ast.ExpStatement:
			l := ast.Statement(x.Left)
			if p[0] == 2 {
				l = x.Right
			}
			cur, n, p = &l, n.K[p[0]-1], p[1:]
		case ast.TernaryStatement:
			l := []ast.Statement{x.Expression, x.TrueBlock, x.ElseBlock}[p[0]-1]
			cur, n, p = &l, n.K[p[0]-1], p[1:]
		case *ast.ReturnStatement:
			cur, n, p = &x.Param, n.K[p[0]-1], p[1:]
		default:
			return nil
		}
	}
	return cur
}

type visit struct {
	n      string
	slot   *ast.Statement
	owner  *ast.FunctionOrProcedure
	parent string
	top    bool
}

func (w *W) walk(a *ast.AstNode) []visit {
	var vs []visit
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if stm == nil {
			w.fail("Walk passes no statement")
		}
		if isNilValue(*stm) {
			return
		}
		x := visit{n: realN(*stm).String(), slot: stm, owner: root}
		if parent != nil && !isNilValue(*parent) {
			if l, ok := (*parent).(ast.Statements); ok {
				x.top = true
				_ = l
			} else {
				x.parent = realN(*parent).String()
			}
		}
		vs = append(vs, x)
	})
	w.inc("walks")
	return vs
}

func judgeWalk(w *W, v *Vec, variant int) {
	_, a, m, ok := w.tree(v, variant)
	if !ok {
		return
	}
	before := m.String()
	ev := w.events(v)
	vs := w.walk(a)
	if g := realModule(a).String(); g != before {
		w.fail("walking changes the tree: %s", firstDiff(before, g))
	}
	w.note = fmt.Sprintf("%d visits", len(ev))
	// every statement of a block exactly once, at its place; everything else counted by what it is
	slotIdx := map[*ast.Statement]int{}
	for i, x := range vs {
		if _, dup := slotIdx[x.slot]; dup {
			w.fail("visited twice: %s", x.n)
		}
		slotIdx[x.slot] = i
	}
	want := map[string]int{}
	type placed struct {
		path []int
		i    int
	}
	var pl []placed
	for _, e := range ev {
		n := asVisited(at(m.Body, e.path)).String()
		want[n]++
		if e.slot {
			s := slotAt(a, m.Body, e.path)
			if s == nil {
				w.defect("no place for %v", e.path)
			}
			i, seen := slotIdx[s]
			if !seen {
				w.fail("not visited: %s", n)
			}
			pl = append(pl, placed{e.path, i})
			w.inc("block statements visited")
		}
	}
	for _, x := range vs {
		want[x.n]--
	}
	for n, k := range want {
		if k > 0 {
			w.fail("not visited (%d times less): %s", k, n)
		}
		if k < 0 {
			w.fail("visited %d times more than it should: %s", -k, n)
		}
	}
	// order: inner before outer, siblings as written
	for x := range pl {
		for y := range pl {
			a, b := pl[x], pl[y]
			if within(a.path, b.path) && b.i > a.i {
				w.fail("a statement is visited before what it contains: %s", at(m.Body, a.path))
			}
			if siblings(a.path, b.path) && a.path[len(a.path)-1] < b.path[len(b.path)-1] && a.i > b.i && blockItem(m.Body, a.path) {
				w.fail("statements of a block are visited out of order: %s", at(m.Body, b.path))
			}
		}
	}
}

func within(a, b []int) bool {
	if len(a) >= len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func siblings(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a)-1; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// is the node a member of a body (and not a branch or an argument)?
func blockItem(root *N, path []int) bool {
	return at(root, path[:len(path)-1]).Tag == "body"
}

func judgeOwner(w *W, v *Vec, variant int) {
	_, a, m, ok := w.tree(v, variant)
	if !ok {
		return
	}
	ev := w.events(v)
	vs := w.walk(a)
	bySlot := map[*ast.Statement]visit{}
	byText := map[string][]visit{}
	for _, x := range vs {
		bySlot[x.slot] = x
		byText[x.n] = append(byText[x.n], x)
	}
	good := func(e walkEvent, x visit) string {
		if len(e.owner) == 0 {
			if x.owner != nil {
				return fmt.Sprintf("the owner is %q but there should be none", x.owner.Name)
			}
		} else {
			o := slotAt(a, m.Body, e.owner)
			if o == nil || x.owner == nil {
				return fmt.Sprintf("the owner should be %q but there is none", at(m.Body, e.owner).S[1])
			}
			if f, ok := (*o).(*ast.FunctionOrProcedure); !ok || f != x.owner {
				return fmt.Sprintf("the owner should be %q but is %q", at(m.Body, e.owner).S[1], x.owner.Name)
			}
		}
		if len(e.parent) > 0 {
			p := asVisited(at(m.Body, e.parent)).String()
			if p != x.parent {
				return fmt.Sprintf("the parent should be %s but is %s", p, x.parent)
			}
		}
		return ""
	}
	events := map[string]int{}
	for _, e := range ev {
		events[asVisited(at(m.Body, e.path)).String()]++
	}
	for _, e := range ev {
		n := asVisited(at(m.Body, e.path)).String()
		if e.slot {
			x, ok := bySlot[slotAt(a, m.Body, e.path)]
			if !ok {
				if len(byText[n]) == events[n] {
					w.fail("visiting %s: the pointer is not the place in the tree", n)
				}
				w.inc("skipped: not visited")
				continue
			}
			w.inc("owners checked")
			if msg := good(e, x); msg != "" {
				w.fail("visiting %s: %s", n, msg)
			}
			continue
		}
		// expressions: some visit of such a node must have this owner and parent
		xs := byText[n]
		if len(xs) == 0 {
			w.inc("skipped: not visited")
			continue
		}
		found, msg := false, ""
		for i, x := range xs {
			if msg = good(e, x); msg == "" {
				byText[n] = append(append([]visit{}, xs[:i]...), xs[i+1:]...)
				found = true
				break
			}
		}
		w.inc("owners checked")
		if !found {
			w.fail("visiting %s: %s", n, msg)
		}
	}
	// replacement through the pointer
	var slots []walkEvent
	for _, e := range ev {
		if e.slot && !outsideBlocks(ev, e) {
			slots = append(slots, e)
		}
	}
	w.rng.Shuffle(len(slots), func(i, j int) { slots[i], slots[j] = slots[j], slots[i] })
	if w.rng.Intn(2) == 0 { // arguments first
		sort.SliceStable(slots, func(i, j int) bool { return !blockItem(m.Body, slots[i].path) && blockItem(m.Body, slots[j].path) })
	}
	if len(slots) > 8 {
		slots = slots[:8]
	}
	before := m.String()
	conf := confs(w, 1)[0]
	a.Print(conf)
	a.JSON()
	for i, e := range slots {
		target := slotAt(a, m.Body, e.path)
		old := *target
		repl := ast.Statement(ast.VarStatement{Name: "ЗАМЕНА"})
		exp := mk("var", []string{"ЗАМЕНА"})
		switch {
		case at(m.Body, e.path).Tag == "br":
			repl = &ast.IfStatement{Expression: repl}
			exp = mk("br", nil, exp, mk("body", nil))
		case w.rng.Intn(2) == 0:
			repl = ast.MethodStatement{Name: "Замена"}
			exp = mk("call", []string{"Замена"})
		}
		done := 0
		a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
			if stm == target {
				*stm = repl
				done++
			}
		})
		w.inc("replacements")
		if done == 0 {
			w.inc("skipped: not visited")
			continue
		}
		want := &Module{m.G, replaceAt(m.Body, e.path, exp)}
		got := realModule(a)
		if want.String() != got.String() {
			w.fail("replacing %s through the pointer gives another tree: %s", at(m.Body, e.path), firstDiff(want.String(), got.String()))
		}
		if i < 3 {
			w.sameAsFresh(a, conf, fmt.Sprintf("after replacing %s", at(m.Body, e.path)))
		}
		*target = old
		if g := realModule(a).String(); g != before {
			w.fail("putting %s back gives another tree: %s", at(m.Body, e.path), firstDiff(before, g))
		}
	}
}

// sameAsFresh: what is printed depends on the tree alone, not on what the object was asked before.
func (w *W) sameAsFresh(a *ast.AstNode, conf ast.PrintConf, when string) {
	b := ast.NewAST("")
	b.ModuleStatement = a.ModuleStatement
	if x, y := a.Print(conf), b.Print(conf); x != y {
		w.fail("%s the printed text (%+v) is not that of the tree: %s", when, conf, firstDiff(y, x))
	}
	x, err := a.JSON()
	y, err2 := b.JSON()
	if (err == nil) != (err2 == nil) || !bytes.Equal(x, y) {
		w.fail("%s the JSON is not that of the tree: %s", when, firstDiff(string(y), string(x)))
	}
	w.inc("compared with a fresh object")
}

// Arguments of calls that hang under an operand are reached through copies; only blocks and the arguments of
// calls reached from blocks are replaceable, which is what slots are.
func outsideBlocks(ev []walkEvent, e walkEvent) bool { return false }

func replaceAt(n *N, path []int, x *N) *N {
	if len(path) == 0 {
		return x
	}
	r := &N{n.Tag, n.S, append([]*N{}, n.K...)}
	r.K[path[0]-1] = replaceAt(n.K[path[0]-1], path[1:], x)
	return r
}

// ---------------------------------------------------------------------------
// C22

func (w *W) cmpJSON(c *Conc, exp, got any, path string) {
	bad := func() {
		g, _ := json.Marshal(got)
		e, _ := json.Marshal(exp)
		w.fail("JSON at %s: expected %s, got %s", path, trunc(string(e), 400), trunc(string(g), 400))
	}
	switch e := exp.(type) {
	case string:
		switch {
		case e == "$null":
			if m, ok := got.(map[string]any); got != nil && !(ok && len(m) == 0) {
				bad()
			}
		case e == "$empty":
			if m, ok := got.(map[string]any); !ok || len(m) != 0 {
				bad()
			}
		case e == "":
			if s, ok := got.(string); !ok || s != "" {
				bad()
			}
		default:
			pre, sym, _ := strings.Cut(e, ":")
			switch pre {
			case "n":
				n, ok := got.(json.Number)
				if !ok {
					bad()
				}
				sign, s, _ := strings.Cut(sym, ":")
				f, err := strconv.ParseFloat(n.String(), 64)
				x := mustFloat(c.num(s).literal)
				if sign == "1" {
					x = -x
				}
				if err != nil || f != x {
					bad()
				}
			default:
				s, ok := got.(string)
				x := ""
				switch pre {
				case "i":
					x = c.name(sym)
				case "s":
					x = c.str(sym).literal
				case "l":
					x = c.label(sym)
				case "d":
					x = c.dir(sym)
				case "t":
					x = strings.TrimSuffix(c.date(sym).n.S[0], "Z") + "Z"
				default:
					w.defect("leaf %q", e)
				}
				if !ok || s != x {
					w.fail("JSON at %s: expected %q, got %v", path, x, got)
				}
			}
		}
	case bool:
		if b, ok := got.(bool); !ok || b != e {
			bad()
		}
	case float64:
		n, ok := got.(json.Number)
		if !ok || n.String() != strconv.Itoa(int(e)) {
			bad()
		}
	case []any:
		if len(e) > 0 && e[0] == "$map" {
			g, ok := got.(map[string]any)
			if !ok || len(g) != len(e)-1 {
				bad()
			}
			for _, kv := range e[1:] {
				p := kv.([]any)
				k := c.name(strings.TrimPrefix(p[0].(string), "i:"))
				x, ok := g[k]
				if !ok {
					bad()
				}
				w.cmpJSON(c, p[1], x, path+"."+k)
			}
			return
		}
		if len(e) == 0 {
			if got == nil {
				return
			}
			if l, ok := got.([]any); ok && (len(l) == 0 || (len(l) == 1 && l[0] == nil)) {
				return
			}
			bad()
		}
		l, ok := got.([]any)
		if !ok || len(l) != len(e) {
			bad()
		}
		for i := range e {
			w.cmpJSON(c, e[i], l[i], path+"["+strconv.Itoa(i)+"]")
		}
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			bad()
		}
		for k := range g {
			if _, ok := e[k]; !ok {
				w.fail("JSON at %s: unexpected field %q", path, k)
			}
		}
		for k, x := range e {
			gx, ok := g[k]
			if !ok {
				w.fail("JSON at %s: field %q is missing", path, k)
			}
			w.cmpJSON(c, x, gx, path+"."+k)
		}
	default:
		w.defect("expected JSON %T", exp)
	}
}

func judgeJSON(w *W, v *Vec, variant int) {
	c, a, m, ok := w.tree(v, variant)
	if !ok {
		return
	}
	b, err := a.JSON()
	if err != nil {
		w.fail("JSON fails: %v", err)
	}
	w.inc("serialisations")
	for i := 0; i < 4; i++ {
		b2, err := a.JSON()
		if err != nil || !bytes.Equal(b, b2) {
			w.fail("JSON differs between calls: %s", firstDiff(string(b), string(b2)))
		}
	}
	if realModule(a).String() != m.String() {
		w.fail("JSON changes the tree")
	}
	if !json.Valid(b) {
		w.fail("invalid JSON: %s", b)
	}
	var got, exp any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&got); err != nil {
		w.fail("invalid JSON: %v", err)
	}
	if err := json.Unmarshal(v.X, &exp); err != nil {
		w.defect("expected JSON: %v", err)
	}
	w.note = string(v.X)
	w.cmpJSON(c, exp, got, "$")
}

// ---------------------------------------------------------------------------
// C14

func judgeSpacing(w *W, v *Vec, variant int) {
	c := newConc(w.rng, variant == 0)
	ts := v.all()
	outcome := func(style int, ts []Tok) (string, *Src) {
		p := c.toks(ts)
		s := render(w.rng, style, p)
		a, err := w.parse(s.Text)
		if err == nil {
			return realModule(a).String(), s
		}
		m := reErr.FindStringSubmatch(err.Error())
		if m == nil {
			return "error without position", s
		}
		lit := m[3]
		if len(v.Sem) == 0 { // a syntax error belongs to a token
			for i := range p {
				l, col := s.pos(s.Start[i])
				if m[1] == strconv.Itoa(l) && m[2] == strconv.Itoa(col) {
					return fmt.Sprintf("error at token %d", i), s
				}
			}
		}
		return "error at " + lower(lit), s
	}
	cmp := func(ts []Tok) {
		ref, s0 := outcome(styleSpace, ts)
		for style := 1; style < nStyles; style++ {
			got, s := outcome(style, ts)
			if got != ref {
				w.fail("layout %q changes the outcome: %s\nthe same tokens otherwise written:\n%s", styleName[style], firstDiff(ref, got), strconv.Quote(s0.Text))
			}
			_ = s
		}
		w.inc("token sequences")
	}
	cmp(ts)
	for _, kind := range v.Bad {
		if w.rng.Intn(6) != 0 || kind == "EOF" {
			continue
		}
		sym := map[string]string{"ID": "q", "NUM": "905", "STR": "q", "DATE": "d905", "LABEL": "q", "DIR": "d1"}[kind]
		cmp(append(append([]Tok{}, v.T...), Tok{kind, sym}, Tok{";", ""}))
	}
}
