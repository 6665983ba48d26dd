package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// SrcVec is one state of the whole front end: what a parser must make of a text.
type SrcVec struct {
	Text []rune      `json:"text"`
	Tail []rune      `json:"tail"`
	Out  string      `json:"out"`  // open, lex, syn, acc
	At   int         `json:"at"`   // the token to blame
	Toks [][5]any    `json:"toks"` // of the text with the completion
	Dc   bool        `json:"dc"`
	Err  bool        `json:"err"`
	Dead bool        `json:"dead"`
	Vals [][]any     `json:"vals"`
	Self []srcResult `json:"self"`
	All  []srcResult `json:"all"`
}

type srcResult struct {
	Sem  [][2]any        `json:"sem"`
	G    [][3]any        `json:"g"`
	Body []any           `json:"body"`
	X    json.RawMessage `json:"x"`
}

type srcTok struct {
	Kind, Lit  string
	Start, End int // in characters
}

func (w *W) srcVec(raw string) *SrcVec {
	v := &SrcVec{}
	if err := json.Unmarshal([]byte(unquoteTLC(raw)), v); err != nil {
		w.defect("vector %.200s: %v", raw, err)
	}
	return v
}

func (v *SrcVec) tok(i int) srcTok {
	t := v.Toks[i]
	return srcTok{t[0].(string), codes(t[1]), int(t[2].(float64)), int(t[3].(float64))}
}

// conc names the values of the tree by the tokens they come from.
func (v *SrcVec) conc(w *W, text []rune) *Conc {
	c := newConc(w.rng, true)
	for i := range v.Toks {
		t := v.tok(i)
		sym := "#" + strconv.Itoa(i+1)
		c.labs[sym] = t.Lit
		c.strs[sym] = lit{literal: t.Lit, n: mk("str", []string{t.Lit})}
		c.ids[sym] = t.Lit
		c.dirs[sym] = t.Lit
		switch t.Kind {
		case "NUM":
			c.nums[sym] = lit{literal: t.Lit, n: ratN(false, codes(v.Vals[i][1]), int(v.Vals[i][2].(float64)))}
		case "DATE":
			c.dates[sym] = lit{literal: t.Lit, n: dateVal(v.Vals[i])}
		case "Execute":
			c.ids[fmt.Sprintf("E%s", sym)] = string(text[t.Start:t.End])
		}
	}
	return c
}

func dateVal(val []any) *N {
	if val[0] == "empty" {
		return dateN(time.Time{})
	}
	n := func(i int) int { return int(val[i].(float64)) }
	return dateN(time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), 0, time.UTC))
}

// symbols writes values (tuples that begin with a number) as symbols.
func (v *SrcVec) symbols(x any, execs *[]int) any {
	a, ok := x.([]any)
	if !ok {
		return x
	}
	if len(a) == 2 {
		if n, ok := a[0].(float64); ok {
			return "#" + strconv.Itoa(int(n))
		}
	}
	r := make([]any, len(a))
	if len(a) == 3 && a[0] == "call" && a[1] == "@Execute" && len(*execs) > 0 {
		r[0], r[1] = "call", fmt.Sprintf("E#%d", (*execs)[0])
		*execs = (*execs)[1:]
		r[2] = v.symbols(a[2], execs)
		return r
	}
	for i, e := range a {
		r[i] = v.symbols(e, execs)
	}
	return r
}

// module is the tree the machines give for this text.
func (v *SrcVec) module(w *W, text []rune, res srcResult) *Module {
	c := v.conc(w, text)
	var execs []int
	for i := range v.Toks {
		if v.Toks[i][0] == "Execute" {
			execs = append(execs, i+1)
		}
	}
	m := &Module{Body: mk("body", nil)}
	for _, g := range res.G {
		dir := ""
		if d, ok := v.symbols(g[1], &execs).(string); ok {
			dir = d
		}
		m.G = append(m.G, mk("gvar", []string{c.name(v.symbols(g[0], &execs).(string)), c.dir(dir), boolS(g[2].(bool))}))
	}
	for _, b := range res.Body {
		m.Body.K = append(m.Body.K, c.node(v.symbols(b, &execs)))
	}
	return m
}

// What a property says about a text.
type srcOf struct {
	accept, reject, position, tree, skeleton, headers, layout bool
	rules                                                     map[string]bool                 // context rules
	values                                                    map[string]bool                 // literals whose values to compare
	valid                                                     func(w *W, v *Vec, variant int) // for programs that have their tree
	ask                                                       string                          // a further prediction of those
	text                                                      func(w *W, v *SrcVec)           // for any text
}

func (o srcOf) judge(w *W, raw string, variant int) {
	v := w.srcVec(raw)
	w.src = chars(v.Text)
	if o.text != nil {
		o.text(w, v)
		return
	}
	switch v.Out {
	case "lex", "syn":
		if o.reject {
			v.rejected(w, o.position)
		}
	case "acc":
		o.program(w, v, v.Text, v.Self[0])
	}
	var all []rune
	if len(v.All) > 0 {
		all = append(append([]rune{}, v.Text...), v.Tail...)
		o.program(w, v, all, v.All[0])
	}
	if o.layout {
		switch {
		case all != nil:
			v.relaid(w, all, len(v.All[0].Sem) > 0)
		case v.Out == "acc":
			v.relaid(w, v.Text, len(v.Self[0].Sem) > 0)
		case v.Out == "syn":
			v.relaid(w, v.Text, false)
		}
	}
}

func crlf(s string) string { return strings.ReplaceAll(s, `\r\n`, `\n`) }

// program: the text is a program and has this tree; or a context rule forbids it.
func (o srcOf) program(w *W, v *SrcVec, text []rune, res srcResult) {
	if len(res.Sem) > 0 {
		mine := o.rules["all"]
		for _, s := range res.Sem {
			mine = mine || o.rules[s[0].(string)]
		}
		if mine {
			w.note = fmt.Sprint("context errors: ", res.Sem)
			w.inc("forbidden programs")
			if _, err := w.parse(chars(text)); err == nil {
				w.fail("accepted although the context forbids it: %v", res.Sem)
			}
		}
		return
	}
	if !o.accept {
		return
	}
	a, err := w.parse(chars(text))
	w.inc("programs")
	if err != nil {
		if o.valid != nil {
			w.inc("skipped: rejected")
			return
		}
		w.fail("a well-formed program is rejected: %v", err)
	}
	if o.valid != nil {
		if !strings.Contains(chars(text), "\r") {
			o.further(w, v, text, res, a)
		}
		return
	}
	if !o.tree && !o.skeleton && !o.headers && o.values == nil {
		return
	}
	m := v.module(w, text, res)
	real := realModule(a)
	var e, g string
	switch {
	case o.tree:
		e, g = m.String(), real.String()
	case o.values != nil:
		e, g = literals(m, o.values).String(), literals(real, o.values).String()
	case o.skeleton:
		e, g = skeleton(m.Body).String(), skeleton(real.Body).String()
	default:
		e, g = headers(m).String(), headers(real).String()
	}
	w.note = e
	// a line break inside a string literal may be kept as written or as a plain one
	if e, g = crlf(e), crlf(g); e != g {
		w.fail("the tree differs: %s\nexpected %s\ngot      %s", firstDiff(e, g), trunc(e, 1500), trunc(g, 1500))
	}
}

// further: what else holds of a program that has been read.
func (o srcOf) further(w *W, v *SrcVec, text []rune, res srcResult, a *ast.AstNode) {
	c := v.conc(w, text)
	c.declared = nil
	spelled := ""
	for i := range v.Toks {
		if t := v.tok(i); t.Kind == "Execute" && t.End <= len(text) {
			s := string(text[t.Start:t.End])
			if spelled != "" && spelled != s { // its spelling is in the tree
				w.inc("skipped: spellings")
				return
			}
			spelled = s
		}
	}
	if spelled != "" {
		c.kw["Execute"] = spelled
	}
	m := v.module(w, text, res)
	if realModule(a).String() != m.String() {
		w.inc("skipped: other tree")
		return
	}
	layouts := func() string {
		b := &strings.Builder{}
		n := w.rng.Intn(len(srcGaps))
		for i := range v.Toks {
			t := v.tok(i)
			if t.End > len(text) {
				break
			}
			b.WriteString(string(text[t.Start:t.End]))
			g := srcGaps[n]
			if n == len(srcGaps)-1 {
				g = srcGaps[w.rng.Intn(n)]
			}
			b.WriteString(g)
		}
		return b.String()
	}
	o.valid(w, &Vec{X: res.X, pre: &parsed{c, a, m, layouts}}, 1)
}

// gaps that may stand between any two tokens; the last one: all of them by turns
var srcGaps = []string{" ", "\n", "\t// к \"\n", "\r\n    ", "\n\n#Область А\n\n", ""}

// literals are the values of a kind, in order.
func literals(m *Module, tags map[string]bool) *N {
	r := mk("literals", nil)
	var visit func(n *N)
	visit = func(n *N) {
		if tags[n.Tag] {
			r.K = append(r.K, n)
		}
		for _, k := range n.K {
			visit(k)
		}
	}
	visit(m.Body)
	return r
}

// relaid: the same tokens, one space between them, give the same outcome.
func (v *SrcVec) relaid(w *W, text []rune, forbidden bool) {
	var b []rune
	off := charOffsets(chars(text))
	var was, now []int // where the tokens begin
	for i := range v.Toks {
		t := v.tok(i)
		if t.End > len(text) {
			break
		}
		was = append(was, off[t.Start])
		now = append(now, len(string(b)))
		b = append(b, text[t.Start:t.End]...)
		if t.Kind == ";" || t.Kind == "STR" {
			b = append(b, '\n')
		} else {
			b = append(b, ' ')
		}
	}
	outcome := func(src string, starts []int) string {
		a, err := w.parse(src)
		if err == nil {
			return crlf(realModule(a).String())
		}
		m := reErr.FindStringSubmatch(err.Error())
		if m == nil {
			return "error without position"
		}
		if !forbidden { // a syntax error belongs to a token
			for i, s := range starts {
				p := posAt(src, s)
				if m[1] == strconv.Itoa(p.Line) && m[2] == strconv.Itoa(p.Column-1) {
					return fmt.Sprintf("error at token %d", i)
				}
			}
		}
		return "error at " + lower(crlf(m[3]))
	}
	if len(was) == 0 {
		return
	}
	w.inc("texts laid out otherwise")
	x, y := outcome(chars(text), was), outcome(string(b), now)
	if x != y {
		w.src = chars(text)
		w.fail("the layout changes the outcome: %s\nthe same tokens with single spaces:\n%q", firstDiff(y, x), string(b))
	}
}

func (v *SrcVec) rejected(w *W, position bool) {
	src := chars(v.Text)
	w.src = src
	if strings.TrimSpace(src) == "" {
		return
	}
	_, err := w.parse(src)
	w.note = fmt.Sprintf("to be rejected at token %d", v.At)
	w.inc("ill-formed texts")
	if err == nil {
		w.fail("an ill-formed text is accepted (%s)", v.Out)
	}
	// nothing behind it mends it
	if v.Dead && (v.Out == "syn" || v.Out == "lex" && !strings.ContainsAny(src, `"'`)) {
		for _, t := range []string{" б Тогда КонецЕсли;", ");", " б;", " б);", " 1];", ";"} {
			w.src = src + t
			w.inc("ill-formed texts continued")
			if _, err := w.parse(w.src); err == nil {
				w.fail("an ill-formed text is accepted (%s, continued by %q)", v.Out, t)
			}
		}
		w.src = src
	}
	if !position || v.Out != "syn" || v.At == 0 {
		return
	}
	t := v.tok(v.At - 1)
	off := charOffsets(src)
	if t.End > len(v.Text) {
		w.defect("token %d ends behind the text", v.At)
	}
	p := posAt(src, off[t.Start])
	p.Column-- // columns of errors count from 0
	text := src[off[t.Start]:off[t.End]]
	w.note = fmt.Sprintf("line %d, column %d, %q", p.Line, p.Column, text)
	lit := t.Lit
	if lit == "" && t.Kind != "STR" {
		lit = text
	}
	m := reErr.FindStringSubmatch(err.Error())
	if m == nil {
		w.fail("the error names no position: %v", err)
	}
	if m[1] != strconv.Itoa(p.Line) || m[2] != strconv.Itoa(p.Column) || crlf(m[3]) != crlf(strconv.Quote(lit)) {
		w.fail("the first offending token is %q at line %d, column %d, but the error says: %v", lit, p.Line, p.Column, err)
	}
}

// textStages are random texts, random texts that break off, texts of real modules, and all of these with small changes.
func textStages(o srcOf, thorough bool, seed int64) []Stage {
	n, k, wk, ne, de, dc, near := 48, 40, 4, 24, "3", "2", 1
	if thorough {
		n, k, wk, ne, de, dc, near = 800, 80, 8, 200, "8", "60", 5
	}
	ask := "ask=" + o.ask
	var st []Stage
	var edited []*Gen
	for i := 0; i < 4; i++ { // (one worker each: the changes depend on the seed alone)
		edited = append(edited, source("edited corpus", "Empty", "W_Bad", 1, "workers=1", "every=4", fmt.Sprintf("from=%d", i), "dev="+dc, fmt.Sprintf("seed=%d", seed*10+int64(i)), ask))
	}
	good, bad := o.accept || o.layout || o.rules != nil || o.valid != nil || o.text != nil, o.reject || o.layout || o.text != nil
	if good {
		st = append(st, Stage{Name: "random texts", JudgeRaw: o.judge, Gens: sim(source("walks", "Empty", "W_Bad", k, "groups=G_Walk", "min=1", ask), n, k, wk, seed+81)},
			Stage{Name: "real modules", JudgeRaw: o.judge, Gens: gens(source("corpus", "Empty", "W_Bad", near, ask))})
	}
	if bad {
		st = append(st, Stage{Name: "random texts with a misfit", JudgeRaw: o.judge, Gens: sim(source("broken walks", "Empty", "W_Bad", k, "groups=G_Walk", "min=1", ask), n, k, wk, seed+82)})
	}
	return append(st,
		Stage{Name: "edited texts", JudgeRaw: o.judge, Gens: sim(source("edited walks", "Empty", "W_Bad", k, "groups=G_Walk", "min=2", "dev="+de, ask), ne, k, wk, seed+83)},
		Stage{Name: "edited real modules", JudgeRaw: o.judge, Gens: edited})
}

// source is a run of the whole front end.
func source(kind, start, pieces string, k int, opts ...string) *Gen {
	minK, groups, sw, ext, progs, dev := "0", "None", "0", "0", "None", "0"
	from, every, ask := "0", "1", ""
	g := &Gen{Module: "SourceProfiles", Name: fmt.Sprintf("%s %s x %s, %d", kind, start, pieces, k), Workers: 4, View: "View", Expect: true,
		Invs: []string{"Good"}}
	switch kind {
	case "words":
		g.Init, g.Next, g.Invs = "InitW", "NextW", []string{"GoodW"}
		g.Expect = false
	case "parts":
		g.Next = "NextM"
	case "layouts":
		g.Init, g.Next, g.Invs = "InitL", "NextL", []string{"GoodL"}
	case "random layouts":
		g.Init, g.Next, g.Invs = "InitL", "NextR", []string{"GoodR"}
	case "edited walks":
		g.Next, g.Invs, g.Expect = "NextP", []string{"GoodX"}, false
	case "corpus", "edited corpus":
		g.Module, g.Init, g.Next, g.Invs, g.Expect = "Corpus", "InitC", "NextC", []string{"GoodC"}, false
		if kind == "edited corpus" {
			g.Invs[0] = "GoodCX"
		}
	case "walks":
		g.Next = "NextP"
	case "broken walks":
		g.Next = "NextBad"
	}
	for _, o := range opts {
		i := strings.Index(o, "=")
		val := o[i+1:]
		switch o[:i] {
		case "min":
			minK, g.Expect = val, false
		case "groups":
			groups = val
		case "sw":
			sw = val
		case "ext":
			ext = val
		case "programs":
			progs = val
		case "from":
			from = val
		case "every":
			every = val
		case "dev":
			dev = val
		case "ask":
			ask = val
		case "seed":
			g.Seed, _ = strconv.ParseInt(val, 10, 64)
		case "workers":
			g.Workers, _ = strconv.Atoi(val)
		default:
			panic("option " + o)
		}
	}
	g.Name += " " + strings.Join(opts, " ")
	if g.Module == "Corpus" {
		g.Name = kind + " " + strings.Join(opts, " ")
	}
	g.Consts = []string{"Start <- " + start, "Pieces <- " + pieces, "Groups <- " + groups, "MaxK = " + strconv.Itoa(k), "MinK = " + minK,
		"MaxSw = " + sw, "MaxExt = " + ext, "Programs <- " + progs, "MaxDev = " + dev, fmt.Sprintf("Ask = %q", ask), "Fold <- SourceFold",
		"Gaps <- W_Gaps", "Names <- W_Names", "Nums <- W_Nums", "Strs <- W_Strs", "Dates <- W_Dates", "Labels <- W_Labels", "Dirs <- W_Dirs"}
	if g.Module == "Corpus" {
		g.Consts = append(g.Consts, "From = "+from, "Every = "+every)
	}
	return g
}

func init() {
	spelling := srcOf{accept: true, reject: true, tree: true, rules: map[string]bool{"all": true}}
	register(&Check{ID: "C13", Stages: tiers(func(seed int64) []Stage {
		return append([]Stage{
			{Name: "words", JudgeRaw: spelling.judge, Gens: gens(source("words", "S_WordQ", "None", 0, "sw=1", "ext=1", "workers=8"))},
			{Name: "words everywhere", JudgeRaw: spelling.judge, Gens: gens(source("words", "S_Word", "None", 0, "sw=0", "ext=1"))},
			{Name: "joined words", JudgeRaw: spelling.judge, Gens: gens(source("parts", "S_Main", "None", 2))},
			{Name: "other words", JudgeRaw: spelling.judge, Gens: gens(source("pieces", "S_Word", "W_Others", 1))},
		}, textStages(spelling, false, seed)...)
	}, func(seed int64) []Stage {
		return append([]Stage{
			{Name: "words", JudgeRaw: spelling.judge, Gens: gens(source("words", "S_Word", "None", 0, "sw=1", "ext=2", "workers=8"))},
			{Name: "every spelling", JudgeRaw: spelling.judge, Gens: gens(source("words", "S_WordDeep", "None", 0, "sw=17", "ext=0", "workers=8"))},
			{Name: "joined words", JudgeRaw: spelling.judge, Gens: gens(source("parts", "S_Word", "None", 2, "workers=8"), source("parts", "Empty", "None", 3, "workers=8"))},
			{Name: "other words", JudgeRaw: spelling.judge, Gens: gens(source("pieces", "S_Word", "W_Others", 2, "workers=8"))},
		}, textStages(spelling, true, seed)...)
	})})
	signs := func(o srcOf, id string) {
		more(id, func(seed int64) []Stage {
			return []Stage{{Name: "signs", JudgeRaw: o.judge, Gens: gens(source("pieces", "S_Sign", "W_Sign", 2))}}
		}, func(seed int64) []Stage {
			return []Stage{{Name: "signs", JudgeRaw: o.judge, Gens: gens(source("pieces", "S_Sign", "W_Sign", 3, "workers=8"))}}
		})
	}
	signs(srcOf{reject: true}, "C03")
	signs(srcOf{reject: true, position: true}, "C04")
	layout := srcOf{layout: true}
	more("C14", func(seed int64) []Stage {
		return append([]Stage{
			{Name: "gaps", JudgeRaw: layout.judge, Gens: gens(source("layouts", "Empty", "L_Gaps", 0, "programs=L_Kinds", "dev=1"))},
		}, textStages(layout, false, seed)...)
	}, func(seed int64) []Stage {
		return append([]Stage{
			{Name: "gaps", JudgeRaw: layout.judge, Gens: gens(source("layouts", "Empty", "L_Gaps", 0, "programs=L_Kinds", "dev=2", "workers=8"), source("layouts", "Empty", "L_Gaps", 0, "programs=L_Prog", "dev=1", "workers=8"))},
			{Name: "random gaps", JudgeRaw: layout.judge, Gens: sim(source("random layouts", "Empty", "L_Gaps", 0, "programs=L_Prog", "min=1"), 1600, 30, 8, seed)},
		}, textStages(layout, true, seed)...)
	})
	rules := func(k ...string) map[string]bool {
		r := map[string]bool{}
		for _, x := range k {
			r[x] = true
		}
		return r
	}
	for id, o := range map[string]srcOf{
		"C01": {text: func(w *W, v *SrcVec) {
			everything(w, chars(v.Text), true)
			for i := 0; i < 3; i++ {
				everything(w, damage(w, chars(v.Text)), true)
			}
		}},
		"C02": {accept: true},
		"C03": {reject: true},
		"C04": {reject: true, position: true},
		"C05": {accept: true, skeleton: true},
		"C06": {accept: true, tree: true},
		"C07": {accept: true, tree: true},
		"C08": {accept: true, rules: rules("break", "continue")},
		"C09": {accept: true, rules: rules("throw", "return")},
		"C10": {accept: true, headers: true, rules: rules("gvpos", "dup")},
		"C11": {accept: true, headers: true},
		"C12": {accept: true, tree: true},
		"C15": {accept: true, values: rules("str")},
		"C16": {accept: true, values: rules("num", "date")},
		"C17": {accept: true, valid: judgePrint},
		"C18": {accept: true, valid: judgeStable},
		"C19": {accept: true, valid: judgeLayout, ask: "lines"},
		"C20": {accept: true, valid: judgeWalk, ask: "walk"},
		"C21": {accept: true, valid: judgeOwner, ask: "walk"},
		"C22": {accept: true, valid: judgeJSON, ask: "json"},
		"C24": {text: func(w *W, v *SrcVec) {
			l := &LexVec{Text: chars(v.Text) + chars(v.Tail), Dc: v.Dc, Err: v.Err}
			var toks []lexTok
			for i := range v.Toks {
				t := v.tok(i)
				toks = append(toks, lexTok{Kind: t.Kind, Lit: t.Lit, Start: t.Start, End: t.End, Gap: int(v.Toks[i][4].(float64))})
			}
			tokenStream(w, l, toks)
		}},
		"C26": {accept: true, skeleton: true, rules: rules("colon")},
		"C27": {accept: true, valid: judgeSingle},
	} {
		o := o
		more(id, func(seed int64) []Stage { return textStages(o, false, seed) }, func(seed int64) []Stage { return textStages(o, true, seed) })
	}
}
