package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// everything runs every operation on a text, whatever the text is. It ends
// normally or the engine reports the panic, the hang or the memory.
func everything(w *W, src string, wide bool) error {
	if src == "" {
		src = " "
	}
	a, err := w.parse(src)
	cs := []ast.PrintConf{{OneLine: true}}
	if wide {
		cs = append(cs, ast.PrintConf{Margin: 1}, ast.PrintConf{Margin: 4})
	}
	for _, c := range cs {
		_ = a.Print(c)
	}
	b, jerr := a.JSON()
	if jerr == nil && !json.Valid(b) {
		w.inc("invalid JSON") // decided by C22
		println(src, string(b))
	}
	n := 0
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, item *ast.Statement) { n++ })
	for i, s := range a.ModuleStatement.Body {
		if i < 20 && wide {
			_ = a.PrintStatement(s)
			_ = a.PrintStatementWithConf(s, ast.PrintConf{OneLine: true})
		}
	}
	w.inc("texts")
	if err != nil {
		w.inc("errors returned")
	} else {
		w.inc("accepted")
	}
	return err
}

// damage makes one small change anywhere, at the level of bytes.
func damage(w *W, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return "\xd0"
	}
	i := w.rng.Intn(len(b))
	j := i + w.rng.Intn(len(b)-i)
	if j > i+12 {
		j = i + w.rng.Intn(12)
	}
	bad := []string{"\x00", "\xff", "\xd0", "\xd0\xd0", "\xc0\x80", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xe2\x80\xa8", "\xef\xbb\xbf", "\r", "\x85", "\u00a0",
		"\"", "'", "//", "/", "#", "&", "~", "|", "\n|", "\n", ".", "1.", "<", ">", "(", ")", "Если ", " КонецЕсли", "Процедура ", ";", "\"\n", "'\n", "-", "НЕ "}
	x := bad[w.rng.Intn(len(bad))]
	switch w.rng.Intn(6) {
	case 0: // cut off the end
		return string(b[:i])
	case 1: // cut off the beginning
		return string(b[i:])
	case 2: // remove a piece
		return string(b[:i]) + string(b[j:])
	case 3: // insert
		return string(b[:i]) + x + string(b[i:])
	case 4: // overwrite
		return string(b[:i]) + x + string(b[j:])
	}
	return string(b[:j]) + string(b[i:]) // repeat a piece
}

// judgeEnds: programs of the language machine, whole, with a token that cannot
// come next, cut and damaged.
func judgeEnds(w *W, v *Vec, variant int) {
	c := newConc(w.rng, variant == 0)
	all := c.toks(v.all())
	s := render(w.rng, w.rng.Intn(nStyles), all)
	everything(w, s.Text, true)
	head := c.toks(v.T)
	for i, k := range v.Bad {
		if k == "EOF" {
			everything(w, render(w.rng, w.rng.Intn(nStyles), head).Text, true)
			continue
		}
		if (i+w.id.Index)%4 != variant%4 {
			continue
		}
		bt := c.tok(badTok(k), false)
		ts := append(append([]PTok{}, head...), bt)
		if w.rng.Intn(2) == 0 {
			ts = append(ts, all[len(head):]...)
		}
		everything(w, render(w.rng, w.rng.Intn(nStyles), ts).Text, true)
	}
	for i := 0; i < 4; i++ {
		t := s.Text
		for n := 1 + w.rng.Intn(3); n > 0; n-- {
			t = damage(w, t)
		}
		everything(w, t, true)
	}
}

func badTok(k string) Tok {
	switch k {
	case "ID", "STR", "LABEL":
		return Tok{k, "q"}
	case "NUM":
		return Tok{k, "1"}
	case "DATE", "DIR":
		return Tok{k, "d1"}
	}
	return Tok{k, ""}
}

// judgeEndsText: texts of the lexical machine, whatever they mean, whole and damaged.
func judgeEndsText(w *W, raw string, variant int) {
	v, _ := w.lexVec(raw)
	everything(w, v.Text, true)
	if variant > 0 {
		everything(w, damage(w, v.Text), true)
		everything(w, "а="+v.Text, true)
		everything(w, "Если "+v.Text+" Тогда", true)
	}
}

// judgeEndsLong: the last character of a text of the lexical machine goes on for
// a million characters, or the whole text comes thousands of times.
func judgeEndsLong(w *W, raw string, variant int) {
	v, _ := w.lexVec(raw)
	r := []rune(v.Text)
	if len(r) == 0 {
		return
	}
	last := string(r[len(r)-1])
	n := 2400000
	if strings.ContainsAny(last, "();-+=<>.&~@\n") { // tokens of their own: as many entries on the parser's stack
		n = 60000
	}
	t := v.Text + strings.Repeat(last, n/len(last))
	if variant == 1 {
		t = strings.Repeat(v.Text, 20000)
	}
	w.note = fmt.Sprintf("%q at length", v.Text)
	everything(w, t, false)
	everything(w, t+[]string{"\";", "';", " = 1;", "\n;"}[w.rng.Intn(4)], false)
}

// PumpVec: start s, repeatable phrase p, closed by a x^(n-1) d.
type PumpVec struct {
	S, P, A, X, D []Tok
	Ok            bool
}

func (w *W) pump(raw string) *PumpVec {
	v := &PumpVec{}
	if err := json.Unmarshal([]byte(unquoteTLC(raw)), v); err != nil {
		w.defect("vector %.200s: %v", raw, err)
	}
	return v
}

// text of n repetitions; closing false: without the closing text.
func (v *PumpVec) text(w *W, n int, closing bool) string {
	c := newConc(w.rng, true)
	part := func(ts []Tok) string {
		var b strings.Builder
		for i, t := range ts {
			b.WriteString(c.tok(t, i > 0 && ts[i-1][0] == ".").Text)
			b.WriteString(" ")
		}
		return b.String()
	}
	nl := ""
	if w.rng.Intn(2) == 0 {
		nl = "\n"
	}
	s := part(v.S) + nl + strings.Repeat(part(v.P)+nl, n)
	if closing {
		s += part(v.A) + strings.Repeat(part(v.X)+nl, n-1) + part(v.D)
	}
	return s
}

func pumpCount(w *W, variant int) int {
	big := []int{60, 300}
	if w.id.Index%37 == 11 {
		big = []int{700, 2000}
		if w.job.Tier == "thorough" {
			big = []int{3000, 8000}
		}
	}
	return big[variant%2]
}

func judgePumpEnds(w *W, raw string, variant int) {
	v := w.pump(raw)
	n := pumpCount(w, variant)
	t := v.text(w, n, true)
	w.note = fmt.Sprintf("%d repetitions", n)
	everything(w, t, n < 500)
	everything(w, v.text(w, n, false), false)
	everything(w, t[:w.rng.Intn(len(t))], false)
	everything(w, damage(w, t), false)
}

func judgePumpAccept(w *W, raw string, variant int) {
	v := w.pump(raw)
	if !v.Ok {
		return
	}
	n := pumpCount(w, variant)
	w.note = fmt.Sprintf("%d repetitions, to be accepted", n)
	if _, err := w.parse(v.text(w, n, true)); err != nil {
		w.fail("a well-formed module of %d repetitions is rejected: %v", n, err)
	}
}

func pump(start, phrases string, workers int) *Gen {
	g := lang(start, phrases, 4, fmt.Sprint("workers=", workers))
	g.Module, g.Init, g.Next = "Pump", "PInit", "PNext"
	g.Invs = []string{"PGood"}
	g.Expect = false
	g.Name = fmt.Sprintf("repetitions: %s x %s", start, phrases)
	return g
}

func init() {
	register(&Check{ID: "C01", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "characters", Variants: 2, JudgeRaw: judgeEndsText, Gens: gens(lex("Empty", "C_Char", 3), lex("Empty", "C_Gap", 3))},
			{Name: "literals", Variants: 2, JudgeRaw: judgeEndsText, Gens: gens(lex("S_Str", "C_Str", 3), lex("S_NumA", "C_Num", 3), lex("S_DateA", "C_Date", 2))},
			{Name: "long texts", Variants: 2, JudgeRaw: judgeEndsText, Gens: sim(lex("S_Long", "C_Word", 40, "groups=G_Err"), 400, 40, 2, seed)},
			{Name: "long tokens", Variants: 2, JudgeRaw: judgeEndsLong, Gens: gens(lex("Empty", "C_Char", 1), lex("S_Str", "C_Str", 1), lex("S_NumA", "C_Num", 1), lex("S_DateA", "C_Date", 1), lex("Empty", "C_Word", 1))},
			{Name: "token by token", Variants: 1, Judge: judgeEnds, Gens: gens(lang("S_All", "P_Tok", 2, "bad"), lang("Empty", "P_Tok", 3, "bad"))},
			{Name: "contexts", Variants: 1, Judge: judgeEnds, Gens: gens(lang("Empty", "P_CtxLoop", 3, "errs"), lang("Empty", "P_DeclDup", 4, "errs"))},
			{Name: "statements in blocks", Variants: 1, Judge: judgeEnds, Gens: gens(lang("S_Ctx1", "P_Kinds", 1, "bad"))},
			{Name: "every statement", Variants: 1, Judge: judgeEnds, Gens: gens(lang("S_Prog", "P_Prog", 1), lang("S_Ref", "P_Ref", 3, "bad"), lang("S_Param", "P_Param", 2, "bad"))},
			{Name: "random programs", Variants: 2, Judge: judgeEnds, Gens: sim(lang("S_Ctx1", "P_Walk", 40, "errs", "groups=G_Walk", "min=5"), 60, 40, 3, seed+71)},
			{Name: "repetition", Variants: 2, JudgeRaw: judgePumpEnds, Gens: gens(pump("S_PumpQ", "P_Pump", 4))},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "characters", Variants: 2, JudgeRaw: judgeEndsText, Gens: gens(lex("Empty", "C_Char", 4, "workers=8"), lex("Empty", "C_Gap", 4), lex("Empty", "C_Word", 3))},
			{Name: "literals", Variants: 2, JudgeRaw: judgeEndsText, Gens: gens(lex("S_Str", "C_Str", 4), lex("S_NumA", "C_Num", 4), lex("S_DateA", "C_Date", 3))},
			{Name: "long texts", Variants: 3, JudgeRaw: judgeEndsText, Gens: sim(lex("S_Long", "C_Word", 60, "groups=G_Err"), 16000, 60, 8, seed)},
			{Name: "long tokens", Variants: 2, JudgeRaw: judgeEndsLong, Gens: gens(lex("Empty", "C_Char", 2), lex("S_Str", "C_Str", 2), lex("S_NumA", "C_Num", 2), lex("S_DateA", "C_Date", 2), lex("Empty", "C_Word", 2))},
			{Name: "token by token", Variants: 2, Judge: judgeEnds, Gens: gens(lang("S_All", "P_Tok", 3, "bad", "workers=8"), lang("Empty", "P_Tok", 4, "bad", "workers=8"))},
			{Name: "contexts", Variants: 2, Judge: judgeEnds, Gens: gens(lang("Empty", "P_CtxLoop", 4, "errs"), lang("Empty", "P_DeclDup", 5, "errs"))},
			{Name: "statements in blocks", Variants: 4, Judge: judgeEnds, Gens: gens(lang("S_Ctx1", "P_Kinds", 1, "bad"), lang("S_Ctx2", "P_Kinds", 1, "bad"))},
			{Name: "every statement", Variants: 4, Judge: judgeEnds, Gens: gens(lang("S_Prog", "P_Prog", 1), lang("S_Ref", "P_Ref", 4, "bad"), lang("S_Param", "P_Param", 3, "bad"))},
			{Name: "random programs", Variants: 4, Judge: judgeEnds, Gens: sim(lang("S_Ctx1", "P_Walk", 90, "errs", "groups=G_Walk", "min=5"), 1600, 90, 8, seed+71)},
			{Name: "repetition", Variants: 2, JudgeRaw: judgePumpEnds, Gens: gens(pump("S_Pump", "P_Pump", 8))},
		}
	})})
}
