package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// lang is a run of the language machine over one profile.
func lang(start, phrases string, k int, opts ...string) *Gen {
	minK, bad, errPhr, after, extra, groups, reps := "0", "FALSE", "FALSE", "FALSE", `""`, "G_None", "R_None"
	g := &Gen{Module: "Profiles", Name: fmt.Sprintf("%s x %s, %d phrases", start, phrases, k), Workers: 4}
	for _, o := range opts {
		switch {
		case o == "bad":
			bad = "TRUE"
		case o == "err":
			errPhr = "TRUE"
		case o == "errs":
			errPhr, after = "TRUE", "TRUE"
		case strings.HasPrefix(o, "min="):
			minK = o[4:]
		case strings.HasPrefix(o, "groups="):
			groups = o[7:]
		case strings.HasPrefix(o, "reps="):
			reps = o[5:]
		case strings.HasPrefix(o, "x="):
			extra = `"` + o[2:] + `"`
		case strings.HasPrefix(o, "workers="):
			g.Workers, _ = strconv.Atoi(o[8:])
		default:
			panic("option " + o)
		}
	}
	g.Consts = []string{"Start <- " + start, "Phrases <- " + phrases, "Groups <- " + groups, "MaxK = " + strconv.Itoa(k), "MinK = " + minK,
		"WithBad = " + bad, "ErrPhr = " + errPhr, "AfterErr = " + after, "Reps <- " + reps, "Width = 0", "Extra = " + extra}
	g.Invs = []string{"Good"}
	g.Expect = minK == "0"
	return g
}

// sim turns an exhaustive run into n random behaviours; several processes share the work.
func sim(g *Gen, n, depth, procs int, seed int64) []*Gen {
	var r []*Gen
	for p := 0; p < procs; p++ {
		c := *g
		if g.Module == "Profiles" {
			c.Consts = append([]string{}, g.Consts...)
			for i := range c.Consts {
				if c.Consts[i] == "Width = 0" {
					c.Consts[i] = "Width = 10"
				}
			}
		}
		c.Sim, c.Depth, c.Seed, c.Expect = n/procs, depth, seed*1000+int64(p)*17+3, false
		c.Name = fmt.Sprintf("%s, %d random behaviours", g.Name, n/procs)
		r = append(r, &c)
	}
	return r
}

func gens(g ...*Gen) []*Gen { return g }

func catGens(a ...[]*Gen) []*Gen {
	var r []*Gen
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

// variantOf fixes how a vector is written down: variant 0 is plain.
func (w *W) conc(variant int) (*Conc, int) {
	if variant == 0 {
		return newConc(w.rng, true), styleSpace
	}
	return newConc(w.rng, false), w.rng.Intn(nStyles)
}

// program renders the completed program of a vector and parses it.
func (w *W) program(v *Vec, variant int) (*Conc, *Src, *ast.AstNode, error) {
	c, style := w.conc(variant)
	s := render(w.rng, style, c.toks(v.all()))
	a, err := w.parse(s.Text)
	return c, s, a, err
}

func (w *W) mustParse(v *Vec, variant int) (*Conc, *Src, *ast.AstNode) {
	c, s, a, err := w.program(v, variant)
	if err != nil {
		w.fail("a well-formed program is rejected: %v", err)
	}
	return c, s, a
}

func (w *W) same(what string, exp, got fmt.Stringer) {
	e, g := exp.String(), got.String()
	if e != g {
		w.fail("%s differs: %s\nexpected %s\ngot      %s", what, firstDiff(e, g), trunc(e, 1500), trunc(g, 1500))
	}
}

func valid(v *Vec) bool { return len(v.Sem) == 0 }

// ---------------------------------------------------------------------------

// judgeTree: the whole tree.
func judgeTree(w *W, v *Vec, variant int) {
	if !valid(v) {
		return
	}
	c, _, a := w.mustParse(v, variant)
	m := c.module(v)
	w.note = m.String()
	w.same("the tree", m, realModule(a))
	methodFacts(w, a.ModuleStatement.Body)
}

// judgeSkeleton: statements and blocks only.
func judgeSkeleton(w *W, v *Vec, variant int) {
	if !valid(v) {
		return
	}
	c, _, a := w.mustParse(v, variant)
	m := c.module(v)
	w.note = skeleton(m.Body).String()
	w.same("the statement structure", skeleton(m.Body), skeleton(realModule(a).Body))
}

// judgeHeaders: declarations only.
func judgeHeaders(w *W, v *Vec, variant int) {
	if !valid(v) {
		return
	}
	c, _, a := w.mustParse(v, variant)
	m := c.module(v)
	w.note = headers(m).String()
	w.same("the declarations", headers(m), headers(realModule(a)))
}

// judgeAccept: a well-formed program parses.
func judgeAccept(w *W, v *Vec, variant int) {
	if !valid(v) {
		return
	}
	c, _, _ := w.mustParse(v, variant)
	_ = c
}

// judgeRule: accepted if and only if the machine raises none of its context errors.
// kinds are the context errors the property is about; programs with others are left alone.
func judgeRule(kinds ...string) func(w *W, v *Vec, variant int) {
	set := map[string]bool{}
	for _, k := range kinds {
		set[k] = true
	}
	return func(w *W, v *Vec, variant int) {
		mine := false
		for _, s := range v.Sem {
			if set[s[0].(string)] {
				mine = true
			}
		}
		if len(v.Sem) > 0 && !mine {
			return
		}
		_, _, _, err := w.program(v, variant)
		w.note = fmt.Sprint("context errors: ", v.Sem)
		if mine && err == nil {
			w.inc("forbidden accepted")
			w.fail("accepted although the context forbids it: %v", v.Sem)
		}
		if !mine && err != nil {
			w.fail("rejected although the context allows it: %v", err)
		}
		if mine {
			w.inc("forbidden programs")
		} else {
			w.inc("allowed programs")
		}
		// what the context forbids next
		var forb []struct {
			P   []Tok   `json:"p"`
			C   []Tok   `json:"c"`
			Sem [][]any `json:"sem"`
		}
		if len(v.X) > 0 && json.Unmarshal(v.X, &forb) == nil {
			for _, f := range forb {
				ok := false
				for _, s := range f.Sem {
					ok = ok || set[fmt.Sprint(s[0])]
				}
				if !ok {
					continue
				}
				u := &Vec{T: append(append([]Tok{}, v.T...), f.P...), C: f.C}
				_, _, _, err := w.program(u, variant)
				w.inc("forbidden programs")
				w.note = fmt.Sprint("context errors: ", f.Sem)
				if err == nil {
					w.fail("accepted although the context forbids it: %v", f.Sem)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// Ill-formed programs: every token the machine refuses after the prefix.

var reErr = regexp.MustCompile(`line: (-?\d+), column: (-?\d+) \(unexpected literal: (".*")\)`)

type badCase struct {
	src *Src
	at  int // index of the offending token
	tok PTok
}

func (w *W) bads(v *Vec, variant int, each func(b badCase)) {
	if len(v.Bad) == 0 {
		return
	}
	for _, kind := range v.Bad {
		c, style := w.conc(variant)
		if variant == 1 {
			style = w.rng.Intn(2)
		}
		ts := append([]Tok{}, v.T...)
		if kind == "EOF" {
			if len(ts) == 0 {
				continue
			}
			p := c.toks(ts)
			b := badCase{render(w.rng, style, p), len(p) - 1, p[len(p)-1]}
			w.src = b.src.Text
			each(b)
			continue
		}
		sym := map[string]string{"ID": "q", "NUM": "1", "STR": "q", "DATE": "d1", "LABEL": "q", "DIR": "d1"}[kind]
		if sym == "1" || sym == "d1" {
			sym = map[string]string{"NUM": "905", "DATE": "d905", "DIR": "d1"}[kind]
		}
		ts = append(ts, Tok{kind, sym})
		at := len(ts) - 1
		// what follows the offending token makes no difference
		if tail := w.rng.Intn(3); tail > 0 && kind != "STR" && kind != "DATE" && len(v.C) > 0 && v.C[0][0] != "STR" {
			if tail == 1 {
				ts = append(ts, v.C...)
			} else {
				ts = append(ts, Tok{";", ""}, Tok{"If", ""}, Tok{"ID", "z"}, Tok{")", ""})
			}
		}
		p := c.toks(ts)
		b := badCase{render(w.rng, style, p), at, p[at]}
		w.src = b.src.Text
		each(b)
	}
}

func judgeReject(w *W, v *Vec, variant int) {
	w.bads(v, variant, func(b badCase) {
		_, err := w.parse(b.src.Text)
		w.note = fmt.Sprintf("a syntax error at token %d %q", b.at, b.tok.Text)
		w.inc("ill-formed programs")
		if err == nil {
			w.fail("an ill-formed program is accepted; token %d (%q) cannot stand there", b.at, b.tok.Text)
		}
	})
}

func judgePosition(w *W, v *Vec, variant int) {
	w.bads(v, variant, func(b badCase) {
		_, err := w.parse(b.src.Text)
		w.inc("ill-formed programs")
		if err == nil {
			w.fail("an ill-formed program is accepted; token %d (%q) cannot stand there", b.at, b.tok.Text)
		}
		line, col := b.src.pos(b.src.Start[b.at])
		w.note = fmt.Sprintf("line %d, column %d, literal %q", line, col, b.tok.Lit)
		m := reErr.FindStringSubmatch(err.Error())
		if m == nil {
			w.fail("the error names no position: %v", err)
		}
		if m[1] != strconv.Itoa(line) || m[2] != strconv.Itoa(col) || m[3] != strconv.Quote(b.tok.Lit) {
			w.fail("the first offending token is %q at line %d, column %d, but the error says: %v", b.tok.Lit, line, col, err)
		}
	})
}

// ---------------------------------------------------------------------------

// IsMethod and Params report what the tree holds.
func methodFacts(w *W, s ast.Statements) {
	for _, x := range s {
		methodFact(w, x)
	}
}

func methodFact(w *W, s ast.Statement) {
	switch v := s.(type) {
	case ast.CallChainStatement:
		_, isM := v.Unit.(ast.MethodStatement)
		if v.IsMethod() != isM {
			w.fail("IsMethod is %v for %s", v.IsMethod(), realN(v))
		}
		methodFact(w, v.Unit)
		methodFact(w, v.Call)
	case ast.MethodStatement:
		if realN(v.Params()).String() != realN(v.Param).String() {
			w.fail("Params differs from the arguments of %s", realN(v))
		}
		methodFacts(w, v.Param.Statements)
	case ast.NewObjectStatement:
		if realN(v.Params()).String() != realN(v.Param).String() {
			w.fail("Params differs from the arguments of %s", realN(v))
		}
		methodFacts(w, v.Param.Statements)
	case ast.AssignmentStatement:
		methodFact(w, v.Var)
		methodFacts(w, v.Expr.Statements)
	}
}

func tiers(quick, thorough func(seed int64) []Stage) func(tier string, seed int64) []Stage {
	return func(tier string, seed int64) []Stage {
		if tier == "thorough" {
			return thorough(seed)
		}
		return quick(seed)
	}
}

func init() {
	// Acceptance.
	register(&Check{ID: "C02", Stages: tiers(func(seed int64) []Stage {
		return append(blocks(judgeAccept, false, 2, seed), []Stage{
			{Name: "token by token", Variants: 3, Judge: judgeAccept, Gens: gens(lang("S_All", "P_Tok", 2), lang("Empty", "P_Tok", 3))},
			{Name: "random modules", Variants: 3, Judge: judgeAccept, Gens: sim(lang("Empty", "P_All", 30, "min=4"), 60, 30, 4, seed)},
			{Name: "random programs", Variants: 3, Judge: judgeAccept, Gens: sim(lang("S_All", "P_Tok", 30, "min=4"), 200, 30, 4, seed+1)},
			{Name: "deep nesting", Variants: 2, Judge: judgeAccept, Gens: sim(lang("Empty", "P_Nest", 60, "min=30"), 16, 60, 2, seed+2)},
			{Name: "deep expressions", Variants: 2, Judge: judgeAccept, Gens: sim(lang("S_Assign", "P_NestExpr", 60, "min=30"), 16, 60, 2, seed+3)},
		}...)
	}, func(seed int64) []Stage {
		return append(blocks(judgeAccept, true, 3, seed), []Stage{
			{Name: "token by token", Variants: 4, Judge: judgeAccept, Gens: gens(lang("S_All", "P_Tok", 3, "workers=8"), lang("Empty", "P_Tok", 4, "workers=8"))},
			{Name: "random modules", Variants: 4, Judge: judgeAccept, Gens: sim(lang("Empty", "P_All", 40, "min=4"), 1600, 40, 8, seed)},
			{Name: "random programs", Variants: 4, Judge: judgeAccept, Gens: sim(lang("S_All", "P_Tok", 40, "min=4"), 3200, 40, 8, seed+1)},
			{Name: "deep nesting", Variants: 4, Judge: judgeAccept, Gens: sim(lang("Empty", "P_Nest", 120, "min=60"), 80, 120, 8, seed+2)},
			{Name: "deep expressions", Variants: 4, Judge: judgeAccept, Gens: sim(lang("S_Assign", "P_NestExpr", 120, "min=60"), 80, 120, 8, seed+3)},
		}...)
	})})

	// Rejection and error positions.
	for _, x := range []struct {
		id string
		j  func(w *W, v *Vec, variant int)
		nv int
	}{{"C03", judgeReject, 2}, {"C04", judgePosition, 3}} {
		x := x
		register(&Check{ID: x.id, Stages: tiers(func(seed int64) []Stage {
			return append(blocks(x.j, false, 1, seed, "bad"), []Stage{
				{Name: "token by token", Variants: x.nv, Judge: x.j, Gens: gens(lang("S_All", "P_Tok", 2, "bad"), lang("Empty", "P_Tok", 3, "bad"))},
				{Name: "random modules", Variants: x.nv, Judge: x.j, Gens: sim(lang("Empty", "P_All", 24, "min=3", "bad"), 40, 24, 5, seed)},
				{Name: "random programs", Variants: x.nv, Judge: x.j, Gens: sim(lang("S_All", "P_Tok", 24, "min=3", "bad"), 40, 24, 5, seed+1)},
				{Name: "declarations", Variants: x.nv, Judge: x.j, Gens: gens(lang("Empty", "P_DeclAttr", 3, "bad"), lang("S_Param", "P_Param", 3, "bad"))},
			}...)
		}, func(seed int64) []Stage {
			return append(blocks(x.j, true, 2, seed, "bad"), []Stage{
				{Name: "token by token", Variants: x.nv, Judge: x.j, Gens: gens(lang("S_All", "P_Tok", 3, "bad", "workers=8"), lang("Empty", "P_Tok", 4, "bad", "workers=8"))},
				{Name: "random modules", Variants: x.nv, Judge: x.j, Gens: sim(lang("Empty", "P_All", 40, "min=3", "bad"), 800, 40, 8, seed)},
				{Name: "random programs", Variants: x.nv, Judge: x.j, Gens: sim(lang("S_All", "P_Tok", 40, "min=3", "bad"), 1600, 40, 8, seed+1)},
				{Name: "declarations", Variants: x.nv, Judge: x.j, Gens: gens(lang("Empty", "P_DeclAttr", 4, "bad", "workers=8"), lang("S_Param", "P_Param", 4, "bad"))},
				{Name: "statements", Variants: x.nv, Judge: x.j, Gens: gens(lang("Empty", "P_StmtSmall", 5, "bad", "workers=8"))},
				{Name: "deep nesting", Variants: x.nv, Judge: x.j, Gens: sim(lang("Empty", "P_Nest", 100, "min=40", "bad"), 40, 100, 8, seed+2)},
			}...)
		})})
	}

	// Statement structure.
	register(&Check{ID: "C05", Stages: tiers(func(seed int64) []Stage {
		return append(blocks(judgeSkeleton, false, 2, seed), []Stage{
			{Name: "statements", Variants: 3, Judge: judgeSkeleton, Gens: gens(lang("Empty", "P_StmtSmall", 5), lang("S_Proc", "P_Stmt", 3), lang("S_StaleBody", "P_StmtSmall", 4))},
			{Name: "separators", Variants: 3, Judge: judgeSkeleton, Gens: gens(lang("S_Proc", "P_Sep", 4))},
			{Name: "random modules", Variants: 3, Judge: judgeSkeleton, Gens: sim(lang("S_Proc", "P_StmtDeep", 40, "min=6"), 60, 40, 4, seed)},
			{Name: "deep nesting", Variants: 3, Judge: judgeSkeleton, Gens: sim(lang("Empty", "P_Nest", 60, "min=20"), 20, 60, 2, seed+1)},
		}...)
	}, func(seed int64) []Stage {
		return append(blocks(judgeSkeleton, true, 3, seed), []Stage{
			{Name: "statements", Variants: 4, Judge: judgeSkeleton, Gens: gens(lang("Empty", "P_StmtSmall", 6, "workers=8"), lang("S_Proc", "P_Stmt", 4, "workers=8"), lang("S_StaleBody", "P_StmtSmall", 6, "workers=8"))},
			{Name: "separators", Variants: 4, Judge: judgeSkeleton, Gens: gens(lang("S_Proc", "P_Sep", 5, "workers=8"))},
			{Name: "random modules", Variants: 4, Judge: judgeSkeleton, Gens: sim(lang("S_Proc", "P_StmtDeep", 80, "min=6"), 800, 80, 8, seed)},
			{Name: "deep nesting", Variants: 4, Judge: judgeSkeleton, Gens: sim(lang("Empty", "P_Nest", 150, "min=20"), 100, 150, 8, seed+1)},
		}...)
	})})

	// Operators.
	register(&Check{ID: "C06", Stages: tiers(func(seed int64) []Stage {
		return append(blocks(judgeTree, false, 2, seed), []Stage{
			{Name: "operators", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Assign", "P_Ops", 5, "workers=8"), lang("S_Assign", "P_OpsPar", 5))},
			{Name: "operators with signs", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Assign", "P_OpsUn", 3))},
			{Name: "contexts", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Expr", "P_Ops", 3))},
			{Name: "long expressions", Variants: 3, Judge: judgeTree, Gens: sim(lang("S_Expr", "P_OpsDeep", 30, "min=5"), 100, 30, 4, seed)},
		}...)
	}, func(seed int64) []Stage {
		return append(blocks(judgeTree, true, 3, seed), []Stage{
			{Name: "operators", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Assign", "P_Ops", 6, "workers=8"), lang("S_Assign", "P_OpsPar", 7, "workers=8"))},
			{Name: "operators with signs", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Assign", "P_OpsUn", 4, "workers=8"))},
			{Name: "contexts", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Expr", "P_Ops", 4, "workers=8"))},
			{Name: "long expressions", Variants: 4, Judge: judgeTree, Gens: sim(lang("S_Expr", "P_OpsDeep", 60, "min=5"), 1600, 60, 8, seed)},
		}...)
	})})

	register(&Check{ID: "C07", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "signs", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Expr", "P_Unary", 3), lang("S_Assign", "P_Unary", 5))},
			{Name: "signs and operators", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Assign", "P_UnaryOps", 4), lang("S_Assign", "P_OpsPar", 5))},
			{Name: "long expressions", Variants: 3, Judge: judgeTree, Gens: sim(lang("S_Expr", "P_UnaryOps", 30, "min=4"), 100, 30, 4, seed)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "signs", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Expr", "P_Unary", 4, "workers=8"), lang("S_Assign", "P_Unary", 7, "workers=8"))},
			{Name: "signs and operators", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Assign", "P_UnaryOps", 5, "workers=8"), lang("S_Assign", "P_OpsPar", 7, "workers=8"))},
			{Name: "long expressions", Variants: 4, Judge: judgeTree, Gens: sim(lang("S_Expr", "P_UnaryOps", 60, "min=4"), 1600, 60, 8, seed)},
		}
	})})

	// Context rules.
	rule := func(id, prof string, kq, kt int, kinds ...string) {
		j := judgeRule(kinds...)
		register(&Check{ID: id, Stages: tiers(func(seed int64) []Stage {
			return []Stage{
				{Name: "contexts", Variants: 2, Judge: j, Gens: gens(lang("Empty", prof, kq, "x=err", "workers=8"))},
				{Name: "nested contexts", Variants: 2, Judge: j, Gens: gens(lang("S_Ctx2", prof, 1, "x=err"), lang("S_Ctx1", prof, 2, "x=err"))},
				{Name: "long modules", Variants: 2, Judge: j, Gens: sim(lang("S_Prog", prof, 40, "x=err", "min=5"), 60, 40, 4, seed)},
				{Name: "random programs", Variants: 2, Judge: j, Gens: sim(lang("S_Ctx1", "P_CtxAll", 50, "x=err", "groups=G_Walk", "min=5"), 40, 50, 4, seed)},
				{Name: "long modules with errors", Variants: 2, Judge: j, Gens: sim(lang("S_Ctx1", prof, 40, "errs", "min=5"), 24, 40, 4, seed+5)},
				{Name: "several errors", Variants: 1, Judge: j, Gens: gens(lang("Empty", prof, 3, "errs"))},
			}
		}, func(seed int64) []Stage {
			return []Stage{
				{Name: "contexts", Variants: 3, Judge: j, Gens: gens(lang("Empty", prof, kt, "x=err", "workers=8"))},
				{Name: "nested contexts", Variants: 3, Judge: j, Gens: gens(lang("S_Ctx2", prof, 2, "x=err", "workers=8"), lang("S_Ctx1", prof, 3, "x=err", "workers=8"))},
				{Name: "long modules", Variants: 3, Judge: j, Gens: sim(lang("S_Prog", prof, 80, "x=err", "min=5"), 1600, 80, 8, seed)},
				{Name: "random programs", Variants: 3, Judge: j, Gens: sim(lang("S_Ctx1", "P_CtxAll", 80, "x=err", "groups=G_Walk", "min=5"), 1600, 80, 8, seed)},
				{Name: "long modules with errors", Variants: 3, Judge: j, Gens: sim(lang("S_Ctx1", prof, 80, "errs", "min=5"), 1600, 80, 8, seed+5)},
				{Name: "several errors", Variants: 2, Judge: j, Gens: gens(lang("Empty", prof, 5, "errs", "workers=8"))},
			}
		})})
	}
	rule("C08", "P_CtxLoop", 4, 6, "break", "continue")
	rule("C09", "P_CtxCatch", 4, 6, "throw", "return")

	// Declarations: order and names, then their attributes.
	register(&Check{ID: "C10", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "order", Variants: 2, Judge: judgeRule("gvpos", "dup"), Gens: gens(lang("Empty", "P_DeclOrder", 4, "errs"))},
			{Name: "order of declarations", Variants: 2, Judge: judgeReject, Gens: gens(lang("Empty", "P_DeclOrder", 3, "bad"))},
			{Name: "names", Variants: 3, Judge: judgeRule("dup"), Gens: gens(lang("Empty", "P_DeclDup", 5, "errs"))},
			{Name: "long modules", Variants: 3, Judge: judgeRule("gvpos", "dup"), Gens: sim(lang("Empty", "P_DeclDup", 16, "errs", "min=3"), 100, 16, 4, seed)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "order", Variants: 3, Judge: judgeRule("gvpos", "dup"), Gens: gens(lang("Empty", "P_DeclOrder", 6, "errs", "workers=8"))},
			{Name: "order of declarations", Variants: 2, Judge: judgeReject, Gens: gens(lang("Empty", "P_DeclOrder", 4, "bad", "workers=8"))},
			{Name: "names", Variants: 3, Judge: judgeRule("dup"), Gens: gens(lang("Empty", "P_DeclDup", 6, "errs", "workers=8"), lang("Empty", "P_DeclDup", 7, "err", "workers=8"))},
			{Name: "long modules", Variants: 3, Judge: judgeRule("gvpos", "dup"), Gens: sim(lang("Empty", "P_DeclDup", 30, "errs", "min=3"), 1600, 30, 8, seed)},
		}
	})})
	register(&Check{ID: "C11", Stages: tiers(func(seed int64) []Stage {
		return append(blocks(judgeHeaders, false, 2, seed), []Stage{
			{Name: "attributes", Variants: 4, Judge: judgeHeaders, Gens: gens(lang("Empty", "P_DeclAttr", 4))},
			{Name: "parameters", Variants: 4, Judge: judgeHeaders, Gens: gens(lang("S_Param", "P_Param", 4))},
			{Name: "long modules", Variants: 4, Judge: judgeHeaders, Gens: sim(lang("Empty", "P_DeclDeep", 40, "min=4"), 120, 40, 4, seed)},
		}...)
	}, func(seed int64) []Stage {
		return append(blocks(judgeHeaders, true, 3, seed), []Stage{
			{Name: "attributes", Variants: 5, Judge: judgeHeaders, Gens: gens(lang("Empty", "P_DeclAttr", 6, "workers=8"))},
			{Name: "parameters", Variants: 5, Judge: judgeHeaders, Gens: gens(lang("S_Param", "P_Param", 6, "workers=8"))},
			{Name: "long modules", Variants: 5, Judge: judgeHeaders, Gens: sim(lang("Empty", "P_DeclDeep", 80, "min=4"), 1600, 80, 8, seed)},
		}...)
	})})

	// References.
	register(&Check{ID: "C12", Stages: tiers(func(seed int64) []Stage {
		return append(blocks(judgeTree, false, 2, seed), []Stage{
			{Name: "references", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Ref", "P_Ref", 4, "workers=8"))},
			{Name: "links", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Ref", "P_RefLink", 3))},
			{Name: "arguments", Variants: 3, Judge: judgeTree, Gens: gens(lang("S_Args", "P_Args", 4))},
			{Name: "long references", Variants: 3, Judge: judgeTree, Gens: sim(lang("S_Ref", "P_RefLink", 24, "min=4"), 80, 24, 4, seed)},
		}...)
	}, func(seed int64) []Stage {
		return append(blocks(judgeTree, true, 3, seed), []Stage{
			{Name: "references", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Ref", "P_Ref", 6, "workers=8"))},
			{Name: "links", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Ref", "P_RefLink", 4, "workers=8"))},
			{Name: "arguments", Variants: 4, Judge: judgeTree, Gens: gens(lang("S_Args", "P_Args", 5, "workers=8"))},
			{Name: "long references", Variants: 4, Judge: judgeTree, Gens: sim(lang("S_Ref", "P_RefLink", 50, "min=4"), 1200, 50, 8, seed)},
			{Name: "deep expressions", Variants: 4, Judge: judgeTree, Gens: sim(lang("S_Assign", "P_NestExpr", 120, "min=20"), 80, 120, 8, seed+3)},
		}...)
	})})

	// Separators, labels, jumps: the tree and the colon rule.
	sep := func(w *W, v *Vec, variant int) {
		if valid(v) {
			judgeTree(w, v, variant)
			return
		}
		judgeRule("colon")(w, v, variant)
	}
	sepBad := func(w *W, v *Vec, variant int) { judgeReject(w, v, variant) }
	register(&Check{ID: "C26", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "separators", Variants: 3, Judge: sep, Gens: gens(lang("S_Proc", "P_Sep", 4, "err"))},
			{Name: "missing separators", Variants: 2, Judge: sepBad, Gens: gens(lang("S_Proc", "P_Sep", 3, "bad"))},
			{Name: "long modules", Variants: 3, Judge: sep, Gens: sim(lang("S_Proc", "P_SepDeep", 30, "min=4", "err"), 100, 30, 4, seed)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "separators", Variants: 3, Judge: sep, Gens: gens(lang("S_Proc", "P_Sep", 5, "err", "workers=8"))},
			{Name: "missing separators", Variants: 2, Judge: sepBad, Gens: gens(lang("S_Proc", "P_Sep", 5, "bad", "workers=8"))},
			{Name: "long modules", Variants: 3, Judge: sep, Gens: sim(lang("S_Proc", "P_SepDeep", 60, "min=4", "err"), 1600, 60, 8, seed)},
		}
	})})
}
