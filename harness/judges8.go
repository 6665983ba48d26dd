package main

import (
	"encoding/json"
	"fmt"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// C28: trees changed through the traversal.

type graft struct {
	E     [][2][]int      `json:"e"` // the place, where the new one is from
	OK    bool            `json:"ok"`
	Body  []any           `json:"body"`
	Walk  json.RawMessage `json:"walk"`
	JSON  json.RawMessage `json:"json"`
	Lines json.RawMessage `json:"lines"`
}

func judgeGraft(w *W, v *Vec, variant int) {
	if len(v.Sem) > 0 {
		return
	}
	var gs []graft
	if err := json.Unmarshal(v.X, &gs); err != nil {
		w.defect("grafts: %v", err)
	}
	for i := range gs {
		g := &gs[i]
		if len(g.E) == 0 {
			continue
		}
		c, a, m, ok := w.tree(v, variant)
		if !ok {
			return
		}
		src := w.src
		use := func() { // whatever is remembered of the tree must be forgotten when it changes
			switch w.rng.Intn(4) {
			case 0:
				a.Print(confs(w, 3)[w.rng.Intn(3)])
			case 1:
				a.JSON()
			case 2:
				a.Print(printConfs[w.rng.Intn(2)])
				a.JSON()
				a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})
			}
		}
		use()
		cur := m
		share, shared := w.rng.Intn(3) > 0, false // what comes from one place is one and the same node
		for k, e := range g.E {
			for _, f := range g.E[:k] { // a change inside something shared would show at all its places
				share = share && !within(f[0], e[0])
			}
		}
		var b *ast.AstNode
		for k, e := range g.E {
			if b == nil || !share {
				var err error
				if b, err = w.parse(src); err != nil { // the new one is from a tree of its own
					w.fail("the same text is rejected when parsed again: %v", err)
				}
			}
			for _, f := range g.E[:k] {
				shared = shared || share && (within(f[1], e[1]) || within(e[1], f[1]) || fmt.Sprint(f[1]) == fmt.Sprint(e[1]))
			}
			w.src = src
			from, to := slotAt(b, m.Body, e[1]), slotAt(a, cur.Body, e[0])
			if from == nil || to == nil {
				w.defect("no place for %v", e)
			}
			done := 0
			a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
				if stm == to {
					*stm = *from
					done++
				}
			})
			if done != 1 {
				w.inc("skipped: not visited")
				return
			}
			x := at(m.Body, e[1])
			w.note = fmt.Sprintf("%s put in place of %s", x, at(cur.Body, e[0]))
			cur = &Module{cur.G, replaceAt(cur.Body, e[0], x)}
			w.same("the changed tree", cur, realModule(a))
			if w.rng.Intn(2) == 0 {
				use()
			}
		}
		want := c.module(&Vec{G: v.G, Body: g.Body})
		if want.String() != cur.String() {
			w.defect("the changed tree of the specification is another: %s", firstDiff(want.String(), cur.String()))
		}
		w.inc("changed trees")
		as := func(x json.RawMessage) *Vec {
			return &Vec{G: v.G, Body: g.Body, X: x, pre: &parsed{c: c, a: a, m: cur}}
		}
		w.sameAsFresh(a, confs(w, 1)[0], "after the changes")
		judgeJSON(w, as(g.JSON), variant)
		if shared {
			w.inc("changed trees with shared nodes")
			judgeVisits(w, as(g.Walk))
		} else {
			judgeWalk(w, as(g.Walk), variant)
		}
		if g.OK {
			w.inc("changed programs")
			judgePrint(w, as(nil), variant)
			judgeLayout(w, as(g.Lines), variant)
			if w.rng.Intn(2) == 0 {
				judgeSingle(w, as(nil), variant)
			}
			conf := confs(w, 3)[w.rng.Intn(3)]
			text := a.Print(conf)
			b := w.reparse(text, fmt.Sprintf("the printed text (%+v) of a changed tree", conf))
			if t := b.Print(conf); t != text {
				w.fail("printing the parsed output (%+v) of a changed tree gives another text: %s", conf, firstDiff(text, t))
			}
		}
		if !shared {
			judgeOwner(w, as(g.Walk), variant)
		}
		w.same("the changed tree, printed, serialised and walked,", cur, realModule(a))
	}
}

// judgeVisits: a node at several places is visited at each of them.
func judgeVisits(w *W, v *Vec) {
	want := map[string]int{}
	for _, e := range w.events(v) {
		want[asVisited(at(v.pre.m.Body, e.path)).String()]++
	}
	for _, x := range w.walk(v.pre.a) {
		want[x.n]--
	}
	for n, k := range want {
		if k > 0 {
			w.fail("not visited (%d times less): %s", k, n)
		}
		if k < 0 {
			w.fail("visited %d times more than it should: %s", -k, n)
		}
	}
}

func init() {
	register(&Check{ID: "C28", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "statements in blocks", Variants: 2, Judge: judgeGraft, Gens: gens(lang("S_Ctx1", "P_Kinds", 1, "x=graft"))},
			{Name: "statements", Variants: 2, Judge: judgeGraft, Gens: gens(lang("S_Prog", "P_Prog", 1, "x=graft"))},
			{Name: "random programs", Variants: 1, Judge: judgeGraft, Gens: sim(lang("S_Ctx1", "P_Walk", 24, "groups=G_Walk", "min=16", "x=graft"), 40, 24, 4, seed+101)},
			{Name: "long programs", Variants: 1, Judge: judgeGraft, Gens: sim(lang("S_LongQ", "R_None", 3, "groups=G_Long", "min=1", "reps=R_Short", "x=graft"), 48, 4, 4, seed+102)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "statements in blocks", Variants: 4, Judge: judgeGraft, Gens: gens(lang("S_Ctx2", "P_Kinds", 1, "x=graft", "workers=8"))},
			{Name: "statements", Variants: 2, Judge: judgeGraft, Gens: gens(lang("S_Prog", "P_ProgS", 2, "x=graft", "workers=8"), lang("S_Ctx1", "P_Prog", 1, "x=graft", "workers=8"))},
			{Name: "random programs", Variants: 2, Judge: judgeGraft, Gens: sim(lang("S_Ctx1", "P_Walk", 50, "groups=G_Walk", "min=2", "x=graft"), 640, 50, 8, seed+101)},
			{Name: "long programs", Variants: 2, Judge: judgeGraft, Gens: sim(lang("S_LongQ", "R_None", 4, "groups=G_Long", "min=1", "reps=R_Short", "x=graft"), 320, 5, 8, seed+102)},
		}
	})})
}
