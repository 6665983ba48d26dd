package main

import (
	"encoding/json"
	"fmt"
	"strconv"
)

// Edited programs: what the machine says of a program with a small change in the middle.

type edit struct {
	E    [3]json.RawMessage `json:"e"`
	S    string             `json:"s"` // acc or syn
	At   int                `json:"at"`
	Sem  [][2]any           `json:"sem"`
	G    [][3]any           `json:"g"`
	Body []any              `json:"body"`
	X    json.RawMessage    `json:"x"`
}

func (w *W) edits(v *Vec) []edit {
	var r []edit
	if err := json.Unmarshal(v.X, &r); err != nil {
		w.defect("edits: %v", err)
	}
	return r
}

// apply makes the edited program.
func (e *edit) apply(w *W, p []Tok) []Tok {
	var kind string
	var i int
	var t Tok
	if json.Unmarshal(e.E[0], &kind) != nil || json.Unmarshal(e.E[1], &i) != nil {
		w.defect("edit %s", e.E)
	}
	if kind == "ins" || kind == "rep" || kind == "mov" {
		if json.Unmarshal(e.E[2], &t) != nil {
			w.defect("edit %s", e.E)
		}
	}
	i--
	r := append([]Tok{}, p[:i]...)
	switch kind {
	case "del":
		return append(r, p[i+1:]...)
	case "dup":
		return append(append(r, p[i]), p[i:]...)
	case "swp":
		return append(append(r, p[i+1], p[i]), p[i+2:]...)
	case "ins", "mov":
		return append(append(r, t), p[i:]...)
	case "rep":
		return append(append(r, t), p[i+1:]...)
	}
	w.defect("edit %q", kind)
	return nil
}

// editOf says which facts a property is about.
type editOf struct {
	reject, position bool
	rules            map[string]bool
	valid            func(w *W, v *Vec, variant int) // for edited programs that are well-formed
	all              func(w *W, v *Vec, variant int) // for every edited program
	share            int                             // one in so many
	extra            string                          // a further prediction of the valid ones
}

func (o editOf) judge(w *W, v *Vec, variant int) {
	if len(v.Sem) > 0 {
		return
	}
	p := v.all()
	es := w.edits(v)
	// the order of a set is not fixed
	for n := range es {
		e := &es[n]
		if o.share > 1 && w.rng.Intn(o.share) != 0 {
			continue
		}
		ts := e.apply(w, p)
		if len(ts) == 0 {
			continue
		}
		u := &Vec{T: ts, Sem: e.Sem, G: e.G, Body: e.Body, X: e.X}
		vr := variant
		if vr == 0 && w.rng.Intn(2) == 0 {
			vr = 1
		}
		if o.all != nil {
			o.all(w, u, vr)
		}
		switch {
		case e.S == "syn" && len(e.Sem) == 0:
			if o.reject || o.position {
				o.syntax(w, u, e, vr)
			}
		case e.S == "syn":
			if o.reject {
				o.syntax(w, u, e, vr)
			}
		case len(e.Sem) > 0:
			mine := o.rules["all"]
			for _, s := range e.Sem {
				mine = mine || o.rules[fmt.Sprint(s[0])]
			}
			if mine {
				_, _, _, err := w.program(u, vr)
				w.note = fmt.Sprint("context errors: ", e.Sem)
				w.inc("forbidden programs")
				if err == nil {
					w.fail("accepted although the context forbids it: %v", e.Sem)
				}
			}
		default:
			w.inc("well-formed edited programs")
			if o.valid != nil {
				o.valid(w, u, vr)
			}
		}
	}
}

func (o editOf) syntax(w *W, u *Vec, e *edit, variant int) {
	c, style := w.conc(variant)
	p := c.toks(u.T)
	s := render(w.rng, style, p)
	_, err := w.parse(s.Text)
	w.inc("ill-formed edited programs")
	at := e.At - 1
	if at >= len(p) { // the end of the text
		at = len(p) - 1
	}
	w.note = fmt.Sprintf("a syntax error at token %d %q", at, p[at].Text)
	if err == nil {
		w.fail("an ill-formed program is accepted; token %d (%q) cannot stand there", at, p[at].Text)
	}
	if !o.position || len(e.Sem) > 0 {
		return
	}
	line, col := s.pos(s.Start[at])
	m := reErr.FindStringSubmatch(err.Error())
	if m == nil {
		w.fail("the error names no position: %v", err)
	}
	if m[1] != strconv.Itoa(line) || m[2] != strconv.Itoa(col) || m[3] != strconv.Quote(p[at].Lit) {
		w.fail("the first offending token is %q at line %d, column %d, but the error says: %v", p[at].Lit, line, col, err)
	}
}

func everyText(w *W, u *Vec, variant int) { v := *u; v.Bad = nil; judgeEnds(w, &v, variant) }

// editStages: small programs and random ones, edited.
func editStages(o editOf, thorough bool, seed int64) []Stage {
	x := "x=edit" + o.extra
	if !thorough {
		return []Stage{
			{Name: "edited statements", Judge: o.judge, Gens: gens(lang("S_Ed", "P_Ed", 1, x))},
			{Name: "edited programs", Judge: o.judge, Gens: sim(lang("S_Ctx1", "P_Walk", 24, "groups=G_Walk", "min=6", x), 8, 24, 4, seed+91)},
		}
	}
	return []Stage{
		{Name: "edited statements", Variants: 2, Judge: o.judge, Gens: gens(lang("S_Ctx1", "P_Kinds", 1, x, "workers=8"), lang("S_Prog", "P_Prog", 1, x, "workers=8"))},
		{Name: "edited programs", Variants: 2, Judge: o.judge, Gens: sim(lang("S_Ctx1", "P_Walk", 50, "groups=G_Walk", "min=6", x), 320, 50, 8, seed+91)},
	}
}

func init() {
	rules := func(k ...string) map[string]bool {
		r := map[string]bool{}
		for _, x := range k {
			r[x] = true
		}
		return r
	}
	for id, o := range map[string]editOf{
		"C01": {all: everyText, share: 4},
		"C02": {valid: judgeAccept},
		"C03": {reject: true},
		"C04": {reject: true, position: true},
		"C05": {valid: judgeSkeleton},
		"C06": {valid: judgeTree},
		"C07": {valid: judgeTree},
		"C08": {valid: judgeAccept, rules: rules("break", "continue")},
		"C09": {valid: judgeAccept, rules: rules("throw", "return")},
		"C10": {valid: judgeAccept, rules: rules("gvpos", "dup"), reject: true},
		"C11": {valid: judgeHeaders},
		"C12": {valid: judgeTree},
		"C14": {all: judgeSpacing, share: 8},
		"C17": {valid: judgePrint, share: 2},
		"C18": {valid: judgeStable, share: 4},
		"C19": {valid: judgeLayout, extra: " lines"},
		"C20": {valid: judgeWalk, extra: " walk"},
		"C21": {valid: judgeOwner, extra: " walk", share: 2},
		"C22": {valid: judgeJSON, extra: " json"},
		"C26": {valid: judgeTree, rules: rules("colon")},
		"C27": {valid: judgeSingle, share: 4},
	} {
		o := o
		more(id, func(seed int64) []Stage { return editStages(o, false, seed) }, func(seed int64) []Stage { return editStages(o, true, seed) })
	}
	// long ones: whatever may be repeated comes many times
	for id, o := range map[string]struct {
		j func(w *W, v *Vec, variant int)
		x string
	}{
		"C01": {judgeEnds, "bad"}, "C02": {judgeAccept, ""}, "C03": {judgeReject, "bad"}, "C04": {judgePosition, "bad"}, "C05": {judgeSkeleton, ""},
		"C06": {judgeTree, ""}, "C07": {judgeTree, ""}, "C08": {judgeRule("break", "continue"), "errs"}, "C09": {judgeRule("throw", "return"), "errs"},
		"C10": {judgeRule("gvpos", "dup"), "errs"}, "C11": {judgeHeaders, ""}, "C12": {judgeTree, ""}, "C14": {judgeSpacing, ""}, "C17": {judgePrint, ""},
		"C18": {judgeStable, ""}, "C19": {judgeLayout, "x=lines"}, "C20": {judgeWalk, "x=walk"}, "C21": {judgeOwner, "x=walk"}, "C22": {judgeJSON, "x=json"},
		"C26": {judgeRule("colon"), "errs"}, "C27": {judgeSingle, ""},
	} {
		o := o
		long := func(thorough bool, seed int64) []Stage {
			opts := []string{"groups=G_Long", "min=1", "reps=R_Long"}
			if o.x == "x=walk" {
				opts[2] = "reps=R_Short"
			} else if thorough {
				opts[2] = "reps=R_Longer"
			}
			if o.x != "" {
				opts = append(opts, o.x)
			}
			n, k, procs := 48, 3, 4
			if thorough {
				n, k, procs = 640, 4, 8
			}
			return []Stage{{Name: "long programs", Judge: o.j, Gens: sim(lang("S_LongQ", "R_None", k, opts...), n, k+1, procs, seed+97)}}
		}
		more(id, func(seed int64) []Stage { return long(false, seed) }, func(seed int64) []Stage { return long(true, seed) })
	}
	// constructs within constructs, hundreds of levels deep
	for id, o := range map[string]struct {
		j func(w *W, v *Vec, variant int)
		x string
	}{"C05": {judgeSkeleton, ""}, "C12": {judgeTree, ""}, "C17": {judgePrint, ""}, "C20": {judgeWalk, "walk"}, "C21": {judgeOwner, "walk"}, "C22": {judgeJSON, "json"}, "C27": {judgeSingle, ""}} {
		o := o
		deep := func(reps string) []Stage {
			return []Stage{{Name: "deep programs", Judge: o.j, Gens: gens(lang("S_Deep", "P_Deep", 1, "min=1", "workers=8", "reps="+reps, "x="+o.x))}}
		}
		more(id, func(seed int64) []Stage { return deep("R_Deep") }, func(seed int64) []Stage { return deep("R_Deeper") })
	}
	for id, o := range map[string]struct{ p, s, r string }{"C08": {"P_Loops", "S_Prog", "R_Loops"}, "C09": {"P_Tries", "S_Prog", "R_Loops"}, "C10": {"P_ManyVars", "Empty", "R_Names"}} {
		o := o
		j := map[string]func(w *W, v *Vec, variant int){"C08": judgeRule("break", "continue"), "C09": judgeRule("throw", "return"), "C10": judgeRule("gvpos", "dup")}[id]
		many := func(k int) []Stage {
			st := []Stage{{Name: "many times", Judge: j, Gens: gens(lang(o.s, o.p, k, "errs", "workers=8", "reps="+o.r))}}
			if id == "C10" {
				st = append(st, Stage{Name: "long lists", Judge: j, Gens: gens(lang("S_VarList", "P_VarList", k+1, "errs", "workers=8", "reps=R_List"))})
			}
			return st
		}
		more(id, func(seed int64) []Stage { return many(2) }, func(seed int64) []Stage { return many(3) })
	}
	// texts that are no sequences of tokens
	malformed := func(k int) []Stage {
		return []Stage{{Name: "malformed tokens", JudgeRaw: judgeMalformed, Gens: gens(lex("Empty", "C_Char", k-1), lex("S_NumA", "C_Num", k), lex("S_StrA", "C_Str", k-1), lex("S_DateA", "C_Date", k-1))}}
	}
	more("C03", func(seed int64) []Stage { return malformed(4) }, func(seed int64) []Stage { return malformed(5) })
	// every beginning
	for id, j := range map[string]func(w *W, v *Vec, variant int){"C03": judgeReject, "C04": judgePosition} {
		j := j
		more(id, func(seed int64) []Stage {
			return []Stage{{Name: "beginnings", Variants: 2, Judge: j, Gens: gens(lang("S_Prefix", "P_Tok", 0, "bad"))}}
		}, func(seed int64) []Stage {
			return []Stage{{Name: "beginnings", Variants: 2, Judge: j, Gens: gens(lang("S_Prefix", "P_Tok", 1, "bad", "workers=8"))}}
		})
	}
	more("C02", func(seed int64) []Stage {
		return []Stage{
			{Name: "beginnings", Variants: 2, Judge: judgeAccept, Gens: gens(lang("S_Prefix", "P_Tok", 1))},
			{Name: "repetition", Variants: 2, JudgeRaw: judgePumpAccept, Gens: gens(pump("S_PumpQ", "P_Pump", 4))},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "beginnings", Variants: 2, Judge: judgeAccept, Gens: gens(lang("S_Prefix", "P_Tok", 2, "workers=8"))},
			{Name: "repetition", Variants: 2, JudgeRaw: judgePumpAccept, Gens: gens(pump("S_Pump", "P_Pump", 8))},
		}
	})
	// expressions behind expressions, over and over
	more("C01", func(seed int64) []Stage {
		return []Stage{{Name: "repeated expressions", Variants: 2, JudgeRaw: judgePumpEnds, Gens: gens(pump("S_PumpOp", "P_PumpOp", 4))}}
	}, func(seed int64) []Stage {
		return []Stage{{Name: "repeated expressions", Variants: 4, JudgeRaw: judgePumpEnds, Gens: gens(pump("S_PumpOp", "P_PumpOp", 4), pump("S_Expr", "P_PumpOp", 8))}}
	})
	for id, j := range map[string]func(w *W, v *Vec, variant int){"C06": judgeTree, "C07": judgeTree, "C17": judgePrint, "C18": judgeStable} {
		j := j
		more(id, func(seed int64) []Stage {
			return []Stage{{Name: "signs before operators", Variants: 2, Judge: j, Gens: gens(lang("S_Neg", "P_Neg", 1))}}
		}, func(seed int64) []Stage {
			return []Stage{{Name: "signs before operators", Variants: 2, Judge: j, Gens: gens(lang("S_NegDeep", "P_Neg", 1, "workers=8"))}}
		})
	}
	// a string broken off, going on, and closed
	closed := func(k int) []Stage {
		return []Stage{{Name: "closed strings", JudgeRaw: judgeLiteral("STR"), Gens: gens(lex("S_StrA", "C_Str", k, "tail=QLine"), lex("S_StrA", "C_Str", k, "tail=QTwo"), lex("S_StrA", "C_Str", k, "tail=Q"))}}
	}
	more("C15", func(seed int64) []Stage { return closed(3) }, func(seed int64) []Stage { return closed(5) })
}
