package main

// blocks: every kind of statement in every kind of block, and random walks through everything.
func blocks(j func(w *W, v *Vec, variant int), thorough bool, n int, seed int64, opts ...string) []Stage {
	l := func(start, phrases string, k int, more ...string) *Gen {
		return lang(start, phrases, k, append(append([]string{}, opts...), more...)...)
	}
	if !thorough {
		return []Stage{
			{Name: "statements in blocks", Variants: n, Judge: j, Gens: gens(l("S_Ctx1", "P_Kinds", 1), l("S_Ctx2", "P_KindsS", 1))},
			{Name: "random programs", Variants: n, Judge: j, Gens: sim(l("S_Ctx1", "P_Walk", 40, "groups=G_Walk", "min=5"), 60, 40, 3, seed+71)},
		}
	}
	return []Stage{
		{Name: "statements in blocks", Variants: n, Judge: j, Gens: gens(l("S_Ctx1", "P_Kinds", 2, "workers=8"), l("S_Ctx2", "P_Kinds", 1, "workers=8"))},
		{Name: "random programs", Variants: n, Judge: j, Gens: sim(l("S_Ctx1", "P_Walk", 90, "groups=G_Walk", "min=5"), 1200, 90, 8, seed+71)},
		{Name: "random blocks", Variants: n, Judge: j, Gens: sim(l("S_Ctx1", "P_Walk", 90, "groups=G_Struct", "min=5"), 800, 90, 8, seed+72)},
	}
}

func init() {
	// x adds the extra predictions a judge needs to every exploration.
	type judge = func(w *W, v *Vec, variant int)
	// outputs: printing, walking, JSON over the same programs.
	outputs := func(id string, nq, nt int, j judge, extra string) {
		l := func(start, phrases string, k int, opts ...string) *Gen {
			if extra != "" {
				opts = append(opts, "x="+extra)
			}
			return lang(start, phrases, k, opts...)
		}
		var o []string
		if extra != "" {
			o = append(o, "x="+extra)
		}
		register(&Check{ID: id, Stages: tiers(func(seed int64) []Stage {
			return append(blocks(j, false, nq, seed, o...), []Stage{
				{Name: "every statement", Variants: nq, Judge: j, Gens: gens(l("S_Prog", "P_Prog", 1), l("Empty", "P_ProgS", 2))},
				{Name: "statements", Variants: nq, Judge: j, Gens: gens(l("Empty", "P_StmtSmall", 4), l("S_Proc", "P_Stmt", 2))},
				{Name: "expressions", Variants: nq, Judge: j, Gens: gens(l("S_Assign", "P_Unary", 4), l("S_Assign", "P_OpsUn", 2), l("S_Expr", "P_Unary", 2), l("S_Assign", "P_OpsPar", 4))},
				{Name: "references", Variants: nq, Judge: j, Gens: gens(l("S_Ref", "P_RefLink", 2), l("S_Args", "P_Args", 3), l("S_Ref", "P_Ref", 3))},
				{Name: "declarations", Variants: nq, Judge: j, Gens: gens(l("Empty", "P_DeclAttr", 3), l("S_Param", "P_Param", 3))},
				{Name: "modules", Variants: nq, Judge: j, Gens: sim(l("S_Prog", "P_Prog", 40, "min=5", "groups=G_Prog"), 32, 40, 4, seed)},
				{Name: "long expressions", Variants: nq, Judge: j, Gens: sim(l("S_Expr", "P_OpsDeep", 24, "min=5"), 48, 24, 4, seed+1)},
			}...)
		}, func(seed int64) []Stage {
			return append(blocks(j, true, nt, seed, o...), []Stage{
				{Name: "every statement", Variants: nt, Judge: j, Gens: gens(l("S_Prog", "P_Prog", 2, "workers=8"), l("S_Prog", "P_ProgS", 3, "workers=8"))},
				{Name: "statements", Variants: nt, Judge: j, Gens: gens(l("Empty", "P_StmtSmall", 6, "workers=8"), l("S_Proc", "P_Stmt", 3, "workers=8"))},
				{Name: "expressions", Variants: nt, Judge: j, Gens: gens(l("S_Assign", "P_Unary", 5, "workers=8"), l("S_Assign", "P_OpsUn", 3, "workers=8"), l("S_Expr", "P_Unary", 3, "workers=8"), l("S_Assign", "P_OpsPar", 6, "workers=8"))},
				{Name: "references", Variants: nt, Judge: j, Gens: gens(l("S_Ref", "P_RefLink", 3, "workers=8"), l("S_Args", "P_Args", 4, "workers=8"), l("S_Ref", "P_Ref", 4, "workers=8"))},
				{Name: "declarations", Variants: nt, Judge: j, Gens: gens(l("Empty", "P_DeclAttr", 5, "workers=8"), l("S_Param", "P_Param", 4, "workers=8"))},
				{Name: "modules", Variants: nt, Judge: j, Gens: sim(l("S_Prog", "P_Prog", 80, "min=5", "groups=G_Prog"), 1600, 80, 8, seed)},
				{Name: "long expressions", Variants: nt, Judge: j, Gens: sim(l("S_Expr", "P_OpsDeep", 40, "min=5"), 640, 40, 8, seed+1)},
				{Name: "deep nesting", Variants: nt, Judge: j, Gens: sim(l("Empty", "P_Nest", 80, "min=20"), 64, 80, 8, seed+2)},
			}...)
		})})
	}
	outputs("C17", 2, 3, judgePrint, "")
	outputs("C18", 1, 2, judgeStable, "")
	outputs("C19", 1, 2, judgeLayout, "lines")
	outputs("C20", 1, 2, judgeWalk, "walk")
	outputs("C21", 1, 2, judgeOwner, "walk")
	outputs("C22", 2, 3, judgeJSON, "json")
	outputs("C27", 1, 2, judgeSingle, "")

	register(&Check{ID: "C14", Stages: tiers(func(seed int64) []Stage {
		return append(blocks(judgeSpacing, false, 1, seed, "bad"), []Stage{
			{Name: "every statement", Variants: 1, Judge: judgeSpacing, Gens: gens(lang("S_Prog", "P_Prog", 1, "bad"), lang("Empty", "P_ProgS", 2, "bad"))},
			{Name: "token by token", Variants: 2, Judge: judgeSpacing, Gens: gens(lang("S_All", "P_Tok", 2, "bad"))},
			{Name: "declarations", Variants: 2, Judge: judgeSpacing, Gens: gens(lang("Empty", "P_DeclAttr", 3, "bad"))},
			{Name: "contexts", Variants: 2, Judge: judgeSpacing, Gens: gens(lang("Empty", "P_CtxLoop", 3, "err"), lang("Empty", "P_CtxCatch", 3, "err"), lang("Empty", "P_DeclDup", 3, "err"))},
			{Name: "modules", Variants: 2, Judge: judgeSpacing, Gens: sim(lang("S_Prog", "P_Prog", 40, "min=5", "groups=G_Prog"), 24, 40, 4, seed)},
		}...)
	}, func(seed int64) []Stage {
		return append(blocks(judgeSpacing, true, 2, seed, "bad"), []Stage{
			{Name: "every statement", Variants: 3, Judge: judgeSpacing, Gens: gens(lang("S_Prog", "P_Prog", 2, "bad", "workers=8"))},
			{Name: "token by token", Variants: 3, Judge: judgeSpacing, Gens: gens(lang("S_All", "P_Tok", 3, "bad", "workers=8"))},
			{Name: "declarations", Variants: 3, Judge: judgeSpacing, Gens: gens(lang("Empty", "P_DeclAttr", 4, "bad", "workers=8"))},
			{Name: "contexts", Variants: 3, Judge: judgeSpacing, Gens: gens(lang("Empty", "P_CtxLoop", 4, "err"), lang("Empty", "P_CtxCatch", 4, "err"), lang("Empty", "P_DeclDup", 4, "err"))},
			{Name: "modules", Variants: 3, Judge: judgeSpacing, Gens: sim(lang("S_Prog", "P_Prog", 80, "min=5", "groups=G_Prog"), 1600, 80, 8, seed)},
		}...)
	})})
}
