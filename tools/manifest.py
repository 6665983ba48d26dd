#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANG = "TLA+ language machine explored by TLC; every explored state replayed into the real parser"
LEX = "TLA+ lexical machine (one character per step) explored by TLC; every explored text replayed into the real lexer and parser"
notes = {
 "C01": ("TLA+ language and lexical machines explored by TLC; every explored, damaged and pumped text run through the real parser, printer, walker and JSON under time and memory limits", "Texts of every explored state, the same damaged at random, and texts pumped to tens of thousands of repetitions along the pumping lemma Pump.tla checks on the machine."),
 "C25": ("TLA+ folding machine explored by TLC over every code point; every explored text folded by the real function (under the address sanitizer) and compared with what the parser recognises", "All code points, all sequences over the borders of the ranges, malformed bytes; the parser's comparison of names and keywords against the same folding."),
 "C02": (LANG, "Exhaustive token by token within small bounds and random long modules; the specification's own completion must be accepted in several concrete layouts."),
 "C03": (LANG, "For every explored prefix every token the machine refuses is tried in the real parser."),
 "C04": (LANG, "As C03, with the line, column and literal of the error compared with the machine's first refused token."),
 "C05": (LANG, "Statement skeleton of the real tree against the tree of the machine."),
 "C06": (LANG, "Whole real tree against the machine's tree; operators, parentheses, all expression contexts."),
 "C07": (LANG, "Whole real tree against the machine's tree; signs and НЕ on every operand kind in every expression context."),
 "C08": (LANG, "Context rule of the machine, restated as an invariant on the tree, against acceptance by the real parser."),
 "C09": (LANG, "Context rule of the machine, restated as an invariant on the tree, against acceptance by the real parser."),
 "C10": (LANG, "Order and uniqueness rules of the machine against acceptance by the real parser."),
 "C11": (LANG, "Declarations of the real tree against those of the machine."),
 "C12": (LANG, "Whole real tree of references against the machine's tree, plus IsMethod and Params."),
 "C13": ("TLA+ front-end machine (lexical and language machine joined, text in, tree out) explored by TLC letter by letter; every explored text replayed into the real parser", "Every keyword and directive in front of every next letter, in mixed case, extended and behind a dot, in many places: acceptance, rejection and the whole tree against the machine."),
 "C14": (LANG + "; TLA+ front-end machine explored over layouts", "The outcome of every explored token sequence (valid, ill-formed, context-breaking) is the same in all rendered layouts."),
 "C15": (LEX, "Every string literal of the explored texts: the value in the real tree against the machine's literal; texts the machine rejects must be rejected."),
 "C16": (LEX, "Every number and date literal of the explored texts: the value in the real tree against the value the specification computes exactly; impossible dates and malformed numbers must be rejected."),
 "C17": (LANG, "Printed text of every explored program re-parsed by the real parser and compared modulo redundant parentheses (the specification's own printer satisfies the same round-trip invariant)."),
 "C18": (LANG, "Repeated printing, printing after re-parsing and printing of other layouts of the same program compared."),
 "C19": (LANG, "Lines and indentation of the real output against the lines the specification derives from its tree."),
 "C20": (LANG, "Callbacks of Walk against the visits the specification derives from its tree (multiset, exact places, order)."),
 "C21": (LANG, "Owner and parent of every callback and the effect of replacement against the specification."),
 "C22": (LANG, "JSON of every explored program against the JSON the specification derives from its tree, field by field."),
 "C23": ("TLA+ machine of several parser objects (Iso: one language machine per object) explored by TLC over all schedules with bounded switches; every schedule replayed step by step - token by token while parsing, callback by callback while walking - on real objects, and in parallel under the race detector", "What every operation gives is compared with what it gives in a process of its own; trees are overwritten next to trees in use; all pairs of a catalogue of texts that leave something open or need something another text has."),
 "C24": (LEX, "Kinds of tokens, positions behind them, end of input and lexical errors of Token.Next against the lexical machine."),
 "C26": (LANG, "Separator and label rules of the machine against the real parser, acceptance and tree."),
 "C27": (LANG, "Every statement of explored programs printed by itself, re-parsed and compared with its subtree."),
 "C28": (LANG, "Replacements chosen and carried out on the specification's tree (BslGraft) are carried out on the real tree through Walk; print, JSON, walk, layout and single statements of the changed tree against those the specification derives from its changed tree."),
}
extra = os.path.join(root, "tools", "notes.json")
if os.path.exists(extra):
    notes.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check --build", "hooks": {"guard": "build tag verif", "enable": "the check of C23 builds its harness with go build -tags verif -race", "source_commits": ["a4009164bb3080b6dbabae4eec989b0a1376362d"]},
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications under spec/, checked with TLC; the Go harness under harness/ replays what TLC explores into /repo's parser. ./check --replay FILE runs one reported case again."}
for i in ids:
    if i in notes:
        t, n = notes[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": t, "level": "model_checking",
            "level_note": n + " Holds within the explored bounds (DESIGN.md); trusts TLC, the renderer of token sequences and the projection of the real tree."})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
