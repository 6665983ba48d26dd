package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// LexVec is one state of the lexical machine.
type LexVec struct {
	Text string   `json:"-"`
	Code []rune   `json:"text"`
	Dc   bool     `json:"dc"`
	Err  bool     `json:"err"`
	Toks [][5]any `json:"toks"`
	Vals [][]any  `json:"vals"`
}

type lexTok struct {
	Kind, Lit       string
	Start, End, Gap int // in characters
	Val             []any
}

func unquoteTLC(line string) string {
	s, err := strconv.Unquote(line)
	if err != nil {
		s = strings.ReplaceAll(strings.ReplaceAll(line[1:len(line)-1], `\"`, `"`), `\\`, `\`)
	}
	return s
}

// codes is a text written as a sequence of code points.
func codes(x any) string {
	var r []rune
	for _, c := range x.([]any) {
		r = append(r, rune(c.(float64)))
	}
	return string(r)
}

// chars is a text of characters; U+FFFD stands for itself or for a byte that is not UTF-8.
func chars(r []rune) string {
	var b strings.Builder
	for i, c := range r {
		if c == utf8.RuneError && i%2 == 0 {
			b.WriteByte(0xff)
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (w *W) lexVec(raw string) (*LexVec, []lexTok) {
	v := &LexVec{}
	if err := json.Unmarshal([]byte(unquoteTLC(raw)), v); err != nil {
		w.defect("vector %.200s: %v", raw, err)
	}
	v.Text = chars(v.Code)
	var r []lexTok
	for i, t := range v.Toks {
		n := func(k int) int { return int(t[k].(float64)) }
		lt := lexTok{Kind: t[0].(string), Lit: codes(t[1]), Start: n(2), End: n(3), Gap: n(4)}
		if i < len(v.Vals) {
			lt.Val = v.Vals[i]
		}
		r = append(r, lt)
	}
	return v, r
}

type text string

func (t text) SrsCode() string { return string(t) }

// kindText is one text per kind of token.
var kindText = map[string]string{"ID": "ъ", "NUM": "1", "STR": `"ъ"`, "DATE": "'20240101'", "LABEL": "~ъ", "DIR": "&наклиенте"}

var (
	kindOnce sync.Once
	kindCode map[string]int
	kindErr  string
)

// kindCodes asks the lexer itself for the number of every kind of token.
func (w *W) kindCodes() map[string]int {
	kindOnce.Do(func() {
		for k, t := range kwText {
			kindText[k] = lower(t)
		}
		for _, o := range []string{"=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "(", ")", "[", "]", ",", ".", ";", ":", "?"} {
			kindText[o] = o
		}
		kindCode = map[string]int{}
		byCode := map[int]string{}
		for k, t := range kindText {
			tok := &ast.Token{}
			c, err := tok.Next(text(t))
			if err != nil {
				kindErr = fmt.Sprintf("reading %q: %v", t, err)
				return
			}
			if c == ast.EOF {
				kindErr = fmt.Sprintf("reading %q gives the end of input", t)
				return
			}
			if o, dup := byCode[c]; dup {
				kindErr = fmt.Sprintf("%q and %q are read as the same kind of token", t, kindText[o])
				return
			}
			byCode[c] = k
			kindCode[k] = c
		}
	})
	if kindErr != "" {
		w.fail("%s", kindErr)
	}
	return kindCode
}

func kindName(codes map[string]int, c int) string {
	if c == ast.EOF {
		return "end of input"
	}
	for k, x := range codes {
		if x == c {
			return k
		}
	}
	return fmt.Sprint(c)
}

// offsets of the characters of a text
func charOffsets(s string) []int {
	r := make([]int, 0, len(s)+1)
	for i := range s {
		r = append(r, i)
	}
	return append(r, len(s))
}

func posAt(s string, off int) ast.Position {
	b := strings.LastIndex(s[:off], "\n") + 1
	return ast.Position{Line: strings.Count(s[:off], "\n") + 1, Column: utf8.RuneCountInString(s[b:off]) + 1}
}

func posLess(a, b ast.Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Column < b.Column
}

// judgeTokens: the tokens of the text, their kinds and the positions behind them.
func judgeTokens(w *W, raw string, variant int) {
	v, toks := w.lexVec(raw)
	tokenStream(w, v, toks)
}

func tokenStream(w *W, v *LexVec, toks []lexTok) {
	if v.Dc {
		return
	}
	codes := w.kindCodes()
	src := v.Text
	w.src = src
	if src == "" {
		w.src = " "
		src = " "
	}
	w.inc("texts")
	off := charOffsets(src)
	if w.rng.Intn(300) == 0 { // far from the beginning
		pre := far(w.rng)
		src = pre + src
		for i := range off {
			off[i] += len(pre)
		}
		w.src = src
		w.inc("texts far from the beginning")
	}
	t := &ast.Token{}
	last := ast.Position{Line: 1, Column: 1}
	for i, e := range toks {
		w.note = fmt.Sprintf("token %d: %s %q, characters %d to %d", i+1, e.Kind, e.Lit, e.Start, e.End)
		c, err := t.Next(text(src))
		w.inc("tokens")
		if err != nil {
			w.fail("token %d should be %s %q, but reading it fails: %v", i+1, e.Kind, e.Lit, err)
		}
		if c != codes[e.Kind] {
			w.fail("token %d should be %s %q, but %s is read", i+1, e.Kind, e.Lit, kindName(codes, c))
		}
		p := t.GetPosition()
		if posLess(p, last) {
			w.fail("the position moves backwards at token %d: %v after %v", i+1, p, last)
		}
		last = p
		ok := false
		for o := e.End; o <= e.Gap; o++ {
			ok = ok || posAt(src, off[o]) == p
		}
		if !ok {
			w.fail("behind token %d (%s %q) the position is %v, but should be %v", i+1, e.Kind, e.Lit, p, posAt(src, off[e.End]))
		}
	}
	c, err := t.Next(text(src))
	if v.Err {
		w.note = fmt.Sprintf("%d tokens, then an error", len(toks))
		w.inc("lexical errors")
		if err == nil {
			w.fail("after %d tokens the text is not lexically valid, but %s is read", len(toks), kindName(codes, c))
		}
		return
	}
	w.note = fmt.Sprintf("%d tokens, then the end", len(toks))
	for k := 0; k < 3; k++ {
		if err != nil {
			w.fail("at the end of the text: %v", err)
		}
		if c != ast.EOF {
			w.fail("after %d tokens the text ends, but %s is read", len(toks), kindName(codes, c))
		}
		if p := t.GetPosition(); posLess(p, last) {
			w.fail("the position moves backwards at the end: %v after %v", p, last)
		}
		c, err = t.Next(text(src))
	}
}

func ratN(neg bool, digits string, scale int) *N {
	r := new(big.Rat)
	n, ok := new(big.Int).SetString(digits, 10)
	if !ok {
		return nil
	}
	d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(scale)), nil)
	r.SetFrac(n, d)
	f, _ := r.Float64()
	x := numN(f)
	if neg {
		x.S[0] = "1"
	}
	return x
}

// judgeMalformed: a text that is not lexically valid is rejected.
func judgeMalformed(w *W, raw string, variant int) {
	v, _ := w.lexVec(raw)
	if v.Dc || !v.Err {
		return
	}
	_, err := w.parse(v.Text)
	w.inc("malformed texts")
	if err == nil {
		w.fail("accepted although the text is not lexically valid")
	}
}

// judgeLiteral: "name = literal" has the literal's value in the tree; texts that
// are not lexically valid are rejected.
func judgeLiteral(kind string) func(w *W, raw string, variant int) {
	return func(w *W, raw string, variant int) {
		v, toks := w.lexVec(raw)
		if v.Dc || strings.TrimSpace(v.Text) == "" {
			return
		}
		if v.Err {
			_, err := w.parse(v.Text)
			w.inc("rejected texts")
			w.note = "to be rejected"
			if err == nil {
				w.fail("accepted although the text is not lexically valid")
			}
			return
		}
		var ks []string
		for _, t := range toks {
			ks = append(ks, t.Kind)
		}
		for len(ks) > 3 && ks[len(ks)-1] == ";" {
			ks = ks[:len(ks)-1]
		}
		neg := false
		if len(ks) == 4 && kind == "NUM" && (ks[2] == "-" || ks[2] == "+") {
			neg = ks[2] == "-"
			ks = append(ks[:2:2], ks[3:]...)
			toks = append(toks[:2:2], toks[3:]...)
		}
		if len(ks) != 3 || ks[0] != "ID" || ks[1] != "=" || ks[2] != kind {
			return
		}
		lt := toks[2]
		var exp *N
		switch kind {
		case "STR":
			exp = mk("str", []string{lt.Lit})
		case "NUM":
			exp = ratN(neg, codes(lt.Val[1]), int(lt.Val[2].(float64)))
		case "DATE":
			if lt.Val[0] == "empty" {
				exp = dateN(time.Time{})
			} else {
				n := func(i int) int { return int(lt.Val[i].(float64)) }
				exp = dateN(time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), 0, time.UTC))
			}
		}
		a, err := w.parse(v.Text)
		w.inc("literals")
		w.note = exp.String()
		if err != nil {
			w.fail("a valid literal is rejected: %v", err)
		}
		b := realModule(a).Body
		if len(b.K) != 1 || b.K[0].Tag != "assign" || len(b.K[0].K) != 2 {
			w.fail("expected one assignment, got %s", b)
		}
		got := b.K[0].K[1]
		e, g := exp.String(), got.String()
		if kind == "STR" {
			e, g = strings.ReplaceAll(e, `\r\n`, `\n`), strings.ReplaceAll(g, `\r\n`, `\n`)
		}
		if kind == "NUM" && exp.S[1] == "0" { // the sign of zero
			e, g = strings.Replace(e, `"1"`, `"0"`, 1), strings.Replace(g, `"1"`, `"0"`, 1)
		}
		if e != g {
			w.fail("the literal should be %s, but the tree has %s", e, g)
		}
	}
}

// lex is a run of the lexical machine.
func lex(start, chunks string, k int, opts ...string) *Gen {
	g := &Gen{Module: "LexProfiles", Name: fmt.Sprintf("%s x %s, %d chunks", start, chunks, k), Workers: 4, Expect: true, View: "View"}
	minK, groups, tail := "0", "G_None", "No"
	for _, o := range opts {
		switch {
		case strings.HasPrefix(o, "min="):
			minK = o[4:]
			g.Expect = false
		case strings.HasPrefix(o, "groups="):
			groups = o[7:]
		case strings.HasPrefix(o, "tail="):
			tail = o[5:]
		case strings.HasPrefix(o, "workers="):
			g.Workers, _ = strconv.Atoi(o[8:])
		case o == "stable":
			g.Props = []string{"Stable"}
		}
	}
	g.Consts = []string{"Start <- " + start, "Chunks <- " + chunks, "Groups <- " + groups, "Closing <- " + tail, "MaxK = " + strconv.Itoa(k), "MinK = " + minK}
	g.Invs = []string{"Good"}
	return g
}

func init() {
	register(&Check{ID: "C24", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "characters", JudgeRaw: judgeTokens, Gens: gens(lex("Empty", "C_Char", 4))},
			{Name: "words and operators", JudgeRaw: judgeTokens, Gens: gens(lex("Empty", "C_Word", 3))},
			{Name: "comments and regions", JudgeRaw: judgeTokens, Gens: gens(lex("Empty", "C_Gap", 4))},
			{Name: "strings", JudgeRaw: judgeTokens, Gens: gens(lex("S_Str", "C_Str", 4))},
			{Name: "long texts", JudgeRaw: judgeTokens, Gens: sim(lex("S_Long", "C_Word", 60, "groups=G_Long", "min=4"), 160, 60, 4, seed)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "characters", JudgeRaw: judgeTokens, Gens: gens(lex("Empty", "C_Char", 5, "workers=8"), lex("Empty", "C_Char", 3, "stable"))},
			{Name: "words and operators", JudgeRaw: judgeTokens, Gens: gens(lex("Empty", "C_Word", 4, "workers=8"))},
			{Name: "comments and regions", JudgeRaw: judgeTokens, Gens: gens(lex("Empty", "C_Gap", 5, "workers=8"))},
			{Name: "strings", JudgeRaw: judgeTokens, Gens: gens(lex("S_Str", "C_Str", 5, "workers=8"))},
			{Name: "long texts", JudgeRaw: judgeTokens, Gens: sim(lex("S_Long", "C_Word", 120, "groups=G_Long", "min=4"), 1600, 120, 8, seed)},
		}
	})})
	register(&Check{ID: "C15", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "strings", JudgeRaw: judgeLiteral("STR"), Gens: gens(lex("S_StrA", "C_Str", 5, "workers=8"))},
			{Name: "unusual characters", JudgeRaw: judgeLiteral("STR"), Gens: gens(lex("S_StrA", "C_StrOdd", 2, "tail=Q"))},
			{Name: "long strings", JudgeRaw: judgeLiteral("STR"), Gens: sim(lex("S_StrA", "C_Str", 60, "groups=G_Str", "min=3", "tail=Q"), 100, 60, 4, seed)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "strings", JudgeRaw: judgeLiteral("STR"), Gens: gens(lex("S_StrA", "C_Str", 6, "workers=8"))},
			{Name: "unusual characters", JudgeRaw: judgeLiteral("STR"), Gens: gens(lex("S_StrA", "C_StrOdd", 4, "tail=Q", "workers=8"))},
			{Name: "long strings", JudgeRaw: judgeLiteral("STR"), Gens: sim(lex("S_StrA", "C_Str", 120, "groups=G_Str", "min=3", "tail=QE"), 6000, 120, 8, seed)},
		}
	})})
	register(&Check{ID: "C16", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "numbers", JudgeRaw: judgeLiteral("NUM"), Gens: gens(lex("S_NumA", "C_Num", 5))},
			{Name: "long numbers", JudgeRaw: judgeLiteral("NUM"), Gens: sim(lex("S_NumA", "C_Num", 24, "groups=G_Num"), 200, 24, 2, seed)},
			{Name: "dates", JudgeRaw: judgeLiteral("DATE"), Gens: gens(lex("S_DateY", "C_DateC", 3), lex("S_DateT", "C_DateT", 4))},
			{Name: "separators in dates", JudgeRaw: judgeLiteral("DATE"), Gens: gens(lex("S_DateA", "C_Date", 3))},
			{Name: "long dates", JudgeRaw: judgeLiteral("DATE"), Gens: sim(lex("S_DateA", "C_Date", 20, "groups=G_Date"), 2000, 20, 4, seed)},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "numbers", JudgeRaw: judgeLiteral("NUM"), Gens: gens(lex("S_NumA", "C_Num", 6, "workers=8"))},
			{Name: "long numbers", JudgeRaw: judgeLiteral("NUM"), Gens: sim(lex("S_NumA", "C_Num", 24, "groups=G_Num"), 6000, 24, 8, seed)},
			{Name: "dates", JudgeRaw: judgeLiteral("DATE"), Gens: gens(lex("S_DateY", "C_DateC", 4, "workers=8"), lex("S_DateT", "C_DateT", 4))},
			{Name: "separators in dates", JudgeRaw: judgeLiteral("DATE"), Gens: gens(lex("S_DateA", "C_Date", 4, "workers=8"))},
			{Name: "long dates", JudgeRaw: judgeLiteral("DATE"), Gens: sim(lex("S_DateA", "C_Date", 20, "groups=G_Date"), 20000, 20, 8, seed)},
		}
	})})
}
