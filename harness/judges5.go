package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"
)

// FoldVec: a text and its folding.
type FoldVec struct {
	X []rune `json:"x"`
	Y []rune `json:"y"`
}

func (w *W) foldVec(raw string) *FoldVec {
	v := &FoldVec{}
	if err := json.Unmarshal([]byte(unquoteTLC(raw)), v); err != nil {
		w.defect("vector %.200s: %v", raw, err)
	}
	return v
}

func foldCase(w *W, src, exp string) {
	w.src = src
	if src == "" {
		w.src = " "
	}
	keep := strings.Clone(src)
	got := fast_tolower.FastToLower(src)
	w.inc("foldings")
	if got != exp {
		i := 0
		for i < len(got) && i < len(exp) && got[i] == exp[i] {
			i++
		}
		w.fail("folded to %q, expected %q (first difference at byte %d)", trunc(got, 200), trunc(exp, 200), i)
	}
	if src != keep {
		w.fail("the argument was changed to %q", trunc(src, 200))
	}
	if g := fast_tolower.FastToLower(got); g != exp {
		w.fail("folding the result again gives %q", trunc(g, 200))
	}
}

func judgeFold(w *W, raw string, variant int) {
	v := w.foldVec(raw)
	x, y := string(v.X), string(v.Y)
	foldCase(w, x, y)
	// in front of, behind and around other text; many times
	pre, post := "Я", "Ёё"
	foldCase(w, pre+x, "я"+y)
	foldCase(w, x+post, y+"ёё")
	if len(x) < 64 {
		n := 1 + w.rng.Intn(40)
		if w.id.Index%97 == 3 {
			n = 5000 + w.rng.Intn(50000)
		}
		foldCase(w, strings.Repeat(x, n), strings.Repeat(y, n))
	}
	w.src = x + " "
}

// any other bytes: the call ends, and the text around them is folded as ever
// is not asked for; the address sanitizer watches the bounds.
func judgeFoldBytes(w *W, raw string, variant int) {
	v := w.foldVec(raw)
	x := string(v.X)
	w.src = x + " "
	for k := 0; k < 6; k++ {
		b := []byte(x)
		for n := 1 + w.rng.Intn(3); n > 0; n-- {
			i := w.rng.Intn(len(b) + 1)
			switch w.rng.Intn(4) {
			case 0:
				b = b[:i]
			case 1:
				b = b[i:]
			case 2:
				b = append(b[:i:i], append([]byte{byte(128 + w.rng.Intn(128))}, b[i:]...)...)
			case 3:
				b = append(b[:i:i], append([]byte{byte(w.rng.Intn(256))}, b[i:]...)...)
			}
		}
		w.src = string(b)
		w.note = "any bytes"
		keep := string(b)
		_ = fast_tolower.FastToLower(w.src)
		w.inc("malformed texts")
		if w.src != keep {
			w.fail("the argument was changed")
		}
	}
}

func nameRune(r rune) bool { return r == '_' || unicode.IsLetter(r) || r >= '0' && r <= '9' }

func foldRune(r rune) rune {
	switch {
	case r >= 'A' && r <= 'Z', r >= 1040 && r <= 1071:
		return r + 32
	case r == 1025:
		return 1105
	}
	return r
}

// The folding by which the parser compares names and recognises keywords is
// the same one: every letter of the text in a name and in a keyword.
func judgeFoldParser(w *W, raw string, variant int) {
	v := w.foldVec(raw)
	fold := map[rune]rune{}
	for i, c := range v.X {
		fold[c] = v.Y[i]
	}
	for _, c := range v.X {
		if !nameRune(c) || !utf8.ValidRune(c) {
			continue
		}
		cand := []rune{c, c + 32, c - 32, c + 1, c + 80, c - 80, unicode.ToLower(c), unicode.ToUpper(c), fold[c]}
		seen := map[rune]bool{}
		for _, d := range cand {
			if d < 0 || !utf8.ValidRune(d) || !nameRune(d) || seen[d] {
				continue
			}
			seen[d] = true
			if unicode.IsLetter(c) && c < 128 != (d < 128) && d > 0x3000 {
				continue
			}
			a, b := "ж"+string(c)+"Q", "Ж"+string(d)+"q"
			same := fold[c] == foldRune(d)
			src := "Перем " + a + "; Перем " + b + ";"
			_, err := w.parse(src)
			if same != (err != nil) {
				w.fail("the names %s and %s fold to %s; declaring both: %v", a, b, map[bool]string{true: "the same", false: "different texts"}[same], err)
			}
			if (fast_tolower.FastToLower(a) == fast_tolower.FastToLower(b)) != same {
				w.fail("FastToLower tells %s and %s apart differently", a, b)
			}
		}
		// in the place of each letter of a keyword
		if fold[c] >= 'а' && fold[c] <= 'я' || w.rng.Intn(50) == 0 {
			for _, kw := range kwKinds {
				rs := []rune(lower(kwText[kw]))
				for i, r := range rs {
					rs[i] = c
					word := string(rs)
					k := kw
					if r != fold[c] {
						k = wordKind(word)
					}
					rs[i] = r
					if w.rng.Intn(4) != 0 || i == 0 && c <= '9' {
						continue
					}
					t := &ast.Token{}
					got, err := t.Next(text(word))
					w.src = word
					w.inc("words")
					if codes := w.kindCodes(); err != nil || got != codes[k] {
						w.fail("%s should be read as %s, got %s %v", word, k, kindName(codes, got), err)
					}
				}
			}
		}
	}
}

var kwKinds = func() []string {
	var r []string
	for k := range kwText {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}()

var kwByWord = func() map[string]string {
	m := map[string]string{}
	for k, t := range kwText {
		m[lower(t)] = k
	}
	return m
}()

func wordKind(word string) string {
	if k, ok := kwByWord[lower(word)]; ok {
		return k
	}
	return "ID"
}

func fold(alphabet string, n, block int, workers int) *Gen {
	g := &Gen{Module: "Fold", Name: fmt.Sprintf("%s, %d characters", alphabet, n), Workers: workers, Expect: true, Invs: []string{"Good"}}
	if block > 0 {
		g.Name = fmt.Sprintf("every code point, in blocks of %d", block)
	}
	g.Consts = []string{"Alphabet <- " + alphabet, "MaxLen = " + strconv.Itoa(n), "Block = " + strconv.Itoa(block)}
	return g
}

func init() {
	register(&Check{ID: "C25", Bin: "-asan", Stages: tiers(func(seed int64) []Stage {
		return []Stage{
			{Name: "every character", JudgeRaw: judgeFold, Gens: gens(fold("None", 0, 128, 4))},
			{Name: "every letter in names and keywords", JudgeRaw: judgeFoldParser, Gens: gens(fold("None", 0, 256, 4))},
			{Name: "sequences", JudgeRaw: judgeFold, Gens: gens(fold("A_Border", 3, 0, 4), fold("A_Few", 4, 0, 4))},
			{Name: "malformed texts", JudgeRaw: judgeFoldBytes, Gens: gens(fold("A_Border", 3, 0, 4))},
		}
	}, func(seed int64) []Stage {
		return []Stage{
			{Name: "every character", JudgeRaw: judgeFold, Gens: gens(fold("None", 0, 64, 8), fold("None", 0, 2, 8))},
			{Name: "every letter in names and keywords", Variants: 4, JudgeRaw: judgeFoldParser, Gens: gens(fold("None", 0, 128, 8))},
			{Name: "sequences", JudgeRaw: judgeFold, Gens: gens(fold("A_Border", 3, 0, 4), fold("A_Few", 5, 0, 8))},
			{Name: "malformed texts", Variants: 12, JudgeRaw: judgeFoldBytes, Gens: gens(fold("A_Border", 3, 0, 4), fold("A_Few", 4, 0, 4))},
		}
	})})
}
