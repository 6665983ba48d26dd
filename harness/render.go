package main

import (
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Src is a rendered program: its text and where each token starts.
type Src struct {
	Text  string
	Start []int // byte offset of each token
	End   []int
}

// pos is line (from 1) and column (from 0, in characters) of an offset.
func (s *Src) pos(off int) (line, col int) {
	line = strings.Count(s.Text[:off], "\n") + 1
	b := strings.LastIndex(s.Text[:off], "\n") + 1
	return line, utf8.RuneCountInString(s.Text[b:off])
}

func isWordRune(r rune) bool {
	return unicode.IsLetter(r) || r == '_' || (r >= '0' && r <= '9')
}

// needGap tells whether two adjacent tokens would be read differently when written without a gap.
func needGap(a, b PTok) bool {
	ra, _ := utf8.DecodeLastRuneInString(a.Text)
	rb, _ := utf8.DecodeRuneInString(b.Text)
	if isWordRune(ra) && isWordRune(rb) {
		return true
	}
	if a.Kind == "NUM" && (isWordRune(rb) || rb == '.') {
		return true
	}
	if (a.Text == "<" && (rb == '>' || rb == '=')) || (a.Text == ">" && rb == '=') || (a.Text == "/" && rb == '/') {
		return true
	}
	if (a.Kind == "DATE" || a.Kind == "STR") && (b.Kind == "STR" || b.Kind == "DATE") {
		return true
	}
	return false
}

const (
	styleSpace   = iota // one space between tokens, a line break after ;
	styleGlue           // no gap where none is needed
	styleLines          // every token on its own line
	styleCRLF           // random blanks, CRLF
	styleBlank          // random blanks
	styleComment        // random blanks, comments, regions
	styleTight          // mixture of all
	nStyles
)

var styleName = []string{"space", "glue", "lines", "crlf", "blank", "comment", "tight"}

func gap(rng *rand.Rand, style int, a, b PTok, first, last bool) string {
	need := !first && !last && needGap(a, b)
	blank := func() string {
		n := 1 + rng.Intn(3)
		s := ""
		for i := 0; i < n; i++ {
			s += []string{" ", "  ", "\t", "\n", "\n\n", " \n\t", "\r\n", "        "}[rng.Intn(8)]
		}
		return s
	}
	comment := func() string {
		s := ""
		for n := 1 + rng.Intn(3); n > 0; n-- {
			switch rng.Intn(8) {
			case 0:
				s += "// комментарий Если \" ' ; \n"
			case 1:
				s += "// комм\rентарий\xff = \r\n"
			case 2:
				s += "//\n"
			case 3:
				s += "\n#Область Имя \"х\n"
			case 4:
				s += "\n\t#КонецОбласти // конец\r\n"
			case 5:
				s += "\n#Если Клиент Тогда\n//x\n\n"
			case 6:
				s += " /// КонецПроцедуры\r\n\t"
			case 7:
				s += blank()
			}
		}
		if strings.HasPrefix(s, "/") && (a.Text == "/" || first) {
			s = " " + s
		}
		return s
	}
	switch style {
	case styleSpace:
		if first || last {
			return ""
		}
		if a.Text == ";" {
			return "\n"
		}
		return " "
	case styleGlue:
		if need {
			return " "
		}
		return ""
	case styleLines:
		if first {
			return ""
		}
		return "\n"
	case styleCRLF:
		if !need && rng.Intn(3) == 0 {
			return ""
		}
		return []string{" ", "\r\n", "\t", "\r\n\r\n", " \r\n "}[rng.Intn(5)]
	case styleBlank:
		if !need && rng.Intn(4) == 0 {
			return ""
		}
		return blank()
	case styleComment:
		if !need && rng.Intn(4) == 0 {
			return ""
		}
		if rng.Intn(3) == 0 {
			return comment()
		}
		return blank()
	default:
		switch rng.Intn(4) {
		case 0:
			if !need {
				return ""
			}
			return " "
		case 1:
			return comment()
		case 2:
			return blank()
		}
		return " "
	}
}

// far is a gap of a size that does not occur in ordinary programs.
func far(rng *rand.Rand) string {
	n := []int{70, 130, 260, 1030, 4100, 8200, 17000, 66000}[rng.Intn(8)]
	switch rng.Intn(5) {
	case 0:
		return strings.Repeat("\n", n)
	case 1:
		return strings.Repeat("\t", n)
	case 2:
		return " //" + strings.Repeat("ы", n) + "\n"
	case 3:
		return strings.Repeat("\r\n", n)
	}
	return strings.Repeat(" ", n)
}

func render(rng *rand.Rand, style int, toks []PTok) *Src {
	b := &strings.Builder{}
	s := &Src{}
	farAt := -1
	if style >= styleBlank && rng.Intn(150) == 0 && len(toks) > 0 {
		farAt = rng.Intn(len(toks))
	}
	for i, t := range toks {
		var prev PTok
		if i > 0 {
			prev = toks[i-1]
		}
		b.WriteString(gap(rng, style, prev, t, i == 0, false))
		if i == farAt {
			b.WriteString(far(rng))
		}
		s.Start = append(s.Start, b.Len())
		b.WriteString(t.Text)
		s.End = append(s.End, b.Len())
	}
	if len(toks) > 0 {
		b.WriteString(gap(rng, style, toks[len(toks)-1], PTok{}, false, true))
	}
	s.Text = b.String()
	return s
}
