package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// Tok is a token of the specification: kind and symbolic value.
type Tok [2]string

// Vec is one state of the specification, written out by TLC.
type Vec struct {
	T    []Tok           `json:"t"`   // the tokens of the program so far
	C    []Tok           `json:"c"`   // the completion
	Sem  [][2]any        `json:"sem"` // context errors of the completed program
	G    [][3]any        `json:"g"`
	Body []any           `json:"body"`
	Bad  []string        `json:"bad"` // kinds that cannot follow T
	X    json.RawMessage `json:"x"`   // extra predictions of the profile
	raw  string
	pre  *parsed // the program has been read from a given text
}

// parsed is a text and the tree it has.
type parsed struct {
	c       *Conc
	a       *ast.AstNode
	m       *Module
	layouts func() string // the same tokens in another layout
}

func parseVec(line string) (*Vec, error) {
	s, err := strconv.Unquote(line)
	if err != nil {
		// TLC prints non-ASCII and control characters verbatim
		s = strings.ReplaceAll(strings.ReplaceAll(line[1:len(line)-1], `\"`, `"`), `\\`, `\`)
	}
	v := &Vec{}
	if err := json.Unmarshal([]byte(s), v); err != nil {
		return nil, fmt.Errorf("vector %.200s: %w", s, err)
	}
	v.raw = s
	return v, nil
}

func (v *Vec) all() []Tok { return append(append([]Tok{}, v.T...), v.C...) }

var kwText = map[string]string{
	"Procedure": "Процедура", "Function": "Функция", "EndProcedure": "КонецПроцедуры", "EndFunction": "КонецФункции",
	"Var": "Перем", "Export": "Экспорт", "Val": "Знач", "If": "Если", "Then": "Тогда", "ElseIf": "ИначеЕсли", "Else": "Иначе",
	"EndIf": "КонецЕсли", "For": "Для", "Each": "Каждого", "In": "Из", "To": "По", "While": "Пока", "Loop": "Цикл",
	"EndLoop": "КонецЦикла", "Break": "Прервать", "Continue": "Продолжить", "Try": "Попытка", "Catch": "Исключение",
	"EndTry": "КонецПопытки", "Throw": "ВызватьИсключение", "Return": "Возврат", "New": "Новый", "GoTo": "Перейти",
	"Execute": "Выполнить", "True": "Истина", "False": "Ложь", "Undef": "Неопределено", "Not": "Не", "And": "И", "Or": "Или",
}

var dirText = map[string]string{"d1": "&НаКлиенте", "d2": "&НаСервере", "d3": "&НаСервереБезКонтекста",
	"d4": "&НаКлиентеНаСервереБезКонтекста", "d5": "&НаКлиентеНаСервере"}

// Conc maps the symbols of a vector to concrete text.
type Conc struct {
	rng      *rand.Rand
	plain    bool // simplest spelling of everything
	ids      map[string]string
	nums     map[string]lit
	strs     map[string]lit
	dates    map[string]lit
	labs     map[string]string
	dirs     map[string]string
	kw       map[string]string
	declared map[string]bool // symbols of declared variables
	share    bool            // other names may be the same
	// mixKw: every occurrence of a keyword is spelled anew where the spelling cannot be seen in the tree
	mixKw bool
}

type lit struct {
	text    string // as written in the source
	literal string // literal of the token
	n       *N
}

func newConc(rng *rand.Rand, plain bool) *Conc {
	return &Conc{share: !plain && rng.Intn(4) == 0, declared: map[string]bool{}, rng: rng, plain: plain, ids: map[string]string{}, nums: map[string]lit{}, strs: map[string]lit{},
		dates: map[string]lit{}, labs: map[string]string{}, dirs: map[string]string{}, kw: map[string]string{}, mixKw: !plain}
}

var special = map[string]int{"a": 901, "b": 902, "c": 903, "d": 904, "q": 905, "z": 906, "p": 907, "f": 908}

// number of a symbolic value: "n12" -> 12, "12" -> 12, "a" -> 901
func symNum(s string) int {
	if n, ok := special[s]; ok {
		return n
	}
	n, err := strconv.Atoi(strings.TrimLeft(s, "nsdm"))
	if err != nil {
		panic("symbol " + s)
	}
	return n
}

var idPrefixes = []string{"Н", "н", "Abc", "x", "_", "Если", "КонецЕсли", "и", "или", "НЕ", "Ё", "ёж_", "Процедура", "Цикл_", "истинаA",
	"Ы", "По", "Из", "Возврат", "Новый", "ПроизвольноеДлинноеИмяПеременнойМодуля", "zЯ", "Новый_", "é", "名", "Выполнить", "знач", "_Не"}

// names that occur in many programs and many times in one, in any case
var commonNames = []string{"Количество", "i", "Запрос", "СтруктураПараметровЗаписиДокумента", "ОбъектКонфигурацииИнформационнойБазы", "Item_1", "ВыборкаДетальныеЗаписи",
	"Сообщить", "Истина_", "ёлка", "Нет", "ThisIsAVeryLongIdentifierOfTheModule2", "Поле1", "Отказ",
	// words of 1C or of other languages that are no keywords here
	"If", "And", "Or", "Not", "While", "For", "Each", "Var", "Procedure", "EndProcedure", "Function", "EndFunction", "EndIf", "Return", "True", "False", "Undefined", "New", "Try",
	"Except", "Export", "Val", "To", "In", "Do", "Then", "Else", "ElsIf", "Break", "Continue", "Goto", "Execute", "Вычислить", "Eval", "Массив", "Структура", "Соответствие",
	"ДобавитьОбработчик", "УдалитьОбработчик", "Асинх", "Ждать", "Async", "Await", "Null", "Область", "КонецОбласти", "Модуль", "Метаданные", "ЭтотОбъект", "init", "func", "nil", "eof",
	"наклиенте", "НаСервере", "Конец", "ИначеЕсл", "КаждогоИз", "Лож", "Истинно", "Неопределен", "о", "ы", "Z", "__", "Ввод", "ЕслиТогда", "Перехват"}

func (c *Conc) pick(s []string) string { return s[c.rng.Intn(len(s))] }

func randCase(rng *rand.Rand, s string) string {
	r := []rune(s)
	switch rng.Intn(5) {
	case 0:
		return s
	case 1:
		return lower(s)
	case 2:
		return upper(s)
	}
	for i := range r {
		if rng.Intn(2) == 0 {
			r[i] = []rune(upper(string(r[i])))[0]
		} else {
			r[i] = []rune(lower(string(r[i])))[0]
		}
	}
	return string(r)
}

// lower/upper fold Latin and Russian letters (Fold.tla), written independently of the code under test.
func lower(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
			return r + 32
		case r == 'Ё':
			return 'ё'
		}
		return r
	}, s)
}

func upper(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'а' && r <= 'я':
			return r - 32
		case r == 'ё':
			return 'Ё'
		}
		return r
	}, s)
}

func (c *Conc) id(sym string) string {
	if t, ok := c.ids[sym]; ok {
		return t
	}
	var t string
	if c.share && !c.declared[sym] && special[sym] == 0 && sym[0] != '^' && c.rng.Intn(2) == 0 {
		t = randCase(c.rng, c.pick(commonNames))
	} else if strings.HasPrefix(sym, "^") {
		base := c.id(sym[1:])
		t = upper(base)
		if t == base {
			t = lower(base)
		}
	} else {
		p := "Н"
		if !c.plain {
			p = c.pick(idPrefixes)
			if c.rng.Intn(40) == 0 {
				p = strings.Repeat(p, 1+c.rng.Intn(40))
			}
			if n := strings.TrimRight(p, "0123456789"); n != p {
				p = n
			}
		}
		t = p + strconv.Itoa(symNum(sym))
		if !c.plain && c.rng.Intn(4) == 0 {
			t += "я"
		}
		if sym != "" && special[sym] > 0 && lower(t) == t && upper(t) == t {
			t = "А" + t
		}
	}
	c.ids[sym] = t
	return t
}

func (c *Conc) keyword(kind string) string {
	if c.plain {
		return kwText[kind]
	}
	if c.mixKw && kind != "Execute" {
		return randCase(c.rng, kwText[kind])
	}
	return c.fixedKw(kind)
}

// spelling of a keyword that is visible in the tree (after a dot, Выполнить)
func (c *Conc) fixedKw(kind string) string {
	if c.plain {
		return kwText[kind]
	}
	if t, ok := c.kw[kind]; ok {
		return t
	}
	t := randCase(c.rng, kwText[kind])
	c.kw[kind] = t
	return t
}

// literals at the edges of what there is
var (
	oddNumbers = []string{"0", "0.0", "00", "0.1", "0.7", "1.10", "2.50", "0.30000000000000004", "0.12345678901234567", "0.000001", "0.0000000000000000123",
		"9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "99999999999999999999.99",
		"2147483648", "4294967296", "16777217", "1000000000000000000000", "000000000000000000000000001", "3.0000000000000000000000000001", "1234567.891",
		"100000", "1000000", "20000000000000000000000", "0." + strings.Repeat("0", 60) + "7", strings.Repeat("9", 300)}
	oddStrings = [][2]string{{"", ""}, {`""`, `""`}, {" ", " "}, {"\t", "\t"}, {"Истина", "Истина"}, {"Конец\n|Если", "Конец\n|Если"}, {"|", "|"}, {"\n|", "\n|"}, {"'", "'"},
		{"//", "//"}, {"#Если", "#Если"}, {"0", "0"}, {"20240101", "20240101"}, {"%", "%"}, {"%s%d%!v", "%s%d%!v"}, {"$1 \\1 \\n", "$1 \\1 \\n"}, {"<nil>", "<nil>"},
		{"Неопределено", "Неопределено"}, {"&НаКлиенте", "&НаКлиенте"}, {"~м:", "~м:"}, {"   ", "   "}, {"\n\t|\t", "\n|\t"}, {"(", "("}, {"))", "))"}, {";\n|;", ";\n|;"},
		{`а""б""в`, `а""б""в`}, {`""а`, `""а`}, {`а""`, `а""`}, {"\n|//\n|#", "\n|//\n|#"}, {"null", "null"}, {"\u00a0", "\u00a0"}, {"\ufeff", "\ufeff"}, {"e\u0301", "e\u0301"}, {"\u2028", "\u2028"}, {"\x00", "\x00"}, {"\x7f", "\x7f"},
		{`\u2028`, `\u2028`}, {`\u003c\u003e\u0026`, `\u003c\u003e\u0026`}, {`\`, `\`}, {`\\`, `\\`}, {`\""`, `\""`}, {"&lt;&amp;", "&lt;&amp;"}, {"<>&", "<>&"}, {`\t\r`, `\t\r`}, {`\x00`, `\x00`}, {"{{.}}", "{{.}}"}, {"#{1}", "#{1}"}}
	oddDates = []string{"00000000", "00000000000000", "00010101", "00010101000001", "99991231235959", "20240229", "20000229120000", "19000228", "20231231235959", "20240101120000",
		"20240101000001", "19700101", "19700101000000", "20380119031408", "20240331020000", "18991230", "202402290000", "200002292359", "16000229", "01000101"}
)

func (c *Conc) num(sym string) lit {
	if l, ok := c.nums[sym]; ok {
		return l
	}
	n := symNum(sym)
	t := strconv.Itoa(n)
	if !c.plain && c.rng.Intn(6) == 0 {
		t = c.pick(oddNumbers)
	} else if !c.plain {
		switch c.rng.Intn(8) {
		case 0:
			t += ".5"
		case 1:
			t += ".25"
		case 2:
			t = "00" + t
		case 3:
			t += "000000"
		case 4:
			t += ".0625"
		case 5:
			t += "00000000000.125"
		}
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		panic(err)
	}
	l := lit{t, t, numN(f)}
	c.nums[sym] = l
	return l
}

func (c *Conc) str(sym string) lit {
	if l, ok := c.strs[sym]; ok {
		return l
	}
	n := strconv.Itoa(symNum(sym))
	src, val := "с"+n, "с"+n
	if !c.plain && c.rng.Intn(5) == 0 {
		o := oddStrings[c.rng.Intn(len(oddStrings))]
		src, val = o[0], o[1]
	} else if !c.plain {
		switch c.rng.Intn(14) {
		case 0:
			src, val = `а""`+n, `а""`+n
		case 1:
			src, val = "// не комментарий "+n, "// не комментарий "+n
		case 2:
			src, val = "стр "+n+"\n|вторая", "стр "+n+"\n|вторая"
		case 3:
			src, val = n+"\n\t |;Если\n  // пропуск\n|\"\"x\"\"", n+"\n|;Если\n|\"\"x\"\""
		case 4:
			src, val = "'"+n+"' #Область & ~ |", "'"+n+"' #Область & ~ |"
		case 5:
			src, val = "  "+n+"  ", "  "+n+"  "
		case 6:
			src, val = n+" КонецПроцедуры; Возврат (", n+" КонецПроцедуры; Возврат ("
		case 7:
			src, val = "\t<"+n+"> & \\n \\ 名 é 😀", "\t<"+n+"> & \\n \\ 名 é 😀"
		case 8:
			src, val = `""""`+n+`""`, `""""`+n+`""`
		case 9:
			src, val = strings.Repeat("длинная ", 1+c.rng.Intn(60))+n, ""
			val = src
		case 10:
			src, val = n+"\n|\n|\n|", n+"\n|\n|\n|"
		}
	}
	l := lit{`"` + src + `"`, val, mk("str", []string{val})}
	c.strs[sym] = l
	return l
}

func (c *Conc) date(sym string) lit {
	if l, ok := c.dates[sym]; ok {
		return l
	}
	n := symNum(sym)
	t := time.Date(2000+n%1000, time.Month(1+n%12), 1+n%28, 0, 0, 0, 0, time.UTC)
	text := t.Format("20060102")
	if !c.plain && c.rng.Intn(4) == 0 {
		text = c.pick(oddDates)
		t = time.Time{}
		if strings.Trim(text, "0") != "" {
			t, _ = time.Parse("20060102150405"[:len(text)], text)
		}
	} else if !c.plain {
		switch c.rng.Intn(6) {
		case 0:
			t = t.Add(time.Duration(n%24)*time.Hour + time.Duration(n%60)*time.Minute)
			text = t.Format("200601021504")
		case 1:
			t = t.Add(time.Duration(n%24)*time.Hour + time.Duration(n%60)*time.Minute + time.Duration(n*7%60)*time.Second)
			text = t.Format("20060102150405")
		case 2:
			t = t.Add(time.Duration(n%24)*time.Hour + time.Duration(n%60)*time.Minute + time.Duration(n*7%60)*time.Second)
			text = t.Format("2006-01-02T15:04:05")
		case 3:
			text = t.Format("2006.01.02")
		}
	}
	l := lit{"'" + text + "'", onlyDigits(text), dateN(t)}
	c.dates[sym] = l
	return l
}

func onlyDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, s)
}

var labPrefixes = []string{"М", "Метка", "Если", "_", "label", "Конец", "ц"}

func (c *Conc) label(sym string) string {
	if t, ok := c.labs[sym]; ok {
		return t
	}
	p := "М"
	if !c.plain {
		p = c.pick(labPrefixes)
	}
	t := p + strconv.Itoa(symNum(sym))
	c.labs[sym] = t
	return t
}

func (c *Conc) dir(sym string) string {
	if sym == "" {
		return ""
	}
	if t, ok := c.dirs[sym]; ok {
		return t
	}
	t := dirText[sym]
	if !c.plain {
		t = randCase(c.rng, t)
	}
	c.dirs[sym] = t
	return t
}

func opText(k string) string { return k }

// PTok is a concrete token.
type PTok struct {
	Kind, Text, Lit string
}

// toks makes the tokens concrete.
func (c *Conc) toks(ts []Tok) []PTok {
	r := make([]PTok, len(ts))
	decl := false
	for _, t := range ts {
		switch {
		case t[0] == "Var":
			decl = true
		case t[0] == "ID" && decl:
			c.declared[strings.TrimPrefix(t[1], "^")] = true
			c.declared[t[1]] = true
		case t[0] == "," || t[0] == "Export":
		default:
			decl = false
		}
	}
	for i, t := range ts {
		r[i] = c.tok(t, i > 0 && ts[i-1][0] == ".")
	}
	return r
}

func (c *Conc) tok(t Tok, afterDot bool) PTok {
	k := t[0]
	switch k {
	case "ID":
		s := c.id(t[1])
		return PTok{k, s, s}
	case "NUM":
		l := c.num(t[1])
		return PTok{k, l.text, l.literal}
	case "STR":
		l := c.str(t[1])
		return PTok{k, l.text, l.literal}
	case "DATE":
		l := c.date(t[1])
		return PTok{k, l.text, l.literal}
	case "LABEL":
		l := c.label(t[1])
		return PTok{k, "~" + l, l}
	case "DIR":
		l := c.dir(t[1])
		return PTok{k, l, l}
	}
	if _, ok := kwText[k]; ok {
		s := ""
		if afterDot {
			s = c.fixedKw(k)
		} else {
			s = c.keyword(k)
		}
		return PTok{k, s, s}
	}
	return PTok{k, k, k}
}

// ---------------------------------------------------------------------------
// Spec tree -> N

func (c *Conc) name(s string) string {
	if strings.HasPrefix(s, "@") {
		return c.fixedKw(s[1:])
	}
	if s == "" {
		return ""
	}
	return c.id(s)
}

func (c *Conc) list(tag string, x any) *N {
	r := mk(tag, nil)
	for _, e := range x.([]any) {
		r.K = append(r.K, c.node(e))
	}
	return r
}

func (c *Conc) args(x any) []*N {
	l := c.list("", x).K
	if len(l) == 1 && l[0].Tag == "nil" {
		return nil
	}
	return l
}

func (c *Conc) node(x any) *N {
	a := x.([]any)
	tag := a[0].(string)
	str := func(i int) string { return a[i].(string) }
	switch tag {
	case "nil":
		return nilN
	case "var":
		return mk("var", []string{c.name(str(1))})
	case "num":
		l := c.num(str(2))
		if a[1].(float64) == 1 {
			return minus(l.n)
		}
		return l.n
	case "str":
		return c.str(str(1)).n
	case "date":
		return c.date(str(1)).n
	case "bool":
		return mk("bool", []string{str(1)})
	case "undef", "break", "continue":
		return mk(tag, nil)
	case "label", "goto":
		return mk(tag, []string{c.label(str(1))})
	case "neg", "not", "return", "throw":
		return mk(tag, nil, c.node(a[1]))
	case "par":
		return c.list("par", a[1])
	case "bin":
		return mk("bin", []string{str(1)}, c.node(a[2]), c.node(a[3]))
	case "chain", "idx", "assign":
		return mk(tag, nil, c.node(a[1]), c.node(a[2]))
	case "call", "new":
		return mk(tag, []string{c.name(str(1))}, c.args(a[2])...)
	case "tern":
		return mk(tag, nil, c.node(a[1]), c.node(a[2]), c.node(a[3]))
	case "if":
		r := mk("if", nil)
		for _, b := range a[1].([]any) {
			bb := b.([]any)
			r.K = append(r.K, mk("br", nil, c.node(bb[0]), c.list("body", bb[1])))
		}
		r.K = append(r.K, c.list("body", a[2]))
		return r
	case "foreach":
		return mk(tag, []string{c.name(str(1))}, c.node(a[2]), c.list("body", a[3]))
	case "for":
		return mk(tag, nil, c.node(a[1]), c.node(a[2]), c.list("body", a[3]))
	case "while":
		return mk(tag, nil, c.node(a[1]), c.list("body", a[2]))
	case "try":
		return mk(tag, nil, c.list("body", a[1]), c.list("body", a[2]))
	case "func":
		params := mk("params", nil)
		for _, p := range a[5].([]any) {
			pp := p.([]any)
			params.K = append(params.K, mk("param", []string{c.name(pp[0].(string)), boolS(pp[1].(bool))}, c.node(pp[2])))
		}
		locals := mk("locals", nil)
		for _, l := range a[6].([]any) {
			locals.S = append(locals.S, c.name(l.(string)))
		}
		sortStrings(locals.S)
		return mk("func", []string{str(1), c.name(str(2)), c.dir(str(3)), boolS(a[4].(bool))}, params, locals, c.list("body", a[7]))
	}
	panic("spec node " + tag)
}

func (c *Conc) module(v *Vec) *Module {
	m := &Module{Body: mk("body", nil)}
	for _, g := range v.G {
		m.G = append(m.G, mk("gvar", []string{c.name(g[0].(string)), c.dir(g[1].(string)), boolS(g[2].(bool))}))
	}
	for _, b := range v.Body {
		m.Body.K = append(m.Body.K, c.node(b))
	}
	return m
}
