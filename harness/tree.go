package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// N is a tree in the vocabulary of the specification (Bsl.tla).
type N struct {
	Tag string
	S   []string
	K   []*N
}

func mk(tag string, s []string, k ...*N) *N { return &N{tag, s, k} }

var nilN = mk("nil", nil)

func (n *N) write(b *strings.Builder) {
	b.WriteByte('(')
	b.WriteString(n.Tag)
	for _, s := range n.S {
		b.WriteByte(' ')
		b.WriteString(strconv.Quote(s))
	}
	for _, k := range n.K {
		b.WriteByte(' ')
		if k == nil {
			b.WriteString("!")
		} else {
			k.write(b)
		}
	}
	b.WriteByte(')')
}

func (n *N) String() string {
	if n == nil {
		return "!"
	}
	b := &strings.Builder{}
	n.write(b)
	return b.String()
}

// Module of the specification: module variables and the body.
type Module struct {
	G    []*N // (gvar name dir exp)
	Body *N   // (body ...)
}

func (m *Module) String() string {
	return "G" + mk("g", nil, sortedN(m.G)...).String() + "\n" + m.Body.String()
}

func sortedN(g []*N) []*N {
	r := append([]*N{}, g...)
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func boolS(b bool) string {
	if b {
		return "T"
	}
	return "F"
}

func numN(f float64) *N {
	sign := "0"
	if strings.HasPrefix(strconv.FormatFloat(f, 'g', -1, 64), "-") {
		sign = "1"
		f = -f
	}
	if f == 0 {
		sign = "0" // zero has no sign
	}
	return mk("num", []string{sign, strconv.FormatFloat(f, 'g', -1, 64)})
}

func minus(n *N) *N {
	s := "1"
	if n.S[0] == "1" || n.S[1] == "0" {
		s = "0"
	}
	return mk("num", []string{s, n.S[1]})
}

func dateN(t time.Time) *N {
	return mk("date", []string{t.UTC().Format("2006-01-02T15:04:05.999999999")})
}

// ---------------------------------------------------------------------------
// Real trees -> N

var opNames = map[ast.OperationType]string{
	ast.OpPlus: "+", ast.OpMinus: "-", ast.OpMul: "*", ast.OpDiv: "/", ast.OpEq: "=", ast.OpGt: ">", ast.OpLt: "<",
	ast.OpNe: "<>", ast.OpLe: "<=", ast.OpGe: ">=", ast.OpMod: "%", ast.OpOr: "Or", ast.OpAnd: "And",
}

// The signs of a node are kept in fields the package does not document.  They
// are looked up by name; should the names change, they are found by comparing
// a signed with an unsigned parse.
var flagNames = [2][]string{{"IsUnaryMinus", "UnaryMinus", "unaryMinus"}, {"IsNot", "Not", "not"}}

func boolFields(v reflect.Value, path string, f func(path, name string, b bool)) {
	if v.Kind() != reflect.Struct {
		return
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		switch {
		case sf.Type.Kind() == reflect.Bool:
			f(path+"."+sf.Name, sf.Name, v.Field(i).Bool())
		case sf.Type.Kind() == reflect.Struct && (sf.Anonymous || sf.PkgPath != ""):
			boolFields(v.Field(i), path+"."+sf.Name, f)
		}
	}
}

var probed = map[string][2]string{} // type name -> field paths

func probeFlags() {
	operands := []string{"ъ", "ъ()", "ъ.ъ", "ъ[1]", "(ъ)", "?(ъ,ъ,ъ)"}
	get := func(src string) reflect.Value {
		a := ast.NewAST(src)
		if a.Parse() != nil || len(a.Body) != 1 {
			return reflect.Value{}
		}
		as, ok := a.Body[0].(ast.AssignmentStatement)
		if !ok || len(as.Expr.Statements) != 1 {
			return reflect.Value{}
		}
		return reflect.Indirect(reflect.ValueOf(as.Expr.Statements[0]))
	}
	diff := func(a, b reflect.Value) string {
		if !a.IsValid() || !b.IsValid() || a.Type() != b.Type() {
			return ""
		}
		base := map[string]bool{}
		boolFields(a, "", func(p, _ string, v bool) { base[p] = v })
		res := ""
		boolFields(b, "", func(p, _ string, v bool) {
			if base[p] != v {
				res = p
			}
		})
		return res
	}
	try := func(plain, minus, not string) {
		defer func() { _ = recover() }()
		p := get("ъ = " + plain)
		if !p.IsValid() {
			return
		}
		probed[p.Type().Name()] = [2]string{diff(p, get("ъ = "+minus)), diff(p, get("ъ = "+not))}
	}
	for _, o := range operands {
		try(o, "-"+o, "Не "+o)
	}
	// НЕ over an operation
	try("ъ = 1", "", "Не ъ = 1")
}

func flagsOf(v reflect.Value) (neg, not bool) {
	var found [2]bool
	var val [2]bool
	pr := probed[v.Type().Name()]
	boolFields(v, "", func(path, name string, b bool) {
		for i := 0; i < 2; i++ {
			for _, fn := range flagNames[i] {
				if fn == name {
					found[i], val[i] = true, val[i] || b
				}
			}
		}
	})
	boolFields(v, "", func(path, name string, b bool) {
		for i := 0; i < 2; i++ {
			if !found[i] && pr[i] == path {
				val[i] = b
			}
		}
	})
	return val[0], val[1]
}

func wrap(v reflect.Value, n *N) *N {
	neg, not := flagsOf(v)
	if neg {
		n = mk("neg", nil, n)
	}
	if not {
		n = mk("not", nil, n)
	}
	return n
}

func realList(tag string, l ast.Statements) *N {
	r := mk(tag, nil)
	for _, s := range l {
		r.K = append(r.K, realN(s))
	}
	return r
}

func realArgs(l ast.Statements) []*N {
	if len(l) == 1 && l[0] == nil {
		return nil
	}
	return realList("", l).K
}

func isNilValue(s interface{}) bool {
	if s == nil {
		return true
	}
	v := reflect.ValueOf(s)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func realN(s ast.Statement) *N {
	if isNilValue(s) {
		return nilN
	}
	rv := reflect.Indirect(reflect.ValueOf(s))
	switch v := rv.Interface().(type) {
	case string:
		return mk("str", []string{v})
	case float64:
		return numN(v)
	case bool:
		return mk("bool", []string{boolS(v)})
	case time.Time:
		return dateN(v)
	case ast.UndefinedStatement:
		return mk("undef", nil)
	case ast.VarStatement:
		return wrap(rv, mk("var", []string{v.Name}))
	case ast.MethodStatement:
		return wrap(rv, mk("call", []string{v.Name}, realArgs(v.Param.Statements)...))
	case ast.CallChainStatement:
		return wrap(rv, mk("chain", nil, realN(v.Call), realN(v.Unit)))
	case ast.ItemStatement:
		return wrap(rv, mk("idx", nil, realN(v.Object), realN(v.Item)))
	case ast.NewObjectStatement:
		return mk("new", []string{v.Constructor}, realArgs(v.Param.Statements)...)
	case ast.TernaryStatement:
		return wrap(rv, mk("tern", nil, realN(v.Expression), realN(v.TrueBlock), realN(v.ElseBlock)))
	case ast.ExprStatements:
		return wrap(rv, realList("par", v.Statements))
	case ast.ExpStatement:
		op, ok := opNames[v.Operation]
		if !ok {
			op = fmt.Sprintf("op%d", v.Operation)
		}
		return wrap(rv, mk("bin", []string{op}, realN(v.Left), realN(v.Right)))
	case ast.AssignmentStatement:
		if len(v.Expr.Statements) != 1 {
			return mk("assign", []string{"?"}, realN(v.Var), realN(v.Expr))
		}
		return mk("assign", nil, realN(v.Var), realN(v.Expr.Statements[0]))
	case ast.IfStatement:
		r := mk("if", nil, mk("br", nil, realN(v.Expression), realList("body", v.TrueBlock)))
		for _, e := range v.IfElseBlock {
			ei, ok := e.(*ast.IfStatement)
			if !ok {
				r.K = append(r.K, mk("?", []string{fmt.Sprintf("%T", e)}))
				continue
			}
			b := mk("br", nil, realN(ei.Expression), realList("body", ei.TrueBlock))
			if len(ei.IfElseBlock) > 0 || len(ei.ElseBlock) > 0 {
				b.S = []string{"unexpected nested branches"}
			}
			r.K = append(r.K, b)
		}
		r.K = append(r.K, realList("body", v.ElseBlock))
		return r
	case ast.LoopStatement:
		body := realList("body", v.Body)
		set := 0
		for _, x := range []ast.Statement{v.WhileExpr, v.In, v.To} {
			if x != nil {
				set++
			}
		}
		if set != 1 {
			return mk("?loop", nil, realN(v.WhileExpr), realN(v.For), realN(v.In), realN(v.To), body)
		}
		switch {
		case v.WhileExpr != nil:
			if v.For != nil {
				return mk("?loop", nil, realN(v.WhileExpr), realN(v.For), body)
			}
			return mk("while", nil, realN(v.WhileExpr), body)
		case v.In != nil:
			name, ok := v.For.(string)
			if !ok {
				return mk("?loop", nil, realN(v.For), realN(v.In), body)
			}
			return mk("foreach", []string{name}, realN(v.In), body)
		default:
			return mk("for", nil, realN(v.For), realN(v.To), body)
		}
	case ast.TryStatement:
		return mk("try", nil, realList("body", v.Body), realList("body", v.Catch))
	case ast.ThrowStatement:
		return mk("throw", nil, realN(v.Param))
	case ast.ReturnStatement:
		return mk("return", nil, realN(v.Param))
	case ast.BreakStatement:
		return mk("break", nil)
	case ast.ContinueStatement:
		return mk("continue", nil)
	case ast.GoToStatement:
		if v.Label == nil {
			return mk("goto", []string{"?"})
		}
		return mk("goto", []string{v.Label.Name})
	case ast.GoToLabelStatement:
		return mk("label", []string{v.Name})
	case ast.FunctionOrProcedure:
		kind := "?"
		switch v.Type {
		case ast.PFTypeFunction:
			kind = "Function"
		case ast.PFTypeProcedure:
			kind = "Procedure"
		}
		params := mk("params", nil)
		for _, p := range v.Params {
			params.K = append(params.K, mk("param", []string{p.Name, boolS(p.IsValue)}, realN(p.Default)))
		}
		locals := mk("locals", nil)
		for name, l := range v.ExplicitVariables {
			if l.Name != name {
				name += "≠" + l.Name
			}
			locals.S = append(locals.S, name)
		}
		sort.Strings(locals.S)
		return mk("func", []string{kind, v.Name, v.Directive, boolS(v.Export)}, params, locals, realList("body", v.Body))
	case ast.Statements:
		return realList("list", v)
	case ast.GlobalVariables:
		return mk("gvar", []string{v.Var.Name, v.Directive, boolS(v.Export)})
	}
	return mk("?", []string{fmt.Sprintf("%T", s)})
}

func realModule(a *ast.AstNode) *Module {
	m := &Module{Body: realList("body", a.ModuleStatement.Body)}
	for name, g := range a.ModuleStatement.GlobalVariables {
		n := realN(g)
		if g.Var.Name != name {
			n.S = append(n.S, "≠"+name)
		}
		m.G = append(m.G, n)
	}
	return m
}

// ---------------------------------------------------------------------------
// Normal form (Norm of BslTree.tla)

func norm(n *N) *N {
	k := make([]*N, len(n.K))
	for i, c := range n.K {
		k[i] = norm(c)
	}
	switch n.Tag {
	case "par":
		if len(k) == 1 {
			return k[0]
		}
	case "neg":
		switch k[0].Tag {
		case "num":
			return minus(k[0])
		case "neg":
			return k[0].K[0]
		}
	case "not":
		switch k[0].Tag {
		case "bool":
			s := "T"
			if k[0].S[0] == "T" {
				s = "F"
			}
			return mk("bool", []string{s})
		case "not":
			return k[0].K[0]
		}
	}
	return &N{n.Tag, n.S, k}
}

func normModule(m *Module) *Module { return &Module{m.G, norm(m.Body)} }

var exprTags = map[string]bool{"nil": true, "var": true, "num": true, "str": true, "date": true, "bool": true, "undef": true,
	"neg": true, "not": true, "par": true, "bin": true, "chain": true, "call": true, "idx": true, "new": true, "tern": true}

// names of an expression in text order
func yield(n *N, out *[]string) {
	switch n.Tag {
	case "var", "str", "date", "label", "goto":
		*out = append(*out, n.S[0])
	case "num":
		*out = append(*out, n.S[1])
	case "call", "new":
		*out = append(*out, n.S[0])
	}
	for _, k := range n.K {
		yield(k, out)
	}
}

// skeleton keeps the statement structure and reduces expressions to their names.
func skeleton(n *N) *N {
	if exprTags[n.Tag] {
		if n.Tag == "nil" {
			return n
		}
		var names []string
		yield(n, &names)
		return mk("e", names)
	}
	r := &N{n.Tag, n.S, nil}
	if n.Tag == "func" {
		return mk("func", n.S[:2], skeleton(n.K[2]))
	}
	for _, k := range n.K {
		r.K = append(r.K, skeleton(k))
	}
	return r
}

// headers keeps declarations only.
func headers(m *Module) *Module {
	r := &Module{G: m.G, Body: mk("body", nil)}
	for _, s := range m.Body.K {
		if s.Tag == "func" {
			r.Body.K = append(r.Body.K, mk("func", s.S, s.K[0], s.K[1]))
		}
	}
	return r
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 120
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return strings.ToValidUTF8(s[lo:hi], "")
	}
	return fmt.Sprintf("expected …%s… got …%s…", cut(a), cut(b))
}
