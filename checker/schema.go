package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- program schemata
//
// A schema is a syntax tree of the language whose leaves are calls of abstract host functions ("holes"): a
// hole stands for an arbitrary sub-expression that delivers one unknown value (or fails). The interpreter's
// own code (generator + VM) is then analysed on the schema by abstract interpretation.

type sx struct {
	k    byte // s symbol, i int, t string, l list, a array, b bool, n null, c comment, v reference value
	s    string
	i    int64
	kids []*sx
	v    rv
}

func (x *sx) String() string {
	switch x.k {
	case 's':
		return x.s
	case 'i':
		return strconv.FormatInt(x.i, 10)
	case 't':
		return strconv.Quote(x.s)
	case 'b':
		return x.s
	case 'n':
		return "nil"
	case 'q':
		return x.s
	case '!':
		return "!"
	case '*':
		return "*"
	case ';':
		return ";"
	case 'c':
		return "/*comment*/"
	}
	var a []string
	for _, k := range x.kids {
		a = append(a, k.String())
	}
	if x.k == 'a' {
		return "[" + strings.Join(a, " ") + "]"
	}
	if x.k == 'l' && len(x.kids) == 2 && x.kids[0].k == 's' {
		switch x.kids[0].s {
		case "syntaxQuote":
			return "^" + x.kids[1].String()
		case "unquote":
			return "~" + x.kids[1].String()
		case "unquote-splicing":
			return "~@" + x.kids[1].String()
		}
	}
	return "(" + strings.Join(a, " ") + ")"
}

func sList(k ...*sx) *sx          { return &sx{k: 'l', kids: k} }
func sSym(n string) *sx           { return &sx{k: 's', s: n} }
func (x *sx) isSym(n string) bool { return x.k == 's' && x.s == n }

type sxReader struct {
	s string
	p int
}

func parseSchema(s string) []*sx {
	r := &sxReader{s: s}
	var out []*sx
	for {
		r.ws()
		if r.p >= len(r.s) {
			return out
		}
		out = append(out, r.one())
	}
}

func (r *sxReader) ws() {
	for r.p < len(r.s) && strings.ContainsRune(" \t\n", rune(r.s[r.p])) {
		r.p++
	}
}

func (r *sxReader) seq(end byte) []*sx {
	var k []*sx
	for {
		r.ws()
		if r.p >= len(r.s) {
			panic("schema: unterminated " + r.s)
		}
		if r.s[r.p] == end {
			r.p++
			return k
		}
		k = append(k, r.one())
	}
}

func (r *sxReader) one() *sx {
	r.ws()
	c := r.s[r.p]
	switch c {
	case '(':
		r.p++
		return &sx{k: 'l', kids: r.seq(')')}
	case '[':
		r.p++
		return &sx{k: 'a', kids: r.seq(']')}
	case '{':
		r.p++
		k := r.seq('}')
		x := sList(sSym("infix"))
		if len(k) > 0 {
			x.kids = append(x.kids, &sx{k: 'a', s: "infix", kids: k})
		}
		return x
	case ';':
		r.p++
		return &sx{k: ';'}
	case '^':
		r.p++
		return sList(sSym("syntaxQuote"), r.one())
	case '\'':
		if rs := []rune(r.s[r.p+1:]); len(rs) > 1 && rs[1] == '\'' {
			r.p += 2 + len(string(rs[0]))
			return &sx{k: 'q', v: rLit{"SexpChar", IntV(rs[0])}, s: "'" + string(rs[0]) + "'"}
		}
		r.p++
		return sList(sSym("quote"), r.one())
	case '~':
		r.p++
		if r.s[r.p] == '@' {
			r.p++
			return sList(sSym("unquote-splicing"), r.one())
		}
		return sList(sSym("unquote"), r.one())
	case '"':
		e := strings.IndexByte(r.s[r.p+1:], '"')
		t := r.s[r.p+1 : r.p+1+e]
		r.p += e + 2
		return &sx{k: 't', s: t}
	}
	b := r.p
	for r.p < len(r.s) && !strings.ContainsRune(" \t\n()[]{};", rune(r.s[r.p])) {
		r.p++
	}
	t := r.s[b:r.p]
	if n, err := strconv.ParseInt(t, 10, 64); err == nil {
		return &sx{k: 'i', i: n}
	}
	if strings.HasSuffix(t, "ULL") {
		if n, err := strconv.ParseUint(t[:len(t)-3], 10, 64); err == nil {
			return &sx{k: 'q', v: rLit{"SexpUint64", IntV(n)}, s: t}
		}
	}
	if t[0] >= '0' && t[0] <= '9' || len(t) > 1 && t[0] == '-' && t[1] >= '0' && t[1] <= '9' {
		if x, err := strconv.ParseFloat(t, 64); err == nil {
			return &sx{k: 'q', v: rLit{"SexpFloat", FltV(x)}, s: t}
		}
	}
	switch t {
	case "true", "false":
		return &sx{k: 'b', s: t}
	case "nil":
		return &sx{k: 'n'}
	case "COMMENT":
		return &sx{k: 'c'}
	case "!!":
		return &sx{k: '!'}
	case "**any":
		return &sx{k: '*'}
	}
	return &sx{k: 's', s: t}
}

// Build constructs the syntax tree in the abstract heap exactly as the parser would.
func (f *Fix) Build(st *State, x *sx) Value {
	switch x.k {
	case ';':
		return f.Sexp(f.Obj(st, "SexpSemicolon"), "SexpSemicolon")
	case 's':
		if x.s == ":" || x.s == ":=" {
			return f.Sym(st, x.s)
		}
		if strings.HasSuffix(x.s, ":") {
			v := f.Sym(st, strings.TrimSuffix(x.s, ":"))
			f.E.SetField(st, v.(IfaceV).V, f.T("SexpSymbol"), "colonTail", BoolV(true))
			return v
		}
		if strings.Contains(x.s, ".") {
			m := f.P.Method("Zlisp", "MakeDotSymbol")
			outs, err := f.E.Run(m, []Value{f.Env, StrV(x.s)}, st)
			if err != nil || len(outs) != 1 {
				panic(budgetErr{fmt.Sprintf("MakeDotSymbol: %v", err)})
			}
			if outs[0].St != st {
				*st = *outs[0].St
			}
			return IfaceV{T: f.PT("SexpSymbol"), V: outs[0].Ret[0]}
		}
		return f.Sym(st, x.s)
	case 'i':
		return f.Int(st, IntV(x.i))
	case 't':
		return f.Str(st, StrV(x.s))
	case 'b':
		return f.Bool(st, BoolV(x.s == "true"))
	case 'q':
		l := x.v.(rLit)
		return f.Sexp(f.Obj(st, l.kind, "Val", l.V), l.kind)
	case 'n':
		return f.Null(st)
	case 'c':
		return f.Sexp(f.Obj(st, "SexpComment", "Comment", StrV("c")), "SexpComment")
	}
	var vs []Value
	for _, k := range x.kids {
		vs = append(vs, f.Build(st, k))
	}
	if x.k == 'a' {
		v := f.Array(st, vs...)
		if x.s == "infix" {
			f.E.SetField(st, v.(IfaceV).V, f.T("SexpArray"), "Infix", BoolV(true))
		}
		return v
	}
	return f.List(st, vs...)
}

// ---------------------------------------------------------------- host holes

// HostFn models one host function of a schema.
type HostFn struct {
	Name string
	Kind byte // 'p' unknown boolean, 'h' unknown integer, 'v' fully unknown value, 'n' nil, 'q' returns first argument
	Fail bool // also fork a failure outcome
}

type hostCall struct {
	Name string
	N    int // occurrence number on this path
	Args []Value
	Res  Value // nil when failed
	Fail string
	Szs  []int
	Dep  int // depth of the interpreter's own Go call stack at the call
}

// hostEvents decodes the host-call events of a path.
func hostEvents(st *State) []hostCall {
	var r []hostCall
	for _, ev := range st.Events(nil) {
		if strings.HasPrefix(ev.Name, "host:") {
			h := ev.Args[0].(*HostV).V.(hostCall)
			r = append(r, h)
		}
	}
	return r
}

// InstallHost binds the host functions as script functions and installs their transfer function.
func (f *Fix) InstallHost(st *State, hs []HostFn, maxCalls int) *State {
	e := f.E
	e.HostMax = maxCalls
	st = st.Clone()
	for i := range hs {
		h := hs[i]
		fv := &HostV{Kind: "hostfn", V: h}
		outs, err := f.Call(st, "Zlisp", "AddFunction", f.Env, StrV(h.Name), fv)
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn {
			panic(budgetErr{fmt.Sprintf("AddFunction(%s): %v", h.Name, err)})
		}
		st = outs[0].St
	}
	e.Stubs["host:hostfn"] = func(c *Call) []Outcome {
		h := c.Args[0].(*HostV).V.(HostFn)
		env := c.Args[1]
		args, ok := c.St.Elems(c.Args[3])
		if !ok {
			return []Outcome{e.trunc(c.St, "host call with unknown arguments")}
		}
		n, tot := 0, 0
		for _, hc := range hostEvents(c.St) {
			tot++
			if hc.Name == h.Name {
				n++
			}
		}
		if tot >= e.HostMax {
			return []Outcome{e.trunc(c.St, "host call bound")}
		}
		nm := fmt.Sprintf("%s.%d", h.Name, n)
		szs := f.StackSizes(c.St, env)
		var outs []Outcome
		fin := func(st *State, v Value, fail string) {
			st.Emit("host:"+h.Name, "", &HostV{Kind: "hostcall", V: hostCall{Name: h.Name, N: n, Args: args, Res: v, Fail: fail, Szs: szs, Dep: c.Depth}})
			switch fail {
			case "":
				outs = append(outs, Outcome{St: st, Kind: kReturn, Ret: []Value{v, NilV{}}})
			case "error":
				outs = append(outs, Outcome{St: st, Kind: kReturn, Ret: []Value{f.Null(st), f.hostErr(st)}})
			case "panic":
				outs = append(outs, Outcome{St: st, Kind: kPanic, PanicV: IfaceV{T: types.Typ[types.String], V: StrV("host panic")}})
			}
		}
		if h.Fail {
			fin(c.St.Clone(), nil, "error")
			fin(c.St.Clone(), nil, "panic")
		}
		st := c.St.Clone()
		var v Value
		switch h.Kind {
		case 'p':
			v = f.Bool(st, e.Sym(nm, tBool))
		case 'h':
			v = f.Int(st, e.Sym(nm, types.Typ[types.Int64]))
		case 's':
			v = f.Str(st, e.Sym(nm, tString))
		case 'f':
			v = f.Sexp(f.Obj(st, "SexpFloat", "Val", e.Sym(nm, types.Typ[types.Float64])), "SexpFloat")
		case 'u':
			v = f.Sexp(f.Obj(st, "SexpUint64", "Val", e.Sym(nm, types.Typ[types.Uint64])), "SexpUint64")
		case 'r':
			v = f.Sexp(f.Obj(st, "SexpChar", "Val", e.Sym(nm, types.Typ[types.Int32])), "SexpChar")
		case 'n':
			v = f.Null(st)
		case 'q':
			v = f.Null(st)
			if len(args) > 0 {
				v = args[0]
			}
		case 'l':
			v = f.List(st, f.Int(st, e.Sym(nm+"a", types.Typ[types.Int64])), f.Int(st, e.Sym(nm+"b", types.Typ[types.Int64])))
		default:
			v = f.Opaque(st, nm)
		}
		fin(st, v, "")
		return outs
	}
	return st
}

func (f *Fix) hostErr(st *State) Value {
	g := f.P.Zygo.Var("WrongNargs")
	if g == nil {
		panic(budgetErr{"anchor: WrongNargs"})
	}
	return f.Global(st, "WrongNargs")
}

// StackSizes returns the depth of every *Stack field of the interpreter, in declaration order.
func (f *Fix) StackSizes(st *State, env Value) []int {
	zt := f.T("Zlisp")
	s := zt.Underlying().(*types.Struct)
	var r []int
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		if types.Identical(fd.Type(), f.PT("Stack")) {
			r = append(r, f.stackSize(st, f.E.GetField(st, env, zt, fd.Name())))
		}
	}
	return r
}

func (f *Fix) StackNames() []string {
	s := f.T("Zlisp").Underlying().(*types.Struct)
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), f.PT("Stack")) {
			r = append(r, s.Field(i).Name())
		}
	}
	return r
}

func (f *Fix) stackSize(st *State, stk Value) int {
	if isNilV(stk) {
		return -1
	}
	m := f.P.Method("Stack", "Size")
	if m == nil {
		panic(budgetErr{"anchor: Stack.Size"})
	}
	outs := f.E.CallFn(m, []Value{stk}, nil, st.Clone(), 0, nil, false)
	if len(outs) != 1 || outs[0].Kind != kReturn {
		return -2
	}
	if n, ok := outs[0].Ret[0].(IntV); ok {
		return int(n)
	}
	return -2
}

// EvalSchema evaluates forms through EvalExpressions on st.
func (f *Fix) EvalSchema(st *State, forms []*sx) ([]Outcome, error) {
	st = st.Clone()
	var vs []Value
	for _, x := range forms {
		vs = append(vs, f.Build(st, x))
	}
	return f.Call(st, "Zlisp", "EvalExpressions", f.Env, f.E.NewSlice(st, vs...))
}
