package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fix is an analysed interpreter instance: the abstract state after package initialisation and
// NewZlisp()/NewZlispSandbox().
type Fix struct {
	E   *Engine
	P   *Program
	St  *State
	Env Value
}

func NewFix(P *Program, ctor string) (*Fix, error) {
	e := NewEngine(P)
	installStubs(e)
	installStubs2(e)
	installStubs3(e)
	installFiles(e)
	installCoro(e)
	st, err := e.InitPackage(newState())
	if err != nil {
		return nil, err
	}
	f := &Fix{E: e, P: P, St: st}
	if ctor == "" {
		return f, nil
	}
	fn := P.Func(ctor)
	if fn == nil {
		return nil, fmt.Errorf("anchor: function %s not found", ctor)
	}
	outs, err := e.Run(fn, nil, st)
	if err != nil {
		return nil, err
	}
	var ok []Outcome
	for _, o := range outs {
		if o.Kind == kReturn {
			ok = append(ok, o)
		}
	}
	if len(ok) != 1 || len(outs) != 1 {
		return nil, fmt.Errorf("%s: %d outcomes (%d normal)", ctor, len(outs), len(ok))
	}
	f.St = ok[0].St
	f.St.trace = nil
	f.Env = ok[0].Ret[0]
	return f, nil
}

// NewFixStd is NewZlisp()/NewZlispSandbox() followed by StandardSetup().
func NewFixStd(P *Program, ctor string) (*Fix, error) {
	f, err := NewFix(P, ctor)
	if err != nil {
		return nil, err
	}
	outs, err := f.Call(f.St, "Zlisp", "StandardSetup", f.Env)
	if err != nil {
		return nil, err
	}
	if len(outs) != 1 || outs[0].Kind != kReturn {
		return nil, fmt.Errorf("StandardSetup: %d outcomes %v", len(outs), showOut(outs[0]))
	}
	f.St = outs[0].St
	f.St.trace = nil
	return f, nil
}

func (f *Fix) T(name string) types.Type {
	t := f.P.Type(name)
	if t == nil {
		panic(budgetErr{"anchor: type " + name + " not found"})
	}
	return t
}
func (f *Fix) PT(name string) types.Type { return types.NewPointer(f.T(name)) }

// Obj allocates a *name with the given fields and returns the pointer.
func (f *Fix) Obj(st *State, name string, kv ...interface{}) Value {
	t := f.T(name)
	p := f.E.NewObj(st, f.E.Zero(t))
	for i := 0; i < len(kv); i += 2 {
		f.E.SetField(st, p, t, kv[i].(string), kv[i+1].(Value))
	}
	return p
}

// Sexp boxes a pointer to the named struct as a Sexp interface value.
func (f *Fix) Sexp(p Value, name string) Value { return IfaceV{T: f.PT(name), V: p} }

func (f *Fix) Int(st *State, v Value) Value { return f.Sexp(f.Obj(st, "SexpInt", "Val", v), "SexpInt") }
func (f *Fix) Uint(st *State, v Value) Value {
	return f.Sexp(f.Obj(st, "SexpUint64", "Val", v), "SexpUint64")
}
func (f *Fix) Char(st *State, v Value) Value {
	return f.Sexp(f.Obj(st, "SexpChar", "Val", v), "SexpChar")
}
func (f *Fix) Float(st *State, v Value) Value {
	return f.Sexp(f.Obj(st, "SexpFloat", "Val", v), "SexpFloat")
}
func (f *Fix) Bool(st *State, v Value) Value {
	return f.Sexp(f.Obj(st, "SexpBool", "Val", v), "SexpBool")
}
func (f *Fix) Str(st *State, v Value) Value { return f.Sexp(f.Obj(st, "SexpStr", "S", v), "SexpStr") }

func (f *Fix) Global(st *State, name string) Value {
	g := f.P.Zygo.Var(name)
	if g == nil {
		panic(budgetErr{"anchor: global " + name + " not found"})
	}
	o := f.E.globalObj(st, g)
	v, _ := st.obj(o)
	return v
}

func (f *Fix) Null(st *State) Value {
	v := f.Global(st, "SexpNull")
	if _, ok := v.(IfaceV); ok {
		return v
	}
	return IfaceV{T: f.PT("SexpSentinel"), V: v}
}

// Sym interns a symbol by interpreting MakeSymbol.
func (f *Fix) Sym(st *State, name string) Value {
	m := f.P.Method("Zlisp", "MakeSymbol")
	outs, err := f.E.Run(m, []Value{f.Env, StrV(name)}, st)
	if err != nil || len(outs) != 1 {
		panic(budgetErr{fmt.Sprintf("MakeSymbol(%q): %v %d", name, err, len(outs))})
	}
	if outs[0].St != st {
		*st = *outs[0].St
	}
	return IfaceV{T: f.PT("SexpSymbol"), V: outs[0].Ret[0]}
}

func (f *Fix) Pair(st *State, head, tail Value) Value {
	return f.Sexp(f.Obj(st, "SexpPair", "Head", head, "Tail", tail), "SexpPair")
}

func (f *Fix) List(st *State, xs ...Value) Value {
	r := f.Null(st)
	for i := len(xs) - 1; i >= 0; i-- {
		r = f.Pair(st, xs[i], r)
	}
	return r
}

func (f *Fix) Array(st *State, xs ...Value) Value {
	return f.Sexp(f.Obj(st, "SexpArray", "Val", f.E.NewSlice(st, xs...), "Env", f.Env), "SexpArray")
}

// Opaque is an unknown non-nil Sexp.
func (f *Fix) Opaque(st *State, name string) *Term {
	t := f.E.Sym(name, f.T("Sexp"))
	d := st.dyn[t.ID]
	d.NonNil = true
	st.dyn[t.ID] = d
	return t
}

func (f *Fix) EnvField(st *State, name string) Value {
	return f.E.GetField(st, f.Env, f.T("Zlisp"), name)
}

// BuiltinTable evaluates a table constructor such as AllBuiltinFunctions() to name -> function value.
func (f *Fix) BuiltinTable(ctor string) (map[string]Value, []string, error) {
	fn := f.P.Func(ctor)
	if fn == nil {
		return nil, nil, fmt.Errorf("anchor: %s not found", ctor)
	}
	st := f.St.Clone()
	outs, err := f.E.Run(fn, nil, st)
	if err != nil {
		return nil, nil, err
	}
	if len(outs) != 1 || outs[0].Kind != kReturn {
		return nil, nil, fmt.Errorf("%s: %d outcomes", ctor, len(outs))
	}
	f.St = outs[0].St
	_, mo, ok := f.E.mapOf(f.St, outs[0].Ret[0])
	if !ok || mo.Base != nil {
		return nil, nil, fmt.Errorf("%s: table not constant", ctor)
	}
	m := map[string]Value{}
	var names []string
	for _, en := range mo.Ents {
		k, ok := en.K.(StrV)
		if !ok {
			return nil, nil, fmt.Errorf("%s: non-constant key", ctor)
		}
		m[string(k)] = en.V
		names = append(names, string(k))
	}
	return m, names, nil
}

// CallValue runs a function value on a clone of st.
func (f *Fix) CallV(st *State, fn Value, args ...Value) ([]Outcome, error) {
	return f.run(func() []Outcome {
		return f.E.CallValue(st, fn, args, nil, 0, nil, false, 0)
	})
}

func (f *Fix) run(g func() []Outcome) (outs []Outcome, err error) {
	f.E.Steps = 0
	f.E.onstack = map[*ssa.Function]int{}
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				err = fmt.Errorf("undecided: %s", b.why)
				return
			}
			panic(r)
		}
	}()
	outs = g()
	return
}

// Method runs (*T).name(recv, args...).
func (f *Fix) Call(st *State, T, name string, recv Value, args ...Value) ([]Outcome, error) {
	m := f.P.Method(T, name)
	if m == nil {
		return nil, fmt.Errorf("anchor: method %s.%s not found", T, name)
	}
	return f.E.Run(m, append([]Value{recv}, args...), st)
}

// Unbox returns the pointed-to struct type name and its fields for a Sexp value.
func (f *Fix) Unbox(st *State, v Value) (string, *StructV) {
	iv, ok := v.(IfaceV)
	if !ok {
		return "", nil
	}
	pt, ok := iv.T.(*types.Pointer)
	if !ok {
		if n, ok := iv.T.(*types.Named); ok {
			s, _ := iv.V.(*StructV)
			return n.Obj().Name(), s
		}
		return "", nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok {
		return "", nil
	}
	c, _ := f.E.Load(st, iv.V)
	s, _ := c.(*StructV)
	if s == nil {
		if t, ok := c.(*Term); ok {
			s = f.E.expandStruct(t)
		}
	}
	return n.Obj().Name(), s
}

func (f *Fix) FieldOf(s *StructV, name string) Value {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.F[i]
		}
	}
	return nil
}

// ResultSexp splits (Sexp, error) outcomes.
func isNilV(v Value) bool { _, ok := v.(NilV); return ok }
