package main

import (
	"fmt"
	"go/token"
	"go/types"
)

func init() { checks["C07"] = checkC07 }

type numKind struct {
	name string
	t    types.Type
	mk   func(f *Fix, st *State, v Value) Value
}

var numKinds = []numKind{
	{"int", types.Typ[types.Int64], func(f *Fix, st *State, v Value) Value { return f.Int(st, v) }},
	{"uint64", types.Typ[types.Uint64], func(f *Fix, st *State, v Value) Value { return f.Uint(st, v) }},
	{"char", types.Typ[types.Int32], func(f *Fix, st *State, v Value) Value { return f.Char(st, v) }},
	{"float", types.Typ[types.Float64], func(f *Fix, st *State, v Value) Value { return f.Float(st, v) }},
}

// callBuiltin runs the script-visible function name on args the way a script call does, i.e. with Go panics
// turned into errors by the interpreter's recover barrier when barrier is set.
func (f *Fix) callBuiltin(st *State, tab map[string]Value, name string, args ...Value) ([]Outcome, error) {
	fn, ok := tab[name]
	if !ok {
		return nil, fmt.Errorf("anchor: builtin %q is not in the function table", name)
	}
	return f.CallV(st, fn, f.Env, StrV(name), f.E.NewSlice(st, args...))
}

func checkC07(c *Ctx) {
	c.Explain = "Abstract interpretation of the script-visible comparison and arithmetic builtins (looked up in AllBuiltinFunctions) with opaque operands. Comparison: every operand-kind pair is decided over the complete finite partition of orderings {a<b, a==b, a>b, NaN left/right/both}; arithmetic: the symbolic result term must equal the specified Go operation, zero divisors must not return a value. Covers all operand values at once; text-to-number conversion is not covered here (C12)."
	c.Assume = []string{"Go semantics of +,-,*,/,%,<,== on int64/uint64/float64 (trusted)", "sign(a-b) for float64 agrees with the order of a and b (IEEE gradual underflow)"}
	f, err := NewFix(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp", err)
		return
	}
	tab, _, err := f.BuiltinTable("AllBuiltinFunctions")
	if err != nil {
		c.Undecided("fixture", "AllBuiltinFunctions", err)
		return
	}
	c07Compare(c, f, tab)
	c07Arith(c, f, tab)
	c.Floor("compare-order", 200)
	c.Floor("arith-value", 20)
	c.Floor("div-zero", 4)
	c.Stats["abstract_steps"] = int(f.E.Steps)
}

type ordCase struct {
	name       string
	lt, eq, gt bool
	nanA, nanB bool
}

var intOrders = []ordCase{{"a<b", true, false, false, false, false}, {"a==b", false, true, false, false, false}, {"a>b", false, false, true, false, false}}
var fltOrders = append(append([]ordCase(nil), intOrders...), ordCase{"NaN,b", false, false, false, true, false}, ordCase{"a,NaN", false, false, false, false, true}, ordCase{"NaN,NaN", false, false, false, true, true})

func opExpect(op string, o ordCase) bool {
	switch op {
	case "<":
		return o.lt
	case ">":
		return o.gt
	case "<=":
		return o.lt || o.eq
	case ">=":
		return o.gt || o.eq
	case "==":
		return o.eq
	}
	return !o.eq
}

// assumeOrder installs the facts of an ordering case for the terms a,b.
func assumeOrder(e *Engine, st *State, a, b Value, o ordCase, flt bool) {
	set := func(t Value, v bool) { e.Assume(st, t, v) }
	if !flt {
		ta, _ := a.(*Term)
		tb, _ := b.(*Term)
		if isUnsigned(ta.T) && isUnsigned(tb.T) {
			st.facts[e.NewTerm("<", tBool, a, b).ID] = o.lt
			st.facts[e.NewTerm("<", tBool, b, a).ID] = o.gt
			st.facts[e.eqTerm(a, b).ID] = o.eq
			return
		}
		switch {
		case o.lt:
			set(e.NewTerm("<", tBool, a, b), true)
		case o.gt:
			set(e.NewTerm("<", tBool, b, a), true)
		default:
			set(e.eqTerm(a, b), true)
		}
		return
	}
	st.facts[e.NewTerm("<", tBool, a, b).ID] = o.lt
	st.facts[e.NewTerm("<", tBool, b, a).ID] = o.gt
	st.facts[e.NewTerm("<=", tBool, a, b).ID] = o.lt || o.eq
	st.facts[e.NewTerm("<=", tBool, b, a).ID] = o.gt || o.eq
	st.facts[e.eqTerm(a, b).ID] = o.eq
	for _, x := range []struct {
		v   Value
		nan bool
	}{{a, o.nanA}, {b, o.nanB}} {
		st.facts[e.NewTerm("math.IsNaN", tBool, x.v).ID] = x.nan
		st.facts[e.eqTerm(x.v, x.v).ID] = !x.nan
	}
}

func c07Compare(c *Ctx, f *Fix, tab map[string]Value) {
	e := f.E
	tF := types.Typ[types.Float64]
	pairs := [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {0, 2}, {2, 0}, {0, 3}, {3, 0}, {2, 3}, {3, 2}}
	for _, pr := range pairs {
		ka, kb := numKinds[pr[0]], numKinds[pr[1]]
		flt := ka.name == "float" || kb.name == "float"
		orders := intOrders
		if flt {
			orders = fltOrders
		}
		for _, o := range orders {
			// an integer converted to float64 is never NaN
			if o.nanA && ka.name != "float" || o.nanB && kb.name != "float" {
				continue
			}
			for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
				st := f.St.Clone()
				a := Value(e.Sym("a", ka.t))
				b := Value(e.Sym("b", kb.t))
				fa, fb := a, b
				if flt {
					fa, fb = e.convert(st, a, ka.t, tF), e.convert(st, b, kb.t, tF)
				}
				assumeOrder(e, st, fa, fb, o, flt)
				if flt {
					e.fltOrder(st, fa, fb)
				}
				name := fmt.Sprintf("(%s %s %s) when %s", op, ka.name, kb.name, o.name)
				outs, err := f.callBuiltin(st, tab, op, ka.mk(f, st, a), kb.mk(f, st, b))
				if err != nil {
					c.Undecided("compare-order", name, err)
					continue
				}
				want := opExpect(op, o)
				okAll := len(outs) > 0
				det := ""
				for _, x := range outs {
					if x.Kind != kReturn || len(x.Ret) != 2 || !isNilV(x.Ret[1]) {
						okAll = false
						det = fmt.Sprintf("outcome %s", showOut(x))
						continue
					}
					n, s := f.Unbox(x.St, x.Ret[0])
					if n != "SexpBool" {
						okAll = false
						det = "result is not a boolean: " + x.St.Show(x.Ret[0])
						continue
					}
					if v, k := e.Tri(x.St, f.FieldOf(s, "Val")); !k || v != want {
						okAll = false
						det = fmt.Sprintf("returns %s, exact order requires %v", x.St.Show(f.FieldOf(s, "Val")), want)
					}
				}
				pos := ""
				if fv, ok := tab[op].(*FuncV); ok {
					pos = c.P.Pos(fv.Fn.Pos())
				}
				c.Ob("compare-order", name, okAll, pos, "%s", det)
			}
		}
	}
}

func showOut(o Outcome) string {
	switch o.Kind {
	case kPanic:
		return "panic " + o.St.Show(o.PanicV)
	case kTrunc:
		return "truncated: " + o.Why
	}
	s := "return ("
	for i, r := range o.Ret {
		if i > 0 {
			s += ", "
		}
		s += o.St.Show(r)
	}
	return s + ")"
}

func c07Arith(c *Ctx, f *Fix, tab map[string]Value) {
	e := f.E
	tI, tU, tF := types.Typ[types.Int64], types.Typ[types.Uint64], types.Typ[types.Float64]
	ops := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL}
	bin := func(st *State, op token.Token, t types.Type, a, b Value) Value {
		r, _ := e.binopT(st, op, t, t, a, b)
		return r
	}
	posOf := func(op string) string {
		if fv, ok := tab[op].(*FuncV); ok {
			return c.P.Pos(fv.Fn.Pos())
		}
		return ""
	}
	same := func(got, want Value) bool { return valKey(got) == valKey(want) }
	// + - * on two and three operands of each kind pair; result kind: float if any float, int if all int, uint64 if all uint64
	combos := [][]int{{0, 0}, {0, 0, 0}, {1, 1}, {1, 1, 1}, {3, 3}, {3, 3, 3}, {0, 3}, {3, 0}, {0, 0, 3}, {1, 3}, {3, 1}, {2, 3}, {3, 2}}
	for _, op := range []string{"+", "-", "*"} {
		for _, cb := range combos {
			st := f.St.Clone()
			var args []Value
			nm := "(" + op
			var acc Value
			var at types.Type
			for i, k := range cb {
				kd := numKinds[k]
				v := Value(e.Sym(fmt.Sprintf("x%d", i), kd.t))
				args = append(args, kd.mk(f, st, v))
				nm += " " + kd.name
				if i == 0 {
					acc, at = v, kd.t
					continue
				}
				rt := at
				bv := v
				if kd.name == "float" || isFloat(at) {
					rt = tF
					acc = e.convert(st, acc, at, tF)
					bv = e.convert(st, v, kd.t, tF)
				}
				acc = bin(st, ops[op], rt, acc, bv)
				at = rt
			}
			nm += ")"
			wantKind := map[string]string{"int64": "SexpInt", "uint64": "SexpUint64", "float64": "SexpFloat"}[at.String()]
			outs, err := f.callBuiltin(st, tab, op, args...)
			if err != nil {
				c.Undecided("arith-value", nm, err)
				continue
			}
			ok := len(outs) > 0
			det := ""
			for _, o := range outs {
				if o.Kind != kReturn || len(o.Ret) != 2 || !isNilV(o.Ret[1]) {
					ok, det = false, showOut(o)
					continue
				}
				n, s := f.Unbox(o.St, o.Ret[0])
				if n != wantKind {
					ok, det = false, fmt.Sprintf("result kind %s, want %s", n, wantKind)
				} else if !same(f.FieldOf(s, "Val"), acc) {
					ok, det = false, fmt.Sprintf("computes %s, specified %s", o.St.Show(f.FieldOf(s, "Val")), o.St.Show(acc))
				}
			}
			c.Ob("arith-value", nm, ok, posOf(op), "%s", det)
		}
	}
	// integer division and modulo
	for _, k := range []int{0, 1} {
		kd := numKinds[k]
		t := kd.t
		_ = tI
		_ = tU
		for _, op := range []string{"/", "mod"} {
			for _, zero := range []bool{false, true} {
				st := f.St.Clone()
				a, b := Value(e.Sym("a", t)), Value(e.Sym("b", t))
				e.Assume(st, e.eqTerm(b, IntV(0)), zero)
				rem := e.NewTerm("%", t, a, b)
				quo := e.NewTerm("/", t, a, b)
				nm := fmt.Sprintf("(%s %s %s) divisor zero=%v", op, kd.name, kd.name, zero)
				outs, err := f.callBuiltin(st, tab, op, kd.mk(f, st, a), kd.mk(f, st, b))
				rule := "arith-value"
				if zero {
					rule = "div-zero"
				}
				if err != nil {
					c.Undecided(rule, nm, err)
					continue
				}
				ok := len(outs) > 0
				det := ""
				sawI, sawF := false, false
				for _, o := range outs {
					if zero {
						// a Go panic inside a builtin becomes a script error (recover barrier, see C01); a value is wrong
						if o.Kind == kReturn && isNilV(o.Ret[1]) {
							ok, det = false, "returns a value for a zero divisor: "+showOut(o)
						}
						continue
					}
					if o.Kind != kReturn || !isNilV(o.Ret[1]) {
						ok, det = false, showOut(o)
						continue
					}
					n, s := f.Unbox(o.St, o.Ret[0])
					if s == nil {
						ok, det = false, "no value: "+showOut(o)
						continue
					}
					v := f.FieldOf(s, "Val")
					if op == "mod" {
						if !same(v, rem) {
							ok, det = false, "computes "+o.St.Show(v)
						}
						continue
					}
					ex, known := e.Tri(o.St, e.eqVal(o.St, rem, IntV(0)))
					switch {
					case !known:
						ok, det = false, "division result does not depend on exact divisibility: "+showOut(o)
					case ex && (n != map[int]string{0: "SexpInt", 1: "SexpUint64"}[k] || !same(v, quo)):
						ok, det = false, "when it divides: "+showOut(o)
					case !ex:
						sawF = true
						r, _ := e.binopT(o.St, token.QUO, tF, tF, e.convert(o.St, a, t, tF), e.convert(o.St, b, t, tF))
						if n != "SexpFloat" || !same(v, r) {
							ok, det = false, "when it does not divide: "+showOut(o)
						}
					default:
						sawI = true
					}
				}
				if !zero && op == "/" && ok && !(sawI && sawF) {
					ok, det = false, "missing exact or inexact arm"
				}
				c.Ob(rule, nm, ok, posOf(op), "%s", det)
			}
		}
	}
	// float division (any value or error allowed for zero divisor; otherwise float64 quotient)
	for _, cb := range [][]int{{3, 3}, {0, 3}, {3, 0}} {
		st := f.St.Clone()
		ka, kb := numKinds[cb[0]], numKinds[cb[1]]
		a, b := Value(e.Sym("a", ka.t)), Value(e.Sym("b", kb.t))
		want, _ := e.binopT(st, token.QUO, tF, tF, e.convert(st, a, ka.t, tF), e.convert(st, b, kb.t, tF))
		nm := fmt.Sprintf("(/ %s %s)", ka.name, kb.name)
		outs, err := f.callBuiltin(st, tab, "/", ka.mk(f, st, a), kb.mk(f, st, b))
		if err != nil {
			c.Undecided("arith-value", nm, err)
			continue
		}
		ok, det := false, "no value"
		for _, o := range outs {
			if o.Kind == kReturn && isNilV(o.Ret[1]) {
				_, s := f.Unbox(o.St, o.Ret[0])
				if s != nil && same(f.FieldOf(s, "Val"), want) {
					ok = true
				} else {
					ok, det = false, showOut(o)
					break
				}
			}
		}
		c.Ob("arith-value", nm, ok, posOf("/"), "%s", det)
	}
	// wrong-kind operands are errors, never values
	for _, op := range []string{"+", "-", "*", "/", "mod"} {
		for i := 0; i < 2; i++ {
			st := f.St.Clone()
			x := f.Int(st, e.Sym("a", tI))
			y := f.Str(st, e.Sym("s", tString))
			args := []Value{x, y}
			if i == 1 {
				args = []Value{y, x}
			}
			nm := fmt.Sprintf("(%s int string) order %d", op, i)
			outs, err := f.callBuiltin(st, tab, op, args...)
			if err != nil {
				c.Undecided("arith-type", nm, err)
				continue
			}
			ok := true
			for _, o := range outs {
				if o.Kind == kReturn && isNilV(o.Ret[1]) {
					ok = false
				}
			}
			c.Ob("arith-type", nm, ok, posOf(op), "a non-numeric operand yields a value")
		}
	}
}
