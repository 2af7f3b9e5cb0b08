package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type StubFn func(c *Call) []Outcome

type Call struct {
	E     *Engine
	St    *State
	Fn    *ssa.Function // may be nil for invokes
	Name  string
	Args  []Value
	Sig   *types.Signature
	Pos   token.Pos
	Depth int
}

const (
	kReturn = iota
	kPanic
	kTrunc
	kExit
)

type Outcome struct {
	St        *State
	Kind      int
	Ret       []Value
	PanicV    Value
	Why       string
	recovered bool
}

type Engine struct {
	byID      map[int]*Term
	ph        *phTable
	HostMax   int // bound on the host calls of one path
	P         *Program
	terms     map[string]*Term
	nterm     int
	nobj      int
	nfresh    int
	globals   map[*ssa.Global]int
	fninfo    map[*ssa.Function]*fnInfo
	pathRoot  map[string]*PathNode
	Stubs     map[string]StubFn
	Steps     int64
	MaxSteps  int64
	lastExec  int64 // Steps when the program's latest instruction began
	LoopK     int
	MaxRec    int
	MaxOut    int
	MaxSym    int // symbolic iterations of opaque ranges
	onstack   map[*ssa.Function]int
	stack     []*ssa.Function
	base      *State
	Truncated int
	TruncWhy  map[string]int
	Notes     map[string]int // imprecision notes
	InlinePkg map[string]bool
	Watch     map[string]bool // function names that emit an event when entered
	inited    map[*ssa.Package]bool
	// MayPanic is called for undetermined implicit panics (index, type assertion, nil deref); return true to fork.
	MayPanic  func(f *ssa.Function, in ssa.Instruction, kind string, st *State, v Value) bool
	OnStore   func(f *ssa.Function, in ssa.Instruction, st *State, p PtrV, v Value)
	constC    map[*ssa.Const]Value
	AutoEvent bool
	ForkLog   map[string]int
	visitedFn map[*ssa.Function]int
	Files     map[string]string // closed file system for texts that name files
}

var eng *Engine

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
}

func NewEngine(p *Program) *Engine {
	e := &Engine{P: p, terms: map[string]*Term{}, globals: map[*ssa.Global]int{}, fninfo: map[*ssa.Function]*fnInfo{},
		pathRoot: map[string]*PathNode{}, Stubs: map[string]StubFn{}, MaxSteps: 60_000_000, LoopK: 2, MaxRec: 30, MaxOut: 20000, MaxSym: 2,
		onstack: map[*ssa.Function]int{}, TruncWhy: map[string]int{}, Notes: map[string]int{}, InlinePkg: map[string]bool{},
		Watch: map[string]bool{}, inited: map[*ssa.Package]bool{}, constC: map[*ssa.Const]Value{}, visitedFn: map[*ssa.Function]int{}}
	for _, s := range []string{"strings", "bytes", "container/list", "container/heap", "errors", "unicode/utf8", "slices", "maps", "cmp", "iter"} {
		e.InlinePkg[s] = true
	}
	eng = e
	e.nterm = 0
	return e
}

func (e *Engine) note(s string) { e.Notes[s]++ }

// ---------------------------------------------------------------- terms

func (e *Engine) NewTerm(op string, t types.Type, args ...Value) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteString("(")
	for _, a := range args {
		sb.WriteString(valKey(a))
		sb.WriteString(",")
	}
	sb.WriteString(")")
	if t != nil {
		sb.WriteString(typeKey(t))
	}
	k := sb.String()
	if tm, ok := e.terms[k]; ok {
		return tm
	}
	e.nterm++
	tm := &Term{ID: e.nterm, Op: op, Args: append([]Value(nil), args...), T: t, key: k}
	e.terms[k] = tm
	return tm
}

func (e *Engine) Sym(name string, t types.Type) *Term { return e.NewTerm(name, t) }

func (e *Engine) Fresh(name string, t types.Type) *Term {
	e.nfresh++
	return e.NewTerm(fmt.Sprintf("%s#%d", name, e.nfresh), t)
}

func (e *Engine) fieldTerm(x *Term, i int) Value {
	if x.T == nil {
		return e.NewTerm(fmt.Sprintf(".%d", i), nil, x)
	}
	st, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		return e.NewTerm(fmt.Sprintf(".%d", i), nil, x)
	}
	f := st.Field(i)
	return e.NewTerm("."+f.Name(), f.Type(), x)
}

func (e *Engine) expandStruct(x *Term) *StructV {
	if x.T == nil {
		return nil
	}
	st, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	s := &StructV{T: x.T, F: make([]Value, st.NumFields())}
	for i := range s.F {
		s.F[i] = e.fieldTerm(x, i)
	}
	return s
}

func (e *Engine) path(parent *PathNode, field int, idx Value) *PathNode {
	var k string
	if field >= 0 {
		k = fmt.Sprintf("f%d", field)
	} else {
		k = "[" + valKey(idx)
	}
	if parent == nil {
		if n, ok := e.pathRoot[k]; ok {
			return n
		}
		n := &PathNode{field: field, idx: idx}
		e.pathRoot[k] = n
		return n
	}
	if parent.kids == nil {
		parent.kids = map[string]*PathNode{}
	}
	if n, ok := parent.kids[k]; ok {
		return n
	}
	n := &PathNode{parent: parent, field: field, idx: idx}
	parent.kids[k] = n
	return n
}

func (e *Engine) alloc(st *State, v Value) int {
	e.nobj++
	st.setObj(e.nobj, v)
	return e.nobj
}

// NewObj allocates a heap cell holding v and returns a pointer to it.
func (e *Engine) NewObj(st *State, v Value) PtrV { return PtrV{Obj: e.alloc(st, v)} }

func (e *Engine) NewSlice(st *State, elems ...Value) Value {
	o := e.alloc(st, &ArrV{E: append([]Value(nil), elems...)})
	return SliceV{Obj: o, Len: len(elems), Cap: len(elems)}
}

func (e *Engine) Zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV(false)
		case u.Info()&types.IsInteger != 0:
			return IntV(0)
		case u.Info()&types.IsFloat != 0:
			return FltV(0)
		case u.Info()&types.IsString != 0:
			return StrV("")
		}
		return NilV{}
	case *types.Struct:
		s := &StructV{T: t, F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.Zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrV{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = e.Zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, e.Zero(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if v, ok := e.constC[c]; ok {
		return v
	}
	v := e.constVal1(c)
	e.constC[c] = v
	return v
}

func (e *Engine) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return e.Zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolV(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return StrV(constant.StringVal(c.Value))
			}
		case b.Info()&types.IsInteger != 0:
			cv := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(cv); ok {
				return normInt(IntV(i), b)
			}
			if u, ok := constant.Uint64Val(cv); ok {
				return normInt(IntV(int64(u)), b)
			}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return FltV(f)
		}
	}
	return e.NewTerm("const:"+c.String(), c.Type())
}

func normInt(v IntV, b *types.Basic) IntV {
	switch b.Kind() {
	case types.Int8:
		return IntV(int8(v))
	case types.Int16:
		return IntV(int16(v))
	case types.Int32:
		return IntV(int32(v))
	case types.Uint8:
		return IntV(uint8(v))
	case types.Uint16:
		return IntV(uint16(v))
	case types.Uint32:
		return IntV(uint32(v))
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool { return t != nil && types.IsInterface(t) }

// ---------------------------------------------------------------- facts

func linear(v Value) (*Term, int64, bool) {
	switch x := v.(type) {
	case IntV:
		return nil, int64(x), true
	case *Term:
		x = stripWiden(x)
		if x.Op == "+" && len(x.Args) == 2 {
			if c, ok := x.Args[1].(IntV); ok {
				if t, ok := x.Args[0].(*Term); ok {
					return t, int64(c), true
				}
			}
		}
		return x, 0, true
	}
	return nil, 0, false
}

func (e *Engine) zdist(st *State, from, to int) (int64, bool) {
	// shortest path from 'from' to 'to'; edge b->a weight c for a-b<=c
	if from == to {
		return 0, true
	}
	dist := map[int]int64{from: 0}
	zs := st.zones
	for it := 0; it < len(zs)+2; it++ {
		ch := false
		for _, z := range zs {
			if d, ok := dist[z.b]; ok {
				nd := d + z.c
				if o, ok := dist[z.a]; !ok || nd < o {
					dist[z.a] = nd
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[to]
	return d, ok
}

func (e *Engine) termNonNeg(t *Term) bool {
	switch t.Op {
	case "len", "cap", "strings.Count", "len#":
		return true
	case "strings.Index", "strings.IndexByte", "strings.LastIndex":
		return false
	}
	if t.T != nil && isUnsigned(t.T) {
		return true
	}
	return false
}

func (e *Engine) ensureNonNeg(st *State, t *Term) {
	if t != nil && e.termNonNeg(t) {
		for _, z := range st.zones {
			if z.a == 0 && z.b == t.ID && z.c <= 0 {
				return
			}
		}
		st.zones = append(st.zones, zone{0, t.ID, 0})
	}
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.ID
}

// leq decides a <= b + k for signed ints: tri-state.
func (e *Engine) leq(st *State, a, b Value, k int64) (bool, bool) {
	ta, ca, ok1 := linear(a)
	tb, cb, ok2 := linear(b)
	if !ok1 || !ok2 {
		return false, false
	}
	e.ensureNonNeg(st, ta)
	e.ensureNonNeg(st, tb)
	// ta - tb <= cb - ca + k
	c := cb - ca + k
	if tid(ta) == tid(tb) {
		return 0 <= c, true
	}
	if d, ok := e.zdist(st, tid(tb), tid(ta)); ok && d <= c {
		return true, true
	}
	// negation: tb - ta <= -c-1
	if d, ok := e.zdist(st, tid(ta), tid(tb)); ok && d <= -c-1 {
		return false, true
	}
	return false, false
}

func (e *Engine) addLeq(st *State, a, b Value, k int64) bool {
	if v, known := e.leq(st, a, b, k); known {
		return v
	}
	ta, ca, _ := linear(a)
	tb, cb, _ := linear(b)
	st.zones = append(st.zones, zone{tid(ta), tid(tb), cb - ca + k})
	return true
}

// stripWiden removes value-preserving integer conversions.
func stripWiden(x *Term) *Term {
	for x.Op == "conv" && len(x.Args) == 1 && x.T != nil {
		src, ok := x.Args[0].(*Term)
		if !ok || src.T == nil {
			break
		}
		fb, ok1 := src.T.Underlying().(*types.Basic)
		tb, ok2 := x.T.Underlying().(*types.Basic)
		if !ok1 || !ok2 || fb.Info()&types.IsInteger == 0 || tb.Info()&types.IsInteger == 0 || !widens(fb, tb) {
			break
		}
		x = src
	}
	return x
}

func widens(fb, tb *types.Basic) bool {
	fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
	if fu == tu {
		return intSize(fb) <= intSize(tb)
	}
	return fu && !tu && intSize(fb) < intSize(tb)
}

func small32(v Value) bool {
	switch x := v.(type) {
	case IntV:
		return x >= -1<<40 && x < 1<<40
	case *Term:
		x = stripWiden(x)
		if x.T == nil {
			return false
		}
		b, ok := x.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && intSize(b) <= 4 || x.Op == "len" || x.Op == "cap"
	}
	return false
}

// signOfDiff recognises comparisons of x-y with zero whose answer is the order of x and y.
func (e *Engine) signOfDiff(st *State, x *Term) (bool, bool) {
	for i := 0; i < 2; i++ {
		d, ok := x.Args[i].(*Term)
		if !ok || d.Op != "-" || len(d.Args) != 2 || d.T == nil {
			continue
		}
		z := x.Args[1-i]
		if z != Value(IntV(0)) && z != Value(FltV(0)) {
			continue
		}
		a, b := d.Args[0], d.Args[1]
		if i == 1 { // 0 < a-b
			a, b = b, a
		}
		if isFloat(d.T) {
			return e.Tri(st, e.NewTerm("<", tBool, a, b))
		}
		if small32(a) && small32(b) {
			return e.leq(st, a, b, -1)
		}
	}
	return false, false
}

// Tri evaluates a boolean value under the state's facts.
func (e *Engine) Tri(st *State, v Value) (val, known bool) {
	switch x := v.(type) {
	case BoolV:
		return bool(x), true
	case *Term:
		switch x.Op {
		case "not":
			r, k := e.Tri(st, x.Args[0])
			return !r, k
		}
		if r, ok := st.facts[x.ID]; ok {
			return r, true
		}
		switch x.Op {
		case "==":
			return e.triEq(st, x.Args[0], x.Args[1])
		case "<":
			if r, k := e.signOfDiff(st, x); k {
				return r, k
			}
			if signedArgs(x) {
				return e.leq(st, x.Args[0], x.Args[1], -1)
			}
		}
	}
	return false, false
}

func signedArgs(x *Term) bool {
	for _, a := range x.Args {
		if t, ok := a.(*Term); ok {
			if t.T == nil {
				return false
			}
			b, ok := t.T.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
			if b.Info()&types.IsUnsigned != 0 && b.Kind() == types.Uint64 {
				return false
			}
		}
	}
	return true
}

// Assume records a boolean fact; false = contradiction.
func (e *Engine) Assume(st *State, v Value, val bool) bool {
	if r, k := e.Tri(st, v); k {
		return r == val
	}
	x, ok := v.(*Term)
	if !ok {
		return false
	}
	if x.Op == "not" {
		return e.Assume(st, x.Args[0], !val)
	}
	st.facts[x.ID] = val
	switch x.Op {
	case "<":
		if signedArgs(x) {
			if val {
				return e.addLeq(st, x.Args[0], x.Args[1], -1)
			}
			return e.addLeq(st, x.Args[1], x.Args[0], 0)
		}
	case "==":
		a, b := x.Args[0], x.Args[1]
		if signedArgs(x) && isIntVal(a) && isIntVal(b) {
			if val {
				return e.addLeq(st, a, b, 0) && e.addLeq(st, b, a, 0)
			}
			// disequality at a bound tightens it
			if r, k := e.leq(st, a, b, 0); k && r {
				return e.addLeq(st, a, b, -1)
			}
			if r, k := e.leq(st, b, a, 0); k && r {
				return e.addLeq(st, b, a, -1)
			}
			return true
		}
		if val {
			if t, ok := a.(*Term); ok && !isTerm(b) {
				st.eqc[t.ID] = b
			} else if t, ok := b.(*Term); ok && !isTerm(a) {
				st.eqc[t.ID] = a
			}
		}
		// nil facts
		if _, ok := b.(NilV); ok {
			if t, ok := a.(*Term); ok {
				d := st.dyn[t.ID]
				if val {
					d.IsNil = true
				} else {
					d.NonNil = true
				}
				st.dyn[t.ID] = d
			}
		}
	}
	return true
}

func isTerm(v Value) bool { _, ok := v.(*Term); return ok }
func isIntVal(v Value) bool {
	switch x := v.(type) {
	case IntV:
		return true
	case *Term:
		return x.T != nil && isIntT(x.T)
	}
	return false
}

// triEq compares two values for Go equality.
func (e *Engine) triEq(st *State, a, b Value) (val, known bool) {
	a, b = e.norm(st, a), e.norm(st, b)
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok && ta == tb {
			if ta.T != nil && isFloat(ta.T) {
				return false, false
			}
			return true, true
		}
	}
	ta, aT := a.(*Term)
	tb, bT := b.(*Term)
	if c, ok := a.(BoolV); ok && bT {
		r, k := e.Tri(st, tb)
		return r == bool(c), k
	}
	if c, ok := b.(BoolV); ok && aT {
		r, k := e.Tri(st, ta)
		return r == bool(c), k
	}
	if aT || bT {
		if aT {
			if c, ok := st.eqc[ta.ID]; ok {
				if !bT {
					return e.triEq(st, c, b)
				}
				if c2, ok := st.eqc[tb.ID]; ok {
					return e.triEq(st, c, c2)
				}
			}
			d, has := st.dyn[ta.ID]
			if _, ok := b.(NilV); ok && has {
				if d.IsNil {
					return true, true
				}
				if d.NonNil || d.T != nil {
					return false, true
				}
			}
			if iv, ok := b.(IfaceV); ok && has {
				if d.IsNil || (d.T != nil && !types.Identical(d.T, iv.T)) {
					return false, true
				}
				for _, n := range d.Not {
					if types.Identical(n, iv.T) {
						return false, true
					}
				}
			}
		}
		if bT && !aT {
			return e.triEq(st, b, a)
		}
		if aT && isIntVal(a) && isIntVal(b) {
			if x := e.NewTerm("==", tBool, a, b); signedArgs(x) {
				r1, k1 := e.leq(st, a, b, 0)
				r2, k2 := e.leq(st, b, a, 0)
				if k1 && k2 && r1 && r2 {
					return true, true
				}
				if (k1 && !r1) || (k2 && !r2) {
					return false, true
				}
			}
		}
		// fresh allocations differ from nil
		if t, ok := a.(*Term); ok {
			if f, ok := st.facts[e.eqTerm(t, b).ID]; ok {
				return f, true
			}
		}
		return false, false
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return x == y, true
		}
	case FltV:
		if y, ok := b.(FltV); ok {
			return x == y, true
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return x == y, true
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return x == y, true
		}
	case NilV:
		switch b.(type) {
		case NilV:
			return true, true
		default:
			return false, true
		}
	case PtrV:
		switch y := b.(type) {
		case NilV:
			return false, true
		case PtrV:
			return x.Obj == y.Obj && x.P == y.P, true
		}
	case IfaceV:
		switch y := b.(type) {
		case NilV:
			return false, true
		case IfaceV:
			if !types.Identical(x.T, y.T) {
				return false, true
			}
			return e.triEq(st, x.V, y.V)
		}
	case SliceV, MapV, *FuncV:
		if _, ok := b.(NilV); ok {
			return false, true
		}
		if m, ok := a.(MapV); ok {
			if n, ok := b.(MapV); ok {
				return m.Obj == n.Obj, true
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			all := true
			for i := range x.F {
				r, k := e.triEq(st, x.F[i], y.F[i])
				if k && !r {
					return false, true
				}
				if !k {
					all = false
				}
			}
			if all {
				return true, true
			}
			return false, false
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.E) == len(y.E) {
			all := true
			for i := range x.E {
				r, k := e.triEq(st, x.E[i], y.E[i])
				if k && !r {
					return false, true
				}
				if !k {
					all = false
				}
			}
			if all {
				return true, true
			}
			return false, false
		}
	case *HostV:
		if _, ok := b.(NilV); ok {
			return false, true
		}
		return valKey(a) == valKey(b), true
	}
	if _, ok := b.(NilV); ok {
		return e.triEq(st, b, a)
	}
	return false, false
}

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]

func (e *Engine) eqTerm(a, b Value) *Term {
	// canonical argument order: term first, then lower key
	_, at := a.(*Term)
	_, bt := b.(*Term)
	if (!at && bt) || (at && bt && a.(*Term).ID > b.(*Term).ID) {
		a, b = b, a
	}
	return e.NewTerm("==", tBool, a, b)
}

func isMadeErr(t *Term) bool {
	return t.Op == "errors.New" || strings.HasPrefix(t.Op, "error:") || t.Op == "fmt.Errorf" || strings.HasPrefix(t.Op, "strconv.") && strings.HasSuffix(t.Op, "/1")
}

func isErrVar(t *Term) bool {
	if !strings.HasPrefix(t.Op, "global:") || len(t.Args) > 0 || t.T == nil || !types.Identical(t.T, errorT) {
		return false
	}
	p := t.Op[len("global:"):]
	return !strings.HasPrefix(p, "os.") && !strings.HasPrefix(p, "io/fs.") && !strings.HasPrefix(p, "syscall.")
}

func (e *Engine) eqVal(st *State, a, b Value) Value {
	if r, k := e.triEq(st, a, b); k {
		return BoolV(r)
	}
	a, b = e.norm(st, a), e.norm(st, b)
	// comparing with a boolean constant is the term itself or its negation
	for i, p := range []Value{a, b} {
		if k, ok := p.(BoolV); ok {
			o := []Value{b, a}[i]
			if k {
				return o
			}
			return e.not(o)
		}
	}
	if x, ok := a.(*Term); ok {
		if y, ok := b.(*Term); ok && isErrVar(x) && isErrVar(y) && x != y {
			return BoolV(false) // error variables of the standard library are distinct
		}
	}
	// an error made by errors.New, fmt.Errorf or strconv differs from every other error value
	for i, p := range []Value{a, b} {
		x, ok := p.(*Term)
		if !ok || !isMadeErr(x) {
			continue
		}
		switch y := []Value{b, a}[i].(type) {
		case *Term:
			if x != y && (isMadeErr(y) || isErrVar(y)) {
				return BoolV(false)
			}
		case IfaceV:
			return BoolV(false)
		}
	}
	// struct/iface with unknown parts: conjunction kept as one opaque term
	if x, ok := a.(IfaceV); ok {
		if y, ok := b.(IfaceV); ok {
			return e.eqVal(st, x.V, y.V)
		}
	}
	return e.eqTerm(a, b)
}

func (e *Engine) not(v Value) Value {
	switch x := v.(type) {
	case BoolV:
		return BoolV(!x)
	case *Term:
		if x.Op == "not" {
			return x.Args[0]
		}
		return e.NewTerm("not", tBool, x)
	}
	return v
}

// norm maps an opaque pointer that has been materialised to its object.
func (e *Engine) norm(st *State, v Value) Value {
	t, ok := v.(*Term)
	if !ok || t.T == nil {
		return v
	}
	if _, ok := t.T.Underlying().(*types.Pointer); ok {
		if o, ok := st.mat[t.ID]; ok {
			return PtrV{Obj: o}
		}
	}
	return v
}

// deref turns a pointer value into a concrete PtrV, materialising opaque objects. ok=false: nil pointer.
func (e *Engine) deref(st *State, v Value) (PtrV, bool) {
	switch x := v.(type) {
	case PtrV:
		return x, true
	case *Term:
		if d, ok := st.dyn[x.ID]; ok && d.IsNil {
			return PtrV{}, false
		}
		if o, ok := st.mat[x.ID]; ok {
			return PtrV{Obj: o}, true
		}
		var et types.Type
		if x.T != nil {
			if p, ok := x.T.Underlying().(*types.Pointer); ok {
				et = p.Elem()
			}
		}
		d := st.dyn[x.ID]
		d.NonNil = true
		st.dyn[x.ID] = d
		var content Value
		if et != nil {
			content = e.NewTerm("*", et, x)
		} else {
			content = e.NewTerm("*", nil, x)
		}
		o := e.alloc(st, content)
		st.mat[x.ID] = o
		return PtrV{Obj: o}, true
	}
	return PtrV{}, false
}

func (e *Engine) Load(st *State, v Value) (Value, bool) {
	p, ok := e.deref(st, v)
	if !ok {
		return nil, false
	}
	return st.rawLoad(p)
}

func (e *Engine) Store(st *State, p PtrV, v Value) bool {
	c, ok := st.obj(p.Obj)
	if !ok {
		return false
	}
	nv, ok := storePath(st, c, pathList(p.P), v)
	if !ok {
		return false
	}
	st.setObj(p.Obj, nv)
	return true
}

// Field returns the pointer to a named field (through embedded structs is not supported).
func (e *Engine) FieldPtr(st *State, p Value, t types.Type, name string) PtrV {
	pp, ok := e.deref(st, p)
	if !ok {
		panic("FieldPtr: nil pointer")
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return PtrV{Obj: pp.Obj, P: e.path(pp.P, i, nil)}
		}
	}
	panic("no field " + name + " in " + t.String())
}

func (e *Engine) GetField(st *State, p Value, t types.Type, name string) Value {
	fp := e.FieldPtr(st, p, t, name)
	v, _ := st.rawLoad(fp)
	return v
}

func (e *Engine) SetField(st *State, p Value, t types.Type, name string, v Value) {
	fp := e.FieldPtr(st, p, t, name)
	if !e.Store(st, fp, v) {
		panic("SetField " + name)
	}
}

// lazy arrays ------------------------------------------------------

func (e *Engine) lazyGet(st *State, x *LazyArr, idx Value) Value {
	for i := len(x.W) - 1; i >= 0; i-- {
		r, k := e.triEq(st, x.W[i].I, idx)
		if k && r {
			return x.W[i].V
		}
		if !k {
			return e.NewTerm("maybe", x.Elem, x.W[i].V, x.W[i].I, idx)
		}
	}
	if x.Zero {
		return e.Zero(x.Elem)
	}
	return e.NewTerm("idx", x.Elem, x.Base, idx)
}

// sliceRoot resolves nested slice terms to (root, offset).
func sliceRoot(t *Term) (*Term, Value) {
	off := Value(IntV(0))
	for t.Op == "slice" {
		off = eng.add(off, t.Args[1])
		r, ok := t.Args[0].(*Term)
		if !ok {
			break
		}
		t = r
	}
	return t, off
}

func (e *Engine) add(a, b Value) Value {
	if x, ok := a.(IntV); ok {
		if y, ok := b.(IntV); ok {
			return x + y
		}
		return e.add(b, a)
	}
	ta, ca, _ := linear(a)
	if y, ok := b.(IntV); ok {
		s := ca + int64(y)
		if s == 0 {
			return ta
		}
		return e.NewTerm("+", ta.T, ta, IntV(s))
	}
	tb, cb, ok := linear(b)
	if !ok || ta == nil || tb == nil {
		return e.NewTerm("+", tInt, a, b)
	}
	// a-b+b cancellations
	if ta.Op == "-" && ta.Args[1] == Value(tb) {
		return e.add(ta.Args[0], IntV(ca+cb))
	}
	if tb.Op == "-" && tb.Args[1] == Value(ta) {
		return e.add(tb.Args[0], IntV(ca+cb))
	}
	if ta.ID > tb.ID {
		ta, tb = tb, ta
	}
	var r Value = e.NewTerm("+", ta.T, ta, tb)
	if ca+cb != 0 {
		r = e.NewTerm("+", ta.T, r, IntV(ca+cb))
	}
	return r
}

func (e *Engine) sub(a, b Value, t types.Type) Value {
	if y, ok := b.(IntV); ok {
		return e.add(a, -y)
	}
	ta, ca, ok1 := linear(a)
	tb, cb, ok2 := linear(b)
	if ok1 && ok2 && tid(ta) == tid(tb) {
		return IntV(ca - cb)
	}
	if ok1 && ok2 && ta != nil && tb != nil {
		// (x+y)-x
		if ta.Op == "+" && len(ta.Args) == 2 {
			if ta.Args[0] == Value(tb) {
				return e.add(ta.Args[1], IntV(ca-cb))
			}
			if ta.Args[1] == Value(tb) {
				return e.add(ta.Args[0], IntV(ca-cb))
			}
		}
		r := e.NewTerm("-", t, ta, tb)
		return e.add(r, IntV(ca-cb))
	}
	if ok1 && ok2 && ta == nil && tb != nil {
		r := e.NewTerm("-", t, IntV(0), tb)
		return e.add(r, IntV(ca-cb))
	}
	return e.NewTerm("-", t, a, b)
}

func (e *Engine) Len(st *State, v Value) Value {
	switch x := v.(type) {
	case NilV:
		return IntV(0)
	case StrV:
		return IntV(len(x))
	case SliceV:
		return IntV(x.Len)
	case *ArrV:
		return IntV(len(x.E))
	case MapV:
		o, _ := st.obj(x.Obj)
		m := o.(*MapObj)
		n := 0
		for _, en := range m.Ents {
			if !en.Del {
				n++
			}
		}
		if m.Base == nil {
			return IntV(n)
		}
		if len(m.Ents) == 0 {
			return e.NewTerm("len", tInt, m.Base)
		}
		return e.Fresh("len", tInt)
	case *Term:
		switch x.Op {
		case "slice":
			hi := x.Args[2]
			if _, ok := hi.(NilV); ok {
				return e.sub(e.Len(st, x.Args[0]), x.Args[1], tInt)
			}
			return e.sub(hi, x.Args[1], tInt)
		case "append":
			return e.add(e.Len(st, x.Args[0]), IntV(len(x.Args)-1))
		case "appends":
			return e.add(e.Len(st, x.Args[0]), e.Len(st, x.Args[1]))
		case "makeslice":
			return x.Args[1]
		}
		if d, ok := st.dyn[x.ID]; ok && d.IsNil {
			return IntV(0)
		}
		if c, ok := st.eqc[x.ID]; ok {
			return e.Len(st, c)
		}
		if o, ok := st.mat[x.ID]; ok {
			if mv, ok := st.obj(o); ok {
				if _, ok := mv.(*MapObj); ok {
					return e.Len(st, MapV{o})
				}
			}
		}
		return e.NewTerm("len", tInt, x)
	case PtrV:
		c, _ := st.rawLoad(x)
		return e.Len(st, c)
	}
	return e.Fresh("len", tInt)
}

// mapObj materialises a map value.
func (e *Engine) mapOf(st *State, v Value) (int, *MapObj, bool) {
	switch x := v.(type) {
	case MapV:
		o, ok := st.obj(x.Obj)
		if !ok {
			return 0, nil, false
		}
		return x.Obj, o.(*MapObj), true
	case *Term:
		if o, ok := st.mat[x.ID]; ok {
			c, _ := st.obj(o)
			if m, ok := c.(*MapObj); ok {
				return o, m, true
			}
		}
		mt, _ := x.T.Underlying().(*types.Map)
		m := &MapObj{Base: x, T: mt}
		o := e.alloc(st, m)
		st.mat[x.ID] = o
		return o, m, true
	}
	return 0, nil, false
}

func (e *Engine) NewMap(st *State, t *types.Map) Value {
	return MapV{Obj: e.alloc(st, &MapObj{T: t})}
}

// MapLookup forks on undetermined key equality; cb receives each alternative.
func (e *Engine) MapLookup(st *State, m Value, k Value, vt types.Type, cb func(st *State, v Value, ok Value)) {
	if _, isNil := m.(NilV); isNil {
		cb(st, e.Zero(vt), BoolV(false))
		return
	}
	_, mo, ok := e.mapOf(st, m)
	if !ok {
		cb(st, e.Fresh("mapval", vt), e.Fresh("mapok", tBool))
		return
	}
	cur := st
	for i := len(mo.Ents) - 1; i >= 0; i-- {
		en := mo.Ents[i]
		r, kn := e.triEq(cur, en.K, k)
		if kn && !r {
			continue
		}
		hit := func(s *State) {
			if en.Del {
				cb(s, e.Zero(vt), BoolV(false))
			} else {
				cb(s, en.V, BoolV(true))
			}
		}
		if kn && r {
			hit(cur)
			return
		}
		eq := e.eqVal(cur, en.K, k)
		s2 := cur.Clone()
		if e.Assume(s2, eq, true) {
			hit(s2)
		}
		cur = cur.Clone()
		if !e.Assume(cur, eq, false) {
			return
		}
	}
	if mo.Base != nil {
		okT := e.NewTerm("mapok", tBool, mo.Base, k)
		val := e.NewTerm("mapval", vt, mo.Base, k)
		if r, kn := e.Tri(cur, okT); kn {
			if r {
				cb(cur, val, BoolV(true))
			} else {
				cb(cur, e.Zero(vt), BoolV(false))
			}
			return
		}
		s2 := cur.Clone()
		e.Assume(s2, okT, true)
		cb(s2, val, BoolV(true))
		cur = cur.Clone()
		e.Assume(cur, okT, false)
		cb(cur, e.Zero(vt), BoolV(false))
		return
	}
	cb(cur, e.Zero(vt), BoolV(false))
}

// MapUpdate forks similarly; cb receives each resulting state.
func (e *Engine) MapUpdate(st *State, m Value, k Value, v Value, del bool, cb func(st *State)) bool {
	if _, isNil := m.(NilV); isNil {
		if del {
			cb(st)
			return true
		}
		return false
	}
	oid, mo, ok := e.mapOf(st, m)
	if !ok {
		e.note("map update on unknown map")
		cb(st)
		return true
	}
	cur := st
	for i := len(mo.Ents) - 1; i >= 0; i-- {
		en := mo.Ents[i]
		r, kn := e.triEq(cur, en.K, k)
		if kn && !r {
			continue
		}
		i := i
		hit := func(s *State) {
			nm := *mo
			if del && mo.Base == nil {
				nm.Ents = append(append([]MapEnt(nil), mo.Ents[:i]...), mo.Ents[i+1:]...)
			} else {
				nm.Ents = append([]MapEnt(nil), mo.Ents...)
				nm.Ents[i] = MapEnt{K: en.K, V: v, Del: del}
			}
			s.setObj(oid, &nm)
			cb(s)
		}
		if kn && r {
			hit(cur)
			return true
		}
		eq := e.eqVal(cur, en.K, k)
		s2 := cur.Clone()
		if e.Assume(s2, eq, true) {
			hit(s2)
		}
		cur = cur.Clone()
		if !e.Assume(cur, eq, false) {
			return true
		}
	}
	if del && mo.Base == nil {
		cb(cur)
		return true
	}
	nm := *mo
	nm.Ents = append(append([]MapEnt(nil), mo.Ents...), MapEnt{K: k, V: v, Del: del})
	cur.setObj(oid, &nm)
	cb(cur)
	return true
}

// fltOrder is a hook for float ordering facts derived from already installed ones.
func (e *Engine) fltOrder(st *State, a, b Value) {}
