package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

// Value is an abstract value: one of IntV FltV StrV BoolV NilV *Term PtrV *StructV *ArrV SliceV MapV
// IfaceV *FuncV *TupleV *HostV *IterV.
type Value interface{}

type IntV int64 // bits, sign- or zero-extended to 64 according to the static type
type FltV float64
type StrV string
type BoolV bool
type NilV struct{}

// Term is an opaque (unknown) value, interned by structure.
type Term struct {
	ID   int
	Op   string
	Args []Value
	T    types.Type
	key  string
}

type PathNode struct {
	parent *PathNode
	field  int   // >=0 : struct field ; -1: index
	idx    Value // index when field<0 (IntV or *Term)
	kids   map[string]*PathNode
}

type PtrV struct {
	Obj int
	P   *PathNode // nil = whole object
}

type StructV struct {
	T types.Type
	F []Value
}

type ArrV struct{ E []Value }

// LazyArr is the backing store of an opaque slice.
type LazyArr struct {
	Base *Term
	Elem types.Type
	Zero bool
	W    []lazyW
}
type lazyW struct{ I, V Value }

type SliceV struct {
	Obj           int
	P             *PathNode
	Off, Len, Cap int
}

type MapV struct{ Obj int }

type MapObj struct {
	Base *Term
	Ents []MapEnt
	T    *types.Map
}
type MapEnt struct {
	K, V Value
	Del  bool
}

type IfaceV struct {
	T types.Type
	V Value
}

type FuncV struct {
	Fn   *ssa.Function
	Free []Value
}

type TupleV struct{ E []Value }

// HostV is a value of an external type the transfer functions understand (compiled regexps...).
type HostV struct {
	Kind string
	V    interface{}
}

type IterObj struct {
	IsStr bool
	Str   Value
	Map   Value
	Pos   int
	N     int // symbolic iterations so far
	Snap  []MapEnt
	Base  *Term
	KT    types.Type
	VT    types.Type
}

// ---------------------------------------------------------------- keys and printing

func valKey(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil!>"
	case IntV:
		return "i" + strconv.FormatInt(int64(x), 10)
	case FltV:
		return "f" + strconv.FormatUint(math.Float64bits(float64(x)), 16)
	case StrV:
		return strconv.Quote(string(x))
	case BoolV:
		if x {
			return "T"
		}
		return "F"
	case NilV:
		return "nil"
	case *Term:
		return "t" + strconv.Itoa(x.ID)
	case PtrV:
		return "p" + strconv.Itoa(x.Obj) + x.P.String()
	case *StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x.F {
			sb.WriteString(valKey(f))
			sb.WriteString(",")
		}
		sb.WriteString("}")
		return sb.String()
	case *ArrV:
		var sb strings.Builder
		sb.WriteString("[")
		for _, f := range x.E {
			sb.WriteString(valKey(f))
			sb.WriteString(",")
		}
		sb.WriteString("]")
		return sb.String()
	case SliceV:
		return fmt.Sprintf("s%d%s[%d:%d:%d]", x.Obj, x.P.String(), x.Off, x.Off+x.Len, x.Off+x.Cap)
	case MapV:
		return "m" + strconv.Itoa(x.Obj)
	case IfaceV:
		return "I(" + typeKey(x.T) + ":" + valKey(x.V) + ")"
	case *FuncV:
		var sb strings.Builder
		sb.WriteString("fn:" + x.Fn.String())
		for _, f := range x.Free {
			sb.WriteString("|" + valKey(f))
		}
		return sb.String()
	case *TupleV:
		var sb strings.Builder
		sb.WriteString("(")
		for _, f := range x.E {
			sb.WriteString(valKey(f))
			sb.WriteString(",")
		}
		return sb.String() + ")"
	case *HostV:
		return fmt.Sprintf("host:%s:%v", x.Kind, x.V)
	}
	return fmt.Sprintf("?%T", v)
}

var typeKeyCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "nil"
	}
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeyCache[t] = s
	return s
}

func (p *PathNode) String() string {
	if p == nil {
		return ""
	}
	if p.field >= 0 {
		return p.parent.String() + ".f" + strconv.Itoa(p.field)
	}
	return p.parent.String() + "[" + valKey(p.idx) + "]"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// Show renders a value for reports, following the heap to a small depth.
func (st *State) Show(v Value) string { return st.show(v, 4) }

func (st *State) show(v Value, d int) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case IntV:
		return strconv.FormatInt(int64(x), 10)
	case FltV:
		return strconv.FormatFloat(float64(x), 'g', -1, 64)
	case StrV:
		return strconv.Quote(string(x))
	case BoolV:
		return fmt.Sprint(bool(x))
	case NilV:
		return "nil"
	case *Term:
		if len(x.Args) == 0 || d <= 0 {
			return x.Op
		}
		var a []string
		for _, y := range x.Args {
			a = append(a, st.show(y, d-1))
		}
		return x.Op + "(" + strings.Join(a, ",") + ")"
	case PtrV:
		if d <= 0 {
			return fmt.Sprintf("&%d", x.Obj)
		}
		if st == nil {
			return fmt.Sprintf("&%d%s", x.Obj, x.P.String())
		}
		c, ok := st.rawLoad(x)
		if !ok {
			return fmt.Sprintf("&%d%s", x.Obj, x.P.String())
		}
		return "&" + st.show(c, d-1)
	case *StructV:
		var a []string
		stt, _ := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			if _, ok := f.(NilV); ok {
				continue
			}
			n := ""
			if stt != nil && i < stt.NumFields() {
				n = stt.Field(i).Name() + ":"
			}
			a = append(a, n+st.show(f, d-1))
		}
		return shortType(x.T) + "{" + strings.Join(a, " ") + "}"
	case *ArrV:
		var a []string
		for _, f := range x.E {
			a = append(a, st.show(f, d-1))
		}
		return "[" + strings.Join(a, " ") + "]"
	case SliceV:
		if st == nil || d <= 0 {
			return fmt.Sprintf("slice(len=%d)", x.Len)
		}
		var a []string
		for i := 0; i < x.Len && i < 40; i++ {
			a = append(a, st.show(st.sliceElem(x, i), d-1))
		}
		return "[" + strings.Join(a, " ") + "]"
	case MapV:
		return fmt.Sprintf("map#%d", x.Obj)
	case IfaceV:
		return st.show(x.V, d)
	case *FuncV:
		return x.Fn.Name()
	case *TupleV:
		var a []string
		for _, f := range x.E {
			a = append(a, st.show(f, d))
		}
		return "(" + strings.Join(a, ", ") + ")"
	case *HostV:
		return fmt.Sprintf("%s:%v", x.Kind, x.V)
	}
	return fmt.Sprintf("%T", v)
}

// ---------------------------------------------------------------- state

type layer struct {
	parent *layer
	m      map[int]Value
	depth  int
}

type dynFact struct {
	T      types.Type // exact dynamic type if known
	Not    []types.Type
	NonNil bool
	IsNil  bool
	// interface types known (not) implemented
	Impl, NotImpl []types.Type
}

type Event struct {
	Prev *Event
	Name string
	Args []Value
	Pos  string
}

// State is one abstract machine state; all maps are copy-on-write.
type State struct {
	heap   *layer
	facts  map[int]bool // boolean terms
	eqc    map[int]Value
	dyn    map[int]dynFact
	mat    map[int]int
	zones  []zone
	trace  *Event
	nev    int
	shared bool
}

type zone struct {
	a, b int // term ids, 0 = the constant zero ;  a - b <= c
	c    int64
}

func newState() *State {
	return &State{heap: &layer{m: map[int]Value{}}, facts: map[int]bool{}, eqc: map[int]Value{}, dyn: map[int]dynFact{}, mat: map[int]int{}}
}

func (s *State) Clone() *State {
	n := *s
	// freeze the current heap layer
	if len(s.heap.m) > 0 {
		fr := s.heap
		if fr.depth > 24 {
			// flatten down to the first big layer
			m := map[int]Value{}
			var chain []*layer
			l := fr
			for l != nil && !(len(l.m) > 4000 || l.parent == nil) {
				chain = append(chain, l)
				l = l.parent
			}
			for i := len(chain) - 1; i >= 0; i-- {
				for k, v := range chain[i].m {
					m[k] = v
				}
			}
			d := 0
			if l != nil {
				d = l.depth + 1
			}
			fr = &layer{parent: l, m: m, depth: d}
		}
		s.heap = &layer{parent: fr, m: map[int]Value{}, depth: fr.depth + 1}
		n.heap = &layer{parent: fr, m: map[int]Value{}, depth: fr.depth + 1}
	} else {
		n.heap = &layer{parent: s.heap.parent, m: map[int]Value{}, depth: s.heap.depth}
	}
	n.facts = copyMap(s.facts)
	n.eqc = copyMap(s.eqc)
	n.dyn = copyMap(s.dyn)
	n.mat = copyMap(s.mat)
	n.zones = append([]zone(nil), s.zones...)
	return &n
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) obj(id int) (Value, bool) {
	for l := s.heap; l != nil; l = l.parent {
		if v, ok := l.m[id]; ok {
			return v, true
		}
	}
	return nil, false
}

func (s *State) setObj(id int, v Value) { s.heap.m[id] = v }

func (s *State) Emit(name string, pos string, args ...Value) {
	s.trace = &Event{Prev: s.trace, Name: name, Args: args, Pos: pos}
	s.nev++
}

// Events returns the events since mark (nil = all), oldest first.
func (s *State) Events(since *Event) []*Event {
	var r []*Event
	for e := s.trace; e != nil && e != since; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// rawLoad reads without materialising anything.
func (s *State) rawLoad(p PtrV) (Value, bool) {
	v, ok := s.obj(p.Obj)
	if !ok {
		return nil, false
	}
	return loadPath(s, v, p.P)
}

func pathList(p *PathNode) []*PathNode {
	var l []*PathNode
	for ; p != nil; p = p.parent {
		l = append(l, p)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func loadPath(s *State, v Value, p *PathNode) (Value, bool) {
	for _, n := range pathList(p) {
		if n.field >= 0 {
			switch x := v.(type) {
			case *StructV:
				v = x.F[n.field]
			case *Term:
				v = eng.fieldTerm(x, n.field)
			default:
				return nil, false
			}
			continue
		}
		switch x := v.(type) {
		case *ArrV:
			i, ok := n.idx.(IntV)
			if !ok {
				return eng.NewTerm("idx", nil, append([]Value{n.idx}, x.E...)...), true
			}
			if int(i) < 0 || int(i) >= len(x.E) {
				return nil, false
			}
			v = x.E[i]
		case *LazyArr:
			v = eng.lazyGet(s, x, n.idx)
		case *Term:
			var et types.Type
			if x.T != nil {
				if a, ok := x.T.Underlying().(*types.Array); ok {
					et = a.Elem()
				}
			}
			v = eng.NewTerm("idx", et, x, n.idx)
		default:
			return nil, false
		}
	}
	return v, true
}

func storePath(s *State, v Value, ps []*PathNode, nv Value) (Value, bool) {
	if len(ps) == 0 {
		return nv, true
	}
	n := ps[0]
	if n.field >= 0 {
		var x *StructV
		switch y := v.(type) {
		case *StructV:
			x = y
		case *Term:
			x = eng.expandStruct(y)
			if x == nil {
				return nil, false
			}
		default:
			return nil, false
		}
		sub, ok := storePath(s, x.F[n.field], ps[1:], nv)
		if !ok {
			return nil, false
		}
		nf := append([]Value(nil), x.F...)
		nf[n.field] = sub
		return &StructV{T: x.T, F: nf}, true
	}
	switch x := v.(type) {
	case *ArrV:
		i, ok := n.idx.(IntV)
		if !ok {
			// unknown index: weak update of everything
			nf := append([]Value(nil), x.E...)
			for k := range nf {
				nf[k] = eng.NewTerm("weak", nil, nf[k], n.idx, nv)
			}
			return &ArrV{E: nf}, true
		}
		if int(i) < 0 || int(i) >= len(x.E) {
			return nil, false
		}
		sub, ok := storePath(s, x.E[i], ps[1:], nv)
		if !ok {
			return nil, false
		}
		nf := append([]Value(nil), x.E...)
		nf[i] = sub
		return &ArrV{E: nf}, true
	case *LazyArr:
		cur := eng.lazyGet(s, x, n.idx)
		sub, ok := storePath(s, cur, ps[1:], nv)
		if !ok {
			return nil, false
		}
		c := *x
		c.W = append(append([]lazyW(nil), x.W...), lazyW{n.idx, sub})
		return &c, true
	}
	return nil, false
}

func (s *State) sliceElem(x SliceV, i int) Value {
	v, ok := s.obj(x.Obj)
	if !ok {
		return nil
	}
	v, ok = loadPath(s, v, x.P)
	if !ok {
		return nil
	}
	if a, ok := v.(*ArrV); ok && x.Off+i < len(a.E) {
		return a.E[x.Off+i]
	}
	return nil
}

// Elems lists the elements of a known slice.
func (s *State) Elems(v Value) ([]Value, bool) {
	switch x := v.(type) {
	case NilV:
		return nil, true
	case SliceV:
		r := make([]Value, x.Len)
		for i := range r {
			r[i] = s.sliceElem(x, i)
		}
		return r, true
	}
	return nil, false
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
