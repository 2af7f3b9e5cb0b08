package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"hash/fnv"
	"math/bits"
	"reflect"
	"sort"
	"strings"
)

func hostRType(t types.Type) *HostV { return &HostV{Kind: "rtype", V: typeKey2(t)} }

// rtypes are kept by string, with a side table back to the type.
var rtypeBack = map[string]types.Type{}

func typeKey2(t types.Type) string {
	k := types.TypeString(t, nil)
	rtypeBack[k] = t
	return k
}

func goTypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	return s
}

func installStubs2(e *Engine) {
	e.InlinePkg["sort"] = true
	e.InlinePkg["hash/fnv"] = true
	ok := func(name string, f func(c *Call) []Value) {
		e.Stubs[name] = func(c *Call) []Outcome {
			r := f(c)
			if r == nil {
				return nil
			}
			return ret(c.St, r...)
		}
	}
	for _, n := range []string{"time.LoadLocation", "4d63.com/tz.LoadLocation"} {
		ok(n, func(c *Call) []Value {
			return []Value{e.NewTerm("location", c.Sig.Results().At(0).Type(), c.Args...), NilV{}}
		})
	}
	// the JSON form of a known string
	ok("encoding/json.Marshal", func(c *Call) []Value {
		v := c.Args[0]
		if x, known := e.hostIface(c.St, v); known && !e.hasPlaceholder(c.St, v) {
			by, err := json.Marshal(x)
			if err != nil {
				return []Value{NilV{}, fromNative(e, c.St, reflect.ValueOf(&err).Elem(), "json")}
			}
			return []Value{e.convert(c.St, StrV(by), types.Typ[types.String], c.Sig.Results().At(0).Type()), NilV{}}
		}
		if iv, is := v.(IfaceV); is {
			v = iv.V
		}
		// the JSON form of an unknown string exists, too
		if t, is := v.(*Term); is && t.T != nil && isStringT(t.T) {
			return []Value{e.NewTerm("conv", c.Sig.Results().At(0).Type(), e.NewTerm("json", types.Typ[types.String], t)), NilV{}}
		}
		return nil
	})
	// the digest of known bytes is a fixed number
	ok("zygo.Blake2bUint64", func(c *Call) []Value {
		if s, ok := e.convert(c.St, c.Args[0], c.Sig.Params().At(0).Type(), types.Typ[types.String]).(StrV); ok {
			h := fnv.New64a()
			h.Write([]byte(s))
			return []Value{IntV(int64(h.Sum64()))}
		}
		return nil
	})
	ok("reflect.TypeOf", func(c *Call) []Value {
		if iv, ok := c.Args[0].(IfaceV); ok {
			return []Value{hostRType(iv.T)}
		}
		return nil
	})
	ok("reflect.ValueOf", func(c *Call) []Value {
		if iv, ok := c.Args[0].(IfaceV); ok {
			return []Value{&StructV{T: c.Sig.Results().At(0).Type(), F: []Value{StrV("rv"), iv, IntV(0)}}}
		}
		return nil
	})
	// a reflect.Value is ("rv", the value in an interface) or, when it can be set, ("rva", a pointer to it)
	type rval struct {
		t types.Type
		v Value
		p Value
	}
	rv := func(c *Call, i int) (r rval, good bool) {
		s, ok := c.Args[i].(*StructV)
		if !ok || len(s.F) < 2 {
			return
		}
		iv, ok := s.F[1].(IfaceV)
		if !ok {
			return
		}
		if s.F[0] == StrV("rva") {
			pt, ok := iv.T.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			v, got := e.Load(c.St, iv.V)
			if !got {
				return
			}
			return rval{pt.Elem(), v, iv.V}, true
		}
		return rval{iv.T, iv.V, nil}, true
	}
	ok("(reflect.Value).Type", func(c *Call) []Value {
		if r, ok := rv(c, 0); ok {
			return []Value{hostRType(r.t)}
		}
		return nil
	})
	ok("(reflect.Value).Interface", func(c *Call) []Value {
		if r, ok := rv(c, 0); ok {
			if iv, is := r.v.(IfaceV); is {
				return []Value{iv}
			}
			return []Value{IfaceV{T: r.t, V: r.v}}
		}
		return nil
	})
	ok("(reflect.Value).CanSet", func(c *Call) []Value {
		if r, ok := rv(c, 0); ok {
			return []Value{BoolV(r.p != nil)}
		}
		return nil
	})
	e.Stubs["(reflect.Value).CanAddr"] = e.Stubs["(reflect.Value).CanSet"]
	ok("(reflect.Value).IsValid", func(c *Call) []Value {
		if _, ok := rv(c, 0); ok {
			return []Value{BoolV(true)}
		}
		return nil
	})
	e.Stubs["(reflect.Value).Elem"] = func(c *Call) []Outcome {
		r, ok := rv(c, 0)
		if !ok {
			return nil
		}
		rt := c.Sig.Results().At(0).Type()
		switch r.t.Underlying().(type) {
		case *types.Pointer:
			if _, isNil := r.v.(NilV); isNil {
				return nil
			}
			return ret(c.St, &StructV{T: rt, F: []Value{StrV("rva"), IfaceV{T: r.t, V: r.v}, IntV(0)}})
		case *types.Interface:
			if iv, is := r.v.(IfaceV); is {
				return ret(c.St, &StructV{T: rt, F: []Value{StrV("rv"), iv, IntV(0)}})
			}
			return nil
		}
		return []Outcome{{St: c.St, Kind: kPanic, PanicV: StrV("reflect: call of reflect.Value.Elem on a value that is no pointer")}}
	}
	e.Stubs["(reflect.Value).Set"] = func(c *Call) []Outcome {
		r, ok := rv(c, 0)
		x, ok2 := rv(c, 1)
		if !ok || !ok2 {
			return nil
		}
		p, isPtr := r.p.(PtrV)
		if !isPtr || !types.AssignableTo(x.t, r.t) {
			return []Outcome{{St: c.St, Kind: kPanic, PanicV: StrV("reflect.Set: value cannot be set")}}
		}
		v := x.v
		if _, isI := r.t.Underlying().(*types.Interface); isI {
			if _, already := v.(IfaceV); !already {
				v = IfaceV{T: x.t, V: v}
			}
		}
		e.Store(c.St, p, v)
		return ret(c.St)
	}
	ok("invoke:reflect.Type.AssignableTo", func(c *Call) []Value {
		a, ok1 := c.Args[0].(*HostV)
		b, ok2 := c.Args[1].(*HostV)
		if ok1 && ok2 && a.Kind == "rtype" && b.Kind == "rtype" {
			return []Value{BoolV(types.AssignableTo(rtypeBack[a.V.(string)], rtypeBack[b.V.(string)]))}
		}
		return nil
	})
	ok("invoke:reflect.Type.String", func(c *Call) []Value {
		if h, ok := c.Args[0].(*HostV); ok && h.Kind == "rtype" {
			return []Value{StrV(goTypeString(rtypeBack[h.V.(string)]))}
		}
		return nil
	})
	for _, n := range []string{"reflect.PtrTo", "reflect.PointerTo"} {
		ok(n, func(c *Call) []Value {
			if h, ok := c.Args[0].(*HostV); ok && h.Kind == "rtype" {
				return []Value{hostRType(types.NewPointer(rtypeBack[h.V.(string)]))}
			}
			return nil
		})
	}
	ok("reflect.SliceOf", func(c *Call) []Value {
		if h, ok := c.Args[0].(*HostV); ok && h.Kind == "rtype" {
			return []Value{hostRType(types.NewSlice(rtypeBack[h.V.(string)]))}
		}
		return nil
	})
	e.Stubs["fmt.Sprintf"] = func(c *Call) []Outcome {
		f, ok := c.Args[0].(StrV)
		el, ok2 := c.St.Elems(c.Args[1])
		if !ok || !ok2 {
			return opaquePure(c)
		}
		return ret(c.St, e.sprintf(c.St, string(f), el))
	}
	delete(e.Stubs, "fmt.Sprint")
	e.Stubs["sort.Slice"] = sortSlice
	e.Stubs["sort.SliceStable"] = sortSlice
	e.Stubs["sort.Strings"] = func(c *Call) []Outcome {
		el, ok := c.St.Elems(c.Args[0])
		if !ok {
			return nil
		}
		s, ok := c.Args[0].(SliceV)
		if !ok {
			return ret(c.St)
		}
		for i := 1; i < len(el); i++ {
			for j := i; j > 0; j-- {
				a, ok1 := el[j-1].(StrV)
				b, ok2 := el[j].(StrV)
				if !ok1 || !ok2 {
					c.St.Emit("sorted", e.P.Pos(c.Pos), c.Args[0])
					return ret(c.St)
				}
				if b < a {
					el[j-1], el[j] = el[j], el[j-1]
				}
			}
		}
		for i, v := range el {
			e.Store(c.St, PtrV{Obj: s.Obj, P: e.path(s.P, -1, IntV(s.Off+i))}, v)
		}
		return ret(c.St)
	}
	e.Stubs["sort.Sort"] = sortIface
	e.Stubs["sort.Stable"] = sortIface
	for k, v := range map[string]interface{}{"math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64, "math/bits.TrailingZeros": bits.TrailingZeros} {
		e.Stubs[k] = foldStub(k, v)
	}
}

func sortSlice(c *Call) []Outcome {
	e := c.E
	iv, ok := c.Args[0].(IfaceV)
	if !ok {
		return nil
	}
	s, ok := iv.V.(SliceV)
	if !ok {
		c.St.Emit("sorted", e.P.Pos(c.Pos), c.Args[0])
		return ret(c.St)
	}
	st := c.St
	perm, good := mergeOrder(s.Len, func(i, j int) (bool, bool) {
		os := e.CallValue(st, c.Args[1], []Value{IntV(i), IntV(j)}, nil, c.Depth+1, nil, false, c.Pos)
		if len(os) != 1 || os[0].Kind != kReturn {
			return false, false
		}
		st = os[0].St
		b, ok := os[0].Ret[0].(BoolV)
		return bool(b), ok
	})
	if !good {
		st.Emit("sorted", e.P.Pos(c.Pos), c.Args[0])
		return ret(st)
	}
	permute(e, st, s, perm)
	return ret(st)
}

// sprintf builds a structured string: constant parts folded, opaque arguments kept as fmt(verb,arg) terms.
func (e *Engine) sprintf(st *State, f string, args []Value) Value {
	var out Value = StrV("")
	ai := 0
	i := 0
	for i < len(f) {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = e.strCat(out, StrV(f[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = e.strCat(out, StrV(f[i:]))
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			out = e.strCat(out, StrV("%"))
			continue
		}
		if ai >= len(args) {
			out = e.strCat(out, StrV("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		out = e.strCat(out, e.fmtArg(st, verb, a))
	}
	if ai < len(args) {
		out = e.strCat(out, e.NewTerm("fmt:EXTRA", tString))
	}
	return out
}

func (e *Engine) fmtArg(st *State, verb string, a Value) Value {
	if verb == "%T" {
		switch x := a.(type) {
		case NilV:
			return StrV("<nil>")
		case IfaceV:
			return StrV(goTypeString(x.T))
		}
		return e.NewTerm("fmt:%T", tString, a)
	}
	if iv, ok := a.(IfaceV); ok {
		_, named := iv.T.(*types.Named)
		if b, isB := iv.T.Underlying().(*types.Basic); isB && !named {
			switch x := iv.V.(type) {
			case StrV:
				return StrV(fmt.Sprintf(verb, string(x)))
			case IntV:
				if b.Info()&types.IsUnsigned != 0 {
					if b.Kind() == types.Uint8 {
						return StrV(fmt.Sprintf(verb, uint8(x)))
					}
					return StrV(fmt.Sprintf(verb, uint64(x)))
				}
				if b.Kind() == types.Int32 {
					return StrV(fmt.Sprintf(verb, int32(x)))
				}
				return StrV(fmt.Sprintf(verb, int64(x)))
			case FltV:
				return StrV(fmt.Sprintf(verb, float64(x)))
			case BoolV:
				return StrV(fmt.Sprintf(verb, bool(x)))
			case *Term:
				if isStringT(b) && (verb == "%s" || verb == "%v") {
					return x
				}
			}
		}
		return e.NewTerm("fmt:"+verb, tString, iv.V)
	}
	if _, ok := a.(NilV); ok {
		return StrV(fmt.Sprintf(verb, nil))
	}
	return e.NewTerm("fmt:"+verb, tString, a)
}

func sortIface(c *Call) []Outcome {
	e := c.E
	iv, ok := c.Args[0].(IfaceV)
	if !ok {
		return nil
	}
	st := c.St
	call := func(name string, args ...Value) (Value, bool) {
		fn := e.P.Prog.LookupMethod(iv.T, nil, name)
		if fn == nil {
			return nil, false
		}
		os := e.CallValue(st, &FuncV{Fn: fn}, append([]Value{iv.V}, args...), fn.Signature, c.Depth+1, nil, false, c.Pos)
		if len(os) != 1 || os[0].Kind != kReturn {
			return nil, false
		}
		st = os[0].St
		if len(os[0].Ret) == 0 {
			return nil, true
		}
		return os[0].Ret[0], true
	}
	bail := func() []Outcome {
		st.Emit("sorted", e.P.Pos(c.Pos), c.Args[0])
		return ret(st)
	}
	n, ok := call("Len")
	ln, ok2 := n.(IntV)
	if !ok || !ok2 {
		return bail()
	}
	less := func(i, j int) (bool, bool) {
		r, ok := call("Less", IntV(i), IntV(j))
		b, ok2 := r.(BoolV)
		return bool(b), ok && ok2
	}
	sv, isSlice := iv.V.(SliceV)
	if !isSlice {
		return bail()
	}
	perm, ok := mergeOrder(int(ln), less)
	if !ok {
		return bail()
	}
	permute(e, st, sv, perm)
	return ret(st)
}

func mergeOrder(n int, less func(i, j int) (bool, bool)) ([]int, bool) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	good := true
	sort.SliceStable(p, func(a, b int) bool {
		r, ok := less(p[a], p[b])
		if !ok {
			good = false
		}
		return r
	})
	return p, good
}

func permute(e *Engine, st *State, s SliceV, perm []int) {
	el, _ := st.Elems(s)
	c, ok := st.obj(s.Obj)
	if a, isA := c.(*ArrV); ok && isA && s.P == nil {
		na := &ArrV{E: append([]Value(nil), a.E...)}
		for i, j := range perm {
			na.E[s.Off+i] = el[j]
		}
		st.setObj(s.Obj, na)
		return
	}
	for i, j := range perm {
		e.Store(st, PtrV{Obj: s.Obj, P: e.path(s.P, -1, IntV(s.Off+i))}, el[j])
	}
}
