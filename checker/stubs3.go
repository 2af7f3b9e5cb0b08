package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/ugorji/go/codec"
)

// The codec library is a transfer function over constants: the options of the handle are read from the abstract
// state, and the real library is folded over the (known) bytes or values.

type codecState struct {
	h   codec.Handle
	in  []byte
	out Value // the writer of an encoder
}

// hostIface turns a known dynamic value into the Go value the library sees.
func (e *Engine) hostIface(st *State, v Value) (interface{}, bool) {
	switch x := v.(type) {
	case NilV:
		return nil, true
	case IfaceV:
		switch t := x.T.Underlying().(type) {
		case *types.Basic:
			rt, ok := basicReflect[t.Kind()]
			if !ok || types.Type(t) != x.T && x.T != types.Typ[t.Kind()] {
				return nil, false
			}
			if tm, is := x.V.(*Term); is {
				return e.placeholder(st, tm, t)
			}
			r, ok := goNative(st, x.V, rt, 0)
			if !ok {
				return nil, false
			}
			return r.Interface(), true
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				if s, ok := e.convert(st, x.V, x.T, types.Typ[types.String]).(StrV); ok {
					return []byte(s), true
				}
				return nil, false
			}
			if _, ok := t.Elem().Underlying().(*types.Interface); !ok {
				return nil, false
			}
			el, ok := st.Elems(x.V)
			if !ok {
				return nil, false
			}
			r := []interface{}{}
			for _, y := range el {
				h, ok := e.hostIface(st, y)
				if !ok {
					return nil, false
				}
				r = append(r, h)
			}
			return r, true
		case *types.Map:
			_, m, ok := e.mapOf(st, x.V)
			if !ok || m.Base != nil || types.TypeString(t.Key(), nil) != "string" {
				return nil, false
			}
			r := map[string]interface{}{}
			for _, en := range m.Ents {
				if en.Del {
					continue
				}
				k, ok := en.K.(StrV)
				if !ok {
					return nil, false
				}
				h, ok := e.hostIface(st, en.V)
				if !ok {
					return nil, false
				}
				r[string(k)] = h
			}
			return r, true
		}
	}
	return nil, false
}

var emptyIfaceT = types.NewInterfaceType(nil, nil)
var anySliceT = types.NewSlice(emptyIfaceT)
var anyMapT = types.NewMap(types.Typ[types.String], emptyIfaceT)

func (e *Engine) fromHostIface(st *State, v interface{}) (Value, bool) {
	if t, bt, is := e.unplace(v); is {
		if t == nil {
			return nil, false
		}
		return IfaceV{T: types.Typ[bt], V: t}, true
	}
	switch x := v.(type) {
	case nil:
		return NilV{}, true
	case []byte:
		bt := types.NewSlice(types.Typ[types.Byte])
		return IfaceV{T: bt, V: e.convert(st, StrV(x), types.Typ[types.String], bt)}, true
	case []interface{}:
		var el []Value
		for _, y := range x {
			h, ok := e.fromHostIface(st, y)
			if !ok {
				return nil, false
			}
			el = append(el, h)
		}
		return IfaceV{T: anySliceT, V: e.NewSlice(st, el...)}, true
	case map[string]interface{}:
		m := e.NewMap(st, anyMapT)
		for _, k := range sortedKeys(x) {
			h, ok := e.fromHostIface(st, x[k])
			if !ok {
				return nil, false
			}
			e.MapUpdate(st, m, StrV(k), h, false, func(s *State) {})
		}
		return IfaceV{T: anyMapT, V: m}, true
	}
	rv := reflect.ValueOf(v)
	for k, rt := range basicReflect {
		if rt == rv.Type() {
			return IfaceV{T: types.Typ[k], V: fromNative(e, st, rv, "codec")}, true
		}
	}
	return nil, false
}

// handleOf builds the library's handle from the options in the abstract state.
func (e *Engine) handleOf(st *State, v Value) (codec.Handle, bool) {
	iv, ok := v.(IfaceV)
	if !ok {
		return nil, false
	}
	var h codec.Handle
	switch types.TypeString(iv.T, nil) {
	case "*github.com/ugorji/go/codec.JsonHandle":
		h = &codec.JsonHandle{}
	case "*github.com/ugorji/go/codec.MsgpackHandle":
		h = &codec.MsgpackHandle{}
	default:
		return nil, false
	}
	s, ok := e.Load(st, iv.V)
	if !ok {
		return nil, false
	}
	return h, e.copyOptions(st, s, reflect.ValueOf(h).Elem())
}

func (e *Engine) copyOptions(st *State, v Value, to reflect.Value) bool {
	s, ok := v.(*StructV)
	if !ok {
		return false
	}
	tt, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < tt.NumFields(); i++ {
		fl := tt.Field(i)
		dst := to.FieldByName(fl.Name())
		if !dst.IsValid() {
			continue
		}
		if dst.Kind() == reflect.Struct {
			if fl.Embedded() {
				if !e.copyOptions(st, s.F[i], dst) {
					return false
				}
			}
			continue
		}
		if !dst.CanSet() || !fl.Exported() {
			continue
		}
		switch x := s.F[i].(type) {
		case NilV:
		case BoolV:
			dst.SetBool(bool(x))
		case IntV:
			if dst.CanInt() {
				dst.SetInt(int64(x))
			} else if dst.CanUint() {
				dst.SetUint(uint64(x))
			}
		case *HostV:
			if x.Kind != "rtype" {
				return false
			}
			switch x.V.(string) {
			case "map[string]interface{}", "map[string]any":
				dst.Set(reflect.ValueOf(reflect.TypeOf(map[string]interface{}(nil))))
			case "map[interface{}]interface{}", "map[any]any":
				dst.Set(reflect.ValueOf(reflect.TypeOf(map[interface{}]interface{}(nil))))
			case "[]interface{}", "[]any":
				dst.Set(reflect.ValueOf(reflect.TypeOf([]interface{}(nil))))
			default:
				return false
			}
		case IfaceV:
			if h, ok := x.V.(*HostV); !ok || h.Kind != "rtype" {
				return false
			}
			return false
		default:
			return false
		}
	}
	return true
}

func installStubs3(e *Engine) {
	e.builderStubs()
	const pk = "github.com/ugorji/go/codec."
	mk := func(enc bool) StubFn {
		return func(c *Call) []Outcome {
			h, ok := e.handleOf(c.St, c.Args[1])
			if !ok {
				return nil
			}
			cs := &codecState{h: h}
			if enc {
				cs.out = c.Args[0]
			} else {
				s, ok := e.ropeText(c.St, e.convert(c.St, c.Args[0], c.Sig.Params().At(0).Type(), types.Typ[types.String]))
				if !ok {
					return []Outcome{{St: c.St, Kind: kTrunc, Why: "the text handed to the decoder is not understood"}}
				}
				cs.in = []byte(s)
			}
			return ret(c.St, &HostV{Kind: "codec", V: cs})
		}
	}
	e.Stubs[pk+"NewDecoderBytes"] = mk(false)
	e.Stubs[pk+"NewEncoder"] = mk(true)
	e.Stubs["(*"+pk+"Decoder).Decode"] = func(c *Call) []Outcome {
		h, ok := c.Args[0].(*HostV)
		iv, ok2 := c.Args[1].(IfaceV)
		if !ok || !ok2 || h.Kind != "codec" || types.TypeString(iv.T.Underlying(), nil) != "*interface{}" && types.TypeString(iv.T.Underlying(), nil) != "*any" {
			return nil
		}
		cs := h.V.(*codecState)
		var v interface{}
		if err := codec.NewDecoderBytes(cs.in, cs.h).Decode(&v); err != nil {
			return ret(c.St, fromNative(e, c.St, reflect.ValueOf(&err).Elem(), "decode"))
		}
		x, ok := e.fromHostIface(c.St, v)
		if !ok {
			return []Outcome{{St: c.St, Kind: kTrunc, Why: "the decoded value is not understood"}}
		}
		pv, isPtr := iv.V.(PtrV)
		if !isPtr {
			return nil
		}
		e.Store(c.St, pv, x)
		return ret(c.St, NilV{})
	}
	e.Stubs["(*"+pk+"Encoder).Encode"] = func(c *Call) []Outcome {
		h, ok := c.Args[0].(*HostV)
		if !ok || h.Kind != "codec" {
			return nil
		}
		cs := h.V.(*codecState)
		v := c.Args[1]
		if iv, is := v.(IfaceV); is {
			if p, isP := iv.T.Underlying().(*types.Pointer); isP {
				if _, isI := p.Elem().Underlying().(*types.Interface); isI {
					if v, ok = e.Load(c.St, iv.V); !ok {
						return nil
					}
				}
			}
		}
		x, ok := e.hostIface(c.St, v)
		if !ok {
			return []Outcome{{St: c.St, Kind: kTrunc, Why: "the value handed to the encoder is not understood"}}
		}
		var buf bytes.Buffer
		if err := codec.NewEncoder(&buf, cs.h).Encode(&x); err != nil {
			return ret(c.St, fromNative(e, c.St, reflect.ValueOf(&err).Elem(), "encode"))
		}
		return e.writeTo(c, cs.out, buf.Bytes())
	}
	e.Stubs[pk+"NewEncoderBytes"] = func(c *Call) []Outcome {
		h, ok := e.handleOf(c.St, c.Args[1])
		if !ok {
			return nil
		}
		return ret(c.St, &HostV{Kind: "codec", V: &codecState{h: h, out: c.Args[0]}})
	}
	// encoding/json writes what its real counterpart writes
	e.Stubs["encoding/json.NewEncoder"] = func(c *Call) []Outcome {
		o := e.alloc(c.St, &StructV{T: c.Sig.Results().At(0).Type(), F: []Value{c.Args[0], BoolV(true), StrV(""), StrV("")}})
		return ret(c.St, PtrV{Obj: o})
	}
	encState := func(c *Call) (*StructV, PtrV, bool) {
		p, ok := c.Args[0].(PtrV)
		if !ok {
			return nil, p, false
		}
		v, _ := e.Load(c.St, p)
		s, ok := v.(*StructV)
		return s, p, ok && len(s.F) == 4
	}
	e.Stubs["(*encoding/json.Encoder).SetEscapeHTML"] = func(c *Call) []Outcome {
		s, p, ok := encState(c)
		if !ok {
			return nil
		}
		e.Store(c.St, p, &StructV{T: s.T, F: []Value{s.F[0], c.Args[1], s.F[2], s.F[3]}})
		return ret(c.St)
	}
	e.Stubs["(*encoding/json.Encoder).SetIndent"] = func(c *Call) []Outcome {
		s, p, ok := encState(c)
		if !ok {
			return nil
		}
		e.Store(c.St, p, &StructV{T: s.T, F: []Value{s.F[0], s.F[1], c.Args[1], c.Args[2]}})
		return ret(c.St)
	}
	e.Stubs["(*encoding/json.Encoder).Encode"] = func(c *Call) []Outcome {
		s, _, ok := encState(c)
		if !ok {
			return nil
		}
		esc, ok1 := s.F[1].(BoolV)
		pre, ok2 := s.F[2].(StrV)
		ind, ok3 := s.F[3].(StrV)
		x, ok4 := e.hostIface(c.St, c.Args[1])
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return []Outcome{{St: c.St, Kind: kTrunc, Why: "the value handed to the JSON encoder is not understood"}}
		}
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		enc.SetEscapeHTML(bool(esc))
		enc.SetIndent(string(pre), string(ind))
		if err := enc.Encode(x); err != nil {
			return ret(c.St, fromNative(e, c.St, reflect.ValueOf(&err).Elem(), "encode"))
		}
		return e.writeTo(c, s.F[0], buf.Bytes())
	}
	e.Stubs["encoding/json.MarshalIndent"] = func(c *Call) []Outcome {
		x, ok := e.hostIface(c.St, c.Args[0])
		pre, ok1 := c.Args[1].(StrV)
		ind, ok2 := c.Args[2].(StrV)
		if !ok || !ok1 || !ok2 {
			return nil
		}
		by, err := json.MarshalIndent(x, string(pre), string(ind))
		return ret(c.St, e.convert(c.St, StrV(by), tString, c.Sig.Results().At(0).Type()), fromNative(e, c.St, reflect.ValueOf(&err).Elem(), "encode"))
	}
	e.Stubs["encoding/json.Valid"] = func(c *Call) []Outcome {
		if s, ok := e.ropeText(c.St, e.convert(c.St, c.Args[0], c.Sig.Params().At(0).Type(), tString)); ok {
			return ret(c.St, BoolV(json.Valid([]byte(s))))
		}
		return nil
	}
}

// A strings.Builder holds its text, known or not, as one string value in its buf field.
func (e *Engine) builderStubs() {
	field := func(b *StructV) int {
		tt := b.T.Underlying().(*types.Struct)
		for i := 0; i < tt.NumFields(); i++ {
			if tt.Field(i).Name() == "buf" {
				return i
			}
		}
		return -1
	}
	get := func(c *Call) (PtrV, *StructV, int, Value, bool) {
		p, ok := c.Args[0].(PtrV)
		if !ok {
			return p, nil, 0, nil, false
		}
		v, _ := e.Load(c.St, p)
		b, ok := v.(*StructV)
		if !ok {
			return p, nil, 0, nil, false
		}
		i := field(b)
		if i < 0 {
			return p, nil, 0, nil, false
		}
		switch x := b.F[i].(type) {
		case StrV:
			return p, b, i, x, true
		case *Term:
			return p, b, i, x, x.T != nil && isStringT(x.T)
		case NilV:
			return p, b, i, StrV(""), true
		}
		return p, b, i, nil, false
	}
	write := func(name string, text func(c *Call) Value, res func(c *Call, t Value) []Value) {
		e.Stubs["(*strings.Builder)."+name] = func(c *Call) []Outcome {
			p, b, i, old, ok := get(c)
			if !ok {
				return nil
			}
			t := text(c)
			if t == nil {
				return nil
			}
			nb := &StructV{T: b.T, F: append([]Value(nil), b.F...)}
			nb.F[i] = e.strCat(old, t)
			e.Store(c.St, p, nb)
			return ret(c.St, res(c, t)...)
		}
	}
	n := func(c *Call, t Value) []Value {
		if s, ok := t.(StrV); ok {
			return []Value{IntV(len(s)), NilV{}}
		}
		return []Value{e.NewTerm("len", types.Typ[types.Int], t), NilV{}}
	}
	write("WriteString", func(c *Call) Value { return c.Args[1] }, n)
	write("Write", func(c *Call) Value { return e.convert(c.St, c.Args[1], c.Sig.Params().At(0).Type(), tString) }, n)
	write("WriteByte", func(c *Call) Value {
		if i, ok := c.Args[1].(IntV); ok {
			return StrV([]byte{byte(i)})
		}
		return nil
	}, func(c *Call, t Value) []Value { return []Value{NilV{}} })
	write("WriteRune", func(c *Call) Value {
		if i, ok := c.Args[1].(IntV); ok {
			return StrV(string(rune(i)))
		}
		return nil
	}, n)
	// a stack trace is text of no consequence: one frame
	e.Stubs["(*runtime.Frames).Next"] = func(c *Call) []Outcome {
		return ret(c.St, e.Zero(c.Sig.Results().At(0).Type()), BoolV(false))
	}
	e.Stubs["(*strings.Builder).Grow"] = func(c *Call) []Outcome { return ret(c.St) }
	e.Stubs["(*strings.Builder).Reset"] = func(c *Call) []Outcome {
		p, b, i, _, ok := get(c)
		if !ok {
			return nil
		}
		nb := &StructV{T: b.T, F: append([]Value(nil), b.F...)}
		nb.F[i] = NilV{}
		e.Store(c.St, p, nb)
		return ret(c.St)
	}
	e.Stubs["(*strings.Builder).String"] = func(c *Call) []Outcome {
		_, _, _, s, ok := get(c)
		if !ok {
			return nil
		}
		return ret(c.St, s)
	}
	e.Stubs["(*strings.Builder).Len"] = func(c *Call) []Outcome {
		_, _, _, s, ok := get(c)
		if !ok {
			return nil
		}
		if x, is := s.(StrV); is {
			return ret(c.St, IntV(len(x)))
		}
		return ret(c.St, e.NewTerm("len", types.Typ[types.Int], s))
	}
}

// writeTo hands bytes to a writer the analysis knows: *bytes.Buffer, *strings.Builder, *[]byte.
func (e *Engine) writeTo(c *Call, w Value, by []byte) []Outcome {
	fail := []Outcome{{St: c.St, Kind: kTrunc, Why: "the writer is not understood"}}
	grow := func(old Value) (Value, bool) {
		o, ok := c.St.Elems(old)
		if !ok {
			return nil, false
		}
		el := append([]Value(nil), o...)
		for _, y := range by {
			el = append(el, IntV(int64(y)))
		}
		return e.NewSlice(c.St, el...), true
	}
	iv, isI := w.(IfaceV)
	if isI {
		w = iv.V
	}
	wp, isPtr := w.(PtrV)
	if !isPtr {
		return fail
	}
	bs, ok := e.Load(c.St, wp)
	if !ok {
		return fail
	}
	b, isS := bs.(*StructV)
	if !isS {
		nb, ok := grow(bs)
		if !ok {
			return fail
		}
		e.Store(c.St, wp, nb)
		return ret(c.St, NilV{})
	}
	switch types.TypeString(b.T, nil) {
	case "bytes.Buffer", "strings.Builder":
	default:
		return fail
	}
	if types.TypeString(b.T, nil) == "strings.Builder" {
		sub := &Call{E: e, St: c.St, Args: []Value{wp, StrV(by)}}
		if outs := e.Stubs["(*strings.Builder).WriteString"](sub); outs != nil {
			return ret(c.St, NilV{})
		}
		return fail
	}
	tt := b.T.Underlying().(*types.Struct)
	nb := &StructV{T: b.T, F: append([]Value(nil), b.F...)}
	for i := 0; i < tt.NumFields(); i++ {
		if tt.Field(i).Name() != "buf" {
			continue
		}
		nv, ok := grow(b.F[i])
		if !ok {
			return fail
		}
		nb.F[i] = nv
	}
	e.Store(c.St, wp, nb)
	return ret(c.St, NilV{})
}

// Unknown numbers and strings pass through the library as distinct placeholders: the texts that strconv and
// encoding/json write for an unknown value are atoms of a rope, and what is decoded from an atom is the value.

const phBase = int64(7100000000000000)
const phFlt = 71000000000.0

type phTable struct {
	idx   map[int]int
	terms []*Term
}

func (e *Engine) phIndex(t *Term) int {
	if e.ph == nil {
		e.ph = &phTable{idx: map[int]int{}}
	}
	i, ok := e.ph.idx[t.ID]
	if !ok {
		i = len(e.ph.terms)
		e.ph.idx[t.ID] = i
		e.ph.terms = append(e.ph.terms, t)
	}
	return i
}

// placeholder stands for the unknown t of the given type.
func (e *Engine) placeholder(st *State, t *Term, b *types.Basic) (interface{}, bool) {
	switch b.Kind() {
	case types.String:
		return fmt.Sprintf("\ue000ph%d\ue001", e.phIndex(t)), true
	case types.Float64:
		return phFlt + float64(e.phIndex(t)) + 0.5, true
	case types.Int64, types.Int, types.Uint64:
		src := t
		if t.Op == "conv" && len(t.Args) == 1 {
			if s, ok := t.Args[0].(*Term); ok && isIntVal(s) {
				src = s
			}
		}
		neg, big := false, false
		if sb, ok := src.T.Underlying().(*types.Basic); ok && sb.Info()&types.IsUnsigned == 0 {
			k := false
			if neg, k = e.Tri(st, e.NewTerm("<", types.Typ[types.Bool], src, IntV(0))); !k {
				return nil, false
			}
			if neg && b.Kind() == types.Uint64 {
				return nil, false
			}
		} else if ok {
			k := false
			if big, k = e.Tri(st, e.bigUint(src)); !k {
				return nil, false
			}
			if big && b.Kind() != types.Uint64 {
				return nil, false
			}
		}
		v := phBase + int64(e.phIndex(src))
		if neg {
			v = -v
		}
		switch {
		case big:
			return uint64(v) | 1<<63, true
		case b.Kind() == types.Int:
			return int(v), true
		case b.Kind() == types.Uint64:
			return uint64(v), true
		}
		return v, true
	}
	return nil, false
}

func (e *Engine) bigUint(t *Term) *Term {
	return e.NewTerm("<", types.Typ[types.Bool], IntV(math.MaxInt64), t)
}

// unplace recognises a placeholder.
func (e *Engine) unplace(v interface{}) (*Term, types.BasicKind, bool) {
	if e.ph == nil {
		return nil, 0, false
	}
	get := func(i int64) *Term {
		if i >= 0 && i < int64(len(e.ph.terms)) {
			return e.ph.terms[i]
		}
		return nil
	}
	as := func(t *Term, k types.BasicKind) *Term {
		if t.T == nil {
			return t
		}
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Kind() == k {
			return t
		} else if ok && b.Info()&types.IsFloat != 0 && k != types.Float64 {
			return e.NewTerm("intOf", types.Typ[k], t)
		}
		return e.NewTerm("conv", types.Typ[k], t)
	}
	switch x := v.(type) {
	case int64:
		i := x - phBase
		if x < 0 {
			i = -x - phBase
		}
		if t := get(i); t != nil {
			return as(t, types.Int64), types.Int64, true
		}
		if t := get(x - int64(phFlt)); t != nil {
			return as(t, types.Int64), types.Int64, true
		}
	case uint64:
		if t := get(int64(x&^(1<<63)) - phBase); t != nil {
			return as(t, types.Uint64), types.Uint64, true
		}
		if t := get(int64(x) - int64(phFlt)); t != nil {
			return as(t, types.Uint64), types.Uint64, true
		}
	case float64:
		f := x - phFlt
		if t := get(int64(f)); t != nil && (f == math.Trunc(f) || f-math.Trunc(f) == 0.5) && f >= 0 {
			return as(t, types.Float64), types.Float64, true
		}
	case string:
		if strings.Contains(x, "\ue000ph") {
			var i int64
			if n, _ := fmt.Sscanf(x, "\ue000ph%d\ue001", &i); n == 1 && x == fmt.Sprintf("\ue000ph%d\ue001", i) {
				return get(i), types.String, true
			}
			return nil, types.String, true
		}
	}
	return nil, 0, false
}

// ropeText writes a string value with placeholders for the unknown values printed in it.
func (e *Engine) ropeText(st *State, v Value) (string, bool) {
	parts, ok := e.rope(st, v, nil)
	if !ok {
		return "", false
	}
	var sb strings.Builder
	for i, p := range parts {
		switch x := p.(type) {
		case StrV:
			sb.WriteString(string(x))
		case *Term:
			a := x.Args
			arg, _ := a[0].(*Term)
			if arg == nil {
				return "", false
			}
			switch x.Op {
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
				if len(a) > 1 && a[1] != Value(IntV(10)) {
					return "", false
				}
				b, _ := arg.T.Underlying().(*types.Basic)
				if b == nil {
					return "", false
				}
				h, ok := e.placeholder(st, arg, b)
				if !ok {
					return "", false
				}
				fmt.Fprint(&sb, h)
			case "strconv.FormatFloat":
				if a[1] != Value(IntV('g')) && a[1] != Value(IntV('e')) && a[1] != Value(IntV('f')) || a[2] != Value(IntV(-1)) && a[2] != Value(IntV(17)) || a[3] != Value(IntV(64)) {
					return "", false
				}
				n := int64(phFlt) + int64(e.phIndex(arg))
				fmt.Fprint(&sb, n)
				if i+1 < len(parts) {
					if nx, is := parts[i+1].(StrV); is && strings.HasPrefix(string(nx), ".") {
						continue
					}
				}
				sb.WriteString(".5")
			case "json":
				h, _ := e.placeholder(st, arg, types.Typ[types.String])
				by, _ := json.Marshal(h)
				sb.Write(by)
			default:
				return "", false
			}
		}
	}
	return sb.String(), true
}

func (e *Engine) rope(st *State, v Value, parts []Value) ([]Value, bool) {
	switch x := v.(type) {
	case StrV:
		if n := len(parts); n > 0 {
			if p, is := parts[n-1].(StrV); is {
				parts[n-1] = p + x
				return parts, true
			}
		}
		return append(parts, x), true
	case *Term:
		ok := true
		switch x.Op {
		case "cat":
			for _, a := range x.Args {
				if parts, ok = e.rope(st, a, parts); !ok {
					return nil, false
				}
			}
			return parts, true
		case "conv":
			return e.rope(st, x.Args[0], parts)
		case "strings.Join":
			if l, is := x.Args[0].(*TupleV); is {
				for i, a := range l.E {
					if i > 0 {
						if parts, ok = e.rope(st, x.Args[1], parts); !ok {
							return nil, false
						}
					}
					if parts, ok = e.rope(st, a, parts); !ok {
						return nil, false
					}
				}
				return parts, true
			}
		case "json", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat":
			return append(parts, x), true
		}
	}
	return nil, false
}

// hasPlaceholder: the value has unknown parts.
func (e *Engine) hasPlaceholder(st *State, v Value) bool {
	switch x := v.(type) {
	case *Term:
		return true
	case IfaceV:
		return e.hasPlaceholder(st, x.V)
	case SliceV:
		el, ok := st.Elems(x)
		if !ok {
			return true
		}
		for _, y := range el {
			if e.hasPlaceholder(st, y) {
				return true
			}
		}
	case MapV:
		_, m, ok := e.mapOf(st, x)
		if !ok || m.Base != nil {
			return true
		}
		for _, en := range m.Ents {
			if e.hasPlaceholder(st, en.V) || e.hasPlaceholder(st, en.K) {
				return true
			}
		}
	}
	return false
}

func sortedKeys(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
