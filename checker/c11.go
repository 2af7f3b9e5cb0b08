package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

func init() { checks["C11"] = checkC11; sharded["C11"] = true }

type c11 struct {
	c    *Ctx
	f    *Fix
	fns  map[string]Value
	vals int
}

// one evaluates a text that must have one outcome.
func (x *c11) eval(st *State, text string) (*State, Value, error) {
	outs, err := x.f.Call(st, "Zlisp", "EvalString", x.f.Env, StrV(text))
	if err != nil {
		return nil, nil, err
	}
	return x.single(outs, text)
}

func (x *c11) single(outs []Outcome, what string) (*State, Value, error) {
	if len(outs) != 1 {
		return nil, nil, fmt.Errorf("%s: %d outcomes", what, len(outs))
	}
	o := outs[0]
	switch {
	case o.Kind == kPanic:
		return nil, nil, fmt.Errorf("%s: Go panic %s", what, o.St.Show(o.PanicV))
	case o.Kind != kReturn:
		return nil, nil, fmt.Errorf("%s: undecided: %s", what, o.Why)
	case !isNilV(o.Ret[1]):
		return nil, nil, fmt.Errorf("%s fails: %s", what, o.St.Show(o.Ret[1]))
	}
	return o.St, o.Ret[0], nil
}

func (x *c11) raw(st *State, v Value) (string, error) {
	n, sv := x.f.Unbox(st, v)
	if n != "SexpRaw" {
		return "", fmt.Errorf("no bytes but %s", st.Show(v))
	}
	s, ok := x.f.rawText(st, sv)
	if !ok {
		return "", fmt.Errorf("bytes are not known")
	}
	return s, nil
}

// opt says what must hold of a value.
type opt11 struct {
	noRound bool // only well-formedness and denotation are required
	noData  bool // only well-formedness
	fresh   bool // also decode the bytes in an interpreter that has none of the definitions
}

func (x *c11) value(rule, name string, st *State, v Value, o opt11) {
	x.vals++
	f, c := x.f, x.c
	pos := "zygo/jsonmsgp.go"
	d0, err := f.datumOf(st, v, 0)
	if err != nil {
		c.Undecided(rule, name, err)
		return
	}
	// (json v) is well formed and denotes v
	bytesOf := func(fn string) (*State, Value, string, bool) {
		st1, by, err := x.call(st.Clone(), fn, v)
		if err == nil {
			var s string
			if s, err = x.raw(st1, by); err == nil {
				return st1, by, s, true
			}
		}
		c.Ob(fn+"-encodes", name, false, pos, "(%s v) for v = %s: %v", fn, d0, err)
		return nil, nil, "", false
	}
	st1, by, text, ok := bytesOf("json")
	if ok {
		j, err := jsonDatum(text)
		if err == nil && !o.noData {
			err = denotes(j, d0, true)
		}
		c.Ob("json-well-formed", name, err == nil, pos, "(json v) for v = %s is %q: %v", d0, text, err)
		d1, err := f.datumOf(st1, v, 0)
		c.Ob("encoding-is-pure", name, err == nil && d1.String() == d0.String(), pos, "(json v) turns v = %s into %s", d0, d1)
	}
	back := func(st1 *State, fn string, by Value, how string) {
		if o.noRound {
			return
		}
		st2, r, err := x.call(st1.Clone(), fn, by)
		if err != nil {
			c.Ob("round-trip", name+" / "+how, false, pos, "v = %s: %v", d0, err)
			return
		}
		d2, err := f.datumOf(st2, r, 0)
		c.Ob("round-trip", name+" / "+how, err == nil && d2.ByValue() == d0.ByValue(), pos, "%s of v = %s is %s (%v)", how, d0, d2, err)
		if err == nil && d2.ByValue() == d0.ByValue() {
			// the decoded value is as good as the original: its own encoding says the same
			if st3, by2, err := x.call(st2, map[string]string{"unjson": "json", "unmsgpack": "msgpack"}[fn], r); err == nil {
				t2, _ := x.raw(st3, by2)
				t1, _ := x.raw(st1, by)
				c.Ob("re-encoding", name+" / "+how, t1 == t2, pos, "the decoded value is encoded as %q, the original as %q", t2, t1)
			} else {
				c.Ob("re-encoding", name+" / "+how, false, pos, "%v", err)
			}
		}
	}
	if ok {
		back(st1, "unjson", by, "(unjson (json v))")
		if o.fresh {
			st3 := f.St.Clone()
			bt := types.NewSlice(types.Typ[types.Byte])
			raw := f.Sexp(f.Obj(st3, "SexpRaw", "Val", f.E.convert(st3, StrV(text), tString, bt)), "SexpRaw")
			back(st3, "unjson", raw, "(unjson (json v)) in another interpreter")
		}
	}
	if o.noRound {
		return
	}
	if st1, by, text, ok := bytesOf("msgpack"); ok {
		back(st1, "unmsgpack", by, "(unmsgpack (msgpack v))")
		if o.fresh {
			st3 := f.St.Clone()
			bt := types.NewSlice(types.Typ[types.Byte])
			raw := f.Sexp(f.Obj(st3, "SexpRaw", "Val", f.E.convert(st3, StrV(text), tString, bt)), "SexpRaw")
			back(st3, "unmsgpack", raw, "(unmsgpack (msgpack v)) in another interpreter")
		}
	}
	// json2 has no type names
	if d0.k == "hash" {
		st1, r, err := x.call(st.Clone(), "json2", v)
		if err == nil {
			var d *datum
			if d, err = f.datumOf(st1, r, 0); err == nil {
				var j *datum
				if j, err = jsonDatum(d.s); err == nil && !o.noData {
					err = denotes(j, d0, false)
				}
			}
		}
		c.Ob("json-well-formed", name+" / json2", err == nil, pos, "(json2 v) for v = %s: %v", d0, err)
	}
}

// unknown follows a value with unknown scalars along every path.
func (x *c11) unknown(name string, st *State, v Value) {
	x.vals++
	f, c, pos := x.f, x.c, "zygo/jsonmsgp.go"
	d0, err := f.datumOf(st, v, 0)
	if err != nil {
		c.Stats["shapes_of_unknown_scalars_not_followed"]++
		return
	}
	for _, fn := range []string{"json", "msgpack"} {
		outs, err := x.callAll(st.Clone(), fn, v)
		if err != nil {
			c.Stats["shapes_of_unknown_scalars_not_followed"]++
			return
		}
		good := 0
		for i, o := range outs {
			con := fmt.Sprintf("%s / %s, path %d", name, fn, i)
			if o.Kind == kReturn && !isNilV(o.Ret[1]) && x.noNumber(o.St) {
				continue // NaN and the infinities have no JSON form
			}
			if o.Kind == kTrunc {
				c.Stats["shapes_of_unknown_scalars_not_followed"]++
				good++
				continue
			}
			st1, by, err := x.single([]Outcome{o}, fn)
			if err != nil {
				c.Ob("unknown-scalars", con, false, pos, "v = %s: %v", d0, err)
				continue
			}
			_, sv := f.Unbox(st1, by)
			if sv == nil {
				c.Ob("unknown-scalars", con, false, pos, "(%s v) is %s", fn, st1.Show(by))
				continue
			}
			if fn == "json" {
				txt, ok := f.E.ropeText(st1, f.E.convert(st1, f.FieldOf(sv, "Val"), types.NewSlice(types.Typ[types.Byte]), tString))
				if !ok {
					good++
					c.Stats["shapes_of_unknown_scalars_not_followed"]++
					continue
				}
				j, err := jsonDatum(txt)
				if d, e := f.datumOf(st1, v, 0); e == nil {
					d0 = d
				}
				if err == nil {
					err = denotes(j.unplaced(f.E), d0, true)
				}
				c.Ob("unknown-scalars", con, err == nil, pos, "(json v) for v = %s: %v", d0, err)
			}
			back, err := x.callAll(st1.Clone(), "un"+fn, by)
			if err != nil {
				c.Stats["shapes_of_unknown_scalars_not_followed"]++
				continue
			}
			for _, b := range back {
				if b.Kind == kTrunc {
					c.Stats["shapes_of_unknown_scalars_not_followed"]++
					good++
					continue
				}
				st2, r, err := x.single([]Outcome{b}, "un"+fn)
				var d2 *datum
				if err == nil {
					d2, err = f.datumOf(st2, r, 0)
				}
				if err == nil {
					// what the path has found out about the unknowns holds for the original, too
					d0, err = f.datumOf(st2, v, 0)
				}
				c.Ob("unknown-scalars", con+" and back", err == nil && d2.ByValue() == d0.ByValue(), pos, "(un%s (%s v)) of v = %s is %s (%v)", fn, fn, d0, d2, err)
				good++
			}
		}
		c.Ob("unknown-scalars", name+" / "+fn+", some path", good > 0, pos, "no path of (%s v) for v = %s succeeds", fn, d0)
	}
}

// noNumber: the path has found a float to be NaN or infinite.
func (x *c11) noNumber(st *State) bool {
	for id, v := range st.facts {
		if t := x.f.E.termByID(id); v && t != nil && (strings.HasPrefix(t.Op, "math.IsNaN") || strings.HasPrefix(t.Op, "math.IsInf")) {
			return true
		}
	}
	return false
}

func (x *c11) callAll(st *State, fn string, v Value) ([]Outcome, error) {
	outs, err := x.f.Call(st, "Zlisp", "AddGlobal", x.f.Env, StrV("v11"), v)
	if err != nil || len(outs) != 1 || outs[0].Kind != kReturn {
		return nil, fmt.Errorf("AddGlobal: %v", err)
	}
	return x.f.Call(outs[0].St, "Zlisp", "EvalString", x.f.Env, StrV("("+fn+" v11)"))
}

// call applies a builtin the way a program does.
func (x *c11) call(st *State, fn string, v Value) (*State, Value, error) {
	outs, err := x.f.Call(st, "Zlisp", "AddGlobal", x.f.Env, StrV("v11"), v)
	if err != nil || len(outs) != 1 || outs[0].Kind != kReturn {
		return nil, nil, fmt.Errorf("AddGlobal: %v", err)
	}
	return x.eval(outs[0].St, "("+fn+" v11)")
}

func checkC11(c *Ctx) {
	c.Explain = "Encoders and decoders are followed by abstract interpretation from the builtins json, unjson, msgpack, unmsgpack, json2 down to the codec library, whose calls are folded with the options found in the analysed state. Three groups of values: scalars and strings of every class of character and number in several positions; unknown integers, floats, strings and booleans in nested shapes, which reach the text only through strconv and encoding/json and are followed through the decoders as atoms; and programs building nested records, hashes and declared structs with every order of keys. The JSON text is parsed by encoding/json and must denote the value, the decoded value must have the same data, type names and key order at every level, also in an interpreter without the definitions."
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	f.E.MaxRec = 60
	x := &c11{c: c, f: f}
	thorough := c.Tier == "thorough"
	// strings
	var strs []string
	block := func(lo, hi rune) {
		for a := lo; a <= hi; a += 16 {
			s := ""
			for r := a; r < a+16 && r <= hi; r++ {
				s += string(r)
			}
			strs = append(strs, s)
		}
	}
	block(0, 0x17f)
	block(0x2000, 0x206f)
	block(0xfff0, 0xffff)
	for _, r := range []rune{0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x1d11e, 0x10fffe, 0x10ffff, 0x3b1, 0x5d0, 0x4e2d, 0x301, 0x200d} {
		strs = append(strs, string(r), "a"+string(r)+"\"z\\")
	}
	if thorough {
		block(0x180, 0x1fff)
		block(0x2070, 0x33ff)
		block(0x1f300, 0x1f6ff)
		block(0x10fff0, 0x10ffff)
	}
	strs = append(strs, "", " ", "\"", "\\", "\\\\", "\\\"", "\\u0041", "\\n", "\n", "\r\n", "\t", "/", "</script>", "<!--&>", "%s%d%%", "null", "true", "1", "1.5", "[1]", "{\"a\":1}", "Atype", "zKeyOrder", "hash", "a:", "'", "`", "\u2028\u2029", "\x00", "\x7f\u0080\u0085", strings.Repeat("ab\"\\", 40), strings.Repeat("é", 200))
	str := func(s string) func(*State) Value { return func(st *State) Value { return f.Str(st, StrV(s)) } }
	num := func(i int64) func(*State) Value { return func(st *State) Value { return f.Int(st, IntV(i)) } }
	flt := func(v float64) func(*State) Value { return func(st *State) Value { return f.Float(st, FltV(v)) } }
	type leaf struct {
		name string
		mk   func(*State) Value
	}
	var leaves []leaf
	for _, s := range strs {
		leaves = append(leaves, leaf{fmt.Sprintf("the string %+q", s), str(s)})
	}
	var ints []int64
	for _, b := range []uint{0, 5, 7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63} {
		for d := int64(-1); d <= 1; d++ {
			ints = append(ints, int64(uint64(1)<<b)+d, -int64(uint64(1)<<b)+d)
		}
	}
	ints = append(ints, 1234567890123456789, 999999999999999999, 1000000000000000000, -1000000000000000001, 100000, -31, -33, 12345678901234567)
	seen := map[int64]bool{}
	for _, i := range ints {
		if !seen[i] {
			leaves = append(leaves, leaf{fmt.Sprintf("the integer %d", i), num(i)})
		}
		seen[i] = true
	}
	for _, v := range []uint64{0, 5, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1} {
		v := v
		leaves = append(leaves, leaf{fmt.Sprintf("the integer %dULL", v), func(st *State) Value { return f.Uint(st, IntV(int64(v))) }})
	}
	flts := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.5, 2, 10, 100, 1e5, 1e6, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e-4, 1e-5, 1e-6, 1e-7, 123456789, 1234567.125, 1.0 / 3, 2.0 / 3, math.Pi, 1 << 53, 1<<53 + 2, 9007199254740993, 1 << 63, -(1 << 63), 1 << 64, 1e100, -1e100, 1e308, math.MaxFloat64, -math.MaxFloat64, 5e-324, math.SmallestNonzeroFloat64 * 3, 2.2250738585072014e-308, math.MaxFloat32, 0.30000000000000004, 4.35, 1e23, 8.41, 9.5e-9}
	for e := -300; e <= 300; e += 37 {
		flts = append(flts, math.Ldexp(1.2345678901234567, e))
	}
	for _, v := range flts {
		leaves = append(leaves, leaf{fmt.Sprintf("the float %v", v), flt(v)})
	}
	leaves = append(leaves, leaf{"true", func(st *State) Value { return f.Bool(st, BoolV(true)) }}, leaf{"false", func(st *State) Value { return f.Bool(st, BoolV(false)) }}, leaf{"nil", func(st *State) Value { return f.Null(st) }})
	var hashErr error
	hash := func(st *State, typ string, kv ...Value) (Value, bool) {
		outs, err := f.E.Run(c.P.Func("MakeHash"), []Value{f.E.NewSlice(st, kv...), StrV(typ), f.Env}, st)
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn || !isNilV(outs[0].Ret[1]) {
			hashErr = fmt.Errorf("MakeHash: %d outcomes, %v", len(outs), err)
			for _, o := range outs {
				hashErr = fmt.Errorf("%v %s", hashErr, showOut(o))
			}
			return nil, false
		}
		*st = *outs[0].St
		return f.Sexp(outs[0].Ret[0], "SexpHash"), true
	}
	for i, l := range leaves {
		if !c.Mine() {
			continue
		}
		st := f.St.Clone()
		x.value("value", l.name, st, l.mk(st), opt11{})
		st = f.St.Clone()
		x.value("value", "an array of nil and "+l.name, st, f.Array(st, f.Null(st), l.mk(st), l.mk(st)), opt11{})
		st = f.St.Clone()
		if h, ok := hash(st, "hash", f.Sym(st, "k"), l.mk(st), f.Sym(st, "b"), f.Array(st, l.mk(st)), f.Sym(st, "a"), leaves[(i*7)%len(leaves)].mk(st)); ok {
			x.value("value", "a hash of "+l.name, st, h, opt11{})
		} else {
			c.Undecided("value", l.name, hashErr)
		}
	}
	// string keys: well-formed, same data
	for _, s := range strs {
		if !c.Mine() {
			continue
		}
		st := f.St.Clone()
		if h, ok := hash(st, "hash", f.Str(st, StrV("z")), f.Int(st, IntV(1)), f.Str(st, StrV(s)), f.Str(st, StrV(s)), f.Str(st, StrV("a")), f.Int(st, IntV(2))); ok {
			x.value("string-key", fmt.Sprintf("a hash with the string key %+q", s), st, h, opt11{noRound: true, noData: s == "Atype" || s == "zKeyOrder"})
		} else {
			c.Undecided("string-key", s, hashErr)
		}
	}
	// strings that are no text: well-formed all the same
	for _, s := range []string{"\xff", "a\xc3", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\x80", "\xfe\"\xff\\"} {
		if !c.Mine() {
			continue
		}
		st := f.St.Clone()
		if h, ok := hash(st, "hash", f.Sym(st, "a"), f.Str(st, StrV(s)), f.Str(st, StrV(s)), f.Int(st, IntV(2))); ok {
			x.value("no-text", fmt.Sprintf("bytes %+q", s), st, h, opt11{noRound: true, noData: true})
		}
	}
	// symbol keys of every spelling
	for _, k := range []string{"a", "A", "Z", "zz", "zKeyOrderX", "Atypes", "atype", "hash", "a-b", "a_b", "a1", "a?", "a!", "+", "-", "*", "<", "<=", "=", "&", "é", "日本", "α1", "nil", "true", "false", "json", "if", "quote", "fn", "__x", "#a", "a#b", "a$", "_", "str", "len", "v11", "Car", "Atype", "zKeyOrder"} {
		if !c.Mine() {
			continue
		}
		st := f.St.Clone()
		if h, ok := hash(st, "hash", f.Sym(st, "m"), f.Int(st, IntV(1)), f.Sym(st, k), f.Str(st, StrV(k)), f.Sym(st, "B"), f.Int(st, IntV(2))); ok {
			x.value("symbol-key", "a hash with the key "+k, st, h, opt11{fresh: true})
		} else {
			c.Undecided("symbol-key", k, hashErr)
		}
	}
	// unknown scalars in every position
	type unk struct {
		name string
		mk   func(st *State) Value
	}
	e := f.E
	sInt := e.Sym("n", types.Typ[types.Int64])
	var unks []unk
	signed := func(name string, neg bool) unk {
		return unk{name, func(st *State) Value {
			lt := e.NewTerm("<", types.Typ[types.Bool], sInt, IntV(0))
			e.Assume(st, lt, neg)
			if !neg {
				u := e.NewTerm("conv", types.Typ[types.Uint64], sInt)
				e.Assume(st, e.bigUint(u), false)
				e.Assume(st, e.NewTerm("<", types.Typ[types.Bool], u, IntV(math.MinInt64)), true)
			}
			return f.Int(st, sInt)
		}}
	}
	unks = append(unks, signed("any integer below 0", true), signed("any integer from 0", false))
	for _, big := range []bool{false, true} {
		big := big
		unks = append(unks, unk{fmt.Sprintf("any ULL integer, above the signed ones: %v", big), func(st *State) Value {
			u := e.Sym("u", types.Typ[types.Uint64])
			e.Assume(st, e.bigUint(u), big)
			e.Assume(st, e.NewTerm("<", types.Typ[types.Bool], u, IntV(math.MinInt64)), !big)
			return f.Uint(st, u)
		}})
	}
	unks = append(unks, unk{"any float", func(st *State) Value { return f.Float(st, e.Sym("d", types.Typ[types.Float64])) }}, unk{"any string", func(st *State) Value { return f.Str(st, e.Sym("s", tString)) }}, unk{"any boolean", func(st *State) Value { return f.Bool(st, e.Sym("b", types.Typ[types.Bool])) }})
	shapes := []struct {
		name string
		mk   func(st *State, l Value) (Value, bool)
	}{
		{"%s", func(st *State, l Value) (Value, bool) { return l, true }},
		{"[%s]", func(st *State, l Value) (Value, bool) { return f.Array(st, l), true }},
		{"[nil %s [1 %s]]", func(st *State, l Value) (Value, bool) {
			return f.Array(st, f.Null(st), l, f.Array(st, f.Int(st, IntV(1)), l)), true
		}},
		{"(hash k: %s)", func(st *State, l Value) (Value, bool) { return hash(st, "hash", f.Sym(st, "k"), l) }},
		{"(hash z: %s a: [%s] m: \"x\")", func(st *State, l Value) (Value, bool) {
			return hash(st, "hash", f.Sym(st, "z"), l, f.Sym(st, "a"), f.Array(st, l), f.Sym(st, "m"), f.Str(st, StrV("x")))
		}},
		{"(Rec z: (hash y: %s b: [[%s]]) a: %s)", func(st *State, l Value) (Value, bool) {
			h, ok := hash(st, "hash", f.Sym(st, "y"), l, f.Sym(st, "b"), f.Array(st, f.Array(st, l)))
			if !ok {
				return nil, false
			}
			return hash(st, "Rec", f.Sym(st, "z"), h, f.Sym(st, "a"), l)
		}},
	}
	for _, u := range unks {
		for _, sh := range shapes {
			if !c.Mine() {
				continue
			}
			st := f.St.Clone()
			l := u.mk(st)
			v, ok := sh.mk(st, l)
			nm := strings.ReplaceAll(sh.name, "%s", "<"+u.name+">")
			if !ok {
				c.Stats["shapes_of_unknown_scalars_not_followed"]++
				continue
			}
			x.unknown(nm, st, v)
		}
	}
	// programs
	for _, t := range texts11() {
		if !c.Mine() {
			continue
		}
		i := strings.LastIndex(t.text, ";;")
		pre, e := t.text[:i], t.text[i+2:]
		st, _, err := x.eval(f.St.Clone(), pre)
		var v Value
		if err == nil {
			st, v, err = x.eval(st, e)
		}
		if err != nil {
			c.Undecided("program", t.text, err)
			continue
		}
		x.value("program", t.text, st, v, t.o)
	}
	c.Floor("round-trip", 1500)
	c.Floor("json-well-formed", 1000)
	c.Stats["values"] = x.vals
}

type text11 struct {
	text string
	o    opt11
}

func texts11() (r []text11) {
	add := func(o opt11, ts ...string) {
		for _, t := range ts {
			if !strings.Contains(t, ";;") {
				t = "nil;;" + t
			}
			r = append(r, text11{t, o})
		}
	}
	fr := opt11{fresh: true}
	// containers of every shape to depth 3
	lv := []string{"1", `"s"`, "2.5", "true", "nil"}
	d1 := []string{"[]", "(hash)", "(R1)", "[1]", "(hash z: 1)", "(R1 q: nil)", `[nil "x"]`, `(hash b: "x" a: 2)`, "(R2 y: 1.5 x: 2)"}
	pre := "(defmap R1) (defmap R2);;"
	for _, a := range append(append([]string{}, lv...), d1...) {
		add(fr, pre+"["+a+"]", pre+"(hash k: "+a+")", pre+"(R1 k: "+a+")")
		for _, b := range d1 {
			add(opt11{}, pre+"["+a+" "+b+"]", pre+"(R2 c: "+b+" a: "+a+" b: "+b+")")
		}
	}
	for _, a := range d1 {
		for _, b := range []string{"[X]", "(hash n: X m: 1)", "(R1 n: X)", "(R2 b: 1 n: X a: [X])"} {
			for _, d := range []string{"[0 X]", "(hash n: X)", "(R2 z: 1 n: X a: [])"} {
				add(opt11{}, pre+strings.ReplaceAll(d, "X", strings.ReplaceAll(b, "X", a)))
			}
		}
	}
	// orders of keys
	perm := [][]string{{"a", "b", "c"}, {"a", "c", "b"}, {"b", "a", "c"}, {"b", "c", "a"}, {"c", "a", "b"}, {"c", "b", "a"}, {"Z", "a", "A"}, {"zz", "B", "_a"}}
	for _, p := range perm {
		add(fr, fmt.Sprintf(pre+"(R1 %s: 1 %s: 2 %s: (hash %s: 1 %s: 2))", p[0], p[1], p[2], p[2], p[0]))
		add(fr, fmt.Sprintf("(def h (hash %s: 1 %s: 2 %s: 3)) (hdel h %s:) (hset h n: 4) (hset h %s: 5);;h", p[0], p[1], p[2], p[0], p[0]))
		add(fr, fmt.Sprintf("(def h (hash %s: 1 %s: 2 %s: 3)) (hset h %s: 9) (hdel h %s:);;h", p[0], p[1], p[2], p[1], p[2]))
	}
	// declared types
	sp := `(struct Dog [(field name: string) (field age: int64) (field w: float64) (field ok: bool) (field tags: ([]string)) (field n: ([] int64)) (field u: uint64)]) (struct Own [(field dog: Dog) (field dogs: ([] Dog)) (field m: ([] ([] int64)))]);;`
	add(opt11{},
		sp+`(Dog name: "a\"b\\c" age: -3 w: 1.5 ok: true tags: ["x" "" "y\n"] n: [1 2])`, sp+`(Dog)`, sp+`(Dog w: 2.0 age: 0)`, sp+`(Dog ok: false name: "")`, sp+`(Dog tags: [] n: [])`, sp+`(Dog w: 1e21)`, sp+`(Dog w: 1e6)`, sp+`(Dog w: -0.0)`, sp+`(Dog name: nil age: nil tags: nil)`,
		sp+`(Own dog: (Dog name: "x") dogs: [(Dog age: 1) (Dog age: 2 w: 3.0)] m: [[1] [] [2 3]])`, sp+`(Own dogs: [] m: [[]])`, sp+`[(Dog age: 1) (Own dog: (Dog)) (hash d: (Dog w: 4.0))]`, sp+`(Dog u: 5ULL)`, sp+`(Dog u: 18446744073709551615ULL)`)
	// the tests' own records and literals
	add(fr, `(defmap ranch) (defmap horse);;(ranch cowboy: "Jim" cowgirl: "Jane" hs: [(horse name: "s\\ilver") (horse name: "tri\"gger" age: 12.0)])`)
	add(opt11{noRound: true}, `{"a":1,"b":[1,2.5,"x"],"c":{"d":null,"e":true}}`, `{"a b":1,"q\"":"\\","é":"日"}`, `{"z":1,"a":{"y":[],"x":{}}}`, `{}`, `[{"a":1},{"b":[{}]}]`, `{a:1, b:"x"}`, `{"a":-1,"b":1e3,"c":-2.5e-3}`, `{"a":"\n\t\\\"'"}`, `{"Aa":[[[[1]]]]}`)
	add(fr, `{a:1 b:{c:[1 2] d:"x"}}`, `{z:1 a:{y:[] x:{}}}`)
	// values made by arithmetic
	add(fr, `[(/ 1 3.0) (* 2 0.5) (+ 1.5 1.5) (- 0.1 0.3) (* 1e200 1e-200) (/ 6 3) (/ 7 2) (** 2 10) (** 2.0 0.5) (+ 9223372036854775807 0) (- -9223372036854775807 1)]`, `[(append [1] 2) (concat [1] [2.0])]`, `(let [a [1 2]] (hash p: a q: a r: [a a]))`, `(let [a (hash z: 1 b: 2)] [a a (hash x: a)])`)
	return
}
