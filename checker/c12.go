package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() { checks["C12"] = checkC12; sharded["C12"] = true }

type c12 struct {
	c11
	pretty *State
}

// text calls (str v) and gives its text.
func (x *c12) text(st *State, v Value) (string, error) {
	st1, s, err := x.call(st.Clone(), "str", v)
	if err != nil {
		return "", err
	}
	d, err := x.f.datumOf(st1, s, 0)
	if err != nil {
		return "", err
	}
	if d.k != "str" || d.sym != nil {
		return "", fmt.Errorf("(str v) is %s", d)
	}
	return d.s, nil
}

// read gives the datum that a call fn of read denotes.
func (x *c12) read(fn, text string) (*datum, error) {
	st := x.f.St.Clone()
	var v Value
	var err error
	switch fn {
	case "read":
		st, v, err = x.call(st, "read", x.f.Str(st, StrV(text)))
	case "eval read":
		st, _, err = x.call(st, "list", x.f.Str(st, StrV(text))) // binds v11
		if err == nil {
			st, v, err = x.eval(st, "(eval (read v11))")
		}
	default:
		st, v, err = x.eval(st, text)
	}
	if err != nil {
		return nil, err
	}
	return x.f.datumOf(st, v, 0)
}

// back: v is printed and read again, evaluated too if it is data of the JSON kind.
func (x *c12) back(name string, st *State, v Value, json bool) {
	f, c, pos := x.f, x.c, "zygo/lexer.go"
	d0, err := f.datumOf(st, v, 0)
	if err != nil {
		c.Undecided("read-back", name, err)
		return
	}
	for _, pretty := range []bool{false, true} {
		s1 := st
		con := name
		if pretty {
			if d0.el == nil {
				continue // nothing to lay out
			}
			con += " (pretty)"
			s1, _, err = x.eval(st.Clone(), "(pretty true)")
			if err != nil {
				c.Undecided("read-back", con, err)
				continue
			}
		}
		txt, err := x.text(s1, v)
		c.Ob("prints", con, err == nil, "zygo/expressions.go", "(str v) for v = %s: %v", d0, err)
		if err != nil {
			continue
		}
		if !hasHash(d0) {
			d, err := x.read("read", txt)
			c.Ob("read-back", con, err == nil && d.ByValue() == d0.ByValue(), pos, "v = %s is printed as %q, which reads as %s (%v)", d0, txt, d, err)
		}
		if json {
			for _, how := range []string{"eval read", "text"} {
				d, err := x.read(how, txt)
				c.Ob("eval-back", con+" / "+how, err == nil && d.ByValue() == d0.ByValue(), pos, "v = %s is printed as %q, which evaluates to %s (%v)", d0, txt, d, err)
			}
		}
	}
}

func hasHash(d *datum) bool {
	if d == nil {
		return false
	}
	if d.k == "hash" || hasHash(d.tail) {
		return true
	}
	for _, e := range d.el {
		if hasHash(e) {
			return true
		}
	}
	return false
}

// literal: text denotes want wherever it is written; want nil: it is an error.
func (x *c12) literal(text string, want *datum) {
	c, pos := x.c, "zygo/lexer.go"
	type ctx struct {
		fn, pre, post string
		pick          func(*datum) *datum
	}
	el := func(i int) func(*datum) *datum {
		return func(d *datum) *datum {
			if d == nil || i >= len(d.el) {
				return nil
			}
			return d.el[i]
		}
	}
	self := func(d *datum) *datum { return d }
	for _, k := range []ctx{{"read", "", "", self}, {"read", " ", " ", self}, {"read", "(a ", " b)", el(1)}, {"read", "(", ")", el(0)}, {"read", "[1 ", "]", el(1)}, {"read", "[", "\n2]", el(0)}, {"text", "", "", self}, {"text", "\n", "\n", self}, {"text", "[2 ", " 3]", el(1)}, {"text", "{k:", "}", el(0)}, {"text", "{k:1 m: ", "}", el(1)}, {"text", "{x := ", "}", self}, {"text", "(first (quote (", " 5)))", self}} {
		txt := k.pre + text + k.post
		all, err := x.read(k.fn, txt)
		if want == nil {
			// an error, or at least not a number or text
			got := k.pick(all)
			c.Ob("no-literal", txt, err != nil || got == nil || got.k == "sym" || got.k == "list" || got.k == "other", pos, "%q is no literal but is read as %s", txt, all)
			continue
		}
		got := k.pick(all)
		c.Ob("literal", k.fn+" "+txt, err == nil && got != nil && got.String() == want.String(), pos, "%q denotes %s but gives %s (%v)", txt, want, all, err)
	}
}

func checkC12(c *Ctx) {
	c.Explain = "Printers, lexer and parser are followed by abstract interpretation from the builtins str, read, eval and from EvalString. Literals: every notation at the limits of its range, every class of character, in a dozen positions, must denote the value given by exact arithmetic. Values: scalars of every class, in every shape of nested lists, dotted pairs, arrays and hashes, printed plainly and pretty; the text must read as an equal value, and evaluate to an equal value if it is JSON-like. Unknown integers and strings are followed through the printers as atoms."
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	f.E.MaxRec = 60
	x := &c12{c11: c11{c: c, f: f}}
	thorough := c.Tier == "thorough"
	lit := func(text string, want *datum) {
		if c.Mine() {
			x.literal(text, want)
		}
	}
	// integers
	rat := func(b *big.Int) *big.Rat { return new(big.Rat).SetInt(b) }
	intD := func(b *big.Int) *datum {
		if !b.IsInt64() {
			return nil
		}
		return &datum{k: "int", num: rat(b)}
	}
	uintD := func(b *big.Int) *datum {
		if !b.IsUint64() {
			return nil
		}
		return &datum{k: "uint", num: rat(b)}
	}
	var nums []*big.Int
	seenN := map[string]bool{}
	add := func(b *big.Int) {
		if b.Sign() >= 0 && !seenN[b.String()] {
			seenN[b.String()] = true
			nums = append(nums, b)
		}
	}
	for _, p := range []uint{0, 3, 4, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65} {
		for d := int64(-1); d <= 1; d++ {
			add(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), p), big.NewInt(d)))
		}
	}
	for _, s := range []string{"0", "5", "9", "10", "99", "100", "1234567890", "999999999999999999", "1000000000000000000", "12345678901234567890", "99999999999999999999"} {
		b, _ := new(big.Int).SetString(s, 10)
		add(b)
	}
	under := func(s string) string {
		var r []byte
		for i := range s {
			if i > 0 && (len(s)-i)%3 == 0 {
				r = append(r, '_')
			}
			r = append(r, s[i])
		}
		return string(r)
	}
	for _, b := range nums {
		neg := new(big.Int).Neg(b)
		lit(b.String(), intD(b))
		lit("-"+b.String(), intD(neg))
		if u := under(b.String()); u != b.String() {
			lit(u, intD(b))
			lit("-"+u, intD(neg))
		}
		lit("00"+b.String(), intD(b))
		lit("0x"+b.Text(16), intD(b))
		lit("0x"+strings.ToUpper(b.Text(16)), intD(b))
		lit("0o"+b.Text(8), intD(b))
		lit("0b"+b.Text(2), intD(b))
		lit(b.String()+"ULL", uintD(b))
		lit("0x"+b.Text(16)+"ULL", uintD(b))
		lit("0o"+b.Text(8)+"ULL", uintD(b))
	}
	// floats
	fltLit := func(s string) {
		v, err := strconv.ParseFloat(strings.ReplaceAll(s, "_", ""), 64)
		if err != nil {
			lit(s, nil)
			return
		}
		lit(s, floatDatum(v))
	}
	for _, s := range []string{"0.0", "1.0", "1.5", "5.", ".5", "0.1", "3.14159", "1_000.25", "1_0.5_0", "123456789.123456789", "0.30000000000000004", "9007199254740993.0", "4.35", "1e5", "1E5", "1e+5", "1E+5", "1e-5", "1E-5", "1.5e3", "1.5e-3", "1.5E+3", "5.e3", "2_0e1_0", "1e22", "1e23", "1e308", "1.7976931348623157e308", "1e309", "5e-324", "2.2250738585072014e-308", "1e-400", "0e0", "00.5", "123456789012345678901234567890.0", "1e0", "12e3", "1e12", "6.02214076e+23"} {
		fltLit(s)
		fltLit("-" + s)
	}
	lit("Inf", &datum{k: "float", inf: "Inf"})
	lit("inf", &datum{k: "float", inf: "Inf"})
	lit("+Inf", &datum{k: "float", inf: "Inf"})
	lit("+inf", &datum{k: "float", inf: "Inf"})
	lit("-Inf", &datum{k: "float", inf: "-Inf"})
	lit("-inf", &datum{k: "float", inf: "-Inf"})
	lit("NaN", &datum{k: "float", inf: "NaN"})
	for _, s := range []string{"true", "false"} {
		lit(s, &datum{k: "bool", s: s})
	}
	lit("nil", &datum{k: "nil"})
	for _, s := range []string{"0x", "0xg", "0o8", "0b2", "0o", "0b", "1a", "0x1ULLx", "'ab'", "''", "'", "'\\n\\n'", "\"\\q\"", "'\\q'", "'\\\\n'", "1.2.3"} {
		lit(s, nil)
	}
	// characters and strings
	var runes []rune
	for r := rune(0); r <= 0x17f; r++ {
		runes = append(runes, r)
	}
	for _, p := range [][2]rune{{0x7fe, 0x801}, {0x2018, 0x201d}, {0x2026, 0x202a}, {0xd7fd, 0xd7ff}, {0xe000, 0xe001}, {0xfefd, 0xff00}, {0xfff9, 0x10002}, {0x1f600, 0x1f602}, {0x10fffd, 0x10ffff}, {0x2fe, 0x301}, {0x3b1, 0x3b3}, {0x4e2d, 0x4e2e}, {0x200b, 0x200f}, {0x300c, 0x300d}, {0xad, 0xad}, {0xa0, 0xa0}, {0x3000, 0x3000}} {
		for r := p[0]; r <= p[1]; r++ {
			runes = append(runes, r)
		}
	}
	if thorough {
		for r := rune(0x180); r < 0x600; r++ {
			runes = append(runes, r)
		}
		for r := rune(0x600); r <= 0x10ffff; r += 0x1ef {
			if utf8.ValidRune(r) {
				runes = append(runes, r)
			}
		}
	}
	chr := func(r rune) *datum { return &datum{k: "char", num: new(big.Rat).SetInt64(int64(r))} }
	strD := func(s string) *datum { return &datum{k: "str", s: s} }
	for _, r := range runes {
		if r != '\'' && r != '\\' && r != utf8.RuneError {
			lit("'"+string(r)+"'", chr(r))
		}
	}
	for _, p := range []struct {
		s string
		r rune
	}{{`\n`, '\n'}, {`\t`, '\t'}, {`\r`, '\r'}, {`\a`, '\a'}, {`\\`, '\\'}, {`\'`, '\''}, {`\"`, '"'}, {`\#`, '#'}} {
		lit("'"+p.s+"'", chr(p.r))
		lit("\""+p.s+"\"", strD(string(p.r)))
		lit("\"x"+p.s+p.s+"y z\"", strD("x"+string(p.r)+string(p.r)+"y z"))
	}
	for i := 0; i < len(runes); i += 12 {
		s, b := "", ""
		for _, r := range runes[i:min(i+12, len(runes))] {
			if r != '"' && r != '\\' {
				s += string(r) + "a"
			}
			if r != '`' {
				b += string(r)
			}
		}
		lit("\""+s+"\"", strD(s))
		lit("`"+b+"`", strD(b))
	}
	for _, s := range []string{"", " ", "a b", "(", ")", "[1", "{", "; x", "// no comment", "/* no comment */", "%a", "^a ~b ~@c", "a: 1", "'c'", "1 2", "nil", "line one\nline two\n", "tab\tbed", "#x", "$", "a,b;c", "`q`", "é日本\u2028"} {
		lit("\""+s+"\"", strD(s))
		if !strings.Contains(s, "`") {
			lit("`"+s+"`", strD(s))
		}
	}
	lit("`a\\nb\\\\ \"c\" \\x`", strD("a\\nb\\\\ \"c\" \\x"))

	// values
	type leaf struct {
		name string
		mk   func(*State) Value
		json bool
	}
	var leaves []leaf
	for _, b := range nums {
		if b.IsInt64() {
			i := b.Int64()
			leaves = append(leaves, leaf{fmt.Sprintf("the integer %d", i), func(st *State) Value { return f.Int(st, IntV(i)) }, true})
			if i > 0 {
				leaves = append(leaves, leaf{fmt.Sprintf("the integer %d", -i), func(st *State) Value { return f.Int(st, IntV(-i)) }, true})
			}
		}
		if b.IsUint64() {
			u := b.Uint64()
			leaves = append(leaves, leaf{fmt.Sprintf("the integer %dULL", u), func(st *State) Value { return f.Uint(st, IntV(int64(u))) }, true})
		}
	}
	leaves = append(leaves, leaf{"the smallest integer", func(st *State) Value { return f.Int(st, IntV(math.MinInt64)) }, true})
	flts := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.5, 2, 10, -100, 1e5, 1e15, 1e16, 1e17, 1e18, 9e18, 1e19, -1e19, 1e20, 1e21, 1e22, 1e-4, 1e-5, 1e-6, 1e-7, 1.0 / 3, -2.0 / 3, math.Pi, 1 << 53, 1<<53 + 2, 1<<53 - 1, 1 << 62, 1<<62 + 1024, 1<<60 + 256, 123456789012345678, -1234567890123456789, 1 << 63, -(1 << 63), 1 << 64, 1e100, -1e100, 1e308, math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 2.2250738585072014e-308, 0.30000000000000004, 4.35, 1e23, 8.41, 9.5e-9, math.Inf(1), math.Inf(-1), math.NaN()}
	for e := -300; e <= 300; e += 37 {
		flts = append(flts, math.Ldexp(-1.2345678901234567, e))
	}
	if thorough {
		for e := -1070; e <= 1023; e += 13 {
			flts = append(flts, math.Ldexp(1.9876543210987654, e), math.Ldexp(1, e))
		}
	}
	for _, v := range flts {
		for _, sci := range []bool{false, true} {
			leaves = append(leaves, leaf{fmt.Sprintf("the float %v, scientific %v", v, sci), func(st *State) Value {
				return f.Sexp(f.Obj(st, "SexpFloat", "Val", FltV(v), "Scientific", BoolV(sci)), "SexpFloat")
			}, true})
		}
	}
	for _, r := range runes {
		if r != utf8.RuneError {
			leaves = append(leaves, leaf{fmt.Sprintf("the character %+q", r), func(st *State) Value { return f.Char(st, IntV(r)) }, false})
		}
	}
	strs := []string{"", " ", "\"", "\\", "\\\"", "\\n", "\\x41", "a\\", "nil", "12", "'a'", "`", "a`b", "%s", "\xff", "a\xc3", "\xed\xa0\x80b", "\xf0\x9f\x98", "\xfe\"\xff\\", "\ufffd", "<a&b>", "/* */", "// x", "line\nline\r\n\ttab", strings.Repeat("ab\"\\", 30), strings.Repeat("é", 100)}
	for i := 0; i < len(runes); i += 12 {
		s := ""
		for _, r := range runes[i:min(i+12, len(runes))] {
			s += string(r)
		}
		strs = append(strs, s, "0"+s[:len(s)/2]+"9")
	}
	for _, s := range strs {
		leaves = append(leaves, leaf{fmt.Sprintf("the string %+q", s), func(st *State) Value { return f.Str(st, StrV(s)) }, true})
		if !strings.Contains(s, "`") && utf8.ValidString(s) {
			leaves = append(leaves, leaf{fmt.Sprintf("the raw string %+q", s), func(st *State) Value {
				return f.Sexp(f.Obj(st, "SexpStr", "S", StrV(s), "backtick", BoolV(true)), "SexpStr")
			}, true})
		}
	}
	nConst := len(leaves)
	leaves = append(leaves, leaf{"true", func(st *State) Value { return f.Bool(st, BoolV(true)) }, true}, leaf{"false", func(st *State) Value { return f.Bool(st, BoolV(false)) }, true}, leaf{"nil", func(st *State) Value { return f.Null(st) }, true})
	for _, s := range []string{"a", "abc", "a_b", "b?", "x1", "é", "日本", "+", "-", "*", "/", "**", "<", "<=", ">", ">=", "=", "==", "!=", "!", ":=", "->", "<-", "++", "--", "+=", "-=", "and", "or", "not", "a.b", ".a", "a.b.c", "quote", "fn", "hash", "infix", "cond", "Inf1", "e", "e5", "E", "x0", "NULL", "t", "mod", "true1", "?a", "#a", "_", "$", "null"} {
		leaves = append(leaves, leaf{"the symbol " + s, func(st *State) Value { return f.Sym(st, s) }, false})
	}
	var hashErr error
	hash := func(st *State, kv ...Value) Value {
		outs, err := f.E.Run(c.P.Func("MakeHash"), []Value{f.E.NewSlice(st, kv...), StrV("hash"), f.Env}, st)
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn || !isNilV(outs[0].Ret[1]) {
			hashErr = fmt.Errorf("MakeHash: %d outcomes, %v", len(outs), err)
			return nil
		}
		*st = *outs[0].St
		return f.Sexp(outs[0].Ret[0], "SexpHash")
	}
	sym := func(st *State, s string) Value { return f.Sym(st, s) }
	type shape struct {
		name string
		json bool
		mk   func(st *State, a, b Value) Value
	}
	A, L := f.Array, f.List
	shapes := []shape{
		{"%a", true, func(st *State, a, b Value) Value { return a }},
		{"(%a)", false, func(st *State, a, b Value) Value { return L(st, a) }},
		{"(%b %a)", false, func(st *State, a, b Value) Value { return L(st, b, a) }},
		{"(%a %b)", false, func(st *State, a, b Value) Value { return L(st, a, b) }},
		{"(x \\ %a)", false, func(st *State, a, b Value) Value { return f.Pair(st, sym(st, "x"), a) }},
		{"(%a [%b])", false, func(st *State, a, b Value) Value { return L(st, a, A(st, b)) }},
		{"(((%a) %b) [(%a)])", false, func(st *State, a, b Value) Value {
			return L(st, L(st, L(st, a), b), A(st, L(st, a)))
		}},
		{"(%b %a \\ %b)", false, func(st *State, a, b Value) Value { return f.Pair(st, b, f.Pair(st, a, b)) }},
		{"[%a]", true, func(st *State, a, b Value) Value { return A(st, a) }},
		{"[%b %a %b]", true, func(st *State, a, b Value) Value { return A(st, b, a, b) }},
		{"[[%a %b] [] [[%a]]]", true, func(st *State, a, b Value) Value {
			return A(st, A(st, a, b), A(st), A(st, A(st, a)))
		}},
		{"{k: %a}", true, func(st *State, a, b Value) Value { return hash(st, sym(st, "k"), a) }},
		{"{z: %b a: [%a] \"m\": %a}", true, func(st *State, a, b Value) Value {
			return hash(st, sym(st, "z"), b, sym(st, "a"), A(st, a), f.Str(st, StrV("m")), a)
		}},
		{"{\"s t\": %a u: {v: [{w: %a} {}] x: []}}", true, func(st *State, a, b Value) Value {
			h := hash(st, sym(st, "w"), a)
			if h == nil {
				return nil
			}
			g := hash(st, sym(st, "v"), A(st, h, hash(st)), sym(st, "x"), A(st))
			if g == nil {
				return nil
			}
			return hash(st, f.Str(st, StrV("s t")), a, sym(st, "u"), g)
		}},
	}
	for i, l := range leaves {
		for j, sh := range shapes {
			if sh.json && !l.json && strings.Contains(sh.name, "{") {
				continue
			}
			if i < nConst && j > 2 && (i+j)%4 != 0 && !thorough {
				continue // positions of constants of the same class are spread over the shapes
			}
			if !c.Mine() {
				continue
			}
			st := f.St.Clone()
			o := leaves[(i*11+j*7)%len(leaves)]
			if !l.json || !sh.json {
				o = leaves[len(leaves)-1-(i+j)%60]
			}
			if sh.json && !o.json {
				o = leaves[(i+j)%40]
			}
			v := sh.mk(st, l.mk(st), o.mk(st))
			nm := strings.ReplaceAll(strings.ReplaceAll(sh.name, "%a", "<"+l.name+">"), "%b", "<"+o.name+">")
			if v == nil {
				c.Undecided("read-back", nm, hashErr)
				continue
			}
			x.back(nm, st, v, sh.json && l.json)
		}
	}
	// string keys of every class of character
	for _, s := range strs {
		if !c.Mine() {
			continue
		}
		st := f.St.Clone()
		if v := hash(st, f.Str(st, StrV(s)), f.Int(st, IntV(1)), sym(st, "b"), f.Str(st, StrV(s))); v != nil {
			x.back(fmt.Sprintf("a hash with the first key %+q", s), st, v, true)
		}
		st = f.St.Clone()
		if v := hash(st, sym(st, "b"), f.Int(st, IntV(-1)), f.Str(st, StrV(s)), f.Int(st, IntV(-1))); v != nil {
			x.back(fmt.Sprintf("a hash with the second key %+q", s), st, v, true)
		}
	}
	for _, s := range []string{"a", "for", "if", "nil", "hash", "def", "fn", "quote", "and", "or", "not", "mod", "é", "x1", "a_b", "b?", "Inf1", "_", "e5", "range", "true", "a b", "a-b", "1"} {
		if !c.Mine() {
			continue
		}
		st := f.St.Clone()
		if v := hash(st, sym(st, s), f.Int(st, IntV(1)), sym(st, "q"), f.Null(st)); v != nil {
			x.back("a hash with the first symbol key "+s, st, v, true)
		}
		st = f.St.Clone()
		if v := hash(st, sym(st, "q"), f.Null(st), sym(st, s), f.Int(st, IntV(-1))); v != nil {
			x.back("a hash with the second symbol key "+s, st, v, true)
		}
	}
	// the values programs build
	for _, t := range []string{"(list 1 2.5 \"a\" 'c' nil true)", "(quote (a b (c \\ d) [e 1 -2]))", "(cons 1 (cons 2 3))", "(concat [1] [2 \"x\"])", "[(+ 1e10 1e10) (/ 1 4) (/ -7 2) (* 3 1.5)]", "(list (- 5) (- 1.5) -0.5 (/ 1 3.0))", "(hash a: [1 -2] \"b\": (hash c: nil))", "{a: {b: {c: [1.5 -1 {d: \"e\"}]}}}", "{\"x\": [-1 -2], \"y\": {\"z\": -3.5e-7}}", "(unjson (raw \"{\\\"a\\\":[1,-2.5,null,true,{\\\"b\\\":\\\"c\\\"}],\\\"d\\\":1e300}\"))", "(quote (quote a))", "%(a %b)", "^(a ~(+ 1 2) ~@(list 3 4))", "(map (fn [x] (* x x)) [1 2 3])", "(list %+ 1 %- -2 %- 3)", "(list %- Inf)", "(quote (- -Inf))", "(quote (x - 1))", "(str2sym \"abc\")", "(gensym)", "(list (concat \"a\" \"\\n\") `raw \"text\"`)", "(quote (1 . 2))", "(rest (list 1 2 3))", "(slice [1 2 3 4] 1 3)", "(quote (def f [x] (cond (< x 1) nil x)))"} {
		if !c.Mine() {
			continue
		}
		st, v, err := x.eval(f.St.Clone(), t)
		if err != nil {
			c.Undecided("program", t, err)
			continue
		}
		json := strings.HasPrefix(t, "{") || strings.HasPrefix(t, "(hash") || strings.HasPrefix(t, "[") || strings.HasPrefix(t, "(unjson") || strings.HasPrefix(t, "(map") || strings.HasPrefix(t, "(slice")
		x.back("program "+t, st, v, json)
	}
	// unknown scalars
	for _, sh := range shapes {
		for _, u := range []struct {
			name string
			mk   func(*State) Value
		}{{"any integer", func(st *State) Value { return f.Int(st, f.E.Sym("n", types.Typ[types.Int64])) }}, {"any string", func(st *State) Value { return f.Str(st, f.E.Sym("s", tString)) }}, {"any float", func(st *State) Value { return f.Float(st, f.E.Sym("d", types.Typ[types.Float64])) }}, {"any integer ULL", func(st *State) Value { return f.Uint(st, f.E.Sym("u", types.Typ[types.Uint64])) }}} {
			if !c.Mine() {
				continue
			}
			st := f.St.Clone()
			if v := sh.mk(st, u.mk(st), f.Int(st, IntV(7))); v != nil {
				x.unknown(strings.ReplaceAll(strings.ReplaceAll(sh.name, "%a", "<"+u.name+">"), "%b", "7"), st, v, sh.json)
			}
		}
	}
	c.Floor("read-back", 2000)
	c.Floor("eval-back", 1000)
	c.Floor("literal", 4000)
}

// unknown: what is printed for a value with an unknown scalar reads as that value.
func (x *c12) unknown(name string, st *State, v Value, json bool) {
	f, c := x.f, x.c
	d0, err := f.datumOf(st, v, 0)
	if err != nil {
		c.Stats["shapes_of_unknown_scalars_not_followed"]++
		return
	}
	outs, err := x.callAll(st.Clone(), "str", v)
	if err != nil {
		c.Stats["shapes_of_unknown_scalars_not_followed"]++
		return
	}
	for i, o := range outs {
		if o.Kind != kReturn || !isNilV(o.Ret[1]) {
			c.Stats["shapes_of_unknown_scalars_not_followed"]++
			continue
		}
		_, sv := f.Unbox(o.St, o.Ret[0])
		if sv == nil {
			c.Stats["shapes_of_unknown_scalars_not_followed"]++
			continue
		}
		txt, ok := f.E.ropeText(o.St, f.FieldOf(sv, "S"))
		if !ok {
			c.Stats["shapes_of_unknown_scalars_not_followed"]++
			continue
		}
		if d, e := f.datumOf(o.St, v, 0); e == nil {
			d0 = d
		}
		con := fmt.Sprintf("%s, path %d", name, i)
		hows := []string{"read"}
		if hasHash(d0) {
			hows = nil
		}
		if json {
			hows = append(hows, "eval read", "text")
		}
		for _, how := range hows {
			d, err := x.read(how, txt)
			if err == nil {
				d = d.unplaced(f.E)
			}
			c.Ob("unknown-scalars", con+" / "+how, err == nil && d.ByValue() == d0.ByValue(), "zygo/expressions.go", "v = %s is printed as %q, which is read as %s (%v)", d0, txt, d, err)
		}
	}
}
