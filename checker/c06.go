package main

import (
	"fmt"
	"strings"
)

func init() { checks["C06"] = checkC06; sharded["C06"] = true }

// The documented operator table, lowest first. The reference below is a layered recursive-descent grammar, one
// nonterminal per level; it shares nothing with the binding-power loop it judges.
type infixLevel struct {
	ops   []string
	right bool
}

var infixLevels = []infixLevel{
	{[]string{"=", ":=", "+=", "-="}, true},
	{[]string{","}, false},
	{[]string{"and", "or"}, true},
	{[]string{"==", "!=", "<", "<=", ">", ">="}, false},
	{[]string{"+", "-"}, false},
	{[]string{"*", "/", "mod"}, false},
	{[]string{"**"}, true},
}

// infixRef translates a token list to its prefix form.
type infixRef struct {
	t []string
	p int
}

func (x *infixRef) peek() string {
	if x.p < len(x.t) {
		return x.t[x.p]
	}
	return ""
}

func (x *infixRef) level(l int) string {
	if l == len(infixLevels) {
		return x.unary()
	}
	lv := infixLevels[l]
	is := func(s string) bool {
		for _, o := range lv.ops {
			if o == s {
				return true
			}
		}
		return false
	}
	a := x.level(l + 1)
	for is(x.peek()) {
		o := x.peek()
		x.p++
		var b string
		if lv.right {
			b = x.level(l)
		} else {
			b = x.level(l + 1)
		}
		switch o {
		case "=", ":=":
			o = "set"
		case ",":
			o = "comma"
		}
		a = "(" + o + " " + a + " " + b + ")"
		if lv.right {
			break
		}
	}
	return a
}

func (x *infixRef) unary() string {
	if x.peek() == "not" {
		x.p++
		return "(not " + x.unary() + ")"
	}
	a := x.peek()
	x.p++
	for x.p < len(x.t) {
		s := x.peek()
		if s[0] == '[' {
			a = "(arrayidx " + a + " " + s + ")"
		} else if s[0] == '.' {
			a = "(hashidx " + a + " " + s + ")"
		} else {
			break
		}
		x.p++
	}
	return a
}

// infixPrefix is the prefix form of a token list.
func infixPrefix(toks []string) string {
	x := &infixRef{t: toks}
	r := x.level(0)
	if x.p != len(toks) {
		panic("infix reference: " + strings.Join(toks, " "))
	}
	return r
}

// infixText writes a token list in infix notation; a postfix part is attached to what precedes it.
func infixText(toks []string) string {
	var sb strings.Builder
	for i, t := range toks {
		if i > 0 && t[0] != '[' && t[0] != '.' {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
	}
	return sb.String()
}

func infixBinops() (all []string) {
	for _, l := range infixLevels {
		all = append(all, l.ops...)
	}
	return
}

// infixReps holds two operators of the levels with several operators, one of the others.
func infixReps() (r []string) {
	for _, l := range infixLevels {
		r = append(r, l.ops[0])
		if len(l.ops) > 1 {
			r = append(r, l.ops[len(l.ops)-1])
		}
	}
	return
}

// operand decorations: tight postfix parts and prefix not around an operand.
var infixDecor = [][]string{
	{"@"}, {"not", "@"}, {"@", "[0]"}, {"not", "@", "[0]"}, {"not", "not", "@"}, {"@", "[i]", "[j]"}, {"(f @ 1)"}, {"(f @)", "[0]"}, {"(f @)", ".k"}, {"@", "[0]", ".k"}, {"not", "(g @)", ".k", "[2]"}, {"{@}"}, {"[@ 2]", "[0]"}, {"7"}, {"\"s\""}, {"2.5"}, {"true"},
}

func decorate(d []string, v string) (r []string) {
	for _, t := range d {
		r = append(r, strings.ReplaceAll(t, "@", v))
	}
	return
}

// infix statements with their prefix forms; none begins with something that could continue the one before.
var infixStmts = [][2]string{
	{"(h%d)", "(h%d)"}, {"x%d = (h%d)", "(set x%d (h%d))"}, {"x%d := (h%d) + 1", "(set x%d (+ (h%d) 1))"}, {"(h%d) + (h%d) * 2", "(+ (h%d) (* (h%d) 2))"},
	{"not (p%d)", "(not (p%d))"}, {"(p%d) and (h%d)", "(and (p%d) (h%d))"}, {"3", "3"}, {"'c'", "'c'"}, {"5ULL", "5ULL"}, {"\"s\"", "\"s\""}, {"`r`", "\"r\""}, {"true", "true"}, {"nil", "nil"}, {"2.5", "2.5"}, {"0x10", "16"}, {"id", "id"},
	{"if (p%d) { (h%d) } else { x%d = 4 }", "(cond (p%d) (h%d) (set x%d 4))"}, {"if (p%d) { (h%d) }", "(cond (p%d) (h%d) nil)"}, {"if (p%d) { (h%d) } else if (p1%d) { 3 } else { 4 }", "(cond (p%d) (h%d) (cond (p1%d) 3 4))"},
	{"{ (h%d) }", "(h%d)"}, {"{ (h%d); y%d = 3 }", "(begin (h%d) (set y%d 3))"}, {"[ (h%d) 2 ]", "(array (h%d) 2)"}, {"%%a", "(quote a)"},
	{"for i%d = 0; i%d < 2; i%d++ { (h%d i%d) }", "(for [(set i%d 0) (< i%d 2) (set i%d (+ i%d 1))] (h%d i%d))"},
	{"for (p%d) { (h%d) }", "(for [nil (p%d) nil] (h%d))"}, {"for (p%d) { (h%d); break }", "(for [nil (p%d) nil] (h%d) (break))"}, {"for { (h%d); break }", "(for [nil true nil] (h%d) (break))"},
	{"(p%d) == true", "(== (p%d) true)"}, {"v%d = (list (h%d) 2)", "(set v%d (list (h%d) 2))"}, {"v%d, w%d = 5, 6", "(begin (set v%d 5) (set w%d 6) [v%d w%d])"}, {"v%d, w%d, z%d = [(h%d) 6 7]", "(begin (set v%d (h%d)) (set w%d 6) (set z%d 7) [v%d w%d z%d])"},
}

func numbered(t string, n int) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "%d", fmt.Sprint(n)), "%%", "%")
}

// programs with infix blocks inside other forms, with the prefix program they mean.
var infixPrograms = []string{
	"(defn f [x] {x + (h0)}) (f (h1)) => (defn f [x] (+ x (h0))) (f (h1))",
	"(defn f [x] {y = x + (h0); y * y}) (f (h1)) => (defn f [x] (set y (+ x (h0))) (* y y)) (f (h1))",
	"(let [x (h0)] {x = x + 1; x}) => (let [x (h0)] (set x (+ x 1)) x)",
	"(def f (let [x (h0)] (fn [] {x = x + 1}))) (f) (f) => (def f (let [x (h0)] (fn [] (set x (+ x 1))))) (f) (f)",
	"(for [(def i 0) {i < 3} {i = i + 1}] {(h0 i)}) => (for [(def i 0) (< i 3) (set i (+ i 1))] (h0 i))",
	"(for [(def i 0) {i < 3} {i++}] (cond {i == 1} (continue) {(h0 i)})) => (for [(def i 0) (< i 3) (set i (+ i 1))] (cond (== i 1) (continue) (h0 i)))",
	"(cond {(h0) < (h1)} {(h2) + 1} {(h3) - 1}) => (cond (< (h0) (h1)) (+ (h2) 1) (- (h3) 1))",
	"(list {(h0) + 1} {(h1) * 2}) => (list (+ (h0) 1) (* (h1) 2))",
	"[{(h0) + 1} {(h1) * 2}] => [(+ (h0) 1) (* (h1) 2)]",
	"(and {(p0) or (p1)} {not (p2)}) => (and (or (p0) (p1)) (not (p2)))",
	"{(h0) + {(h1) * {(h2) - (h3)}}} => (+ (h0) (* (h1) (- (h2) (h3))))",
	"{(+ (h0) {(h1) * 2}) - 3} => (- (+ (h0) (* (h1) 2)) 3)",
	"(h9 {(h0); (h1)} {(h2)}) => (h9 (begin (h0) (h1)) (h2))",
	"(begin {x = (h0)} {y = x + 1} {x + y}) => (begin (set x (h0)) (set y (+ x 1)) (+ x y))",
	"{x = (h0)} {y = x} (h1 x y) => (set x (h0)) (set y x) (h1 x y)",
	"{x = y = (h0)} (list x y) => (set y (h0)) (set x y) (list x y)",
	"{x = (h0); x += (h1); x -= 2; x++; x} => (set x (h0)) (set x (+ x (h1))) (set x (- x 2)) (set x (+ x 1)) x",
	"{x = (h0); x--; x--; x} => (set x (h0)) (set x (- x 1)) (set x (- x 1)) x",
	"{x = 3; x += 1 + 2; x} => 6",
	"{x = [ (h0) (h1) (h2) ]; x[1] + 0} => (h0) (set q (h1)) (h2) (+ q 0)",
	"{x = [ (h0) (h1) (h2) ]; x[0] + x[2]} => (set a (h0)) (h1) (+ a (h2))",
	"{x = [ 1 2 3 ]; x[1] = (h0); x} => (set a (h0)) [1 a 3]",
	"{x = [ 1 2 3 ]; x[1 + 1] = (h0); x[0] = x[2]; x} => (set a (h0)) [a 2 a]",
	"{x = [ 1 2 3 4 ]; y = x[1:3]; y} => [2 3]", "{x = [ 1 2 3 4 ]; y = x[1:]; y} => [2 3 4]", "{x = [ 1 2 3 4 ]; y = x[:2]; y} => [1 2]", "{x = [ 1 2 3 4 ]; i = 1; y = x[i:i+2]; y} => [2 3]", "{x = [1 2 3 4]; i = 1; y = x[i]; y} => 2", "{x = [[1 2] [3 4]]; y = x[1][0]; y} => 3", "{x = [[1 2] [3 4]]; x[1][0] = (h0); x} => (set a (h0)) [[1 2] [a 4]]",
	"{x = (hash a:(h0) b:(hash c:(h1))); x.b.c + x.a} => (set p (h0)) (set q (h1)) (+ q p)",
	"{x = (hash a:(h0)); x.a = (h1); y = x.a; y} => (h0) (h1)",
	"{x = (hash a:[(hash b:(h0))]); y = x.a[0].b; y} => (h0)",
	"{x = [(hash b:(h0))]; x[0].b = (h1); y = x[0].b; y} => (h0) (h1)",
	"{x = [(hash b:[1 (h0)])]; x[0].b[1] * 2} => (* (h0) 2)",
	"{not (p0) and (p1) or not (p2)} => (and (not (p0)) (or (p1) (not (p2))))",
	"{(p0) or (p1) and (p2)} => (or (p0) (and (p1) (p2)))",
	"{2 ** 3 ** 2} => 512", "{2 * 3 ** 2} => 18", "{2 ** 3 * 2} => 16", "{10 - 4 - 3} => 3", "{100 / 10 / 5} => 2", "{7 mod 4 mod 2} => 1", "{2 + 3 * 4 - 5} => 9", "{1 + 2 == 3} => true", "{1 < 2 == true} => true", "{1 + 1 < 3 and 4 > 2 * 1} => true", "{8 / 2 * 4} => 16", "{7 mod 4 * 2} => 6", "{6 * 7 mod 4} => 2", "{2 - 3 + 4} => 3",
	"{a = 1; b = 2\n c = a + b\n c} => 3", "{\n a = (h0)\n\n b = (h1)\n a + b\n} => (+ (h0) (h1))",
	"{a = (h0) // first\n b = (h1) /* second */ ; a - b} => (- (h0) (h1))", "{(h0) // tail\n} => (h0)", "{a = 1 // one\n} => 1", "{// lead\n (h0)} => (h0)", "{/* x */ (h0) /* y */ + /* z */ 1} => (+ (h0) 1)",
	"{;} => nil", "{; ; (h0); ;} => (h0)", "{(h0);} => (h0)",
	"{lab: for i = 0; i < 3; i++ { for j = 0; j < 3; j++ { if j == 1 { continue lab }; (h0 i j) } } } => (begin (h0 0 0) (h0 1 0) (h0 2 0) nil)",
	"{lab: for i = 0; i < 3; i++ { for j = 0; j < 3; j++ { if j == 1 { break lab }; (h0 i j) } } } => (begin (h0 0 0) nil)",
	"{for i = 0; i < 4; i++ { if i == 1 { continue }; if i == 3 { break }; (h0 i) } } => (begin (h0 0) (h0 2) nil)",
	"{for k, v := range (hash a:(h0) b:(h1)) { (h2 k v) } } => (begin (set a (h0)) (set b (h1)) (h2 (quote a) a) (h2 (quote b) b) nil)",
	"{for k := range (hash a:(h0) b:2) { (h2 k) } } => (begin (h0) (h2 (quote a)) (h2 (quote b)) nil)",
	"{for i, v := range [(h0) 7] { (h2 i v) } } => (begin (set a (h0)) (h2 0 a) (h2 1 7) nil)",
	"{i = 9; v = 8; for i, v = range [(h0) 7] { (h2 i v) }; i } => (begin (set a (h0)) (h2 0 a) (h2 1 7) 1)",
	"{for i := range [5 6] { for j := range [7 8] { (h0 i j) } } } => (begin (h0 0 0) (h0 0 1) (h0 1 0) (h0 1 1) nil)",
	"(defn f [] {for i = 0; i < 2; i++ { (h0 i) }\n 7}) (f) => (begin (h0 0) (h0 1) 7)",
	"(defn g [n] {if n == 0 { (h0) } else { (g (- n 1)) }}) (g 3) => (h0)",
	"{f = (fn [x] {x * 2}); (f (h0))} => (* (h0) 2)",
	"(defmac m [x] ^{~x + 1}) (m (h0)) => (+ (h0) 1)",
	"(quote {a + b}) => (quote {a + b})", "(eval (quote {(h0) + 1})) => (+ (h0) 1)", "(infixExpand {}) => nil",
	"{x = {(h0) + 1}; x} => (+ (h0) 1)", "{x = if (p0) { (h0) } else { (h1) }; (h2 x)} => (h2 (cond (p0) (h0) (h1)))", "{(h0 {(h1) + 1} 3)} => (h0 (+ (h1) 1) 3)", "{(fn [] {(h0)}) } ((fn [] {(h1)})) => (h1)",
}

func checkC06(c *Ctx) {
	c.Explain = "Structure: for every ordered pair of the 19 infix operators, every triple of level representatives and every pair of representatives under every decoration of the operands (not, indexing, field access, call, nested block, literals), the expansion computed by the Pratt parser is compared with the tree given by a layered recursive-descent reading of the documented table. Meaning: with opaque operands, every pair and triple of value operators has the same set of behaviours (effects in order, value, error, rest) as its prefix form; every ordered pair of statement kinds, separated by a semicolon or a newline, runs in order and delivers the last value; programs mixing infix blocks with functions, closures, loops, macros, indexing and assignment targets equal their prefix programs." + schemaExplain
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 8)
	s.Text = true
	structure := func(rule string, toks []string) {
		s.Check(c, rule, "(infixExpand {"+infixText(toks)+"}) => (quote (quote "+infixPrefix(toks)+"))", aSem|aRest|aPanic)
	}
	all, reps := infixBinops(), infixReps()
	for _, a := range all {
		structure("single", []string{"a", a, "b"})
		for _, b := range all {
			structure("pair", []string{"a", a, "b", b, "c"})
		}
	}
	for _, x := range reps {
		for _, y := range reps {
			for _, z := range reps {
				structure("triple", []string{"a", x, "b", y, "c", z, "d"})
			}
		}
	}
	one := []string{"=", ",", "or", "==", "+", "*", "**"}
	for _, d := range infixDecor {
		structure("decorated", decorate(d, "a"))
		for _, e := range infixDecor {
			for _, x := range one {
				toks := append(decorate(d, "a"), x)
				structure("decorated", append(toks, decorate(e, "b")...))
			}
		}
		for _, x := range one {
			for _, y := range one {
				for k := 0; k < 3; k++ {
					var toks []string
					for i, v := range []string{"a", "b", "c"} {
						if i > 0 {
							toks = append(toks, []string{x, y}[i-1])
						}
						if i == k {
							toks = append(toks, decorate(d, v)...)
						} else {
							toks = append(toks, v)
						}
					}
					structure("decorated", toks)
				}
			}
		}
	}
	// an index is an infix expression of its own, and so are the ends of a slice
	raw := func(text, want string) {
		s.Check(c, "index", "(infixExpand {"+text+"}) => (quote (quote "+want+"))", aSem|aRest|aPanic)
	}
	var inner [][]string
	for _, d := range infixDecor {
		inner = append(inner, decorate(d, "x"))
	}
	for _, x := range one[2:] {
		inner = append(inner, []string{"x", x, "y"})
		for _, y := range one[2:] {
			inner = append(inner, []string{"x", x, "y", y, "z"}, []string{"not", "x", x, "y", "[z]", y, "z"})
		}
		for _, d := range infixDecor {
			inner = append(inner, append(decorate(d, "x"), x, "y"), append([]string{"x", x}, decorate(d, "y")...))
		}
	}
	for _, t := range inner {
		i, p := infixText(t), infixPrefix(t)
		raw("a["+i+"]", "(arrayidx a ["+p+"])")
		raw("b + a["+i+"] * c", "(+ b (* (arrayidx a ["+p+"]) c))")
		raw("a["+i+"] = b", "(set (arrayidx a ["+p+"]) b)")
		raw("a["+i+" : 2]", "(arrayidx a ["+p+" : 2])")
		raw("a[1 : "+i+"]", "(arrayidx a [1 : "+p+"])")
		raw("a["+i+" :]", "(arrayidx a ["+p+" :])")
		raw("a[: "+i+"]", "(arrayidx a [: "+p+"])")
	}
	vals := []string{"or", "and", "==", "<", "+", "-", "*", "/", "mod", "**"}
	same := func(toks []string) { s.Same(c, "meaning", "{"+infixText(toks)+"}", infixPrefix(toks)) }
	for _, x := range vals {
		same([]string{"(h0)", x, "(h1)"})
		same([]string{"not", "(h0)", x, "not", "(h1)"})
		for _, y := range vals {
			same([]string{"(h0)", x, "(h1)", y, "(h2)"})
			for _, z := range []string{"and", "==", "+", "*"} {
				same([]string{"(h0)", x, "(h1)", y, "(h2)", z, "(h3)"})
			}
		}
	}
	for _, x := range infixStmts {
		for _, y := range infixStmts {
			for _, sep := range []string{"; ", "\n", " // note\n", ";\n"} {
				a, b := numbered(x[0], 1), numbered(y[0], 2)
				if sep == "\n" || sep == " // note\n" {
					if strings.HasPrefix(b, "[") || strings.HasSuffix(a, "break") && !strings.HasSuffix(a, "}") {
						continue
					}
				}
				s.Check(c, "statements", "{"+a+sep+b+"} => "+numbered(x[1], 1)+" "+numbered(y[1], 2), aSem|aRest|aPanic)
			}
		}
	}
	for _, t := range infixPrograms {
		s.Check(c, "program", t, aSem|aRest|aPanic)
	}
	c.Floor("single", 17)
	c.Floor("pair", 289)
	c.Floor("triple", 1700)
	c.Floor("decorated", 3000)
	c.Floor("index", 1000)
	c.Floor("meaning", 500)
	c.Floor("statements", 3000)
	c.Floor("program", 75)
	c.Stats["schemata"] = s.Runs
	c.Stats["paths"] = s.Paths
}
