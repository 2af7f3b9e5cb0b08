package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01; sharded["C01"] = true }

// what the texts can refer to
const c01Setup = `(def n 5) (def a [1 2 3]) (def l (list 1 2 3)) (def s "str") (def h (hash k:1 j:[1 2])) (def f (fn [x] x)) (defn g [x & r] r) (defmac m [x] ^(list ~x)) (def c 'c') (def d 2.5) (def e []) (def y (quote sym)) (def dot (quote h.k)) (def p (& n)) (def pr (quote (1 \ 2))) (def u 7ULL) (def big 9223372036854775807) (def aa [[1 2] [3]]) (def pk (package "pk" (def Q 3))) (def t (now)) (def rw (raw "ab")) (def fl (field K:1)) (defn lz [#x & r] #x) (def cnt 0) (defn p0 [] (set cnt (+ cnt 1)) (< cnt 2)) (defn p1 [] false) (defn h0 [& r] 1) (defn h1 [& r] [1 2]) (defn h2 [& r] "x") (defn h3 [& r] nil) (defn hz [& r] 0) (defn h4 [& r] 4) (defn h5 [& r] 5) (defn h6 [& r] 6) (defn h9 [& r] r) (defn p2 [] true) (defn p3 [] (p0))`

// tokens of the language, for exhaustive short token strings
var c01Tokens = []string{"(", ")", "[", "]", "{", "}", "'", "`", "~", "~@", "^", "%", "&", "*", "+", "-", "/", "=", ":=", "==", ",", ";", ".", ":", "::", "#", "?", "$", "@", "!", "a", "a:", "a.b", ".a", "a[0]", "a[", "n", "h.k", "1", "-1", "0x", "1e", "1.5", "'c'", "\"s\"", "\"", "//", "/*", "*/", "\\", "->", "++", "+=", "not", "and", "if", "for", "fn", "def", "nil", "_", "#a", "1ULL"}

var c01Short = []string{"(", ")", "[", "]", "{", "}", "~", "^", "'", "&", "*", "-", "=", ",", ":", ".", "a", "a:", "1", "\"s\"", "//", "h.k", ";", "+="}

// operands of malformed special forms and calls
var c01Args = []string{"1", "\"s\"", "a", "()", "[]", "[a]", "[1]", "[a b]", "[a 1]", "(a)", "(f 1)", "(1 2)", "a:", "h.k", "{}", "nil", "'c'", "~a", "nosuch", "&", "[& x]", "[x: int64]", "[()]", "(quote)", "(1 \\ 2)", "^(b ~a)", "%zz", "[x 1 y]", "-", "#z", "true"}

var c01Forms = []string{"def", "set", "mdef", "fn", "defn", "let", "letseq", "cond", "and", "or", "begin", "quote", "syntaxQuote", "for", "break", "continue", "return", "assert", "defmac", "macexpand", "newScope", "include", "package", "infix", "infixExpand", "struct", "interface", "func", "method", "var", "field", "slice-of", "expectError", "_", "=", ":=", "+=", "++", "if", "unquote", "&", "*", "->", "import", "eval", "range", "source", "colonAccess", "lazy", "force", "req", "substitute"}

var c01Infix = []string{"a", "1", "(f 1)", "[", "]", "{", "}", "(", ")", "+", "-", "*", "=", ":=", "==", ",", ";", ".", "if", "else", "for", "func", "not", "and", "++", "+=", "h.k", "a:", "range", "break", "return", "&", "!", "->", "x"}

// characters, for exhaustive short character strings
var c01Chars = []string{"(", ")", "[", "]", "{", "}", "'", "\"", "`", "~", "@", "^", "%", "&", "*", "+", "-", "/", "=", "<", ":", ";", ",", ".", "#", "$", "?", "!", "|", "\\", "\n", " ", "a", "x", "e", "0", "1", "_", "U", "\x00", "\xff", "é"}

// operands of the builtin functions
var c01Vals = []string{"nil", "1", "-1", "0", "n", "a", "e", "l", "s", "\"\"", "h", "(hash)", "f", "g", "+", "m", "c", "d", "y", "dot", "h.k", "p", "pr", "u", "big", "nan", "aa", "pk", "pk.Q", "t", "rw", "fl", "int64", "true", "a:", "(quote (a b))", "[nil]", "(fn [] 1)", "lz", "-9223372036854775808", ".k", "nosuch", "\"(\"", "\"%d%\"", "$", "#"}
var c01Vals2 = []string{"nil", "1", "-1", "a", "l", "s", "h", "f", "y", "pr", "big", "d", "int64", "dot", "e", "p", "fl"}
var c01Vals3 = []string{"1", "-1", "a", "s", "h", "f", "nil"}

// bodies of macros: every kind of value a macro can expand to
var c01Expand = []string{"1", "nil", "[]", "[1]", "h", "(hash)", "f", "m", "+", "s", "c", "d", "y", "dot", "p", "pr", "u", "t", "rw", "fl", "pk", "int64", "(list)", "(list 1)", "(list 1 2)", "(list (quote def))", "(list (quote def) 1)", "(list (quote let) 1)", "(list (quote quote))", "(list (quote syntaxQuote))", "(list (quote fn))", "(list (quote for) [1])", "(list f 1)", "(list h 1)", "(list (quote m))", "(list [] 1)", "(list (list))", "(quote (1 \\ 2))", "(quote (def \\ 2))", "(quote (+ 1 \\ 2))", "(quote ~a)", "(quote (unquote))", "(quote (unquote 1))", "(quote (unquote-splicing 1))", "(list (quote package))", "(list (quote package) 1)", "(list (quote infix))", "(list (quote infix) 1)", "(list (quote infix) [])", "(list (quote infix) [(quote +)])", "(list (quote return) f)", "(list (quote begin) f)", "(list (quote begin))", "(list (quote break))", "(list y 1)", "(list dot 1)", "(list fl 1)", "(list t)", "[f h (quote q)]", "[(quote &)]", "%a", "^(~n ~@l)", "^(~n ~@a)", "^(~@n)", "(quote {})", "(quote {a + 1})", "(error \"x\")", "nosuch", "(quote nosuch)", "(aget a 9)", "true", "nan", "(quote a:)", "(quote .a)", "(quote $)", "(quote ?)", "(quote :)", "(quote #x)", "lz"}

var c01Contexts = []string{"(defn zf [q] @) (zf 1)", "(let [q @] q)", "(let [q 1] @)", "(for [1 false @] 2)", "(for [(def i 0) (< i 1) (def i (+ i 1))] @)", "(cond @ 1 2)", "(cond true @ 2)", "(and 1 @)", "[1 @]", "(list @)", "(hash k:@)", "{ 1 + @ }", "{ x = @ }", "{ if true { @ } }", "(def q @)", "(begin @)", "(newScope @)", "(assert @)", "(defmac zm [q] @) (zm 1)", "(package \"zp\" @)", "(f @)", "(lz @)", "(force (lz @))", "(m @)", "(map (fn [q] @) [1])", "(eval (quote @))", "^(a ~@)", "^[a ~(begin @)]", "(return @)", "(str @)", "(macexpand @)", "(@ 1)", "(quote @)", "%@", "a[@]", "(aset a @ 1)", "(expectError \"x\" @)", "(source @)", "(infix [@])", "(var zv @)", "(func zf2 [a:int64] [r:int64] @) (zf2 1)", "(struct Zs [(field N: @)])", "(defn zf [q] (zf @)) (zf)", "(range k v @ 1)", "(range k v h @)", "(h @)", "(-> h @)", "{ @ @ }", "(@ @)"}

var c01Repl = []string{"", " ", "1", "a", "h.k", "h.zz", "nosuch", ".a", "(+ 1 2)", "(+ 1", "(+ 1\n2)", ")", "]", "}", "{", "{\n}", "[1\n2]", "\"abc\ndef\"", "`abc\ndef`", "\"a", "'", "~", "~@", "^", "%", "& n", "&", "& nosuch", "& 1", "* p", "*", "* n", "* nosuch", "*p", "&n", ".dump", ".dump f", ".dump nosuch", ".dump a", ".dump +", ".gls", ".ls", ".verb\n1\n.verb", ".debug\n(f 1)\n.undebug", ".debug\n(nosuch)\n.undebug", ".quit", ".nosuch", "quit", "a = 3", "a = ", "a[0]", "a[9]", "a[", "1 +", "1 + 2", "+ 1", "(def)", "(f)", "(first [])", "(let [q (nosuch)] 1)", "(let [q 1] (nosuch))", "nil", "s", "`q`", "(for [1 2 3]", "// x", "/* x", "/* x */ 1", "(def x1 1)\nx1\n(nosuch)\nx1", "f", "+", "m", "def", "c", "d", "y", "dot", "p", "pr", "t", "rw", "fl", "pk", "pk.Q", "int64", "h", "(hash)", "[]", "(quote (1 \\ 2))", "for i = 0; i < 2; i++ { i }", "if true { 1 }", "a, b = [1 2]", ";", ";;", ",", ":", "a:", "(macexpand (m 1))", "(fn [x])", "(defn q [x] (q))\n(q 1)", "(source \"bad\")", "(include \"fail\")", "(map f [1 2])\n(map (fn [x] (nosuch)) [1])", "h.k = 3", "nosuch.k = 3", "a.b.c", "$a", "#a", "?a", "(error \"x\")", "(defmac q1 [] (nosuch))\n(q1)\n1", "(lz (nosuch))", "(force (lz (nosuch)))", "(package \"zz\" (nosuch))\na"}

// data that contains itself, and what can be done with it
var c01Cyclic = []struct{ setup, text string }{
	{"(def z [1]) (aset z 0 z)", "(str z)"},
	{"(def z [1]) (aset z 0 z)", "z"},
	{"(def z [1]) (aset z 0 z)", "(== z z)"},
	{"(def z [1]) (aset z 0 z)", "(json z)"},
	{"(def z [1]) (aset z 0 z)", "(msgpack z)"},
	{"(def z [1]) (aset z 0 z)", "(hset (hash) z 1)"},
	{"(def z [1]) (aset z 0 z)", "(flatten z)"},
	{"(def z [1]) (aset z 0 z)", "(len z)"},
	{"(def z [1]) (aset z 0 z)", "(f z)"},
	{"(def z [1]) (aset z 0 z)", "(eval z)"},
	{"(def z (hash)) (hset z k: z)", "(str z)"},
	{"(def z (hash)) (hset z k: z)", "(json z)"},
	{"(def z (hash)) (hset z k: z)", "(hget z k:)"},
	{"(defmac z [] (quote (z)))", "(z)"},
}

// c01Programs are well-formed programs whose mutants are tried.
var c01Programs = []string{
	"{for k, v := range h { k }}", "{for k = range a { k }}", "{for k, v = range a { v }}", "{for i := 0; i < 2; i++ { i }}", "{lab: for { break lab }}", "{for i = 0; i < 2; i++ { if i == 1 { continue } else { break } }}",
	"{if a[0] == 1 { 3 } else if n > 2 { 4 } else { 5 }}", "{x, y = [1 2]; x + y}", "{x = a[0:2]; x[1] = h.k; x}", "{x = h.j[1]; h.k += 2; h.k++; x--; h}", "{not true and false or 3 < 4 and n != 5}", "{f = func(q int64) (r int64) { return q }}", "{(f 1) + -2 ** 3 mod 4}", "{a[1] = 5; aa[0][1] = a[1]; aa}",
	"(mdef q r [1 2]) (list q r)", "(def q r 1 2)", "(= [q r] [1 2])", "(let [q 1 r 2] (+ q r))", "(letseq [q 1 r q] (+ q r))", "(for lab: [(def i 0) (< i 2) (def i (+ i 1))] (break lab:))", "(for (quote lab) [(def i 0) (< i 2) (def i (+ i 1))] (continue (quote lab)))", "(for [(def i 0) (< i 1) (set i (+ i 1))] (for in: [(def j 0) (< j 1) (set j (+ j 1))] (continue in:)))",
	"(cond (< n 1) 2 (> n 1) 3 4)", "(defn q [x & r] (cond (== x 0) r (q (- x 1) x))) (q 2)", "(defn q [#x y & #r] (force #x)) (q 1 2 3)", "(defn q [a:int64 b:string] a) (q b:\"x\" a:1)", "(defmac q [x & r] ^(list ~x ~@r [~x ~@r] {~x + 1})) (q 1 2)", "^(a ~n (b ~@l [c ~@a]) ^(d ~e) %f 'c' \"s\")", "(macexpand (when true 1))",
	"(struct Sa [(field K: int64 e:1 gotags:`json:\"k\"`) (field L: ([] string))]) (def q (Sa K:1 L:[\"x\"])) q.K", "(interface Ia [(func Fa [a:int64] [r:string])])", "(method [p: (* Sb)] Mb [a:int64] [r:string] \"x\")", "(func fa [a:int64 b:string] [n:int64 err:error] (return 1 nil))", "(var va int64) (set va 3)", "(def q (& n)) (* q) (deref-set q 3)", "(import \"good\")", "(package \"pq\" { (def A 1) (defn B [] A) })", "pk.Q", "(def q (hash a:1 b:(hash c:[1 2]))) q.b.c[1]", "(hset h (quote z) 1) (hget h z: 2) (hdel h z:)", "(-> h k:)", "(expectError \"Error calling 'first'\" (first []))", "(assert (== 1 1))", "(range k v h (list k v))", "(map (fn [x] (+ x 1)) [1 2])", "(apply + [1 2])", "(eval (quote (+ 1 2)))", "(source (list (quote (def q 1))))", "(infix [a + 1])", "(let [x 1] (newScope (def y 2) (set x y)) x)", "(return (cond true 1 2))", "(and 1 (or nil 2) (not 3))", "(sformat \"%d %v\" 1 a)", "(regexp-match (regexp-compile \"a\") s)", "(slice a 0 1)", "(concat \"a\" s)", "(json h)", "(unjson (raw \"{}\"))", "(str a:)", "[1, 2, [3]]", "{a: 1}", "(1 \\ 2)", "0x1F 1e3 -2.5 7ULL 'c' '\\n' \"a\\tb\" `raw` true nil", "a.b.c = 3", ".k", "(.k h)", "(h k:)", "(a 0)", "#q ?r $s", "(* [3]int64)", "(slice-of int64)", "(:k h)",
}

func checkC01(c *Ctx) {
	c.Explain = "Malformed and ill-typed texts are generated from the grammar, exhaustively up to a size, and every text is evaluated by abstract interpretation of the interpreter's own source (lexer, parser, generator, virtual machine, builtins, printing), to the end of every path: the entry point must return a value or an error, the value and the stack trace of the error must print, no Go panic may leave the library, the process may not end, and no loop of the library may go on without the program taking steps."
	c.Assume = append([]string{"the Go stack and the memory suffice for the depth of nesting and the size of the text and data at hand"}, schemaAssume...)
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	f.E.Files = testFiles
	exit := func(k *Call) []Outcome { return []Outcome{{St: k.St, Kind: kExit, Ret: k.Args}} }
	for _, nm := range []string{"os.Exit", "syscall.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln"} {
		f.E.Stubs[nm] = exit
	}
	f.E.Stubs["github.com/glycerine/blake2b.New"] = func(k *Call) []Outcome {
		e := k.E
		e.nfresh++
		t := e.NewTerm(fmt.Sprint("blake2b#", e.nfresh), k.Sig.Results().At(0).Type())
		d := k.St.dyn[t.ID]
		d.NonNil = true
		k.St.dyn[t.ID] = d
		return ret(k.St, t, NilV{})
	}
	f.E.MaxSteps = 700_000
	x := &c01{c: c, f: f, thorough: c.Tier == "thorough"}
	outs, err := f.Call(f.St.Clone(), "Zlisp", "EvalString", f.Env, StrV(c01Setup))
	if err != nil || len(outs) != 1 || outs[0].Kind != kReturn || !isNilV(outs[0].Ret[1]) {
		c.Undecided("fixture", "setup", fmt.Errorf("%v %v", err, showOuts(outs)))
		return
	}
	x.st = outs[0].St
	x.st.trace = nil
	t0 := time.Now()
	lap := func(name string) {
		if c.Main() {
			fmt.Fprintf(os.Stderr, "C01 %s: %.0f s, %d texts\n", name, time.Since(t0).Seconds(), x.n)
		}
		t0, x.n = time.Now(), 0
	}
	if c.Main() {
		x.reach()
	}
	if os.Getenv("C01_ONLY") == "repl" {
		x.repl()
		return
	}
	x.tokens()
	lap("tokens")
	x.chars()
	lap("chars")
	x.forms()
	lap("forms")
	x.infix()
	lap("infix")
	x.builtins()
	lap("builtins")
	x.macros()
	lap("macros")
	x.contexts()
	lap("contexts")
	x.mutants()
	lap("mutants")
	x.repl()
	lap("repl")
	for _, t := range c01Cyclic {
		x.after("cyclic", t.setup, t.text)
	}
	lap("cyclic")
	c.Stats["texts not decided"] = x.undecided
	c.Stats["texts whose program does not end"] = x.endless
	c.Stats["paths"] = x.paths
	for r, k := range map[string]int{"tokens": 15000, "chars": 1700, "form": 30000, "infix": 30000, "builtin": 20000, "macro": 500, "context": 1000, "mutant": 5000, "repl": 3000, "exit": 500, "cyclic": 10} {
		c.Floor(r, k)
	}
}

type c01 struct {
	c         *Ctx
	f         *Fix
	st        *State
	n         int
	paths     int
	undecided int
	endless   int
	thorough  bool
}

// reach: what a script can run neither ends the process (but for the function bound to "exit", which is told
// to) nor starts goroutines, in which a panic would end the process.
func (x *c01) reach() {
	f := x.f
	exits := map[*ssa.Function]bool{}
	if outs, err := f.Call(x.st.Clone(), "Zlisp", "EvalString", f.Env, StrV("[exit]")); err == nil && len(outs) == 1 && outs[0].Kind == kReturn {
		h := &heapWalk{st: outs[0].St, seen: map[int]bool{}, typ: func(types.Type) {}, obj: func(*StructV) {}}
		h.fun = func(v *FuncV) { exits[v.Fn] = true }
		if _, sv := f.Unbox(outs[0].St, outs[0].Ret[0]); sv != nil {
			if el, ok := outs[0].St.Elems(f.FieldOf(sv, "Val")); ok && len(el) == 1 {
				if nm, fv := f.Unbox(outs[0].St, el[0]); nm == "SexpFunction" {
					if u, ok := f.FieldOf(fv, "userfun").(*FuncV); ok {
						h.fun(u)
					}
				}
			}
		}
	}
	r := NewReach(x.c.P)
	r.Stop = func(fn *ssa.Function) bool { return exits[fn] }
	r.SinkOf = func(fn *ssa.Function) string {
		switch fn.String() {
		case "os.Exit", "syscall.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "syscall.Kill", "(*os.Process).Kill", "(*os.Process).Signal":
			return "ends the process"
		}
		return ""
	}
	c08roots(f, r, "NewZlisp() and StandardSetup()")
	for _, m := range scriptEntry {
		if fn := x.c.P.Method(m[0], m[1]); fn != nil {
			r.Add(fn, nil, fn.Pos(), "entry point for program text")
		}
	}
	r.Run()
	c08reflect(x.c, r)
	for _, s := range r.SortedSinks() {
		in := ""
		if s.in != nil {
			in = shortFn(s.in)
		}
		x.c.Ob("exit", shortFn(s.fn)+" in "+in, false, x.c.P.Pos(s.pos), "%s %s and can run on behalf of a script: %s", shortFn(s.fn), s.why, r.Path(s.in))
	}
	n := 0
	for fn := range r.fns {
		if fn.Package() == nil || !strings.HasPrefix(fn.Package().Pkg.Path(), modPrefix) {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && r.Live(fn)[b] {
					x.c.Ob("exit", "go statement in "+shortFn(fn), false, x.c.P.Pos(g.Pos()), "a goroutine is started on behalf of a script; a panic in it cannot be recovered by the caller: %s", r.Path(fn))
				}
			}
		}
		x.c.Ob("exit", shortFn(fn), true, "", "")
	}
	x.c.Stats["functions a script can run"] = n
}

func (x *c01) tokens() {
	for _, a := range c01Tokens {
		x.try("tokens", a)
		for _, b := range c01Tokens {
			x.try("tokens", a+" "+b)
			x.try("tokens", a+b)
		}
	}
	for _, a := range c01Short {
		for _, b := range c01Short {
			for _, d := range c01Short {
				x.try("tokens", a+" "+b+" "+d)
				if x.thorough {
					x.try("tokens", a+b+d)
					x.try("tokens", "( "+a+" "+b+" "+d+" )")
					x.try("tokens", "[ "+a+" "+b+" "+d+" ]")
				}
			}
		}
	}
}

func (x *c01) chars() {
	for _, a := range c01Chars {
		for _, b := range c01Chars {
			x.try("chars", a+b)
			if x.thorough {
				for _, d := range c01Chars {
					x.try("chars", a+b+d)
				}
			}
		}
	}
	for _, q := range []string{"'", "\"", "`"} {
		for _, e := range c01Chars {
			x.try("chars", q+"\\"+e)
			x.try("chars", q+"\\"+e+q)
			x.try("chars", q+"a\\"+e+"b"+q)
			x.try("chars", q+e+q)
		}
	}
	for _, k := range []string{"0x", "0b", "0o", "0", "1", "-", "-1", "1.", ".1", "1e", "1e+", "1e-", "1e309", "99999999999999999999", "0xfffffffffffffffff", "1_", "1__2", "0x_", "18446744073709551615ULL", "18446744073709551616ULL", "-1ULL", "0xULL", "1e400", "-9223372036854775809"} {
		for _, e := range append([]string{"", "ULL", "LL", "L"}, c01Chars...) {
			x.try("chars", k+e)
			x.try("chars", "("+k+e+")")
		}
	}
	for _, k := range []string{"//", "/*", "/**/", "/*/", "*/", "/* * /", "\"a\nb\"", "a /* b", "(a // b\n)", "(a /* b */)", "( /* b */ a)", "(a /* b", "[a // b", "{a // b\n}", "#!", "#!/bin/x\n1", ";;", "; a", "(;)", "\r\n", "\t", "\f", "\ufeff1", "a\u00a0b", "(a \\ b)", "(a \\ )", "(a \\", "( \\ a)", "(\\)", "(a \\ b c)", "(a \\ b \\ c)", "[a \\ b]", "{a \\ b}", "a\\b", "\\", "\\\\", "'\\u1234'", "'\\x41'", "\"\\u12\"", "\"\\x4\"", "'\\", "'\\n", "\"\\"} {
		x.try("chars", k)
		x.try("chars", k+"\n1")
		x.try("chars", "1 "+k)
		x.try("chars", "("+k+")")
	}
}

func (x *c01) forms() {
	for _, p := range c01Forms {
		x.try("form", "("+p+")")
		x.try("form", "{"+p+"}")
		x.try("form", "["+p+"]")
		for _, a := range c01Args {
			x.try("form", "("+p+" "+a+")")
			x.try("form", "("+p+" \\ "+a+")")
			for j, b := range c01Args {
				if !x.thorough && j >= 14 && j%3 != 0 {
					continue
				}
				x.try("form", "("+p+" "+a+" "+b+")")
			}
		}
		third := []string{"1", "()", "[a]", "a", "(f 1)"}
		lim := 9
		if x.thorough {
			third, lim = c01Args[:16], 16
		}
		for _, a := range c01Args[:lim] {
			for _, b := range c01Args[:lim] {
				for _, d := range third {
					x.try("form", "("+p+" "+a+" "+b+" "+d+")")
				}
			}
		}
		for _, d := range third {
			for _, e := range []string{"1", "()", "[a:int64]", "[(a)]", "a"} {
				for _, b := range []string{"a", "[a]", "[]", "[a:int64]", "1", "[r:int64]"} {
					x.try("form", "("+p+" a "+b+" "+e+" "+d+")")
					x.try("form", "("+p+" "+b+" a "+e+" "+d+" 1)")
				}
			}
		}
	}
}

func (x *c01) infix() {
	for _, a := range c01Infix {
		x.try("infix", "{"+a+"}")
		for _, b := range c01Infix {
			x.try("infix", "{"+a+" "+b+"}")
			for _, d := range c01Infix {
				x.try("infix", "{"+a+" "+b+" "+d+"}")
			}
		}
	}
	var stmt = []string{"if", "for", "else", "func", "range", "{", "}", "(", ")", ";", ",", "=", ":=", "a", "1", "true", "[", "]", "x", "{}", "()"}
	for _, p := range []string{"if a", "if a {", "if a { 1 } else", "for", "for i", "for i =", "for i = 0 ;", "for i = 0 ; i < 2 ;", "for k , v = range", "for k , v :=", "func f", "func f (", "a ,", "a , b =", "a [", "a [ 1", "h . k", "return", "break", "x = {", "x = [", "( a", "if ( a )", "not"} {
		for _, a := range stmt {
			x.try("infix", "{"+p+" "+a+"}")
			for _, b := range stmt {
				x.try("infix", "{"+p+" "+a+" "+b+"}")
				if x.thorough {
					for _, d := range stmt {
						x.try("infix", "{"+p+" "+a+" "+b+" "+d+"}")
					}
				}
			}
		}
	}
}

// names lists the names bound to functions, macros and declaration builders.
func (x *c01) names() []string {
	_, mo, ok := x.f.E.mapOf(x.st, x.f.E.GetField(x.st, x.f.Env, x.f.T("Zlisp"), "symtable"))
	if !ok {
		x.c.Undecided("builtin", "names", fmt.Errorf("the symbol table is not known"))
		return nil
	}
	var all []string
	for _, en := range mo.Ents {
		nm, ok := en.K.(StrV)
		if !ok || strings.ContainsAny(string(nm), "()[]{}\"'` \\~^%;,@") || strings.HasPrefix(string(nm), "//") || strings.HasPrefix(string(nm), "/*") {
			continue
		}
		outs, err := x.f.Call(x.st.Clone(), "Zlisp", "EvalString", x.f.Env, StrV("["+string(nm)+"]"))
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn || !isNilV(outs[0].Ret[1]) {
			continue
		}
		_, sv := x.f.Unbox(outs[0].St, outs[0].Ret[0])
		if sv == nil {
			continue
		}
		el, ok := outs[0].St.Elems(x.f.FieldOf(sv, "Val"))
		if !ok || len(el) != 1 {
			continue
		}
		if t, _ := x.f.Unbox(outs[0].St, el[0]); t == "SexpFunction" {
			all = append(all, string(nm))
		}
	}
	sort.Strings(all)
	return all
}

func (x *c01) builtins() {
	names := x.names()
	x.c.Stats["functions called with ill-kinded arguments"] = len(names)
	x.c.Ob("builtin", "names", len(names) > 150, "", "only %d names of functions found", len(names))
	for _, p := range names {
		if p == "exit" {
			continue // ends the process because it is told to
		}
		x.try("builtin", "("+p+")")
		for _, a := range c01Vals {
			x.try("builtin", "("+p+" "+a+")")
		}
		v2, v3 := c01Vals2[:11], c01Vals3[:4]
		if x.thorough {
			v2, v3 = c01Vals, c01Vals3
		}
		for _, a := range v2 {
			for _, b := range v2 {
				x.try("builtin", "("+p+" "+a+" "+b+")")
			}
		}
		for _, a := range v3 {
			for _, b := range v3 {
				for _, d := range v3 {
					x.try("builtin", "("+p+" "+a+" "+b+" "+d+")")
				}
			}
		}
	}
	for _, p := range c01Vals {
		x.try("builtin", "("+p+")")
		for _, a := range c01Vals2 {
			x.try("builtin", "("+p+" "+a+")")
			x.try("builtin", "("+p+" "+a+" "+a+")")
			x.try("builtin", "{"+p+"["+a+"]}")
			x.try("builtin", "{"+p+"["+a+"] = 1}")
			x.try("builtin", "{x = "+p+"; x["+a+"]}")
			x.try("builtin", "{x = "+p+"; x[1:"+a+"]}")
			for _, op := range []string{"+", "-", "*", "/", "**", "mod", "==", "<", "and", "+=", "=", ":=", ","} {
				x.try("builtin", "{"+p+" "+op+" "+a+"}")
			}
		}
	}
}

func (x *c01) macros() {
	for _, b := range c01Expand {
		def := "(defmac zm [& q] " + b + ")"
		for _, u := range []string{"(zm)", "(zm 1)", "[(zm)]", "(f (zm))", "(let [q (zm)] q)", "(def q (zm))", "(defn q [] (zm)) (q)", "(begin (zm) 1)", "(cond (zm) 1 2)", "(for [(zm) (zm) (zm)] (zm) (break))", "(macexpand (zm))", "(macexpand (zm 1))", "{(zm)}", "{1 + (zm)}", "^(a ~(zm))", "^(a ~@(zm))", "(quote (zm))", "((zm) 1)", "(and (zm) 1)", "(set a (zm))", "(eval (quote (zm)))", "(lz (zm))", "(force (lz (zm)))", "(hash k:(zm))", "(package \"zp\" (zm))", "(zm ~a)", "(zm \\ 1)"} {
			x.try("macro", def+" "+u)
		}
		x.try("macro", "(def zv "+b+") (eval zv)")
		x.try("macro", "(def zv "+b+") (eval (list zv 1))")
		x.try("macro", "(def zv "+b+") (eval [zv])")
		x.try("macro", "(def zv "+b+") (macexpand zv)")
		x.try("macro", "(def zv "+b+") ^(~zv)")
		x.try("macro", "(def zv "+b+") ^(~@zv)")
		x.try("macro", "(def zv "+b+") ^[~zv ~@zv]")
		x.try("macro", "(def zv "+b+") (zv)")
		x.try("macro", "(def zv "+b+") (source zv)")
		x.try("macro", "(def zv "+b+") (infixExpand {zv + zv})")
		x.try("macro", "(def zv "+b+") (force zv)")
		x.try("macro", "(def zv "+b+") (substitute zv)")
		x.try("macro", "(def zv "+b+") (hset h zv 1) h")
		x.try("macro", "(def zv "+b+") (hash k:zv j:[zv])")
		x.try("macro", "(def zv "+b+") (field k:zv)")
		x.try("macro", "(def zv "+b+") (json zv)")
		x.try("macro", "(def zv "+b+") (for [zv zv zv] (break))")
	}
}

func (x *c01) corpus() []string {
	var ts []string
	for _, t := range badTexts {
		ts = append(ts, strings.Split(t, ";;")[0])
	}
	return ts
}

func (x *c01) contexts() {
	sp := regexp.MustCompile("^\\S+$")
	bad := x.corpus()
	if !x.thorough {
		var some []string
		for _, t := range bad {
			if len(t) < 16 || sp.MatchString(t) {
				some = append(some, t)
			}
		}
		bad = some
	}
	for i, k := range c01Contexts {
		for j, t := range bad {
			if !x.thorough && (i+j)%4 != 0 {
				continue
			}
			x.try("context", strings.ReplaceAll(k, "@", t))
		}
		for _, a := range c01Args {
			x.try("context", strings.ReplaceAll(k, "@", a))
		}
		for _, a := range c01Vals {
			x.try("context", strings.ReplaceAll(k, "@", a))
		}
		for _, p := range c01Forms {
			x.try("context", strings.ReplaceAll(k, "@", "("+p+")"))
			x.try("context", strings.ReplaceAll(k, "@", p))
		}
	}
}

var c01Tok = regexp.MustCompile("\"[^\"]*\"|`[^`]*`|/\\*.*?\\*/|[()\\[\\]{}~^%,;]|~@|[^\\s()\\[\\]{}~^%,;\"`]+")

// mutants are well-formed programs with one token left out, doubled or replaced, or cut short.
func (x *c01) mutants() {
	repl := []string{"1", "()", "[]", "a:", "("}
	if x.thorough {
		repl = append(repl, "nosuch", ")", "\"s\"", "]", "[", "{", "}", "{}", "&", "~", "h.k", "nil", "'c'", "def", "(1 \\ 2)", "#q", "for", ",", "=", "-", "*", "[a b]")
	}
	for _, t := range surfaceForms {
		t = strings.Split(t, ";;")[0]
		x.try("mutant", t)
		x.mutate(t, repl)
	}
	more := append([]string{}, c01Programs...)
	for _, t := range infixPrograms {
		more = append(more, strings.Split(t, " => ")[0])
	}
	for _, t := range coreForms {
		more = append(more, fill(strings.ReplaceAll(strings.ReplaceAll(t, "#H", "h9"), " P ", " (p0) ")))
	}
	if x.thorough {
		for _, l := range [][]string{scopePrograms, failPrograms, lazyPrograms, tailPrograms, inside18} {
			for _, t := range l {
				t = regexp.MustCompile(" => [^;]*").ReplaceAllString(t, "")
				more = append(more, fill(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(t, ";;", " "), "#H", "h9"), " P ", " (p0) ")))
			}
		}
	}
	few := []string{"1", "()"}
	if x.thorough {
		few = repl
	}
	for _, t := range more {
		t = strings.ReplaceAll(t, ";;", " ")
		x.try("mutant", t)
		x.mutate(t, few)
	}
}

func (x *c01) mutate(t string, repl []string) {
	{
		loc := c01Tok.FindAllStringIndex(t, -1)
		for _, l := range loc {
			x.try("mutant", t[:l[0]])
			x.try("mutant", t[:l[0]]+t[l[1]:])
			x.try("mutant", t[:l[1]]+" "+t[l[0]:])
			for _, r := range repl {
				if t[l[0]:l[1]] != r {
					x.try("mutant", t[:l[0]]+" "+r+" "+t[l[1]:])
				}
			}
		}
	}
}

// repl: the interactive line reader, fed with lines until the end of its input.
func (x *c01) repl() {
	fn := x.c.P.Func("Repl")
	g := x.c.P.Prog.ImportedPackage("os").Var("Stdin")
	if fn == nil || g == nil || x.c.P.Type("ZlispConfig") == nil {
		x.c.Undecided("repl", "Repl", fmt.Errorf("anchor: Repl or ZlispConfig not found"))
		return
	}
	lines := append([]string{}, c01Repl...)
	for _, t := range badTexts {
		lines = append(lines, strings.Split(t, ";;")[0])
	}
	for _, a := range c01Tokens {
		lines = append(lines, a, a+"\n1")
	}
	for _, a := range c01Short {
		for _, b := range c01Short {
			lines = append(lines, a+" "+b)
			if x.thorough {
				for _, d := range c01Short {
					lines = append(lines, a+" "+b+" "+d)
				}
			}
		}
	}
	for _, a := range c01Infix {
		for _, b := range c01Infix {
			lines = append(lines, a+" "+b, "a "+a+" "+b)
		}
	}
	for _, p := range c01Forms {
		lines = append(lines, p, "("+p+")")
		for _, a := range c01Args {
			lines = append(lines, "("+p+" "+a+")", p+" "+a)
		}
	}
	for _, v := range c01Vals {
		lines = append(lines, v, "(def q "+v+")\nq")
	}
	for _, t := range surfaceForms {
		lines = append(lines, strings.Split(t, ";;")[0])
	}
	seen := map[string]bool{}
	for _, t := range lines {
		if seen[t] {
			continue
		}
		seen[t] = true
		if !x.c.Mine() {
			continue
		}
		x.n++
		st := x.st.Clone()
		in := x.f.E.NewTerm(fileOp+"<stdin>", types.NewPointer(x.c.P.Prog.ImportedPackage("os").Type("File").Type()))
		d := st.dyn[in.ID]
		d.NonNil = true
		st.dyn[in.ID] = d
		st.setObj(x.f.E.globalObj(st, g), in)
		x.f.E.Files = map[string]string{"<stdin>": t + "\n"}
		for k, v := range testFiles {
			x.f.E.Files[k] = v
		}
		cfg := x.f.Obj(st, "ZlispConfig", "NoLiner", BoolV(true), "Quiet", BoolV(true))
		outs, err := x.f.E.Run(fn, []Value{x.f.Env, cfg}, st)
		x.f.E.Files = testFiles
		bad := ""
		if os.Getenv("CHK_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "repl %q: %s %v, %d steps\n", t, showOuts(outs), err, x.f.E.Steps)
		}
		if len(outs) == 0 && err == nil {
			err = fmt.Errorf("no path")
		}
		for _, o := range outs {
			if o.Kind == kReturn {
				continue // .quit
			}
			if o.Kind == kExit && len(o.Ret) == 1 && o.Ret[0] == IntV(0) {
				continue // end of the input
			}
			x.fail(o, "the line reader", &bad)
		}
		x.decide("repl", t, bad, err)
	}
}

func (x *c01) fail(o Outcome, what string, bad *string) {
	x.paths++
	switch o.Kind {
	case kPanic:
		*bad = what + ": a Go panic escapes: " + o.St.Show(o.PanicV)
	case kReturn:
	case kTrunc:
		if o.Why == "loop in Run" || o.Why == "recursion Run" {
			x.endless++ // the program itself goes on
		} else if strings.HasPrefix(o.Why, "recursion ") {
			*bad = what + " does not return: " + o.Why
		} else {
			x.undecided++
			fmt.Fprintln(os.Stderr, "C01 undecided:", o.Why)
		}
	default:
		*bad = what + ": the process exits"
	}
}

func (x *c01) decide(rule, text, bad string, err error) {
	if err != nil {
		switch {
		case strings.Contains(err.Error(), "without an instruction"):
			bad = "does not return: " + err.Error()
		case strings.Contains(err.Error(), "step budget"):
			x.endless++
		default:
			x.undecided++
			fmt.Fprintln(os.Stderr, "C01 undecided:", rule, text, err)
		}
	}
	x.c.Ob(rule, text, bad == "", "zygo (text)", "%s", bad)
}

// try decides one text: evaluation returns, and what it returns prints.
func (x *c01) try(rule, text string) {
	x.after(rule, "", text)
}

func (x *c01) after(rule, setup, text string) {
	if !x.c.Mine() {
		return
	}
	x.n++
	if os.Getenv("CHK_TRACE") != "" {
		t0 := time.Now()
		fmt.Fprintln(os.Stderr, "start", text)
		defer func() {
			if d := time.Since(t0).Seconds(); d > 2 {
				fmt.Fprintf(os.Stderr, "slow %.1f %s\n", d, text)
			}
		}()
	}
	bad := ""
	st := x.st.Clone()
	name := text
	if setup != "" {
		name = setup + " ;; " + text
		outs, err := x.f.Call(st, "Zlisp", "EvalString", x.f.Env, StrV(setup))
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn || !isNilV(outs[0].Ret[1]) {
			for _, o := range outs {
				x.fail(o, "evaluation of "+setup, &bad)
			}
			x.decide(rule, name, bad, err)
			return
		}
		st = outs[0].St
	}
	outs, err := x.f.Call(st, "Zlisp", "EvalString", x.f.Env, StrV(text))
	for _, o := range outs {
		x.fail(o, "evaluation", &bad)
		if o.Kind != kReturn || len(o.Ret) != 2 {
			continue
		}
		if isNilV(o.Ret[0]) {
			bad = "neither a value nor SexpNull is returned"
			continue
		}
		if !isNilV(o.Ret[1]) {
			ts, e2 := x.f.Call(o.St, "Zlisp", "GetStackTrace", x.f.Env, o.Ret[1])
			if e2 != nil && err == nil {
				err = e2
			}
			for _, t := range ts {
				x.fail(t, "the stack trace of the error", &bad)
			}
			continue
		}
		iv, ok := o.Ret[0].(IfaceV)
		if !ok {
			continue
		}
		nm, _ := x.f.Unbox(o.St, iv)
		if nm == "" {
			continue
		}
		ps, e2 := x.f.Call(o.St, nm, "SexpString", iv.V, NilV{})
		if e2 != nil && err == nil {
			err = e2
		}
		for _, p := range ps {
			x.fail(p, "printing the result", &bad)
		}
		if rule != "cyclic" && x.cyclic(o.St, o.Ret[0], map[int]bool{}, 0) {
			rule, name = "cyclic", "printing a value that contains itself"
		}
	}
	x.decide(rule, name, bad, err)
}

// cyclic tells whether a value contains itself.
func (x *c01) cyclic(st *State, v Value, on map[int]bool, d int) bool {
	iv, ok := v.(IfaceV)
	if !ok || d > 40 {
		return d > 40
	}
	p, ok := iv.V.(PtrV)
	if !ok || p.P != nil {
		return false
	}
	if on[p.Obj] {
		return true
	}
	on[p.Obj] = true
	defer delete(on, p.Obj)
	nm, sv := x.f.Unbox(st, v)
	if sv == nil {
		return false
	}
	var parts []Value
	switch nm {
	case "SexpArray":
		parts, _ = st.Elems(x.f.FieldOf(sv, "Val"))
	case "SexpPair":
		parts = []Value{x.f.FieldOf(sv, "Head"), x.f.FieldOf(sv, "Tail")}
	case "SexpHash", "SexpField":
		if _, mo, ok := x.f.E.mapOf(st, x.f.FieldOf(sv, "Map")); ok {
			for _, en := range mo.Ents {
				el, _ := st.Elems(en.V)
				for _, q := range el {
					parts = append(parts, IfaceV{T: x.f.PT("SexpPair"), V: q})
				}
			}
		}
	}
	for _, q := range parts {
		if x.cyclic(st, q, on, d+1) {
			return true
		}
	}
	return false
}

func showOuts(outs []Outcome) string {
	var s []string
	for _, o := range outs {
		s = append(s, fmt.Sprint(showOut(o)))
	}
	return strings.Join(s, " | ")
}
