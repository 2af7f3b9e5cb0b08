package main

import "strings"

func init() { checks["C05"] = checkC05; sharded["C05"] = true }

// failPrograms define things, then may fail at any hole; what ran before the failure must stay.
var failPrograms = []string{
	"(def a _) (def b (#H a)) (def c _) ;; (list a) ;; (list a b) ;; (list a b c)",
	"(def a 1) (set a _) (set a (#H a)) ;; a",
	"(def a 1) (let [b _] (set a b) (#H a) (set a 7)) ;; a",
	"(def a 1) (for [(def i 0) P _] (set a (#H a))) ;; a",
	"(def a 1) (defn f [n] (set a n) (#H a) (set a 9)) (f _) ;; a ;; (f 3) ;; a",
	"(defn f [n] (let [m (#H n)] (newScope (def k _) (#H k m n)))) (f _) ;; (f 5)",
	"(defn f [n] (cond P (f (#H n)) (#H n))) (f _) ;; (f 5)",
	"(defn f [n] (cond P (begin (f (#H n)) (#H n)) (#H n))) (f _) ;; (f 5)",
	"(def a 0) (map (fn [x] (set a (#H x)) a) [1 2 3]) ;; a",
	"(def a 0) (map (fn [x] (set a (#H x)) a) (list 1 2 3)) ;; a",
	"(def a 0) (apply (fn [x y] (set a x) (#H y) (set a y)) (list _ _)) ;; a",
	"(defn f [#a] (let [z 1] (force #a))) (f (let [q _] (#H q))) ;; (f _)",
	"(defn f [#a] (list (force #a) (force #a))) (f _) ;; (f 3)",
	"(def a 1) (eval (quote (begin (set a (h0)) (h1 a)))) ;; a",
	"(def a 1) (let [b _] (eval (quote (begin (set a (h1)) (h2 a))))) ;; a",
	"(defmac m [x] ^(begin (h0) ~x (h1))) (m (h2)) ;; (m 3)",
	"(defmac m [x] ^(let [q ~x] (h0 q))) (def z (m (h1))) ;; (list z)",
	"(def a 1) (begin (set a 2) (nosuch)) ;; a",
	"(def a 1) (begin (set a 2) (let [b 3] (newScope nosuchsym))) ;; a",
	"(def a 1) (defn f [x] (set a x) (f)) (f 4) ;; a",
	"(def a 1) (defn f [x] (set a x) (nosuch x)) (f 4) ;; a ;; (f 5) ;; a",
	"(def a 1) (begin (set a 2) (3 4)) ;; a",
	"(def a 1) (begin (set a 2) (assert P)) ;; a",
	"(def a 1) (defn f [] (set a 3) (assert P) (set a 4)) (f) ;; a",
	"(def a 1) (for [(def i 0) (< i 3) (set i (+ i 1))] (set a i) (cond (== i 1) (nosuch) 0)) ;; a",
	"(def a 1) (for outer [(def i 0) P _] (for [(def j 0) P _] (set a 2) (#H) (break outer))) ;; a",
	"(defn g [x] (cond P (h0 x) (nosuch))) (defn f [x] (let [y (g x)] (h1 y))) (list (f 1) (f 2)) ;; (f 3)",
	"(defn inc [f x] (h0 (f x))) (inc (fn [q] (let [r (h1 q)] (h2 r))) _) ;; (inc (fn [q] q) 3)",
	"(def f (let [x 1] (fn [] (set x (h0 x)) (h1 x)))) (f) ;; (f) ;; (f)",
	"[_ (#H _) (let [a _] (#H a))] ;; (hz 3)",
	"^(a ~(h0) ~@(list (h1) (h2)) (b ~(h3))) ;; (hz 1)",
	"(and P (let [a _] (#H a)) P) ;; (hz 1)",
	"(let [a _ b (#H)] (let [c (#H a)] (#H b c))) ;; (hz 1)",
	"(mdef a b (list _ _)) ;; (list a b)",
	"(mdef a b (list _)) ;; (hz 1)",
	"(def a 1) (cond P (begin (set a 2) (cond P (nosuch) (set a 3))) (set a 4)) ;; a",
	"(first (list)) ;; (hz 1)",
	"(def a 5) (first (list (first (list)))) (def a 6) ;; a",
	"(defn deep [n] (cond (== n 0) (h0) (let [m (deep (- n 1))] (h1 m)))) (deep 3) ;; (deep 1)",
	"(defn v [a & r] (let [q (h0 a r)] (h1 q))) (v _ _ _) ;; (v)  ;; (v 1)",
}

// badTexts fail to parse or to compile, or fail inside nested forms; nothing of them may stay behind.
var badTexts = []string{
	"(", ")", "]", "}", "[", "{", "(def a", "(def a 1))", "[1 2", "{1 + ", "\"abc", "`abc", "/* abc", "(h0 \"abc)", "(h0 #a)", "~", "~@", "^", "%", "'", "(a . b)", "(a . )", "( . a)", "'ab'", "1_x", "0x", "#", "a.b.", "&", "@", "$$$",
	"(def)", "(def a)", "(def 1 2)", "(def \"a\" 2)", "(def (f x) 2)", "(set)", "(mdef a)", "(mdef)", "(mdef 1 2 (list 1 2))", "(mdef (f) b (list 1 2))", "(let)", "(let [a] 1)", "(let [1 2] 3)", "(let a 1)", "(let [a 1])", "(letseq [a] 1)",
	"(fn)", "(fn [])", "(fn a 1)", "(fn [1] 2)", "(defn)", "(defn f)", "(defn f [x])", "(defn 1 [] 2)", "(defn f [1] 2)", "(defn + [a] a)", "(defn def [a] a)", "(def + 3)", "(def cond 3)", "(set + 3)", "(let [+ 3] 4)",
	"(cond)", "(cond 1 2)", "(and)", "(or)", "(and (def))", "(or (let))", "(and 1 (def))", "(cond (def) 1 2)", "(cond 1 (def) 2)", "(cond 1 2 (def))", "(begin 1 (def) 2)", "(begin (def))", "(newScope (def))", "(newScope 1 (def))", "(let [a (def)] 1)", "(let [a 1] (def))", "(let [a 1] (def) 2)", "(letseq [a (def)] 1)", "(def a (def))", "(set a (let))", "(mdef a b (let))", "(fn [] (def))", "(defn f [] (def) 1)", "(defn f [] (cond))", "((fn [] (def)))", "[(def)]", "[1 (let)]", "(h0 (def))", "(h0 1 (let))", "((def) 1)", "(assert)", "(assert (def))", "(quote)", "(quote a b)",
	"(for)", "(for [])", "(for [1 2] 3)", "(for 1 [1 2 3] 4)", "(for lab 3)", "(for [(def) 1 2] 3)", "(for [1 (def) 2] 3)", "(for [1 2 (def)] 3)", "(for [1 2 3] (def))", "(for [1 2 3] (for [1 2 3] (def)))", "(for outer [1 2 3] (let [a 1] (break nolabel)))", "(break)", "(continue)", "(break a)", "(continue a)", "(break 1)", "(for [1 2 3] (break 1))", "(for [1 2 3] (break a b))",
	"(defmac)", "(defmac m)", "(defmac m [x])", "(defmac 1 [x] 2)", "(defmac m 1 2)", "(defmac m [1] 2)", "(defmac + [x] 2)", "(defmac m [x] (def))", "(defmac m [x] ^(def)) (m 1)", "(defmac m [x] (nosuch x)) (m 1)", "(defmac m [x] ^(nosuch ~x)) (m 1)", "(defmac m [x] ^(h0 ~x)) (m)", "(defmac m [x] ^(h0 ~x)) (m 1 2)", "(defmac m [] (h0)) (m)", "(defmac m [x] ^(h0 ~(nosuch))) (m 1)", "(defmac m [x] ^(h0 ~@x)) (m 1)", "(macexpand)", "(macexpand 1 2)", "(macexpand (m2))", "(defmac m [x] (nosuch)) (macexpand (m 1))",
	"(syntaxQuote)", "(syntaxQuote a b)", "^(a ~(def))", "^(a ~@(def))", "^[a ~(def)]", "^{a: ~(def)}", "^(a (b ~(def)))", "^(a ~@1)", "^(a ~@[1])", "^[~@1]", "^(a ~nosuch)",
	"(package)", "(package 1)", "(package \"p\" (def))", "(package \"p\" (nosuch))", "(package \"p\" (let [a 1] (nosuch)))", "(package \"p\" (package \"q\" (nosuch)))", "(package p2 (def a 1) (cond))",
	"(include)", "(include 3)", "(include \"/nonexistent-file\")", "(source \"/nonexistent-file\")", "(source 3)", "(source)", "(include \"good\")", "(include \"bad\")", "(include \"bad2\")", "(include \"bad3\")", "(include \"bad4\")", "(include \"fail\")", "(include \"nest\")", "(include \"incl\")", "(include \"empty\")", "(source \"good\")", "(source \"bad\")", "(source \"bad2\")", "(source \"bad3\")", "(source \"bad4\")", "(source \"fail\")", "(source \"nest\")", "(source \"incl\")", "(source \"empty\")", "(source [\"good\" \"fail\" \"good\"])", "(source [\"good\" 3])", "(source (list \"good\" \"bad\"))", "(slurpf \"lines\")", "(slurpf \"nosuch\")", "(req \"fail\")", "(req \"nosuch\")", "(req 3)", "(import \"good\")", "(import fail)", "(import \"fail\")", "(import \"bad\")", "(import \"nosuch\")", "(import)", "(import 3)", "(source [3])",
	"(eval)", "(eval (quote (def)))", "(eval (quote (nosuch)))", "(eval (quote (let [a 1] (nosuch))))", "(let [b 1] (eval (quote (let [a 1] (nosuch)))))", "(eval (quote (for [1 2 3] (nosuch))))", "(map (fn [x] (eval (quote (nosuch)))) [1])", "(eval (quote (break)))", "(for [(def i 0) (< i 1) (set i 1)] (eval (quote (break))))",
	"(map (fn [x] (nosuch)) [1 2])", "(map (fn [x y] x) [1 2])", "(map 3 [1])", "(map)", "(apply (fn [x] (nosuch)) [1])", "(apply (fn [x] x) [1 2])", "(apply 3 [1])", "(apply)", "(apply (fn [x] (let [y 1] (map (fn [z] (nosuch)) [1]))) [1])",
	"(defn f [#a] (force #a)) (f (nosuch))", "(defn f [#a] (force #a)) (f (def))", "(defn f [#a] (let [z 1] (force #a))) (f (let [q 1] (nosuch)))", "(defn f [#a] (force #a)) (map f [1]) (f)", "(force)", "(substitute)",
	"{a b}", "{1 +}", "{+ 1}", "{* }", "{a = }", "{= a}", "{1 = 2}", "{a, b = 1}", "{a[}", "{a[1}", "{if}", "{if 1}", "{for}", "{for i = 0 {}}", "{(h0) + (nosuch)}", "{(nosuch) + (h0)}", "{a.b.c}", "{nosuch.b}", "{nosuch = (def)}", "{x = 1; x.y = 2}", "{x = 1; x[0]}", "{x = 1; x[0] = 2}",
	"(struct)", "(struct 1)", "(struct S)", "(struct S 1)", "(struct S [1])", "(struct S [(field)])", "(struct S [(field a)])", "(struct S [(field a: nosuchtype)])", "(struct S [(field a: (nosuch))])", "(struct S [(field a: int64)]) (S b: 1)", "(struct S [(field a: int64)]) (S a: \"x\")", "(struct S [(field a: int64)]) (S a: (nosuch))", "(struct S [(field a: int64)]) (def s (S a: 1)) (hset s b: 3)",
	"(func)", "(func f)", "(func f [a])", "(func f [a:int64])", "(func f [a:nosuch] [r:int64] 1)", "(func f [a:int64] [r:nosuch] 1)", "(func f [a:int64] [r:int64] (def))", "(func f [a:int64] [r:int64] (nosuch)) (f 1)", "(func f [a:int64] [r:int64] a) (f \"x\")", "(func f [a:int64] [r:int64] a) (f)", "(func f [a:int64] [r:int64] a) (f b:1)", "(method)", "(method [p] f [] [])", "(interface)", "(interface 1)", "(interface I 3)", "(var)", "(var x)", "(var x nosuchtype)", "(var 3 int64)", "(var x (nosuch))",
	"(return (nosuch))", "(defn f [x] (return (h0 x)) 3) (f 1) ;; (f 2)", "(return (def))", "(let [a 1] (return (nosuch)))", "(defn f [] (for [1 true 2] (let [a 1] (return (nosuch))))) (f)",
	"(aget [1] 5)", "(aget)", "(hget (hash) a:)", "(first [])", "(+ 1 \"a\")", "(+)", "(hash 1)", "(concat 1 2)", "(slice [1 2] 3 4)", "(str2sym)", "(read \"(\")", "(read \")\")", "(read 3)", "(read \"\")", "(h0 (read \"(\"))", "(sym2str 3)", "(hpair (hash) 0)", "(json 3)", "(unjson 3)", "(unjson (raw \"{\"))", "(unmsgpack (raw \"\"))",
	"(range)", "(range k)", "(range k v)", "(range k v 3 (h0))", "(range k v (nosuch) (h0))", "(range k v (hash a:1) (nosuch k))", "(range k v (hash a:1) (let [z 1] (nosuch k)))",
	"nosuch", "nosuch.a", "a.b = 3", "(nosuch 1)", "(h0.b 1)", "(h0 nosuch)", "(1 2 3)", "(\"a\" 1)", "((h0) 1)", "([] 1 2)", "([1] nosuch)", "(nil 1)", "(() 1)", "_ls", "(-> nosuch a:)", "(-> (hash) a:)",
}

// testFiles is the file system of the texts that name files.
var testFiles = map[string]string{
	"good": "(def fa 1) (+ fa 2)", "bad": "(def fb 1) (", "bad2": "(def fb 1) )", "bad3": "(def fb \"abc", "bad4": "(def fb 1) (def)", "fail": "(def fc 3) (let [x 1] (nosuch))",
	"nest": "(def fd 1) (source \"fail\")", "incl": "(let [y 1] (include \"fail\"))", "empty": "", "faildef": "(def n (nosuch))", "lines": "a\nb",
}

func checkC05(c *Ctx) {
	c.Explain = "Every hole may fail (return an error or panic) at any of its evaluations; after the failing path the four VM stacks are at rest, the error is reported (never a successful result), the definitions that ran before the failure are there with the reference's values and a probe evaluates normally. Families: all core forms and all nestings of two; programs mixing definitions and failures at every depth (loops, lets, map/apply callbacks, lazy forcing, eval, macro expansion); ill-formed texts (reader, generator and macro errors) through EvalString, on their own, after earlier definitions, and inside function bodies." + schemaExplain
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, true, 8)
	for _, t := range failPrograms {
		s.Check(c, "fail-program", fill(t), aFault)
	}
	for _, t := range lazyPrograms {
		s.Check(c, "lazy", fill(t), aFault)
	}
	for _, t := range coreForms {
		s.Check(c, "form", fill(t), aFault)
	}
	for _, t := range loopSchemas(1) {
		s.Check(c, "loop-exit", fill(t), aFault)
	}
	for _, t := range nest2(coreForms, coreForms) {
		s.Check(c, "nested-form", fill(t), aFault)
	}
	w := NewSchemas(c, f, true, 8)
	w.Weak, w.Text = true, true
	for _, t := range surfaceForms {
		w.Check(c, "surface-form", t, aFault|aPanic)
	}
	g := NewSchemas(c, f, false, 8)
	g.Weak, g.Text = true, true
	f.E.Files = testFiles
	for _, t := range badTexts {
		g.Check(c, "bad-text", t, aFault|aPanic)
		g.Check(c, "bad-text", "(def keep (h5)) ;; "+t+" ;; (h6 keep)", aFault|aPanic)
		if !strings.Contains(t, "`") && strings.Count(t, "\"")%2 == 0 && balanced(t) {
			g.Check(c, "bad-text", "(begin (def keep 3) (let [zz 1] "+t+" ))", aFault|aPanic)
			g.Check(c, "bad-text", "(defn ff [qq] (for [(def k 0) (< k 1) (set k 1)] (newScope "+t+" )) qq) ;; (ff 3)", aFault|aPanic)
		}
	}
	d := NewSchemas(c, f, false, 8)
	d.Text = true
	for _, o := range redefOld {
		use, want, _ := strings.Cut(o[1], " => ")
		for _, t := range redefFail {
			d.Check(c, "redefinition", o[0]+" => * ;; "+t+" => ! ;; "+use+" => "+want, aSem|aFault|aPanic)
		}
	}
	c.Floor("redefinition", 700)
	c.Floor("lazy", 7)
	c.Floor("fail-program", 38)
	c.Floor("form", 50)
	c.Floor("nested-form", 3000)
	c.Floor("loop-exit", 80)
	c.Floor("surface-form", 150)
	c.Floor("bad-text", 1000)
	c.Stats["schemata"] = s.Runs + w.Runs + g.Runs
	c.Stats["paths"] = s.Paths + w.Paths + g.Paths
}

// redefinitions: what defines a name, uses of it, and what it delivers.
var redefOld = [][2]string{
	{"(def n 7)", "n => 7"},
	{"(def n (fn [x] (+ x 1)))", "(n 5) => 6"},
	{"(defn n [x] (+ x 1))", "(n 5) => 6"},
	{"(defn n [x] (cond (== x 0) 9 (n (- x 1))))", "(n 2) => 9"},
	{"(defmac n [x] ^(+ ~x 1))", "(n 5) => 6"},
	{"(def n (let [c 4] (fn [x] (set c (+ c x)) c)))", "(n 5) => 9"},
	{"(def n [1 2 3])", "(aget n 1) => 2"},
	{"(def n (hash a:5))", "(hget n a:) => 5"},
	{"(def n (list 1 2))", "(second n) => 2"},
	{"(def n \"s\")", "n => \"s\""},
	{"(struct n [(field f: int64)])", "(:f (n f:5)) => *"},
	{"(func n [x:int64] [r:int64] (return (+ x 1)))", "(n x:5) => *"},
	{"(var n int64)", "n => *"},
	{"(def n (package \"n\" { Q := 3 }))", "(+ n.Q 0) => 3"},
}

// redefFail are evaluations that fail while (re)defining or changing n.
var redefFail = []string{
	"(def n (nosuch))", "(def n (def))", "(def n (let [a] 1))", "(def n", "(def n 3 4)", "(def n (begin (nosuch) 3))", "(def n (fn [x] (def)))", "(def n [1 (nosuch)])", "(def n (hash a: (nosuch)))",
	"(set n (nosuch))", "(set n (def))", "(mdef n m (list 1))", "(mdef n m (nosuch))", "(mdef n m (def))",
	"(defn n [x] (def))", "(defn n [x] (let [y] 1))", "(defn n [1] x)", "(defn n)", "(defn n [x]", "(defn n [x] (cond))", "(defn n [x] (for [1] x))", "(defn n [x] (break q))",
	"(defmac n [x] (def))", "(defmac n [x] ^(a ~(def)))", "(defmac n [1] 2)", "(defmac n)", "(defmac n [x] (let [y] 1))",
	"(struct n [(field f: nosuchtype)])", "(struct n [(field f: (nosuch))])", "(struct n [1])", "(struct n 3)",
	"(func n [x:nosuch] [r:int64] 1)", "(func n [x:int64] [r:int64] (def))", "(func n [x:int64] [r:nosuch] x)", "(func n 1)",
	"(var n nosuchtype)", "(var n (nosuch))", "(def n (package \"n\" { Q = (nosuch) }))", "(def n (package \"n\" (def)))", "(interface n 3)",
	"(let [n 3] (nosuch))", "(let [n 3] (set n 4) (def))", "(newScope (def n 3) (nosuch))", "((fn [n] (set n 4) (nosuch)) 3)", "(for [(def n 0) (nosuch) 1] 2)", "(for [(let [n 0] (set n 3)) (nosuch) 1] 2)",
	"(defn other [n] (set n 5) (nosuch)) (other 1)", "{n = (nosuch)}", "{n = (def)}", "{n = 3 +}", "(range n v [1 2] (nosuch))", "(range k n [1 2] (nosuch))",
	"(eval (quote (def n (nosuch))))", "(eval (quote (defn n [x] (def))))", "(eval (quote (defmac n [x] (def))))", "(source \"faildef\")", "(include \"faildef\")", "(begin (defmac other [x] (def n 3)) (nosuch))", "(macexpand (nosuch2 (def))) (nosuch)",
}

// lazyPrograms force a lazy argument whose evaluation may fail, and force it again later.
var lazyPrograms = []string{
	"(def keep nil) (defn f [#a] (set keep (fn [] (force #a))) 1) (f _) ;; (keep) ;; (keep) ;; (keep)",
	"(def keep nil) (defn f [#a] (set keep (fn [] (force #a))) 1) (f (#H _)) ;; (keep) ;; (keep)",
	"(def keep nil) (defn f [#a] (set keep (fn [] (list (force #a) (force #a)))) 1) (let [q _] (f (let [r _] (#H q r)))) ;; (keep) ;; (keep)",
	"(def keep nil) (defn f [#a] (set keep (fn [x] (force #a))) (force #a)) (f _) ;; (keep 1) ;; (map keep [1])",
	"(def keep nil) (defn f [#a & r] (set keep (fn [] (force #a))) r) (f _ _ _) ;; (keep) ;; (keep)",
	"(def keep nil) (defn g [#b] (set keep (fn [] (force #b)))) (defn f [#a] (g (force #a))) (f _) ;; (keep) ;; (keep)",
	"(def n 0) (def keep nil) (defn f [#a] (set keep (fn [] (force #a)))) (f (begin (set n (+ n 1)) (cond (== n 1) (nosuch) (#H n)))) ;; (keep) ;; (keep) ;; (keep) ;; n",
}

// balanced reports whether the brackets of t match.
func balanced(t string) bool {
	var st []rune
	for _, r := range t {
		switch r {
		case '(':
			st = append(st, ')')
		case '[':
			st = append(st, ']')
		case '{':
			st = append(st, '}')
		case ')', ']', '}':
			if len(st) == 0 || st[len(st)-1] != r {
				return false
			}
			st = st[:len(st)-1]
		}
	}
	return len(st) == 0
}
