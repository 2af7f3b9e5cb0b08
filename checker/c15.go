package main

import (
	"fmt"
	"strings"
)

func init() { checks["C15"] = checkC15; sharded["C15"] = true }

// leaves of a template: literal and substituted.
var tmplLeaves = []string{"a", "7", "\"s\"", "()", "~x", "~@l", "~(#H x)", "~@(list _ _)", "~@()", "~@(cond P (list x) ())", "(quote ~x)", "[]", "~l", "~@m", "(b ~x)", "[~x]", "(~@l)", "[~@l]", "~k", "~[x]", "nil", "(quote a)", "~(let [x _] (#H x))"}

var tmplShapes = []string{
	"(E)", "[E]", "(E F)", "[E F]", "(a E F)", "[E 1 F]", "(E F E)", "[E F E]", "((E) F)", "([E] F)", "[(E) F]", "[[E] F]", "(a (b (c E)) F)", "(a [b (c [E])] F)", "[[E F] (E F)]", "((E F) [E F])", "(E (F) E)", "[E [F] E]",
}

// macros with forms to use them in, and the same written by hand. A, B, D: arguments.
var macroPairs = [][3]string{
	{"(defmac m [a b] ^(list ~a ~b))", "(m A B)", "(list A B)"},
	{"(defmac m [a b] ^(list ~b ~a ~b))", "(m A B)", "(list B A B)"},
	{"(defmac m [a b] 5)", "(m A B)", "5"},
	{"(defmac m [a b] a)", "(m A B)", "A"},
	{"(defmac m [a b] nil)", "(m A B)", "nil"},
	{"(defmac m [a & r] ^(list ~a ~@r))", "(m A B B)", "(list A B B)"},
	{"(defmac m [a & r] ^(list ~a ~@r))", "(m A)", "(list A)"},
	{"(defmac m [& r] ^(begin ~@r))", "(m A B A)", "(begin A B A)"},
	{"(defmac m [& r] ^[~@r])", "(m A B)", "[A B]"},
	{"(defmac m [a b] ^[~a [~b]])", "(m A B)", "[A [B]]"},
	{"(defmac m [c & r] ^(cond ~c (begin ~@r) nil))", "(m P A B)", "(cond P (begin A B) nil)"},
	{"(defmac m [c a b] ^(cond (not ~c) ~a ~b))", "(m P A B)", "(cond (not P) A B)"},
	{"(defmac m [a b] ^(let [q ~a] ~b q))", "(m A B)", "(let [q A] B q)"},
	{"(defmac m [v a b] ^(let [~v ~a] ~b ~v))", "(m x A (#H x))", "(let [x A] (#H x) x)"},
	{"(defmac m [v a] ^(def ~v ~a))", "(begin (m x A) x)", "(begin (def x A) x)"},
	{"(defmac m [v a] ^(set ~v ~a))", "(begin (m x A) x)", "(begin (set x A) x)"},
	{"(defmac m [a] ^(def q ~a))", "(begin (m A) q)", "(begin (def q A) q)"},
	{"(defmac m [a] ^(begin (def q ~a) (#H q)))", "(list (newScope (m A)) 1)", "(list (newScope (begin (def q A) (#H q))) 1)"},
	{"(defmac m [a b] ^(fn [y] ~a ~b))", "((m A (#H y)) B)", "((fn [y] A (#H y)) B)"},
	{"(defmac m [n a b] ^(defn ~n [y] ~a ~b))", "(begin (m g A (#H y)) (g B))", "(begin (defn g [y] A (#H y)) (g B))"},
	{"(defmac m [a] (list (quote list) a a))", "(m A)", "(list A A)"},
	{"(defmac m [a] ^(quote ~a))", "(m (A b))", "(quote (A b))"},
	{"(defmac m [f & r] ^(~f ~@r))", "(m #H A B)", "(#H A B)"},
	{"(defmac m [f & r] ^(~@f ~@r))", "(m (list A) B)", "(list A B)"},
	{"(defmac m [a] ^(m2 ~a)) (defmac m2 [a] ^(list ~a))", "(m A)", "(list A)"},
	{"(defmac m2 [a] ^(list ~a)) (defmac m [a] ^(let [x ~a] (m2 x) (m2 (#H x))))", "(m A)", "(let [x A] (list x) (list (#H x)))"},
	{"(defmac m [a] ^(cond P (m2 ~a) B)) (defmac m2 [a] ^(m3 ~a ~a)) (defmac m3 [a b] ^(#H ~b ~a))", "(m A)", "(cond P (#H A A) B)"},
	{"(defmac m [a b] ^(and ~a ~b))", "(m P A)", "(and P A)"},
	{"(defmac m [a b] ^(or ~b ~a))", "(m A P)", "(or P A)"},
	{"(defmac m [a] ^(for [A P B] ~a))", "(m (#H))", "(for [A P B] (#H))"},
	{"(defmac m [a b] (begin (def a2 a) (def x 99) ^(list ~a2 ~b)))", "(m A B)", "(list A B)"},
	{"(defmac m [a b] (let [x 99 y 98] ^(list ~a ~b)))", "(m A B)", "(list A B)"},
	{"(defmac m [a b] ((fn [x y] ^(list ~x ~y)) a b))", "(m A B)", "(list A B)"},
	{"(defmac m [a b] (cond (symbol? a) ^(list ~b) ^(list ~a ~b)))", "(m x B)", "(list B)"},
	{"(defmac m [a b] (cond (symbol? a) ^(list ~b) ^(list ~a ~b)))", "(m (#H) B)", "(list (#H) B)"},
	{"(defmac m [a b] ^(begin ~(list (quote #H) a) ~b))", "(m A B)", "(begin (#H A) B)"},
	{"(defmac m [& r] ^(list ~@(map (fn [e] ^(#H ~e)) r)))", "(m A B)", "(list (#H A) (#H B))"},
	{"(defmac m [& r] ^(list ~(len r) ~@r))", "(m A B)", "(list 2 A B)"},
	{"(defmac m [a] ^(newScope (def x ~a) (#H x)))", "(m A)", "(newScope (def x A) (#H x))"},
	{"(defmac m [a] ^(list (hget (hash k:~a) k:)))", "(m A)", "(list (hget (hash k:A) k:))"},
	{"(defmac m [a] ^(let [f (fn [y] (list ~a y))] (f B)))", "(m A)", "(let [f (fn [y] (list A y))] (f B))"},
	{"(defmac m [a] ^(begin {q = ~a} q))", "(begin (def q 1) (m A))", "(begin (def q 1) (begin {q = A} q))"},
	{"(defmac m [a] ^{~a + 3})", "(m A)", "{A + 3}"},
	{"(defmac m [a b] ^(+ ~a (* ~b 2)))", "(m A B)", "(+ A (* B 2))"},
	{"(defmac m [t] ^(assert ~t))", "(m P)", "(assert P)"},
	{"(defmac m [a] ^(nosuch ~a))", "(m A)", "(nosuch A)"},
	{"(defmac m [a] ^((fn [#z] (force #z)) ~a))", "(m A)", "((fn [#z] (force #z)) A)"},
	{"(defmac m [n a] ^(defmac ~n [e] (list (quote list) e ~a)))", "(begin (m w 5) (begin (w A)))", "(list A 5)"},
}

// contexts of a macro call; C the call. Labels and loops included.
var macroSites = []string{
	"C", "(list C)", "(list _ C _)", "(let [x _] C)", "(let [x _] C x)", "((fn [x] C) _)", "((fn [x] C x) _)", "(begin (defn g [x] C) (g _))", "(begin (defn g [x] C) (list (g _) (g _)))", "(begin (defn g [x y] (cond P C x)) (g _ _))",
	"(cond P C 1)", "(and P C)", "(or P C)", "[C]", "[_ C]", "(begin C C)", "(newScope C)", "(letseq [x _ z C] z)", "(for [_ P _] C)", "(for [(def x _) P _] (#H x) C)", "(map (fn [x] C) [1 2])", "(apply (fn [x] C) [_])", "(let [k (fn [] C)] (k))", "(begin (def z C) z)", "(begin (def z 0) (set z C) z)", "(hget (hash k:C) k:)", "(#H C)", "((fn [#z] (force #z)) C)", "((fn [#z] (list (force #z) (force #z))) C)", "(let [x 4] (let [x _] C) C)", "(eval (quote C))", "(begin (defn r [n] (cond P (r (#H n)) C)) (r _))", "(begin (defn r [n] (cond P (begin C (r (#H n))) n)) (r _))", "(+ 0 (begin C 1))",
}

// break and continue written by a macro, in the loop's body itself.
var macroLoops = [][2]string{
	{"(defmac brk [] ^(break))", "(break)"}, {"(defmac brk [] ^(continue))", "(continue)"}, {"(defmac brk [] ^(break lab:))", "(break lab:)"}, {"(defmac brk [] ^(continue lab:))", "(continue lab:)"},
	{"(defmac brk [] ^(cond P (break) (continue)))", "(cond P (break) (continue))"}, {"(defmac brk [] ^(begin _ (break)))", "(begin _ (break))"}, {"(defmac brk [] ^(let [q _] (break lab:)))", "(let [q _] (break lab:))"},
	{"(defmac brk [] ^(newScope (def q _) (continue lab:)))", "(newScope (def q _) (continue lab:))"}, {"(defmac brk [] ^(for [_ P _] (#H) (break)))", "(for [_ P _] (#H) (break))"}, {"(defmac brk [] ^(for [_ P _] (continue lab:)))", "(for [_ P _] (continue lab:))"},
}

var macroLoopSites = []string{
	"(for lab [_ P _] (#H) (brk) (#H))", "(for lab [_ P _] (cond P (brk) 1) (#H))", "(for lab [_ P _] (let [x _] (brk)) (#H))", "(for lab [_ P _] (for [_ P _] (brk) (#H)) (#H))", "(for lab [_ P _] (newScope (def x _) (brk)) (#H))", "(begin (defn g [x] (for lab [_ P _] (cond P (brk) x)) x) (g _))", "(for lab [_ P _] (and P (brk)) (#H))",
}

// templates of a hash: construction, and the hash it stands for.
var hashTemplates = [][2]string{
	{"(hash)", "(hash)"},
	{"(hash a:1 b:2 c:3)", "(hash a:1 b:2 c:3)"},
	{"(hash a:(quote ~x))", "(hash a:x)"},
	{"(hash b:(quote ~x) a:[1 (quote ~(#H x))])", "(hash b:x a:[1 (#H x)])"},
	{"(hash c:3 a:(quote (p ~x ~@l)) b:(quote ~l))", "(hash c:3 a:(list (quote p) x (first l) (second l)) b:l)"},
	{"(hash \"k\":(quote ~x) 5:6)", "(hash \"k\":x 5:6)"},
	{"(hash a:(hash b:(quote ~x)) c:(quote ~x))", "(hash a:(hash b:x) c:x)"},
	{"(begin (def t (hash a:1 b:(quote ~x) c:3)) (hdel t a:) t)", "(hash b:x c:3)"},
	{"(begin (def t (hash a:1 b:(quote ~x) c:3)) (hdel t c:) t)", "(hash a:1 b:x)"},
	{"(begin (def t (hash a:1 b:(quote ~x) c:3)) (hdel t b:) t)", "(hash a:1 c:3)"},
	{"(begin (def t (hash a:1 b:(quote ~x) c:3)) (hdel t b:) (hset t d: (quote ~x)) t)", "(hash a:1 c:3 d:x)"},
	{"(begin (def t (hash a:1 b:(quote ~x))) (hset t a: (quote ~x)) t)", "(hash a:x b:x)"},
	{"(begin (def t (hash a:1 b:(quote ~x))) (hdel t a:) (hset t a: (quote ~x)) t)", "(hash b:x a:x)"},
	{"(begin (def t (hash a:1)) (hdel t a:) t)", "(hash)"},
}

func checkC15(c *Ctx) {
	c.Explain = "Templates: every template shape with every pair of leaves (literals, unquoted variables, calls, computed and empty splices, nested lists, arrays and quotations), its substituted values being opaque values, lists, arrays, symbols and functions, evaluated at top level, inside calls, functions and loops, compared with substitution performed by the reference; hashes as templates, also after deletions and updates, against the hash built directly. Macros: every macro body form x calling context compared with the same context around the hand-written form (same values, host-call order, errors, stack depths), macros producing break and continue inside loops, definitions in the caller's scope, macros using macros; expansion (macexpand, failing or not) inside a computation compared with the computation without it." + schemaExplain
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 10)
	ck := func(rule, t string) { s.Check(c, rule, fill(t), aSem|aRest|aPanic) }
	pre := "(def x _) (def l (list x 2)) (def m ()) (def k (quote sym)) ;; "
	wide := c.Tier == "thorough"
	sites := []string{"T", "(list _ T _)", "(let [x _ l (list 5)] T)", "((fn [x l] T) _ (list x))", "(begin (defn g [x & l] T) (list (g _) (g _ 4 5)))", "(for [_ P _] (#H T))", "(map (fn [x] T) [1 2])", "(cond P T 1)", "(let [t (fn [] T)] (list (t) (t)))"}
	for i, sh := range tmplShapes {
		for j, e := range tmplLeaves {
			for k, g := range tmplLeaves {
				if !wide && (i+j+k)%3 != 0 && j != k {
					continue
				}
				if strings.Count(sh, "E")*strings.Count(e, "P")+strings.Count(g, "P") > 2 {
					continue
				}
				t := "^" + strings.Replace(strings.Replace(sh, "E", e, -1), "F", g, -1)
				if j == k || wide {
					ck("template", pre+strings.Replace(sites[(i+j)%len(sites)], "T", t, -1))
				}
				ck("template", pre+t)
			}
		}
	}
	for _, e := range tmplLeaves {
		if strings.HasPrefix(e, "~@") {
			continue
		}
		for _, st := range sites {
			ck("template", pre+strings.Replace(st, "T", "^"+e, -1))
		}
	}
	// what a substituted value may be
	for _, v := range []string{"_", "(list _ _)", "[_ _]", "(quote q)", "nil", "\"s\"", "true", "(fn [] 1)", "(list)", "(quote (unquote zz))", "(quote (a (unquote-splicing zz)))", "(list (list _) [_])", "1.5", "'c'", "(quote (syntaxQuote (unquote z)))"} {
		for _, t := range []string{"^~v", "^(~v)", "^[~v]", "^(a ~v b)", "^[[~v] (~v)]", "^(~@v)", "^[1 ~@v 2]", "^(a ~@v ~v)", "^((~@v) [~@v])"} {
			ck("value", "(def v "+v+") ;; "+t+" ;; (let [v 1] ^(~v)) ;; "+t)
		}
	}
	for _, t := range []string{
		"(def v 5) ;; ^(~@v) => ! ;; ^[~@v] => ! ;; ^(a (~@v)) => ! ;; ^(a ~v) ;; (list 1 2)",
		"(def v [1 2]) ;; ^(~@v) => ! ;; (list 3 ^(b ~@v)) => ! ;; (list 3 ^(b ~v))",
		"(def v (list 1 2)) ;; ^~@v => ! ;; (list 9 ^~@v) => ! ;; (list 9 ^(~@v)) ;; (begin ^~@v 3) => !",
		"^(~(nosuch)) => ! ;; ^(a ~nosuch) => ! ;; ^[1 ~@(nosuch)] => ! ;; ^(a) ;; (list 1 2)",
		"^(unquote a b) ;; ^(a unquote) ;; ^(unquote-splicing) ;; ^[unquote b]",
	} {
		ck("template-error", t)
	}
	tx := NewSchemas(c, f, false, 10)
	tx.Text = true
	// a macro's parameters are the forms written, whatever they are
	for _, t := range []string{
		"(def h (hash a:1)) => * ;; {h.a += 1} => 2 ;; (+ h.a 0) => 2 ;; {h.a -= 5} => * ;; (+ h.a 0) => -3 ;; {h.a++} => * ;; {h.a--} => * ;; {h.a++} => * ;; (+ h.a 0) => -2",
		"(defmac mset [p v] ^(set ~p ~v)) => * ;; (def h (hash a:1 b:(hash c:2))) => * ;; (mset h.a 5) => 5 ;; (mset h.b.c 6) => 6 ;; (mset h.d 7) => 7 ;; (list (+ h.a 0) (+ h.b.c 0) (+ h.d 0)) => (list 5 6 7) ;; (let [z (hash q:1)] (mset z.q 4) (+ z.q 0)) => 4 ;; ((fn [z] (mset z.q 8) (+ z.q 0)) (hash q:1)) => 8",
		"(defmac twice [e] ^(begin ~e ~e)) => * ;; (def h (hash a:1)) => * ;; (twice {h.a += 2}) => 5 ;; (twice (set h.a (+ h.a 1))) => 7 ;; (twice h.a) => 7",
		"(defmac idm [e] e) => * ;; (let [z (hash q:1)] (idm z.q)) => 1 ;; (def h (hash q:3)) => * ;; (idm h.q) => 3 ;; (+ (idm h.q) 1) => 4 ;; (idm (+ h.q 0)) => 3",
		"(defmac m [& r] ^(list ~@r)) => * ;; (let [z (hash q:1)] (m (+ z.q 0) 2)) => (list 1 2)",
		"(defmac inc [v] ^(set ~v (+ ~v 1))) => * ;; (def h (hash n:1)) => * ;; (def x 1) => * ;; (inc h.n) => 2 ;; (inc x) => 2 ;; (defn f [h] (inc h.n) (+ h.n 0)) => * ;; (f (hash n:7)) => 8 ;; (+ h.n 0) => 2",
	} {
		tx.Check(c, "macro-form", t, aSem|aRest|aPanic)
	}
	// every evaluation of a template makes new arrays
	for _, fm := range []struct{ t, get, want string }{
		{"^[1 2]", "V", "[1 2]"}, {"^[a \"s\"]", "V", "[(quote a) \"s\"]"}, {"^(x [1 2])", "(second V)", "[1 2]"}, {"^(x [1 2] y)", "(second V)", "[1 2]"}, {"^[[1 2] 3]", "(first V)", "[1 2]"}, {"^(x (y [1 2]))", "(second (second V))", "[1 2]"}, {"^[[[1]] 2]", "(first (first V))", "[1]"}, {"^[~(+ 0 1) 2]", "V", "[1 2]"}, {"^[1 ~@(list 2 3)]", "V", "[1 2 3]"}, {"^[~@(list 1 2)]", "V", "[1 2]"}, {"^(x [~(+ 0 1)])", "(second V)", "[1]"}, {"^[1.5 'c']", "V", "[1.5 'c']"}, {"[1 2]", "V", "[1 2]"}, {"(list [1 2])", "(first V)", "[1 2]"},
	} {
		get := strings.Replace(fm.get, "V", "v", 1)
		again := strings.Replace(fm.get, "V", "(f)", 1)
		s.Check(c, "template-fresh", "(defn f [] "+fm.t+") => * ;; (def v (f)) => * ;; (aset "+get+" 0 99) => * ;; "+again+" => "+fm.want+" ;; (let [v (f)] "+get+") => "+fm.want, aSem|aRest|aPanic)
		if fm.get == "V" && !strings.Contains(fm.t, "a") {
			s.Check(c, "template-fresh", "(defmac m [] (list (quote begin) "+fm.t+")) => * ;; (def v (m)) => * ;; (aset v 0 99) => * ;; (def a 1) (def w (m)) => * ;; (len w) => (len "+fm.want+")", aSem|aRest|aPanic)
			s.Check(c, "template-fresh", "(def r nil) (for [(def i 0) (< i 3) (set i (+ i 1))] (set r "+fm.t+") (cond (< i 2) (aset r 0 99) 0)) r => "+fm.want, aSem|aRest|aPanic)
		}
	}
	// hashes as templates
	hpre := "(def x _) (def l (list x 2)) ;; "
	for _, ht := range hashTemplates {
		for _, st := range []string{"T", "(list _ T)", "((fn [] T))"} {
			// the template is data here: each ^ and ~ form is spelled out
			q := "(eval (list (quote syntaxQuote) " + ht[0] + "))"
			n := "(eval (list (quote syntaxQuote) (list (quote list) " + ht[0] + " [" + ht[0] + "])))"
			// host numbers follow the text
			a, b := fillHash(hpre+strings.Replace(st, "T", q, 1)), fillHash(hpre+strings.Replace(st, "T", ht[1], 1))
			s.Same(c, "hash-template", a, b)
			if !strings.Contains(ht[0], "begin") && !strings.Contains(ht[0], "\"") {
				w := "(list (quote list) " + ht[1] + " [" + ht[1] + "])"
				s.Same(c, "hash-template", fillHash(hpre+strings.Replace(st, "T", n, 1)), fillHash(hpre+strings.Replace(st, "T", w, 1)))
			}
		}
	}
	// macros
	args := [][2]string{{"(h5)", "(h6)"}, {"x", "(h6 x)"}, {"(begin (h5) x)", "7"}, {"(let [x (h5)] (h6 x))", "[x 1]"}, {"(list x (h5))", "(cond (p5) x (h6))"}, {"((fn [x] (h5 x)) (h6))", "(set x (h7 x))"}}
	for i, mp := range macroPairs {
		for j, st := range macroSites {
			for k, ar := range args {
				if !wide && (i+j+k)%3 != 0 {
					continue
				}
				put := func(t string) string {
					// #H and P inside the pair and the site are fixed holes, so that both texts use the same ones
					t = fixedHoles(t, 8)
					return strings.Replace(strings.Replace(t, "A", ar[0], -1), "B", ar[1], -1)
				}
				defs := put(mp[0])
				site := fixedHoles(st, 0)
				a := "(def x (h4)) " + defs + " ;; " + strings.Replace(site, "C", put(mp[1]), -1) + " ;; (list x (h7))"
				b := "(def x (h4)) " + defs + " ;; " + strings.Replace(site, "C", put(mp[2]), -1) + " ;; (list x (h7))"
				s.Same(c, "macro", a, b)
			}
		}
	}
	for _, ml := range macroLoops {
		for _, st := range macroLoopSites {
			site := fixedHoles(st, 0)
			a := fixedHoles(ml[0], 8) + " ;; " + site + " ;; (list (h7))"
			b := strings.Replace(site, "(brk)", fixedHoles(ml[1], 8), -1) + " ;; (list (h7))"
			s.Same(c, "macro-loop", "1 ;; "+a, "1 ;; nil ;; "+b)
		}
	}
	// expanding leaves the expander's surroundings alone
	for i, mp := range macroPairs {
		if strings.Contains(mp[0], "#H") && strings.Contains(mp[0], "~(list") {
			continue
		}
		for j, st := range []string{"(list (h0) C (h1))", "(let [x (h0)] C (h1 x))", "(begin (defn g [x] C (h1 x)) (g (h0)))", "(for [(def x (h0)) (p0) (h1)] C (h2 x))", "((fn [x] (list x C x)) (h0))", "(cond (p0) (begin C x) 3)", "(let [x (h0)] (let [y (h1)] C (list x y)))"} {
			if !wide && (i+j)%2 != 0 {
				continue
			}
			put := func(t string) string {
				return strings.Replace(strings.Replace(fixedHoles(t, 8), "A", "x", -1), "B", "(h6)", -1)
			}
			call := put(mp[1])
			if strings.HasPrefix(call, "(begin") {
				continue
			}
			pre := "(def x (h4)) " + put(mp[0]) + " ;; "
			s.Same(c, "expand", pre+strings.Replace(st, "C", "(begin (macexpand "+call+") 5)", -1)+" ;; (list x (h7))", pre+strings.Replace(st, "C", "5", -1)+" ;; (list x (h7))")
		}
	}
	for _, mp := range [][2]string{
		{"(defmac m [a b] ^(list ~a ~b))", "(macexpand (m x (y 1))) => (quote (quote list x (y 1)))"},
		{"(defmac m [a & r] ^(foo [~a ~@r] (~@r)))", "(macexpand (m x y z)) => (quote (quote foo [x y z] (y z)))"},
		{"(defmac m [a] ^(m2 ~a)) (defmac m2 [a] ^(list ~a))", "(macexpand (m (y x))) => (quote (quote m2 (y x)))"},
	} {
		s.Check(c, "expand", mp[0]+" => * ;; "+mp[1], aSem|aRest|aPanic)
	}
	w := NewSchemas(c, f, true, 8)
	w.Weak = true
	for _, t := range []string{
		"(defmac m [a] (nosuch a)) ;; (m 1) ;; (list 1 2) ;; (macexpand (m 1)) ;; (let [x _] (m x)) ;; (for [_ P _] (m 1))",
		"(defmac m [a] (let [q 1] (newScope (def r 2) (nosuch a)))) ;; (list _ (m 1)) ;; (defn g [x] (m x)) ;; (g _)",
		"(defmac m [a] ^(list ~(first a))) ;; (m 1) ;; (list _ (m 2)) ;; (m (list 3))",
		"(defmac m [a] (for [(def i 0) (< i 1) (def i 1)] (nosuch))) ;; (for [_ P _] (m 1)) ;; (break)",
		"(defmac m [a b] ^(list ~a)) ;; (m 1) ;; (let [x _] (m x)) ;; (m 1 2 3) ;; (m 1 2)",
	} {
		w.Check(c, "expand-fails", fill(t), aRest|aFault|aPanic)
	}
	c.Floor("template", 1500)
	c.Floor("value", 100)
	c.Floor("template-error", 3)
	c.Floor("hash-template", 40)
	c.Floor("macro", 1500)
	c.Floor("macro-loop", 40)
	c.Floor("expand", 100)
	c.Floor("expand-fails", 3)
	c.Stats["schemata"] = s.Runs + w.Runs
	c.Stats["paths"] = s.Paths + w.Paths
}

// fixedHoles numbers _ , #H and P from n by kind of place, the same way for both texts of a pair: h<n>, p<n>.
func fixedHoles(t string, n int) string {
	var sb strings.Builder
	for i := 0; i < len(t); i++ {
		switch {
		case isSlot(t, i) && t[i] == '_', t[i] == '#' && i+1 < len(t) && t[i+1] == 'H':
			fmt.Fprint(&sb, "H")
			if t[i] == '#' {
				i++
				sb.WriteString("#")
			}
		case isSlot(t, i):
			sb.WriteString("?")
		default:
			sb.WriteByte(t[i])
			continue
		}
		fmt.Fprintf(&sb, "%d;", n)
	}
	r := sb.String()
	// every hole of one kind at one level is the same function
	r = strings.NewReplacer(fmt.Sprintf("H#%d;", n), fmt.Sprintf("h%d", n), fmt.Sprintf("H%d;", n), fmt.Sprintf("(h%d)", n), fmt.Sprintf("?%d;", n), fmt.Sprintf("(p%d)", n)).Replace(r)
	return r
}

func fillHash(t string) string {
	return strings.Replace(strings.Replace(t, "#H", "h3", -1), "_", "(h1)", -1)
}
