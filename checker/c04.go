package main

import "strings"

func init() { checks["C04"] = checkC04; sharded["C04"] = true }

// surfaceForms are well-formed declarations and other forms outside the reference evaluator.
var surfaceForms = []string{
	`(struct Dog [(field Name: string e:0)(field Number: int64)])`,
	`(struct Dog [(field Name: string)]) (Dog Name:"Rover")`,
	`(struct Dog [(field Name: string)(field Number: int64)]) (def d (Dog Name:"Rover" Number:3)) (+ (h0) (-> d Number:))`,
	`(struct Dog [(field Name: string)]) (def d (Dog Name:"Rover")) { d.Name = "x" } d.Name`,
	`(struct Cat [])`,
	`(struct A [(field N: int64)]) (struct B [(field D: (* A))(field L: ([] A))])`,
	`(func f [a:int64 b:string] [r:int64] (h0) (h1))`,
	`(func f [a:int64] [r:int64] (h0) a) (f (h1))`,
	`(func f [] [] (h0)) (f)`,
	`(begin (func f [a:int64] [r:int64] (h0) a) (f (h1)) (f (h2)))`,
	`(struct Car [(field Id: int64)]) (method [p: (* Car)] Bark [a:int64] [r:string] "x")`,
	`(func f [a:int64] [r:int64]) (f 1)`,
	`(func f [] []) (f)`,
	`(func f [] [a:int64 b:int64]) (f)`,
	`(func f [a:int64 b:string] [r:int64] (h0) 1) (f b:"x" a:3)`,
	`(func f [#a:int64] [r:int64] (force #a)) (f (h0))`,
	`(+ 1 (begin (source []) 2))`,
	`(let [a (h0)] (source []))`,
	`(source (list))`,
	`(h0 1 (source []))`,
	`(struct Q [(field A: int64)]) (def q (& (Q A:1))) (-> q A:)`,
	`(begin (struct Q [(field A: int64)]) (struct R [(field A: int64)]) (h0))`,
	`(defn mk [] (struct Z [(field A: int64)]) (h0)) (mk)`,
	`(defn mk [] (var z int64) (h0)) (mk) (mk)`,
	`(defn mk [] (func z [a:int64] [r:int64] a) (z 3)) (mk)`,
	`(interface Foo [(func f [a:int64] [r:string])])`,
	`(interface Foo [])`,
	`(var x int64)`,
	`(var x string) (h0)`,
	`(begin (var x int64) (h0))`,
	`(let [a 1] (var y int64) (h0))`,
	`(for [(h0) (p0) (h1)] (var y int64))`,
	`(package "hello" { World := "earth"; (defn Myfun [x] (concat World x)) })`,
	`(def hi (package "hello" { World := "earth"; (defn Myfun [x] (concat World x)) })) (hi.Myfun "yes")`,
	`(package "p" (h0) (h1) (h2))`,
	`(package "p")`,
	`(begin (package "p" (def A (h0)) (h1)) (h2))`,
	`(let [a (h0)] (package "p" (def A a) (h1)))`,
	`(package "p" (def Inner (package "q" (def B (h0)))))`,
	`(for [(h0) (p0) (h1)] (package "p" (def A (h2))))`,
	`(package "p" (let [a (h0)] (def B a)) (for [(h1) (p0) (h2)] (h3)))`,
	`(package "p" (cond (p0) (h0) (h1)) (and (p1) (h2)))`,
	`(defmac m [x] ^(h0 ~x))`,
	`(defmac m [x] ^(h0 ~x)) (m (h1))`,
	`(defmac m [x & r] ^(begin ~x ~@r)) (m (h1) (h2) (h3))`,
	`(defmac m [x] ^(let [q ~x] (h0 q))) (let [z (h1)] (m z))`,
	`(defmac m [x] ^(for [(h0) (p0) (h1)] ~x)) (m (h2)) (m (break)) (m (continue))`,
	`(macexpand (when (p0) (h0)))`,
	`(defmac m [x] ^(h0 ~x)) (macexpand (m (h1)))`,
	`(range k v (hash a:1 b:2) (h0 k v))`,
	`(range k v (hash a:1 b:2) (cond (p0) (break) (h0 k v)))`,
	`(range k v (hash a:1 b:2) (h1) (cond (p0) (continue) (h0 k v)))`,
	`(range k v (hash) (h0 k v))`,
	`{ a = (h0) }`,
	`{ a = (h0); b = a + 1; (h1) }`,
	`{ a := 3; a += 2; a++; a }`,
	`{ (h0) + (h1) * 2 }`,
	`{ not (p0) and (p1) }`,
	`{ for i = 0; i < 2; i++ { (h0) } }`,
	`{ for (p0) { (h0) break } }`,
	`{ for (p0) { (h0) } }`,
	`{ if (p0) { (h0) } else { (h1) } }`,
	`{ if (p0) { (h0) } }`,
	`{ x = { if (p0) { (h0) } else { (h1) } } }`,
	`{}`,
	`{ a, b = (list (h0) (h1)) }`,
	`{ a = [ (h0) (h1) ]; a[0] = (h2); a[1] }`,
	`{ m = (hash a:1); m.b = (h0); m.b }`,
	`(mdef a b c (list (h0) (h1) (h2)))`,
	`(mdef a b (list (h0) (h1) (h2)))`,
	`(def a 1) (set a (h0)) a`,
	`(set b (h0))`,
	`(quote (a b))`,
	`%(a b)`,
	`^(a ~(h0) ~@(list (h1) (h2)))`,
	`^[a ~(h0) ~@(list (h1) (h2))]`,
	`^{a: ~(h0)}`,
	`^a`,
	`^(a (b ~(h0)) [c ~@(list (h1))])`,
	`(eval (quote (h0)))`,
	`(eval (quote (let [a (h0)] (h1 a))))`,
	`(let [x (h2)] (eval (quote (h0))))`,
	`(eval (quote (begin)))`,
	`(defn f [#a] (force #a)) (f (h0))`,
	`(defn f [#a] 1) (f (h0))`,
	`(defn f [#a] (substitute #a)) (f (h0))`,
	`(defn f [#a & r] (force #a)) (f (h0) (h1) (h2))`,
	`(return (h0))`,
	`(defn f [] (return (h0))) (f)`,
	`(defn f [] (let [a (h1)] (return (h0)))) (f) (h2)`,
	`(return (h0) (h1))`,
	`(return)`,
	`(begin (return) (h0))`,
	`(defn f [] (return)) (h0) (f)`,
	`(begin)`,
	`(begin) (h0)`,
	`(newScope)`,
	`(newScope) (h0)`,
	`(newScope /*c*/ (h0))`,
	`(newScope (h0) /*c*/)`,
	`(begin (h0) /*c*/)`,
	`(begin /*c*/)`,
	`(begin /*c*/ (h0))`,
	`(let [a (h0)] /*c*/ (h1))`,
	`(let [a (h0)] (h1) /*c*/)`,
	`(let [a (h0)] (begin) (h1))`,
	`(let [a (h0)] (begin))`,
	`(for [(h0) (p0) (h1)] (begin))`,
	`(for [(h0) (p0) (h1)] /*c*/)`,
	`(for [(begin) (p0) (begin)] (h0))`,
	`(cond (p0) (begin) (h0))`,
	`(cond (p0) (h0) (begin))`,
	`(and (p0) (begin))`,
	`(and (begin) (h0))`,
	`(or (begin) (h0))`,
	`(defn f [] (begin)) (f)`,
	`(defn f [] /*c*/) (f)`,
	`((fn [] (begin) (h0)))`,
	`[(begin) (h0)]`,
	`/*c*/`,
	`// c`,
	`(h0) // c`,
	`(h0) /*c*/`,
	`/*c*/ (h0)`,
	`(h0) (h1) (h2)`,
	`1`, `"s"`, `a:`, `[1 2]`, `()`, `nil`,
	`(hash a:(h0) b:(h1))`,
	`{a:(h0) b:(h1)}`,
	`(def m (hash a:(h0))) m.a`,
	`(def m (hash a:(h0))) (m.a = (h1))`,
	`(def a [(h0) (h1)]) (:0 a)`,
	`(def a [1 2 3]) (aset a 0 (h0)) (aget a 0)`,
	`(def a 1) (++ a) (-- a) (+= a 2) (-= a 1)`,
	`(assert (== 1 1))`,
	`(assert (== 1 1)) (h0)`,
	`(begin (assert (== 1 1)) (assert (== 2 2)))`,
	`(defn f [x] (assert (== 1 1)) x) (f (h0))`,
	`(expectError "Error calling 'aget': wrong number of arguments" (aget))`,
	`(let [a (h0)] (expectError "Error calling 'aget': wrong number of arguments" (aget)) (h1))`,
	`(comma (h0))`,
	`(sym2str (quote a))`,
	`(gensym)`,
	`(str2sym "abc")`,
	`(type? (h0))`,
	`(defined? a)`,
	`(time (h0))`,
	`(timeit (h0))`,
	`(defmap castle) (castle size:1)`,
	`(label: 3)`,
	`(def p (quote a)) (* p)`,
	`(def a 3) (def pa (& a)) (* pa)`,
	`(derefSet (& (h0)) 3)`,
	`(infix [])`,
	`(macexpand (h0))`,
	`(_ls)`,
	`(stop)`,
	`(def x)`,
	`(setpkg "x")`,
	`(foreach)`,
	`(map (fn [x] (h0 x)) (hash a:1))`,
	`(flatmap (fn [x] (h0 x)) [1 2])`,
	`(apply h0 (list 1 2))`,
	`(sort (fn [a b] (< a b)) [3 1 2])`,
	`(hpair (hash a:1) 0)`,
	`(keys (hash a:1 b:2))`,
	`(append [1] (h0))`,
	`(concat [1] [2] [(h0)])`,
	`(first [1]) (rest [1 2]) (second [1 2]) (cons 1 (list 2))`,
	`(len [1 2])`,
	`(let [] (h0))`,
	`(let [a (h0)] (defn g [] a) (g))`,
	`(defn g [n] (cond (p0) (g (h0 n)) (h1))) (g 1)`,
	`(defn g [n] (let [a (h0)] (cond (p0) (g (h1 n)) (h2)))) (g 1)`,
	`(defn g [n] (for [(h0) (p0) (h1)] (let [a 1] (break))) (h2)) (g 1)`,
	`(defn g [n] (for [(h0) (p0) (h1)] (g 1)) (h2)) (defn g2 [] (h3))`,
}

func checkC04(c *Ctx) {
	c.Explain = "After every successful path of every schema the four VM stacks must be back at the depth they had at rest, empty input must evaluate to nil and a probe must evaluate normally; the surface forms (struct, func, package, macros, infix, source, eval, lazy ...) go through the text entry point EvalString; rule 'growth' evaluates a text four times and demands that the abstract heap reachable from the interpreter stops growing (per struct field, symbol table excluded)." + schemaExplain
	c.Assume = schemaAssume
	c.Floor("surface-form", 150)
	c.Floor("growth", 100)
	c.Floor("form", 50)
	c.Floor("nested-form", 3000)
	c.Floor("loop-exit", 80)
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 10)
	s.Weak, s.Text = true, true
	for _, t := range surfaceForms {
		s.Check(c, "surface-form", t, aRest|aPanic)
	}
	g := NewSchemas(c, f, false, 60)
	g.Weak, g.Text = true, true
	for _, t := range surfaceForms {
		if !strings.Contains(t, "(p") && !strings.Contains(t, "stop") {
			g.CheckGrowth(c, "growth", t)
		}
	}
	for _, t := range []string{"", "(h0", "nosuch", "(h0))", "(+ 1 \"a\")", "(defn g [n] (nosuch n)) (g 1)", "{ 1 + }", "(let [a 1] (nosuch))", "(for [(def i 0) (< i 3) (set i (+ i 1))] (h0 i))", "(map (fn [x] (nosuch)) [1 2])", "`raw`", "(def v [1 2 3])", "(hset (hash a:1) b: 2)"} {
		g.CheckGrowth(c, "growth", t)
	}
	s.Weak, s.Text = false, false
	for _, t := range coreForms {
		s.Check(c, "form", fill(t), aRest)
	}
	for _, t := range nest2(coreForms, coreForms) {
		s.Check(c, "nested-form", fill(t), aRest)
	}
	for _, t := range loopSchemas(1) {
		s.Check(c, "loop-exit", fill(t), aRest)
	}
	c.Stats["schemata"] = s.Runs + g.Runs
	c.Stats["paths"] = s.Paths + g.Paths
}
