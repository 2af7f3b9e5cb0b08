package main

import "strings"

func init() { checks["C16"] = checkC16; sharded["C16"] = true }

// bodies of a function of one lazy parameter.
var lazyBodies = []string{
	"7", "(#H)", "(force #a)", "(list (force #a) (force #a))", "(begin (#H) (force #a))", "(begin (force #a) (#H))", "(cond P (force #a) 3)", "(and P (force #a))",
	"(let [x _] (list (force #a) x))", "(begin (def x _) (list (force #a) x))", "((fn [x] (list (force #a) x)) _)", "((fn [] (force #a)))", "(let [k (fn [] (force #a))] (list (k) (k)))",
	"(list (substitute #a) (force #a))", "(begin (force #a) (substitute #a))", "(substitute #a)", "(list (force #a) (substitute #a) (force #a))",
	"(begin (defn g [#b] (list (force #b) (force #b))) (g (force #a)))", "(begin (defn g [#b] 3) (g (force #a)))", "(begin (defn g [b] (list b b)) (g (force #a)))", "(begin (defn g [#b] (list (substitute #b) (force #b) (force #b))) (let [x _] (g (#H x (force #a)))))",
	"(map (fn [q] (force #a)) [1 2])", "(let [x 5] (newScope (def x 6) (force #a)))", "(for [_ P _] (force #a))", "(#H (force #a) (#H) (force #a))",
}

// argument expressions; x is a variable of the caller.
var lazyArgs = []string{
	"_", "x", "(#H x)", "(begin (set x (#H x)) x)", "(let [x _] (#H x))", "((fn [] (#H x)))", "5", "[_ x]", "(list _ x)", "(quote q)", "(cond P _ x)", "(let [y x] (set y (#H y)) (list x y))", "(begin (#H x) nil)", "(cond P nil (#H))", "nil", "\"s\"", "true",
}

// ways to call f; A is the argument expression.
var lazyRoutes = []string{
	"(f A)", "(let [g f] (g A))", "(begin (def g f) (g A))", "((fn [g] (g A)) f)", "((fn [g] (list (g A) (#H))) f)", "(begin (defn via [g x] (g A)) (via f _))", "((cond P f f2) A)", "((first (list f f2)) A)", "((hget (hash k:f) k:) A)", "((begin (#H) f) A)", "((let [q 1] f) A)", "(((fn [] f)) A)", "((first [f f2]) A)",
	"(apply f [A])", "(apply f (list A))", "(map f [A 3])", "(map f (list A))", "(cond P (f A) (f2 A))", "(list (f A) (#H))", "(newScope (f A))", "(begin (f A) (f A))", "(for [_ P _] (f A))", "(and P (f A))", "[(f A)]", "(map (fn [g] (g A)) [f f2])", "(apply (fn [g] (g A)) [f])", "(begin (def ap apply) (ap f [A]))", "(#H (f A))", "(f (f A))", "(f2 (f A))", "(f (f2 A))", "(let [f2 f] (f2 A))", "((fn [f] (f A)) f2)", "(begin (defmac m [e] ^(f ~e)) (m A))",
}

// places the call comes from: C the call.
var lazySites = []string{
	"(begin (def x _) C)", "(let [x _] C)", "((fn [x] C) _)", "(begin (defn caller [x] C) (caller _))", "(begin (defn caller [x] (list C (#H x))) (caller _))", "(begin (defn caller [x] (let [y _] C)) (caller _))",
}

// functions of several parameters, with their calls.
var lazyMulti = []string{
	"(defn f [a #b] (list a (force #b) a)) ;; (f _ _) ;; (apply f [_ _])",
	"(defn f [#a b] (list (force #a) b (force #a))) ;; (f _ _) ;; (apply f (list _ _))",
	"(defn f [#a #b] (list (force #b) (force #a) (force #b))) ;; (f _ _) ;; (let [g f] (g _ _))",
	"(defn f [#a b #c] (list b (substitute #a) (substitute #c))) ;; (f (+ 1 _) _ (#H _ y))",
	"(defn f [#a & r] (list r (force #a) r)) ;; (f _ _ _) ;; (f _) ;; (apply f [_ _ _]) ;; (let [g f] (g _ _))",
	"(defn f [a #b & r] (list r a (force #b))) ;; (f _ _ _ _) ;; (f _ _) ;; (f _) ;; ((first (list f)) _ _ _)",
	"(defn f [a & r] (list a r)) ;; (f _ _ _) ;; (let [g f] (g _ _)) ;; (apply f [_ _])",
	"(defn f [a & #r] (list a (first #r))) ;; (f _ _ _) ;; (let [g f] (g _ _)) ;; (apply f [_ _]) ;; (apply f (list _ _ 3)) ;; ((first (list f)) _ _)",
	"(defn f [#a & #r] (list (force #a) #r (substitute #a))) ;; (f _ _ _) ;; (let [g f] (g _)) ;; (apply f [_ _])",
	"(defn f [& #r] (list #r #r)) ;; (f _ _) ;; ((fn [g] (g _ _)) f) ;; (map f [_ _]) ;; (f)",
	"(defn f [n & #r] (cond P (f (#H n) (#H n)) #r)) ;; (f _ _ _)",
	"(defn f [#a] (list (force #a) (force #a) (force #a))) ;; (f (begin _ false)) ;; (f (begin _ 0)) ;; (f (begin _ \"\")) ;; (f (begin _ [])) ;; (f (begin _ nil)) ;; (f (begin _ (list))) ;; (f (begin _ (hash)))",
	"(defn f [& r] r) ;; (f _ _) ;; ((fn [g] (g _ _)) f) ;; (map f [_ _])",
	"(defn f [#a] (force #a)) ;; (f) ;; (f _ _) ;; (apply f []) ;; (apply f [_ _]) ;; (f _)",
	"(def f (fn [#a b] (list b (force #a)))) ;; (f _ _) ;; ((fn [#q r] (list r (force #q))) _ _)",
	"(def x _) (def f (let [x _] (fn [#a] (list x (force #a))))) ;; (f (#H x)) ;; (let [x _] (f (#H x)))",
	// what is called is decided when the call runs
	"(defn f [a] (list a a)) (defn c [x] (f (#H x))) ;; (c _) ;; (defn f [#a] 7) ;; (c _) ;; (defn f [a] a) ;; (c _)",
	"(defn f [#a] 7) (defn c [x] (f (#H x))) ;; (c _) ;; (defn f [a] (list a a)) ;; (c _)",
	"(defn c [x] (f (#H x))) ;; (defn f [#a] (list 1 (force #a))) ;; (c _)",
	"(defn c [x] (let [y (f (#H x))] y)) (defn f [#a] 3) ;; (c _) ;; (def f (fn [b] b)) ;; (c _)",
	"(defn f [#a] 7) (defn c [f] (f _)) ;; (c (fn [y] y)) ;; (c f)",
	"(defn f [a] a) (defn c [f] (f _)) ;; (c (fn [#y] 3)) ;; (c f)",
	"(defn f [#a] 7) (let [f (fn [y] y)] (f _)) ;; (f _)",
	"(defn f [a] a) (let [f (fn [#y] 5)] (f _)) ;; (f _)",
	"(defn f [#a] 7) (defn c [] (def f (fn [y] y)) (f _)) ;; (c) ;; (f _)",
	"(defn f [a] a) (defn c [] (defn f [#y] 5) (f _)) ;; (c) ;; (f _)",
	"(defn f [#a] (begin (set f (fn [y] (list y))) (force #a))) ;; (f _) ;; (f _)",
	// recursion and tail calls
	"(defn f [n #a] (cond P (f (#H n) (#H n)) (force #a))) ;; (f _ _)",
	"(defn f [n #a] (cond P (f (#H n) (force #a)) (list (force #a) (force #a)))) ;; (f _ _)",
	"(defn f [n #a] (cond P (f (#H n) (#H n (force #a))) (list (force #a) (force #a)))) ;; (f _ _)",
	"(defn f [#a n] (cond P (f (begin (set n (#H n)) n) n) (list (force #a) (force #a) n))) ;; (f _ _)",
	"(defn f [n #a] (let [m (#H n)] (cond P (f m (#H m n)) (force #a)))) ;; (f _ _)",
	"(defn f [n #a] (cond P (g (#H n) (#H n)) (force #a))) (defn g [m #b] (cond P (f m (force #b)) 3)) ;; (f _ _)",
	"(defn f [n #a & r] (cond P (f (#H n) (#H n) _) (list (force #a) r))) ;; (f _ _ _)",
	"(defn f [#n] (cond P (f (#H)) 3)) ;; (f _)",
	"(defn f [#n] (begin (cond P (f (#H)) 3) (force #n))) ;; (f _)",
	// laziness outlives the caller
	"(defn f [#a] (fn [] (force #a))) (def k (let [y _] (f (#H y)))) ;; (list (k) (k))",
	"(defn f [#a] (fn [] (force #a))) (defn c [y] (f (begin (set y (#H y)) y))) (def k (c _)) (def l (c _)) ;; (list (k) (l) (k))",
	"(defn f [#a] (fn [] (force #a))) (def ks (map (fn [y] (f (#H y))) [1 2])) ;; (map (fn [k] (k)) ks) ;; (map (fn [k] (k)) ks)",
	"(defn f [#a] (list (fn [] (force #a)) (fn [] (force #a)))) (def p (f _)) ;; ((first p)) ;; ((second p)) ;; ((first p))",
	"(defn f [#a] (hash k: (fn [] (force #a)))) (def h (let [x _] (f (#H x)))) ;; ((hget h k:)) ;; ((hget h k:))",
	"(defn f [#a] (set x _) (force #a)) (def x _) ;; (f (#H x)) ;; (f x)",
	"(defn f [#a] (force #a)) (def x _) ;; (f (begin (set x (#H x)) x)) ;; x ;; (let [x _] (f (set x (#H x))) x) ;; x",
	"(defn f [#a] (def y 3) (force #a)) ;; (let [y _] (f (begin (def y (#H y)) y)) (#H y))",
	"(defn f [#a] (force #a)) ;; (f (f (f _))) ;; (f (list (f _) (f _)))",
	"(defn f [#a] 7) ;; (f (nosuch 1)) ;; (f nosuch) ;; (f (let [a 1] (nosuch))) ;; (apply f [(nosuch)])",
	"(defn f [#a] (force #a)) ;; (f (nosuch 1)) ;; (f nosuch) ;; (f (let [a 1] (nosuch))) ;; (f _)",
	"(defn f [#a] (substitute #a)) ;; (f (nosuch 1)) ;; (f nosuch) ;; (f (let [a 1] (b \"c\" 3))) ;; (f [a b]) ;; (f \"s\") ;; (f 3) ;; (f (fn [x] (q x)))",
	"(defn f [#a] (eval (substitute #a))) (def x _) ;; (f (#H x)) ;; (f x)",
	"(defn my-if [c #t #e] (cond c (force #t) (force #e))) ;; (my-if P _ _) ;; (defn sign [n] (my-if P (#H n) (#H n))) ;; (sign _)",
	"(defn my-and [#p #q] (cond (force #p) (force #q) false)) ;; (my-and P P) ;; (let [k my-and] (k P P)) ;; (apply my-and (list P P))",
	"(defn f [#a] (force #a)) (defmac m [e] ^(f (list ~e ~e))) ;; (let [x _] (m (#H x)))",
	"(force 3) ;; (force _) ;; (substitute _) ;; (force (list _)) ;; (list (force x)) ;; (def x _) (force x)",
	"(defn f [#a] (let [b #a] (list (force b) (force b)))) ;; (f _)",
	"(defn f [#a] (g #a)) (defn g [b] (list (force b) (force b))) ;; (f _)",
	"(defn f [#a] (list (force #a) (force #a))) (defn s [a b] (list a b)) ;; (s (f _) (f _)) ;; (f (s _ _))",
	"(defn s [a] (let [x 3] (list a a))) ;; (let [x _] (s (#H x))) ;; (let [x _ g s] (g (#H x))) ;; (let [x _] ((first (list s)) (#H x))) ;; (let [x _] (apply s [(#H x)])) ;; (let [x _] (map s [(#H x) x]))",
	"(h0 (h1) (h2)) ;; ((first (list h0)) (h1) (h2)) ;; (apply h0 [(h1) (h2)]) ;; (map h0 [(h1) (h2)]) ;; (let [g h0] (g (h1) (h2)))",
}

func checkC16(c *Ctx) {
	c.Explain = "Lazy and strict parameters: every body using a lazy parameter x every argument expression, every route a function can be called by (name, alias, parameter, computed callee, apply, map, macro, tail call, nested call) x argument x strict and lazy functions, every calling context; plus programs of several parameters, variadic tails, redefinition between the compilation and the execution of a call, recursion and tail calls, lazy arguments outliving the caller and source recovery. The order and number of evaluations, the environment they see (hole arguments) and the values are compared path by path with a reference evaluator with memoised thunks; the same families with failing holes check that a failing force leaves the interpreter usable." + schemaExplain
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 10)
	ck := func(rule, t string) { s.Check(c, rule, fill(t), aSem|aRest|aPanic) }
	for _, t := range lazyMulti {
		ck("program", t)
	}
	call := func(site, route, arg string) string {
		return strings.Replace(site, "C", strings.Replace(route, "A", arg, -1), 1)
	}
	for _, b := range lazyBodies {
		for i, a := range lazyArgs {
			for j, st := range lazySites {
				if c.Tier != "thorough" && (i+j)%2 == 1 && i > 3 {
					continue
				}
				ck("body", "(defn f [#a] "+b+") ;; "+call(st, "(f A)", a))
			}
		}
	}
	fns := [][2]string{
		{"(defn f [#a] (list (force #a) (force #a)))", "(defn f2 [a] (list a a))"},
		{"(defn f [#a] 7)", "(defn f2 [#a] (force #a))"},
		{"(defn f [a] (begin (#H a) a))", "(defn f2 [#a] (substitute #a))"},
		{"(def f (fn [#a & r] (list (force #a) r)))", "(def f2 (fn [a & r] (list r a)))"},
		{"(defn f [#a] (substitute #a))", "(defn f2 [a] (#H a))"},
	}
	for _, fn := range fns {
		for _, r := range lazyRoutes {
			for i, a := range lazyArgs {
				for j, st := range lazySites {
					if c.Tier != "thorough" && (i+j)%3 != 0 {
						continue
					}
					if strings.Count(r, "P")+strings.Count(a, "P") > 1 {
						continue
					}
					ck("route", fn[0]+" "+fn[1]+" ;; "+call(st, r, a))
				}
			}
		}
	}
	t := NewSchemas(c, f, false, 10)
	t.Text = true
	// arguments by name, in any order, are bound as by position
	for _, b := range []string{"(force #a)", "(begin (force #a) (force #a))", "7", "(begin (#H b) (force #a))", "(cond P (force #a) b)"} {
		for _, a := range lazyArgs[:8] {
			for _, sig := range []string{"[#a:int64 b:int64]", "[b:int64 #a:int64]"} {
				if strings.HasPrefix(a, "[") {
					continue
				}
				a = strings.Replace(strings.Replace(a, "_", "(h2)", -1), "#H", "h1", -1)
				pos := "(f A (h3))"
				if sig[1] == 'b' {
					pos = "(f (h3) A)"
				}
				pre := "(func f " + sig + " [n:int64] (return " + b + ")) (def x _) ;; "
				for _, way := range []string{"(f #a: A b: (h3))", "(f b: (h3) #a: A)", "(let [g f] (g b: (h3) #a: A))", "(begin (defn via [g] (g #a: A b: (h3))) (via f))"} {
					t.Same(c, "by-name", fill(pre+strings.Replace(way, "A", a, 1)), fill(pre+strings.Replace(pos, "A", a, 1)))
				}
			}
		}
	}
	for _, sig := range []string{"[#a:int64 b:int64 #c:int64]", "[b:int64 #c:int64 #a:int64]", "[#c:int64 #a:int64 b:int64]"} {
		pre := "(func f " + sig + " [n:int64] (return (+ b (force #a)))) => * "
		for _, call := range []string{"(f #a: 4 b: 3 #c: (nosuch))", "(f #c: (nosuch) #a: 4 b: 3)", "(f b: 3 #c: (nosuch) #a: 4)", "(f #c: (nosuch) b: 3 #a: 4)", "(f #a: 4 #c: (nosuch) b: 3)", "(f b: 3 #a: 4 #c: (nosuch))"} {
			t.Check(c, "by-name", pre+";; "+call+" => 7", aSem|aRest|aPanic)
			t.Check(c, "by-name", pre+";; "+strings.Replace(call, "#a: 4", "#a: (nosuch)", 1)+" => !", aSem|aRest|aPanic)
		}
	}
	w := NewSchemas(c, f, true, 8)
	for _, b := range lazyBodies {
		for _, a := range []string{"_", "(let [x _] (#H x))", "[_ x]"} {
			w.Check(c, "failing", fill("(defn f [#a] "+b+") ;; "+call(lazySites[1], "(f A)", a)+" ;; (f 3)"), aFault)
		}
	}
	for _, r := range lazyRoutes {
		w.Check(c, "failing", fill(fns[0][0]+" "+fns[0][1]+" ;; "+call(lazySites[1], r, "_")+" ;; (f 3)"), aFault)
	}
	c.Floor("program", 30)
	c.Floor("body", 900)
	c.Floor("route", 3000)
	c.Floor("failing", 60)
	c.Floor("by-name", 100)
	c.Stats["schemata"] = s.Runs + t.Runs + w.Runs
	c.Stats["paths"] = s.Paths + t.Paths + w.Paths
}
