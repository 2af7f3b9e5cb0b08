package main

import "strings"

func init() { checks["C03"] = checkC03; sharded["C03"] = true }

// bindWraps are the constructs that bind x; K marks where the closure over x is created.
var bindWraps = []string{
	"(begin (def x _) K)",
	"(let [x _] K)",
	"(let [x _ y _] K)",
	"(letseq [y _ x (#H y)] K)",
	"(newScope (def x _) K)",
	"((fn [x] K) _)",
	"((fn [& x] K) _ _)",
	"(begin (defn mk [x] K) (mk _))",
	"(begin (defn mk [y] (def x (#H y)) K) (mk _))",
	"(let [x _] (let [y _] K))",
	"(let [x _] ((fn [y] K) _))",
	"(let [x _] (newScope (def y _) K))",
	"(let [x _] (begin (defn mk [y] K) (mk _)))",
	"((fn [x] ((fn [y] K) _)) _)",
	"((fn [x] (let [y _] (newScope K))) _)",
	"(begin (defn mk [x] (cond P (mk (#H x)) K)) (mk _))",
	"(begin (defn mk [x] (let [y _] (cond P (mk (#H x y)) K))) (mk _))",
	"(begin (defn outer [x] (defn mk [y] K) (mk _)) (outer _))",
	"(apply (fn [x] K) (list _))",
	"(cond P (let [x _] K) (let [x _] K))",
}

// closures over x.
var closureKinds = []string{
	"(fn [] (#H x))",
	"(fn [] (set x (#H x)) (#H x))",
	"(fn [] (let [w (#H x)] (#H w x)))",
	"(fn [] (let [x (#H x)] (set x (#H x)) (#H x)))",
	"(fn [] (def x (#H x)) (#H x))",
	"(fn [] ((fn [] (set x (#H x)))) (#H x))",
	"(begin (defn in [] (#H x)) in)",
	"(begin (defn in [] (set x (#H x)) (#H x)) in)",
	"(fn [] (for [_ P _] (set x (#H x))) (#H x))",
	"(fn [] (cond P (set x (#H x)) (newScope (def x _) (#H x))) (#H x))",
	"(let [z (fn [] (#H x))] (fn [] (set x (#H x)) (z)))",
	"(fn [] (first (map (fn [q] (#H q x)) (list 1 2))))",
}

// useSites call the closure made by T from places that have their own x.
var useSites = []string{
	"(T)",
	"(begin (def c T) (list (c) (c)))",
	"(begin (def c T) (let [x _] (c)))",
	"(begin (def c T) (let [x _] (list (c) (c) (#H x))))",
	"(begin (def c T) ((fn [x] (list (c) (#H x))) _))",
	"(begin (def c T) (newScope (def x _) (list (c) (#H x))))",
	"(begin (def c T) (defn caller [x] (list (c) (#H x))) (caller _))",
	"(begin (defn caller [x f] (list (f) (#H x))) (caller _ T))",
	"(begin (defn caller [x f] (f)) (caller _ T))",
	"(begin (defn caller [x f] (cond P (caller (#H x) f) (f))) (caller _ T))",
	"(begin (defn caller [x f] (let [x (#H x)] (cond P (caller x f) (list (f) (#H x))))) (caller _ T))",
	"(let [c T] (map (fn [x] (c)) [_ _]))",
	"(let [c T x _] (map (fn [y] (c)) [_]))",
	"(let [x _] (apply T []))",
	"(let [c T] (for [(def x _) P (set x (#H x))] (c)))",
	"(begin (def c T) (def d (fn [x] (let [x (#H x)] (c)))) (d _))",
	"(let [cs (list T T)] (let [x _] (map (fn [c] (c)) cs)))",
	"(let [cs [T]] (let [x _] ((first cs))))",
	"(begin (def mk (fn [] T)) (let [x _ a (mk) b (mk)] (list (a) (b) (a))))",
}

// scopePrograms are hand-picked programs about sharing, freshness, recursion and shadowing.
var scopePrograms = []string{
	"(defn mk [n] (list (fn [] (set n (h0 n)) n) (fn [] (h1 n)))) ;; (def p (mk 1)) ;; (def q (mk 2)) ;; ((first p)) ;; ((second p)) ;; ((second q)) ;; ((first q)) ;; ((second p))",
	"(defn f [n] (let [a n] (cond (p0) (begin (f (h0 n)) (h1 a n)) (h2 a n)))) ;; (f 1)",
	"(defn f [n] (def a (h0 n)) (cond (p0) (f 7) nil) (h1 a)) ;; (f 1)",
	"(defn f [] y) ;; (let [y (h0)] (f))",
	"(defn f [] y) ;; ((fn [y] (f)) (h0))",
	"(defn f [] y) ;; (defn g [y] (f)) ;; (g (h0))",
	"(defn f [] y) ;; (defn g [y] (begin (f) (h1))) ;; (g (h0))",
	"(defn f [] (set y (h1 y))) ;; (def y (h0)) ;; (let [y (h2)] (f) (h3 y)) ;; (h4 y)",
	"(defn f [] (set nope (h1))) ;; (f) ;; nope",
	"(defn f [] y) ;; (def y (h0)) ;; (f)",
	"(defn even [n] (cond (p0) (h0 n) (odd (h1 n)))) ;; (defn odd [n] (cond (p1) (h2 n) (even (h3 n)))) ;; (even 1)",
	"(def fs []) ;; (for [(def i 0) (< i 3) (set i (+ i 1))] (set fs (append fs (let [j i] (fn [] (h0 j)))))) ;; (map (fn [f] (f)) fs)",
	"(def fs (list)) ;; (for [(def i 0) (< i 2) (set i (+ i 1))] (set fs (cons (fn [] (h0 i)) fs))) ;; (map (fn [f] (f)) fs)",
	"(def fs (list)) ;; (defn each [k] (set fs (cons (fn [] (set k (h0 k)) (h1 k)) fs))) ;; (map each [1 2]) ;; (map (fn [f] (f)) fs) ;; (map (fn [f] (f)) fs)",
	"(let [a (h0)] (defn g [] a) (defn s [v] (set a v))) ;; (g) ;; (s (h1)) ;; (g)",
	"(defn outer [a] (defn mid [b] (defn inner [c] (h0 a b c)) inner) mid) ;; (((outer (h1)) (h2)) (h3))",
	"(defn outer [a] (defn mid [b] (defn inner [c] (set a (h0 a b c)) a) inner) (mid 5)) ;; (def k (outer (h1))) ;; (k 1) ;; (k 2)",
	"(defn outer [a] (let [b (h0 a)] (fn [c] (let [d (h1 b c)] (fn [] (h2 a b c d)))))) ;; (let [a 9 b 9 c 9 d 9] (((outer 1) 2)))",
	"(defn apply2 [f x] (f x)) ;; (defn mk [x] (fn [y] (h0 x y))) ;; (let [x 9] (apply2 (mk 1) 2))",
	"(defn twice [f] (fn [x] (f (f x)))) ;; (let [f 3 x 4] ((twice (fn [q] (h0 q))) (h1)))",
	"(defn comp [f g] (fn [x] (f (g x)))) ;; (def h (comp (fn [g] (h0 g)) (fn [f] (h1 f)))) ;; (h 3)",
	"(def x (h0)) ;; (let [x (h1 x)] (let [x (h2 x)] (newScope (def x (h3 x)) (h4 x)) (h5 x)) (h6 x)) ;; (h7 x)",
	"(def x (h0)) ;; (let [f (fn [] (h1 x))] (let [x 3] (f)) (set x (h2)) (f)) ;; (h3 x)",
	"(let [x (h0)] (def f (fn [] (h1 x))) (set x (h2)) (f))",
	"(let [x (h0)] (def f (fn [] (h1 x))) (def x (h2)) (f))",
	"(newScope (def f (fn [] (h1 x))) (def x (h2)) (f))",
	"(defn mk [] (def c (h0)) (list (fn [] (set c (h1 c))) (fn [] c))) ;; (def a (mk)) ;; (def b (mk)) ;; ((first a)) ;; (list ((second a)) ((second b)))",
	"(defn f [a] (let [g (fn [a] (h0 a))] (g (h1 a)) (h2 a))) ;; (f 1)",
	"(defn f [f] (f (h0))) ;; (f (fn [q] (h1 q)))",
	"(defn loop [n k] (cond (p0) (loop (h0 n) (fn [] (h1 n (k)))) (k))) ;; (loop 1 (fn [] (h2)))",
	"(defn fact [n] (cond (p0) 1 (h0 n (fact (h1 n))))) ;; (fact 3)",
	"(def g (fn [n] (cond (p0) (g (h0 n)) (h1 n)))) ;; (def k g) ;; (def g (fn [n] (h2 n))) ;; (k 1)",
	"(defn a [x] (b (fn [] (h0 x)))) ;; (defn b [x] (c x)) ;; (defn c [y] (let [x 3] (y))) ;; (a (h1))",
	"(defn a [x] (begin (b (fn [] (h0 x))) (h2 x))) ;; (defn b [x] (begin (c x) (h3))) ;; (defn c [y] (let [x 3] (y))) ;; (a (h1))",
	"(defmac m [e] ^(let [x 5] ~e)) ;; (let [x (h0)] (h1 (m (h2 x))))",
	"(defn f [x] (fn [] (defn g [] (h0 x)) (g))) ;; (let [x 3] ((f (h1))))",
	"(defn f [x] (let [r (fn [k] (cond (p0) (h0 x k) (r (h1 k))))] 1)) ;; (f 2)",
	"(defn f [x] (defn r [k] (cond (p0) (h0 x k) (r (h1 k)))) (r 1)) ;; (let [x 5] (f 2)) ;; (f 3)",
	"(defn gen [] (let [n 0] (fn [] (set n (+ n 1)) n))) ;; (def a (gen)) ;; (def b (gen)) ;; (list (a) (a) (b) (a))",
	"(defn f [#a x] (let [x 3] (force #a))) ;; (let [x (h0)] (f (h1 x) 2))",
	"(defn f [#a] (fn [] (force #a))) ;; (def k (let [y (h0)] (f (h1 y)))) ;; (let [y 3] (list (k) (k)))",
	"(def t (hash f: (let [x (h0)] (fn [] (set x (h1 x)) x)))) ;; (let [x 3] (list ((hget t f:)) ((hget t f:))))",
	"(let [x (h0)] (defn p [] (h1 x))) ;; (defn q [x] (p)) ;; (defn r [x] (q (h2 x))) ;; (r 1)",
	"(defn f [n] (cond (p0) n (let [n (h0 n)] (f n)))) ;; (f 1)",
	"(defn walk [n acc] (cond (p0) acc (walk (h0 n) (cons (fn [] (h1 n)) acc)))) ;; (map (fn [f] (f)) (walk 1 (list (fn [] 0))))",
	"(defn f [a b] (defn g [] (set a (h0 a b)) a) (defn k [] (set b (h1 a b)) b) (list (g) (k) (g))) ;; (f 1 2) ;; (f 3 4)",
}

// scopes of their own: D marks a position in their body. What is defined there ends with them.
var scopeMakers = []string{
	"(let [] D)", "(let [q _] D)", "(let [x _] D)", "(letseq [] D)", "(letseq [q _] D)", "(letseq [x _ q (#H x)] D)", "(newScope D)", "((fn [] D))", "((fn [q] D) _)", "((fn [x] D) _)", "((fn [& q] D))", "(apply (fn [] D) [])", "(first (map (fn [q] D) [_]))",
	"(begin (defn g [] D) (g))", "(begin (defn g [x] D) (g _))", "(begin (defn g [#l] D) (g _))", "(cond P (let [] D) (letseq [] D))", "(for [_ P _] D)", "(for [(def x _) P (set x (#H x))] D)",
	"(let [] (begin D))", "(let [] (cond P D _))", "(newScope _ D _)", "(letseq [] _ D _)",
}

// definitions inside a scope.
var innerDefs = []string{
	"(def x (#H x))", "(begin (def x _) (#H x))", "(begin (def x _) (def y _) (#H x y))", "(begin (defn x [] _) (x))", "(mdef x y (list _ _))", "(begin (def x _) (set x (#H x)))", "(begin (def y _) (set x (#H y)))", "(begin (def x _) (def f (fn [] (set x (#H x)))) (f) (f) x)",
}

func checkC03(c *Ctx) {
	c.Explain = "Closures over a variable x: every binding construct x every closure kind x every use site that has its own x, compared with a reference evaluator with textbook lexical environments (values and hole arguments: a wrong scope shows up as a hole receiving another binding's value or as a spurious 'not found'); plus programs about sharing, freshness per activation, recursion, defn in defn, lazy arguments and tail calls." + schemaExplain
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 12)
	for _, t := range scopePrograms {
		s.Check(c, "scope-program", t, aSem)
	}
	for _, b := range bindWraps {
		for _, k := range closureKinds {
			mk := strings.Replace(b, "K", k, 1)
			if strings.Contains(mk, "(fn [& x]") && strings.Contains(mk, "(set x ") {
				continue // a list variable may not be rebound to an integer
			}
			for _, u := range useSites {
				if c.Tier != "thorough" && strings.Count(b+k+u, "P") > 1 {
					continue
				}
				s.Check(c, "closure", fill(strings.Replace(u, "T", mk, -1)), aSem)
			}
		}
	}
	for _, d := range innerDefs {
		for _, m := range scopeMakers {
			t := strings.Replace(m, "D", d, -1)
			s.Check(c, "inner-definition", fill("(def x _) "+t+" ;; (#H x)"), aSem)
			s.Check(c, "inner-definition", fill("(defn f [x] "+t+" (#H x)) (f _)"), aSem)
			s.Check(c, "inner-definition", fill("(let [x _] "+t+" (#H x))"), aSem)
			for _, m2 := range scopeMakers {
				if strings.Count(m+m2+d, "P") < 2 && !strings.Contains(m+m2, "map") {
					s.Check(c, "inner-definition", fill("(def x _) "+strings.Replace(m2, "D", "(list "+t+" (#H x))", -1)+" (#H x)"), aSem)
				}
			}
		}
	}
	// builtins that look names up do it where they are called: eval and dot paths
	tx := NewSchemas(c, f, false, 10)
	tx.Text = true
	for _, use := range []string{"(eval (quote x))", "(+ 0 (eval (quote x)))", "(eval (quote (+ x 0)))", "(eval (quote (let [y x] y)))", "(eval (quote (begin x)))", "((eval (quote (fn [] x))))", "(first (list (eval (quote x))))", "(+ z.k 0)", "z.k", "(id z.k)", "(let [y z.k] y)", "(cond z.k z.k 0)", "(first (map (fn [q] (+ z.k 0)) [1]))", "(apply (fn [q] (id z.k)) [1])", "(+ 0 (+ z.k 0))", "(begin (defn in [] (+ z.k 0)) (in))", "((fn [#a] (force #a)) z.k)", "((fn [#a] (let [z 5] (force #a))) (+ z.k 0))", "(eval (quote z.k))", "(== z.k 5)", "(type? z.k)", "{z.k + 0}", "(begin {z.k = 5} z.k)", "(begin (set z.k 5) (+ z.k 0))"} {
		want := "5"
		switch use {
		case "(== z.k 5)":
			want = "true"
		case "(type? z.k)":
			want = "\"int64\""
		}
		for _, st := range []string{
			"(let [x 5 z (hash k:5)] USE) => W",
			"((fn [x z] USE) 5 (hash k:5)) => W",
			"(defn mk [x z] (fn [] USE)) => * ;; ((mk 5 (hash k:5))) => W ;; (let [x 7 z (hash k:8)] ((mk 5 (hash k:5)))) => W ;; (def x 9) => * ;; (def z (hash k:10)) => * ;; ((mk 5 (hash k:5))) => W ;; ((fn [z x] ((mk 5 (hash k:5)))) 6 7) => W",
			"(def g (let [x 5 z (hash k:5)] (fn [] USE))) => * ;; (g) => W ;; (map (fn [q] (g)) [1]) => [W]",
			"(defn mk [x] (let [z (hash k:5)] (fn [] (let [w 1] (fn [v] USE))))) => * ;; (((mk 5)) 1) => W",
			"(defn rec [n x z] (cond (== n 0) USE (rec (- n 1) x z))) => * ;; (rec 2 5 (hash k:5)) => W",
			"(def r 0) (for [(def x 5) (< x 6) (set x (+ x 1))] (let [z (hash k:5)] (def y1 USE) (set r y1))) => * ;; 1",
			"(newScope (def x 5) (def z (hash k:5)) USE) => W",
		} {
			tx.Check(c, "lookup-by-builtin", "(defn id [v] v) => * ;; "+strings.Replace(strings.Replace(st, "USE", use, -1), "W", want, -1), aSem|aRest|aPanic)
		}
	}
	c.Floor("lookup-by-builtin", 150)
	c.Floor("inner-definition", 2500)
	c.Floor("scope-program", 40)
	c.Floor("closure", 2500)
	c.Stats["schemata"] = s.Runs
	c.Stats["paths"] = s.Paths
}
