package main

import "strings"

func init() { checks["C09"] = checkC09; sharded["C09"] = true }

// tailWraps are the tail-position contexts; T marks the tail position.
var tailWraps = []string{
	"(begin _ T)",
	"(begin T)",
	"(let [a _] T)",
	"(let [a _ b _] _ T)",
	"(letseq [a _ b _] T)",
	"(newScope T)",
	"(newScope (def c _) T)",
	"(cond P T _)",
	"(cond P _ T)",
	"(cond P _ P T _)",
	"(and P T)",
	"(or P T)",
	"(and P P T)",
}

// strictWraps are contexts whose marked position is not a tail position.
var strictWraps = []string{
	"(begin T _)",
	"(let [a T] (#H a))",
	"(let [a T b _] (#H a b))",
	"(let [a _ b T] (#H a b))",
	"(letseq [a T] (#H a))",
	"(letseq [a _ b T] (#H a b))",
	"(newScope T _)",
	"(cond T _ _)",
	"(cond P _ T _ _)",
	"(and T _)",
	"(or T _)",
	"(and P T _)",
	"[T _]",
	"[_ T]",
	"(#H T)",
	"(#H _ T)",
	"(list T _)",
	"(def a T)",
	"(begin (def a T) (#H a))",
	"(begin (def a _) (set a T) (#H a))",
	"(begin (set a T) (#H a))",
	"(begin (a = T) (#H a))",
	"(mdef a b (list T _))",
	"(begin (assert (begin T true)) _)",
	"(for [T P _] _)",
	"(for [_ (begin T P) _] _)",
	"(for [_ P T] _)",
	"(for [_ P _] T)",
	"((fn [] T))",
	"((fn [] T _))",
	"((fn [x] (#H x)) T)",
	"(let [f (fn [] T)] (f))",
	"(begin (defn f [] T) (f))",
	"(map (fn [x] T) [1])",
	"(apply #H (list T))",
	"(not T)",
	"^(x ~T)",
	"^(x ~@[T])",
}

func tailContexts(d int) []string {
	all := []string{"T"}
	lv := []string{"T"}
	for i := 0; i < d; i++ {
		var nx []string
		for _, c := range lv {
			for _, w := range tailWraps {
				nx = append(nx, strings.Replace(c, "T", w, 1))
			}
		}
		all = append(all, nx...)
		lv = nx
	}
	return all
}

// special tail-call programs: captured closures, variadics, arity, shadowing, typed and lazy functions.
var tailPrograms = []string{
	"(defn g [n f] (cond (p0) (g (h0 n) (fn [] (h1 n))) (f))) ;; (g 1 h2)",
	"(defn g [n f] (cond (p0) (g (h0 n) (fn [] n)) (begin (h1 (f)) (h2 n)))) ;; (g 1 h3)",
	"(defn g [n f] (let [a (h0 n)] (cond (p0) (g a (fn [] (h1 a n))) (f)))) ;; (g 1 h3)",
	"(defn g [n f] (let [a (h0 n)] (cond (p0) (g a (fn [] (set a (h1 a)) (h2 a n))) (begin (f) (f))))) ;; (g 1 h3)",
	"(defn g [n f] (def a (h0 n)) (cond (p0) (g a (fn [] (h1 a n))) (f))) ;; (g 1 h3)",
	"(defn g [n f] (def a (h0 n)) (cond (p0) (g a (fn [] (set n (h1 a n)) n)) (begin (f) (h2 n)))) ;; (g 1 h3)",
	"(defn g [n f] (newScope (def a (h0 n)) (cond (p0) (g a (fn [] (h1 a n))) (f)))) ;; (g 1 h3)",
	"(defn g [n l] (cond (p0) (g (h0 n) (cons (fn [] n) l)) (map (fn [f] (h1 (f))) l))) ;; (g 1 (list))",
	"(defn g [n] (cond (p0) (begin (def seen (h1 n)) (g (h0 n))) seen)) ;; (g 1)",
	"(defn g [n] (cond (p0) (begin (def x (h1 n)) (g (h0 n))) (h2 n))) ;; (g 1) ;; x",
	"(defn g [n] (let [x (h1 n)] (cond (p0) (g (h0 x)) (h2 x)))) ;; (g 1)",
	"(defn g [n m] (cond (p0) (g m n) (h0 n m))) ;; (g 1 2)",
	"(defn g [n m] (cond (p0) (g (h0 m) (h1 n)) (h2 n m))) ;; (g 1 2)",
	"(defn g [n & r] (cond (p0) (g (h0 n)) (h1 n r))) ;; (g 1 2 3)",
	"(defn g [n & r] (cond (p0) (g (h0 n) (h1) (h2)) (h3 n r))) ;; (g 1)",
	"(defn g [n & r] (cond (p0) (g (h0 n) r) (h3 n r))) ;; (g 1)",
	"(defn g [& r] (cond (p0) (g) (h3 r))) ;; (g 1)",
	"(defn g [& r] (cond (p0) (g (h0) (h1)) (h3 r))) ;; (g)",
	"(defn g [n & r] (cond (p0) (g) (h3 n r))) ;; (g 1)",
	"(defn g [n] (cond (p0) (g) (h0 n))) ;; (g 1)",
	"(defn g [n] (cond (p0) (g (h1) (h2)) (h0 n))) ;; (g 1)",
	"(defn g [n m] (cond (p0) (g (h1)) (h0 n m))) ;; (g 1 2)",
	"(defn g [] (cond (p0) (g) (h0))) ;; (g)",
	"(defn g [] (cond (p0) (g 1) (h0))) ;; (g)",
	"(defn g [n] (let [g (fn [x] (h0 x))] (g (h1 n)))) ;; (g 1)",
	"(defn g [n] (let [g h0] (g (h1 n)))) ;; (g 1)",
	"(defn g [n] (letseq [g (fn [x y] (h0 x y))] (g (h1 n) 2))) ;; (g 1)",
	"(defn g [n] (newScope (def g h0) (g (h1 n)))) ;; (g 1)",
	"(defn g [n] (def g h0) (g (h1 n))) ;; (g 1)",
	"(defn g [g] (g (h1))) ;; (g h0)",
	"(defn g [n g] (cond (p0) (g (h1) 2) (h2 n))) ;; (g 1 h3)",
	"(defn g [n] (defn g [m] (h0 m)) (g (h1 n))) ;; (g 1)",
	"(defn g [n] (begin (defn g [m k] (h0 m k)) (g (h1 n) 3))) ;; (g 1)",
	"(defn g [n] (cond (p0) (g (h0 n)) (h1 n))) ;; (def k g) ;; (defn g [n] (h2 n)) ;; (k 1)",
	"(defn g [n] (cond (p0) (g (h0 n)) (h1 n))) ;; (let [g h3] (h4 (g 1)))",
	"(defn g [n] (cond (p0) ((fn [m] (g m)) (h0 n)) (h1 n))) ;; (g 1)",
	"(defn g [n] (for [(h0) (p0) (h1)] (cond (p1) (g (h2 n)) (break))) (h3 n)) ;; (g 1)",
	"(defn g [n] (for lab [(h0) (p0) (h1)] (let [a (h2 n)] (cond (p1) (break lab) (g a)))) (h3 n)) ;; (g 1)",
	"(defn f [n] (cond (p0) (g (h0 n)) (h1 n))) (defn g [n] (cond (p1) (f (h2 n)) (h3 n))) ;; (f 1)",
	"(defn g [#a n] (cond (p0) (g (h0 n) 2) (force #a))) ;; (g (h1) 1)",
	"(defn g [n #a] (cond (p0) (g (h0 n) (h2 n)) (force #a))) ;; (g 1 (h1))",
	"(defn g [#a] (cond (p0) (g (h0 (force #a))) (force #a))) ;; (g (h1))",
	"(defn g [#a & r] (cond (p0) (g (h0) (h1)) (h2 (force #a) r))) ;; (g (h3))",
	"(func g [n: int64] [r: int64] (cond (p0) (g (h0 n)) (h1 n))) ;; (g 1)",
	"(func g [n: int64 m: int64] [r: int64] (let [a (h2 m)] (cond (p0) (g (h0 n) a) (h1 n m)))) ;; (g 1 2)",
	"(def fs (list)) ;; (defn g [n] (set fs (cons (fn [] (h1 n)) fs)) (cond (p0) (g (h0 n)) (map (fn [f] (f)) fs))) ;; (g 1)",
	"(defn mk [n] (fn [] (set n (h0 n)) n)) ;; (defn g [f n] (cond (p0) (g (mk n) (h1 n)) (list (f) (f)))) ;; (g (mk 5) 1)",
	"(let [g (fn [n] (h0 n))] (defn g2 [n] (cond (p0) (g2 (h1 n)) (g n))) (g2 1))",
	"(defn g [n] (cond (p0) (begin (h1) (begin (let [a (h2)] (newScope (g (h0 a n)))))) (h3 n))) ;; (list (g 1) (g 2))",
	"(defn g [n acc] (cond (p0) (g (h0 n) (list acc n)) acc)) ;; (g 1 (list))",
}

func checkC09(c *Ctx) {
	c.Explain = "Rule tail-space: a self call wrapped in every composition of the tail contexts must leave all VM stacks and the interpreter's own (Go) call depth unchanged from one iteration to the next (checked at each evaluation of a hole), and must equal the reference in value and effects. Rule non-tail: a self call in every strict position, alone and inside each tail context, must behave like an ordinary call. Rule tail-program: captured variables, variadics, lazy and typed parameters, shadowed names." + schemaExplain
	c.Assume = append([]string{"space of a tail loop = depth of the VM stacks plus depth of nested interpreter calls"}, schemaAssume...)
	c.Floor("tail-space", 150)
	c.Floor("non-tail", 500)
	c.Floor("tail-program", 15)
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 11)
	for _, t := range tailPrograms {
		s.Check(c, "tail-program", t, aSem|aRest)
	}
	d := 2
	if c.Tier == "thorough" {
		d = 3
	}
	for _, t := range tailContexts(d) {
		// hN names: the argument hole is the context's next free value hole
		body := fill(strings.Replace(t, "T", "(g (#H n))", 1))
		if !strings.Contains(t, "P") {
			// no exit: bound by the host-call limit
			s.Check(c, "tail-space", "(defn g [n] "+body+") ;; (g 1)", aSem|aRest|aSpace)
			body = fill("(cond P " + strings.Replace(t, "T", "(g (#H n))", 1) + " (#H n))")
		}
		s.Check(c, "tail-space", "(defn g [n] "+body+") ;; (g 1)", aSem|aRest|aSpace)
	}
	for _, t := range strictWraps {
		inner := "(cond P (g (#H n)) (#H n))"
		for _, o := range append([]string{"T"}, tailWraps...) {
			body := fill(strings.Replace(strings.Replace(o, "T", t, 1), "T", inner, 1))
			s.Check(c, "non-tail", "(defn g [n] "+body+") ;; (g 1)", aSem|aRest)
		}
		body := fill(strings.Replace(t, "T", "(g (#H n))", 1))
		s.Check(c, "non-tail", "(defn g [n] (cond (p9) "+body+" (h9 n))) ;; (g 1)", aSem|aRest)
	}
	c.Stats["schemata"] = s.Runs
	c.Stats["paths"] = s.Paths
}
