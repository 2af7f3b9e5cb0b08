package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks["C19"] = checkC19; sharded["C19"] = true }

// A family of interpreters sharing a symbol table, driven through every short history of interning, generating
// and duplicating; the model is the name->number map of everything interned so far.

type fam19 struct {
	st    *State
	envs  []Value
	num   map[string]int64
	trail []string
}

func (n *fam19) clone(op string) *fam19 {
	m := &fam19{st: n.st.Clone(), envs: append([]Value{}, n.envs...), num: map[string]int64{}, trail: append(append([]string{}, n.trail...), op)}
	for k, v := range n.num {
		m.num[k] = v
	}
	return m
}

func checkC19(c *Ctx) {
	c.Explain = "Symbol identity across interpreters sharing a table. From the start interpreter, every history up to the bound of: making a duplicate or clone of any member, interning a new name, re-interning a known name, interning a name that a later generation would produce, and generating a symbol with several prefixes, in any member, is followed by abstract interpretation of the source; after each step the symbol returned must have the requested name, the number of a name must never change, two names never share a number, and a generated symbol must be none of those that existed. At the end every name is interned in every member again and symbols are compared and hashed. Script texts that create symbols by every builtin and through macros are judged separately."
	c.Assume = []string{"Numbers are followed from the state the interpreter starts in; histories are bounded in length, which suffices when a step depends only on the table, the member's counter and the next few numbers (lags up to the bound are covered)."}
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	bad, steps, leaves := 0, 0, 0
	fail := func(n *fam19, rule, fm string, a ...interface{}) {
		bad++
		if bad < 8 {
			c.Ob(rule, strings.Join(n.trail, "; "), false, "zygo/environment.go", fm, a...)
		}
	}
	// calls a method returning a symbol; yields name and number
	symOf := func(n *fam19, rule string, env Value, method string, arg string) (string, int64, bool) {
		steps++
		outs, err := f.Call(n.st, "Zlisp", method, env, StrV(arg))
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn {
			fail(n, rule, "%s(%q) does not yield one symbol: %v %d", method, arg, err, len(outs))
			return "", 0, false
		}
		n.st = outs[0].St
		n.st.trace = nil
		var r [2]Value
		for i, m := range []string{"Name", "Number"} {
			// value receivers: load the symbol
			recv := outs[0].Ret[0]
			fn := c.P.Method("SexpSymbol", m)
			if fn == nil {
				fail(n, rule, "anchor: SexpSymbol.%s not found", m)
				return "", 0, false
			}
			if _, isPtr := recv.(PtrV); isPtr && !isPtrType(fn.Signature.Recv().Type()) {
				recv, _ = f.E.Load(n.st, recv)
			}
			os, err := f.E.Run(fn, []Value{recv}, n.st.Clone())
			if err != nil || len(os) != 1 || os[0].Kind != kReturn {
				fail(n, rule, "%s of the symbol: %v", m, err)
				return "", 0, false
			}
			r[i] = os[0].Ret[0]
		}
		s, ok1 := r[0].(StrV)
		k, ok2 := r[1].(IntV)
		if !ok1 || !ok2 {
			fail(n, rule, "undecided: symbol %v %v", r[0], r[1])
			return "", 0, false
		}
		return string(s), int64(k), true
	}
	enter := func(n *fam19, rule, name string, num int64, fresh bool) bool {
		if old, have := n.num[name]; have {
			if fresh {
				fail(n, rule, "the generated symbol %q exists already", name)
				return false
			}
			if old != num {
				fail(n, rule, "the symbol %q had number %d, now %d", name, old, num)
				return false
			}
			return true
		}
		for o, k := range n.num {
			if k == num {
				fail(n, rule, "the symbols %q and %q share the number %d", name, o, num)
				return false
			}
		}
		n.num[name] = num
		return true
	}
	intern := func(n *fam19, env Value, name string) bool {
		got, num, ok := symOf(n, "intern", env, "MakeSymbol", name)
		if !ok {
			return false
		}
		if got != name {
			fail(n, "intern", "interning %q yields the symbol %q", name, got)
			return false
		}
		return enter(n, "intern", name, num, false)
	}
	root := &fam19{st: f.St.Clone(), envs: []Value{f.Env}, num: map[string]int64{}}
	for _, b := range []string{"+", "hget", "list", "quote", "str", "x", "", "a.b", "?q", "#q", "a:", "é"} {
		if !intern(root, f.Env, b) {
			return
		}
	}
	var first int64
	{
		p := root.clone("probe")
		_, first, _ = symOf(p, "intern", f.Env, "MakeSymbol", "probe name")
	}
	// who shares a table with whom is visible through the numbers alone
	type op struct {
		name string
		run  func(n *fam19) bool
	}
	member := func(i int) string { return string(rune('A' + i)) }
	ops := func(n *fam19, full bool) []op {
		var r []op
		for i := range n.envs {
			i := i
			r = append(r, op{"intern a new name in " + member(i), func(n *fam19) bool {
				return intern(n, n.envs[i], fmt.Sprintf("new%d", len(n.num)))
			}})
			for _, pre := range []string{"g", "__gensym"} {
				pre := pre
				r = append(r, op{"generate " + pre + " in " + member(i), func(n *fam19) bool {
					name, num, ok := symOf(n, "generate", n.envs[i], "GenSymbol", pre)
					return ok && enter(n, "generate", name, num, true)
				}})
			}
			if i == 0 || full {
				for d := int64(0); d < 4; d++ {
					nm := fmt.Sprintf("g%d", first+d)
					if _, have := n.num[nm]; !have {
						r = append(r, op{"intern " + nm + " in " + member(i), func(n *fam19) bool { return intern(n, n.envs[i], nm) }})
					}
				}
			}
			if len(n.envs) < 3 {
				for _, m := range []string{"Duplicate", "Clone"} {
					m := m
					r = append(r, op{fmt.Sprintf("%s = %s.%s", member(len(n.envs)), member(i), m), func(n *fam19) bool {
						steps++
						outs, err := f.Call(n.st, "Zlisp", m, n.envs[i])
						if err != nil || len(outs) != 1 || outs[0].Kind != kReturn {
							fail(n, "family", "%s: %v %d outcomes", m, err, len(outs))
							return false
						}
						n.st = outs[0].St
						n.st.trace = nil
						n.envs = append(n.envs, outs[0].Ret[0])
						return true
					}})
				}
			}
		}
		return r
	}
	maxDepth := 4
	if c.Tier == "thorough" {
		maxDepth = 5
	}
	final := func(n *fam19) bool {
		leaves++
		for i, e := range n.envs {
			m := n.clone("re-intern in " + member(i))
			for name := range n.num {
				if !strings.HasPrefix(name, "new") && !strings.HasPrefix(name, "g") && !strings.HasPrefix(name, "_") {
					continue
				}
				if !intern(m, e, name) {
					return false
				}
			}
		}
		return true
	}
	var walk func(n *fam19, d int)
	walk = func(n *fam19, d int) {
		if d == maxDepth {
			if !final(n) {
				return
			}
			return
		}
		for _, o := range ops(n, d < maxDepth-1) {
			if d == 1 && !c.Mine() || d > 1 && bad >= 8 {
				continue
			}
			m := n.clone(o.name)
			if o.run(m) {
				walk(m, d+1)
			}
		}
	}
	walk(root, 0)
	if bad == 0 {
		c.Ob("histories", fmt.Sprintf("histories of %d operations, part %d", maxDepth, c.Shard), true, "", "%d histories", leaves)
	}
	c.Stats["histories"] = leaves
	c.Stats["steps"] = steps

	s := NewSchemas(c, f, false, 10)
	s.Text = true
	for _, t := range symTexts {
		segs := strings.Split(t, ";;")
		for i := range segs {
			if !strings.Contains(segs[i], "=>") {
				segs[i] += " => * "
			}
		}
		s.Check(c, "symbol-script", strings.Join(segs, " ;; "), aSem|aRest|aPanic)
	}
	c.Floor("histories", 1)
	c.Floor("symbol-script", 10)
}

var symTexts = []string{
	`(== (quote a) (str2sym "a")) => true ;; (== (quote a) (quote b)) => false ;; (== (str2sym "x y") (str2sym "x y")) => true ;; (== (str2sym "x y") (str2sym "x z")) => false`,
	`(== (symnum (quote a)) (symnum (str2sym "a"))) => true ;; (== (symnum (quote a)) (symnum (quote b))) => false`,
	`(== (gensym) (gensym)) => false ;; (== (gensym "p") (gensym "p")) => false ;; (== (gensym "p") (gensym "q")) => false`,
	`(def n (symnum (quote zzprobe))) ;; (def l []) ;; (for [(def i 20) (< i 70) (set i (+ i 1))] (set l (append l (str2sym (concat "p" (str (+ n i))))))) ;; (def y (gensym "p")) (def z (gensym "p")) ;; (def hits 0) ;; (map (fn [a] (cond (or (== a y) (== a z)) (set hits (+ hits 1)) 0)) l) ;; hits => 0 ;; (== y z) => false`,
	`(defmac m [] (let [g (gensym)] ^(quote ~g))) ;; (def a (m)) (def b (m)) ;; (== a b) => false ;; (== a (gensym)) => false ;; (== a a) => true ;; (== b (str2sym (sym2str b))) => true ;; (== a (str2sym (sym2str a))) => true`,
	`(defmac m [n] ^(quote ~n)) ;; (== (m brandnew) (quote brandnew)) => true ;; (== (m other1) (quote other2)) => false ;; (== (m later) (str2sym "later")) => true`,
	`(defmac m [] (let [a (gensym) b (gensym)] ^(list (quote ~a) (quote ~b)))) ;; (def l (m)) (def k (m)) ;; (== (first l) (second l)) => false ;; (== (first l) (first k)) => false ;; (== (first l) (second k)) => false ;; (== (second l) (first k)) => false ;; (== (second l) (second k)) => false`,
	`(defmac m [n] (begin (str2sym "made1") (str2sym "made2") ^(quote ~n))) ;; (m fresh1) ;; (def f2 (quote fresh2)) ;; (== f2 (str2sym "made1")) => false ;; (== f2 (str2sym "made2")) => false ;; (== (m made1) (quote made1)) => true ;; (== (quote fresh1) f2) => false ;; (map symnum (list (str2sym "made1") (str2sym "made2") (quote fresh1) f2)) ;; (== (symnum (quote made2)) (symnum f2)) => false`,
	`(def h (hash a:1)) ;; (hget h (quote a)) => 1 ;; (hget h (str2sym "a")) => 1 ;; (hget h (quote b) 7) => 7 ;; (hset h (str2sym "b") 2) ;; (hget h b:) => 2 ;; (len h) => 2 ;; (hget h (gensym "b") 9) => 9`,
	`(def h (hash)) ;; (defmac put [k v] (begin (hset h k v) nil)) ;; (put newkey 5) ;; (hget h (quote newkey)) => 5 ;; (hget h (str2sym "newkey")) => 5 ;; (len h) => 1`,
	`(def x 1) ;; (eval (str2sym "x")) => 1 ;; (eval (list (quote def) (str2sym "y") 4)) ;; y => 4 ;; (let [z 3] (eval (str2sym "z"))) => 3`,
	`(defmac swap [a b] (let [t (gensym)] ^(begin (def ~t ~a) (set ~a ~b) (set ~b ~t)))) ;; (def x 1) (def y 2) ;; (swap x y) ;; (list x y) => (list 2 1) ;; (swap y x) ;; (list x y) => (list 1 2)`,
	`(== (read "sym") (quote sym)) => true ;; (== (read "(a b)") (quote (a b))) => true ;; (== (first (read "(q1 q2)")) (quote q1)) => true ;; (== (first (read "(q1 q2)")) (quote q2)) => false`,
	`(joinsym (quote a) (quote b)) => (quote ab) ;; (== (joinsym (quote a) (quote b)) (str2sym "ab")) => true ;; (== (joinsym (quote a) (quote bc)) (joinsym (quote ab) (quote c))) => true ;; (== (joinsym (quote a) (quote b)) (quote ba)) => false`,
	`(def g (gensym)) ;; (def h (hash)) ;; (hset h g 1) ;; (hget h g) => 1 ;; (hget h (gensym) 5) => 5 ;; (hget h (str2sym (sym2str g))) => 1 ;; (hset h (gensym) 2) ;; (len h) => 2`,
	`(defn mk [] (gensym "t")) ;; (== (mk) (mk)) => false ;; (== (eval (quote (mk))) (mk)) => false ;; (== (apply mk []) (apply mk [])) => false ;; (def l (map (fn [x] (gensym)) [1 2 3])) ;; (== (first l) (second l)) => false`,
	`(symbol? (gensym)) => true ;; (gensym 5) => ! ;; (gensym "a" "b") => ! ;; (== (sym2str (quote abc)) "abc") => true ;; (sym2str "abc") => !`,
}

func isPtrType(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }
