package main

import (
	"fmt"
	"strings"
	"unicode"
)

func init() { checks["C18"] = checkC18; sharded["C18"] = true }

// A package and everything in it, as the visibility model knows it.
type mem18 struct {
	name string
	kind byte // v integer, f function, h hash, a array, p package
	val  int
	kids []mem18 // members of a package, fields of a hash
}

func (m mem18) src() string {
	switch m.kind {
	case 'v':
		return fmt.Sprint(m.val)
	case 'a':
		return fmt.Sprintf("[%d]", m.val)
	case 'h':
		var s []string
		for _, k := range m.kids {
			s = append(s, k.name+":"+k.src())
		}
		return "(hash " + strings.Join(s, " ") + ")"
	case 'p':
		return "(package \"" + m.name + "\" { " + m.body() + " })"
	}
	return "?"
}

func (m mem18) body() string {
	var s []string
	for _, k := range m.kids {
		if k.kind == 'f' {
			s = append(s, fmt.Sprintf("(defn %s [] %d)", k.name, k.val))
		} else {
			s = append(s, "(def "+k.name+" "+k.src()+")")
		}
	}
	return strings.Join(s, " ")
}

func public(n string) bool { return unicode.IsUpper([]rune(n)[0]) }

type path18 struct {
	path string // from the package, with a leading dot
	m    mem18
	read bool // may be read from outside
	set  bool // may be assigned from outside
	note string
}

// paths lists every path through m (a package or a hash reached with access ok).
func (m mem18) paths(pre string, ok, inHash bool, outer []string) []path18 {
	var r []path18
	for _, k := range m.kids {
		p := path18{path: pre + "." + k.name, m: k}
		acc := ok && (inHash || public(k.name))
		p.set = acc
		p.read = acc || ok && k.kind == 'p'
		r = append(r, p)
		switch k.kind {
		case 'p':
			var o []string
			if !inHash {
				for _, x := range m.kids {
					if x.kind != 'p' {
						o = append(o, x.name)
					}
				}
			}
			r = append(r, k.paths(p.path, ok, false, append(o, outer...))...)
		case 'h':
			r = append(r, k.paths(p.path, acc, true, nil)...)
		case 'v':
			r = append(r, path18{path: p.path + ".X1", m: k, note: "goes on below an integer"})
		}
	}
	if !inHash { // private names of the packages around it
		for _, o := range outer {
			if !public(o) {
				r = append(r, path18{path: pre + "." + o, m: mem18{kind: 'v'}, note: "name of the package around"})
			}
		}
		r = append(r, path18{path: pre + ".nosuchmember", m: mem18{kind: 'v'}, note: "no such member"}, path18{path: pre + ".NoSuchMember", m: mem18{kind: 'v'}, note: "no such member", set: false})
	} else if !ok {
		r = append(r, path18{path: pre + ".newfield", m: mem18{kind: 'v'}, note: "no such field"})
	}
	return r
}

func v18(n string, v int) mem18      { return mem18{name: n, kind: 'v', val: v} }
func f18(n string, v int) mem18      { return mem18{name: n, kind: 'f', val: v} }
func a18(n string, v int) mem18      { return mem18{name: n, kind: 'a', val: v} }
func h18(n string, k ...mem18) mem18 { return mem18{name: n, kind: 'h', kids: k} }
func p18(n string, k ...mem18) mem18 { return mem18{name: n, kind: 'p', kids: k} }

func packages18() []mem18 {
	return []mem18{
		p18("p", v18("a", 11), v18("B", 12), f18("f", 13), f18("F", 14), h18("h", v18("k", 15), v18("K", 16)), h18("H", v18("k", 17), v18("K", 18), h18("sub", v18("z", 19), h18("Deep", v18("y", 20)))), a18("ar", 21), a18("Ar", 22)),
		p18("p", v18("a", 11), p18("q", v18("c", 31), v18("D", 32), f18("w", 33), f18("W", 34), h18("g", v18("k", 35)), h18("G", v18("k", 36), h18("s", v18("t", 37))))),
		p18("p", v18("a", 11), p18("Q", v18("c", 31), v18("D", 32), f18("w", 33), f18("W", 34), h18("g", v18("k", 35)), h18("G", v18("k", 36), h18("s", v18("t", 37))))),
		p18("p", v18("Top", 1), v18("top", 2), p18("q", v18("Mid", 3), v18("mid", 4), p18("r", v18("low", 5), v18("Low", 6), f18("fun", 7), f18("Fun", 8), h18("hh", v18("k", 9)), h18("Hh", v18("k", 10), h18("l", v18("m", 41))), p18("S", v18("last", 42), v18("Last", 43))))),
		p18("p", h18("H", h18("in", p18("q", v18("a", 51), v18("B", 52), h18("h", v18("k", 53)), h18("H", v18("k", 54), h18("l", v18("m", 55)))))), h18("h", p18("q", v18("a", 56), v18("B", 57)))),
		p18("p", v18("éa", 61), v18("Éa", 62), v18("aB", 63), v18("Ba", 64), v18("zZZ", 65), v18("Z", 66), v18("z", 67)),
	}
}

// how a package comes to be named from outside: definitions before, the text around an access, the prefix of the path
var alias18 = []struct{ def, around, pre string }{
	{"(def p PKG)", "_", "p"},
	{"(def p PKG) (def al p)", "_", "al"},
	{"(def p PKG) {al := p}", "_", "al"},
	{"(def p PKG)", "((fn [z] _) p)", "z"},
	{"(def p PKG)", "(let [z p] _)", "z"},
	{"(def p PKG) (defn mk [] p)", "(let [z (mk)] _)", "z"},
	{"(def p PKG) (def hh (hash pk:p))", "_", "hh.pk"},
	{"(def p PKG) (def hh (hash in:(hash pk:p)))", "_", "hh.in.pk"},
	{"(def p PKG) (def hh (hash Al:(hash deep:(hash pk:p))))", "_", "hh.Al.deep.pk"},
	{"(def P PKG)", "_", "P"},
	{"(def outer (package \"outer\" { (def inner PKG) }))", "_", "outer.inner"},
	{"(def outer (package \"outer\" { (def Hold (hash pk:PKG)) }))", "_", "outer.Hold.pk"},
	{"(def p PKG)", "(begin (defn acc [] _) (acc))", "p"},
	{"(def p PKG)", "(for [(def i 0) (< i 1) (set i (+ i 1))] _)", "p"},
	{"(def p PKG)", "(newScope (def al p) _)", "al"},
	{"(def p PKG)", "(begin (defn rec [n] (cond (== n 0) _ (rec (- n 1)))) (rec 2))", "p"},
	{"(def p PKG) (defmac acc [e] ^(begin ~e))", "(acc _)", "p"},
	{"(def p PKG)", "(eval (quote _))", "p"},
	{"(def p PKG)", "((fn [#z] (force #z)) _)", "p"},
	{"(def p PKG)", "(first (map (fn [x] _) [1]))", "p"},
	{"(def p PKG) (def other (package \"other\" { (def zz 1) (defn Peek [] nil) }))", "_", "p"},
}

// reading spellings by kind of member; @ is the path, yielding $
var reads18 = map[byte][]string{
	'v': {"(+ @ 0)", "{@ + 0}", "(id @)", "(let [v @] v)", "(begin (def v @) v)", "(== @ $) => true", "(first (list (+ @ 0)))", "{v18 = @; v18}", "(cond (== @ $) $ 0)", "((fn [] @))", "(let [w (id @)] (+ w 0))", "(cond @ $ 0)", "{@}", "(first (list (id @)))", "(type? @) => \"int64\""},
	'f': {"(@)", "(apply (fn [] (@)) [])", "(begin (defn th [] (@)) (th))", "(let [v @] (v))"},
	'a': {"{@[0] + 0}", "(let [v @] (aget v 0))", "(aget (let [v @] (append v 1)) 0)", "(first (concat @ [7]))"},
}

var sets18 = []string{"{@ = 77}", "(set @ 77)", "(begin {@ = 77} 77)", "((fn [v] (set @ v)) 77)", "{@ = 70 + 7}", "(let [] (set @ 77))"}

func checkC18(c *Ctx) {
	c.Explain = "Visibility of package members. For several packages (integers, functions, hashes, arrays and packages as members, of either case, nested up to three deep, inside hashes, hashes inside nested packages) every path through the package from outside, in every reading, calling and assigning spelling and through every way of naming the package (variables, parameters, hash fields, members of another package, from functions, loops, macros, eval, lazy arguments), is evaluated by abstract interpretation of the source and compared with a visibility model: a rejected access is an error and changes nothing, an allowed one yields or stores exactly the member. Functions made inside use private members, from wherever they are called."
	c.Assume = append(schemaAssume, "A hash field below a visible member is visible whatever its case; names not starting with a letter are not judged.")
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 10)
	s.Text = true
	f.E.MaxRec = 90
	n := 0
	add := func(rule, head string, segs []string) {
		const size = 12
		for len(segs) > 0 {
			k := len(segs)
			if k > size {
				k = size
			}
			n += k
			s.Check(c, rule, head+" => * ;; "+strings.Join(segs[:k], " ;; "), aSem|aRest|aPanic)
			segs = segs[k:]
		}
	}
	for pi, pk := range packages18() {
		paths := pk.paths("", true, false, nil)
		for ai, al := range alias18 {
			head := "(defn id [x] x) (def v18 0) " + strings.ReplaceAll(al.def, "PKG", pk.src())
			put := func(t string) string {
				parts := strings.SplitN(t, " => ", 2)
				parts[0] = strings.ReplaceAll(al.around, "_", parts[0])
				if strings.Contains(al.around, "(for") {
					parts[1] = map[bool]string{true: "!", false: "*"}[parts[1] == "!"]
				}
				return parts[0] + " => " + parts[1]
			}
			var rd, st, cl []string
			for i, p := range paths {
				full := al.pre + p.path
				spell := reads18[p.m.kind]
				if p.m.kind == 'p' || p.m.kind == 'h' {
					if !p.read {
						rd = append(rd, put("(id "+full+") => !"))
					} else {
						rd = append(rd, put("(let [v "+full+"] 5) => 5"))
					}
					if p.m.kind == 'h' && len(p.m.kids) > 0 {
						want := "!"
						if p.read {
							want = fmt.Sprint(p.m.kids[0].val)
							if p.m.kids[0].kind != 'v' {
								want = "*"
							}
						}
						rd = append(rd, put("(hget "+full+" "+p.m.kids[0].name+":) => "+want))
					}
				}
				for j, sp := range spell {
					if c.Tier != "thorough" && ai != 0 && (i+j+pi+ai)%4 != 0 {
						continue
					}
					if ai != 0 && (strings.Contains(sp, "for true") || strings.Contains(sp, "{v18")) {
						continue
					}
					want := fmt.Sprint(p.m.val)
					if x := strings.Index(sp, " => "); x >= 0 {
						want, sp = sp[x+4:], sp[:x]
						if want == "?" {
							continue
						}
					}
					if !p.read {
						want = "!"
					}
					t := strings.ReplaceAll(strings.ReplaceAll(sp, "@", full), "$", fmt.Sprint(p.m.val))
					if p.m.kind == 'f' {
						cl = append(cl, put(t+" => "+want))
					} else {
						rd = append(rd, put(t+" => "+want))
					}
				}
				if p.note == "no such member" && public(p.path[strings.LastIndex(p.path, ".")+1:]) {
					st = append(st, put("{"+full+" = 77} => !"))
					continue
				}
				if p.note == "goes on below an integer" {
					st = append(st, put("{"+full+" = 77} => !"))
					continue
				}
				for j, sp := range sets18 {
					if c.Tier != "thorough" && (i+j+pi+ai)%3 != 0 && (ai != 0 || p.set) {
						continue
					}
					t := strings.ReplaceAll(sp, "@", full)
					if !p.set {
						g := put(t + " => !")
						if p.read && p.m.kind == 'v' {
							g += " ;; " + put("(+ "+full+" 0) => "+fmt.Sprint(p.m.val))
						}
						st = append(st, g)
					} else if p.m.kind == 'v' {
						st = append(st, put(t+" => 77")+" ;; "+put("(+ "+full+" 0) => 77")+" ;; "+put("(set "+full+" "+fmt.Sprint(p.m.val)+") => *"))
					}
				}
			}
			add("read", head, rd)
			add("call", head, cl)
			add("assign", head, st)
		}
	}
	for _, t := range inside18 {
		segs := strings.Split(t, ";;")
		n += len(segs)
		for i := range segs {
			if !strings.Contains(segs[i], "=>") {
				segs[i] += " => * "
			}
		}
		s.Check(c, "inside", strings.Join(segs, " ;; "), aSem|aRest|aPanic)
	}
	c.Stats["accesses"] = n
	c.Floor("read", 30)
	c.Floor("call", 10)
	c.Floor("assign", 30)
	c.Floor("inside", 8)
}

// code inside the package, called from outside; private state after rejected assignments
var inside18 = []string{
	`(def p (package "p" { (def a 1) (defn f [x] (+ x a)) (defn F [x] (f x)) (defn Set [v] (set a v)) (defn Get [] a) (def h (hash k:1)) (defn K [] (hget h k:)) (defn SetK [v] (hset h k: v)) })) ;; (p.F 5) => 6 ;; (p.Get) => 1 ;; (p.Set 9) ;; (p.Get) => 9 ;; (p.F 5) => 14 ;; (p.f 5) => ! ;; (set p.a 3) => ! ;; {p.a = 3} => ! ;; (p.Get) => 9 ;; (p.K) => 1 ;; (set p.h.k 8) => ! ;; {p.h.k = 8} => ! ;; (p.K) => 1 ;; (p.SetK 4) ;; (p.K) => 4`,
	`(def p (package "p" { (def a 1) (defn Mk [] (fn [] a)) (defn Inc [] (fn [] (set a (+ a 1)))) (defn Get [] a) })) ;; ((p.Mk)) => 1 ;; (let [a 50] ((p.Mk))) => 1 ;; (def g (p.Inc)) ;; (g) ;; (g) ;; (p.Get) => 3 ;; (let [a 50 i (p.Inc)] (begin (i) a)) => 50 ;; (p.Get) => 4 ;; ((fn [a] ((p.Inc))) 7) ;; (p.Get) => 5`,
	`(def p (package "p" { (def a 1) (def q (package "q" { (def b 2) (defn Both [] (list a b)) (defn SetA [v] (set a v)) (defn SetB [v] (set b v)) })) (defn Get [] a) (defn Via [] (q.Both)) })) ;; (p.q.Both) => (list 1 2) ;; (p.q.SetA 8) ;; (p.Get) => 8 ;; (p.q.SetB 9) ;; (p.q.Both) => (list 8 9) ;; (p.Via) => (list 8 9) ;; (set p.q.b 0) => ! ;; (p.Via) => (list 8 9)`,
	`(def p (package "p" { (def q (package "q" { (def b 2) (def B 3) })) (defn Peek [] q.b) (defn See [] q.B) (defn Poke [v] (set q.b v)) (defn Put [v] (set q.B v)) })) ;; (p.Peek) => ! ;; (p.See) => 3 ;; (p.Poke 7) => ! ;; (p.Put 8) ;; (p.See) => 8 ;; (+ p.q.B 0) => 8`,
	`(def p (package "p" { (def a 1) (def B 2) })) (def o (package "o" { (defn Peek [] (+ p.a 0)) (defn See [] (+ p.B 0)) (defn Poke [v] (set p.a v)) (defn Put [v] (set p.B v)) })) ;; (o.Peek) => ! ;; (o.See) => 2 ;; (o.Poke 4) => ! ;; (o.Put 5) ;; (o.See) => 5`,
	`(def p (package "p" { (def a 1) (defn f [n] (cond (== n 0) a (f (- n 1)))) (defn F [n] (f n)) (defn even [n] (cond (== n 0) true (odd (- n 1)))) (defn odd [n] (cond (== n 0) false (even (- n 1)))) (defn Even [n] (even n)) })) ;; (p.F 3) => 1 ;; (p.Even 4) => true ;; (p.Even 3) => false ;; (p.even 4) => !`,
	`(def a 100) (def f (fn [] 200)) (def p (package "p" { (def a 1) (defn f [] a) (defn F [] (f)) (defn A [] a) })) ;; (p.F) => 1 ;; (p.A) => 1 ;; a => 100 ;; (f) => 200 ;; (set a 5) ;; (p.A) => 1 ;; (let [a 9] (p.A)) => 1 ;; (let [f (fn [] 3)] (p.F)) => 1`,
	`(def p (package "p" { (def a 1) (defn F [] a) })) (def fs (list p.F)) (def g (let [z p.F] z)) ;; (g) => 1 ;; (map (fn [x] (p.F)) [1 2]) => [1 1] ;; (def h (hash fn1:g)) ;; ((hget h fn1:)) => 1 ;; (apply g []) => 1`,
	`(def p (package "p" { (def a 1) (def B 2) })) ;; (def q p) ;; (set q.B 5) ;; (+ p.B 0) => 5 ;; (+ q.a 0) => ! ;; (set q.a 3) => ! ;; (def arr [p]) ;; (let [z (aget arr 0)] (+ z.a 0)) => ! ;; (let [z (aget arr 0)] (+ z.B 0)) => 5 ;; (def l (list p)) (let [z (first l)] (set z.a 1)) => !`,
	`(def p (package "p" { (def r (package "r" { (def s (package "s" { (def low 1) (def High 2) (defn Low [] low) })) })) })) ;; (+ p.r.s.High 0) => 2 ;; (+ p.r.s.low 0) => ! ;; (p.r.s.Low) => 1 ;; (def al p.r) ;; (+ al.s.High 0) => 2 ;; (+ al.s.low 0) => ! ;; (let [m p.r.s] (+ m.High 0)) => 2 ;; (let [m p.r.s] (+ m.low 0)) => ! ;; (set p.r 5) => ! ;; (set p.r.s 5) => ! ;; (+ p.r.s.High 0) => 2`,
	`(def p (package "p" { (defmac m [x] ^(+ ~x 1)) (def a 4) (defn F [] (m a)) })) ;; (p.F) => 5`,
	`(def p (package "p" { (struct T [(field X: int64) (field y: int64)]) (def t (T X:1 y:2)) (def U (T X:3 y:4)) (defn Y [] (+ t.y 0)) })) ;; (+ p.U.X 0) => 3 ;; (+ p.t.X 0) => ! ;; (p.Y) => 2 ;; {p.t.X = 9} => ! ;; {p.U.X = 9} => 9 ;; (+ p.U.X 0) => 9`,
}
