package main

import (
	"fmt"
	"strings"
)

func init() { checks["C17"] = checkC17; sharded["C17"] = true }

// kind17 is a field type with values of it (and what they are equal to) and values that are not of it.
type kind17 struct {
	typ  string
	good [][2]string // value, probe of (hget c %f) => expected: written "probe|expected"
	bad  []string
}

func checkC17(c *Ctx) {
	c.Explain = "Every write route against every field type. For each declared field type, a value of every kind the language has is written by every route (construction, hset with each spelling of the key, dot and infix assignment, set, through pointers, through a nested record, through a function argument, apply and a closure), and the whole route - lexer, parser, compiler, VM, builtins, type registry - is followed by abstract interpretation of the source. A value of the wrong kind must be an error and leave keys and value as they were; a right one must be stored. Keys of every kind that are not declared, values of the wrong element type inside slices (also written later, through aliases and pointers), redeclared structs and self-referring structs are enumerated the same way."
	c.Assume = schemaAssume
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	f.E.MaxRec = 60
	s := NewSchemas(c, f, false, 40)
	s.Text = true
	decl := `(struct Dog [(field x: int64)]) (struct Cat [(field x: int64)]) (def dd (Dog x: 1)) (def cc (Cat x: 1)) (def nn 8)`
	vals := map[string]string{
		"int": "5", "str": `"s"`, "float": "2.5", "bool": "true", "char": "'q'", "sym": "%sym", "list": "(list 1 2)", "ints": "[1 2]", "strs": `["a" "b"]`, "mixed": `["a" 1]`, "mixed2": `[1 "a"]`, "nested": "[[1] [2 3]]", "nestedbad": `[[1] ["a"]]`, "nestedbad2": "[[1] 2]",
		"hash": "(hash x: 1)", "dog": "dd", "cat": "cc", "dogs": "[dd dd]", "dogcat": "[dd cc]", "pdog": "(& dd)", "pcat": "(& cc)", "pint": "(& nn)", "typ": "int64", "dogtyp": "Dog", "fn": "(fn [a] a)", "raw": `(raw "ab")`, "prim": "+", "u64": "5ULL",
	}
	order := []string{"int", "str", "float", "bool", "char", "sym", "list", "ints", "strs", "mixed", "mixed2", "nested", "nestedbad", "nestedbad2", "hash", "dog", "cat", "dogs", "dogcat", "pdog", "pcat", "pint", "typ", "dogtyp", "fn", "raw", "prim", "u64"}
	// field type -> the kinds that are of it, with a probe of the stored value
	types := []struct {
		typ string
		ok  map[string]string
		ini string // a value of the type
		prb string // probe of the initial value
	}{
		{"int64", map[string]string{"int": "(hget c %f) => 5"}, "3", "(hget c %f) => 3"},
		{"string", map[string]string{"str": `(hget c %f) => "s"`}, `"i"`, `(hget c %f) => "i"`},
		{"bool", map[string]string{"bool": "(hget c %f) => true"}, "false", "(hget c %f) => false"},
		{"float64", map[string]string{"float": "(hget c %f) => 2.5"}, "1.5", "(hget c %f) => 1.5"},
		{"uint64", map[string]string{"u64": "(str (hget c %f)) => \"5ULL\""}, "7ULL", "(str (hget c %f)) => \"7ULL\""},
		{"([] int64)", map[string]string{"ints": "(hget c %f) => [1 2]"}, "[7]", "(hget c %f) => [7]"},
		{"([]string)", map[string]string{"strs": `(hget c %f) => ["a" "b"]`}, `["i"]`, `(hget c %f) => ["i"]`},
		{"([] ([] int64))", map[string]string{"nested": "(hget c %f) => [[1] [2 3]]"}, "[[7]]", "(hget c %f) => [[7]]"},
		{"Dog", map[string]string{"dog": "(hget (hget c %f) %x) => 1"}, "(Dog x: 9)", "(hget (hget c %f) %x) => 9"},
		{"([] Dog)", map[string]string{"dogs": "(hget (aget (hget c %f) 1) %x) => 1"}, "[(Dog x: 9)]", "(hget (aget (hget c %f) 0) %x) => 9"},
		{"(* Dog)", map[string]string{"pdog": "(hget (deref (hget c %f)) %x) => 1"}, "(& (Dog x: 9))", "(hget (deref (hget c %f)) %x) => 9"},
		{"(* int64)", map[string]string{"pint": "(deref (hget c %f)) => 8"}, "(& nn)", "(deref (hget c %f)) => 8"},
	}
	routes := []string{
		`(hset c f: V)`, `(hset c (quote f) V)`, `(hset c [f:] V)`, `{c.f = V}`, `(set c.f V)`, `{c[%f] = V}`, `{c.f := V}`,
		`(hset (deref p) f: V)`, `(hset (* p) f: V)`, `(derefSet p (Car f: V))`, `(derefSet (& c) (Car g: 4 f: V))`,
		`((fn [r] (hset r f: V)) c)`, `((fn [r v] {r.f = v}) c V)`, `(apply hset [c %f V])`, `(let [r c] (hset r %f V))`,
		`{o.c.f = V}`, `(hset o.c f: V)`, `(set o.c.f V)`, `(hset (hget o c:) f: V)`, `(hset c %g 4) (hset c f: V)`,
	}
	check := func(rule, text string, asp int) {
		i := strings.Index(text, ";;")
		if i > 0 && !strings.Contains(text[:i], "=>") {
			text = strings.TrimRight(text[:i], " ") + " => * " + text[i:]
		}
		s.Check(c, rule, text, asp)
	}
	full := c.Tier == "thorough"
	for ti, t := range types {
		pre := fmt.Sprintf(`%s (struct Car [(field f: %s) (field g: int64)]) (struct O [(field c: Car)]) (def c (Car f: %s g: 4)) (def p (& c)) (def o (O c: c))`, decl, t.typ, t.ini)
		same := " ;; " + t.prb + " ;; (hget c %g) => 4 ;; (str (keys c)) => \"[f g]\""
		for vi, k := range order {
			v := vals[k]
			probe, good := t.ok[k]
			put := func(r string) string { return strings.ReplaceAll(r, "V", v) }
			if good {
				for _, r := range routes {
					text := pre + " ;; " + put(r) + " => * ;; " + probe
					if !strings.Contains(r, "derefSet") {
						text += ` ;; (str (keys c)) => "[f g]"`
					}
					check("well-typed-accepted", text, aSem|aPanic)
				}
				check("well-typed-accepted", pre+" ;; (def c (Car g: 4 f: "+v+")) => * ;; "+probe, aSem|aPanic)
				continue
			}
			for ri, r := range routes {
				if !full && (ti+vi+ri)%4 != 0 {
					continue
				}
				check("ill-typed-rejected", pre+" ;; "+put(r)+" => !"+same, aSem|aRest|aFault|aPanic)
			}
			check("ill-typed-rejected", pre+" ;; (Car f: "+v+") => !"+same, aSem|aRest|aFault|aPanic)
			check("ill-typed-rejected", pre+" ;; (def c (Car g: 1 f: "+v+")) => !"+same, aSem|aPanic)
		}
		// nil and the empty slice
		check("nil-accepted", pre+` ;; (hset c f: nil) => * ;; (hget c %f) => nil ;; (str (keys c)) => "[f g]"`, aSem|aPanic)
		check("nil-accepted", pre+` ;; (def c (Car f: nil)) => * ;; (hget c %f) => nil`, aSem|aPanic)
		if strings.HasPrefix(t.typ, "([]") {
			check("empty-slice-accepted", pre+` ;; (hset c f: []) => * ;; (hget c %f) => []`, aSem|aPanic)
			check("empty-slice-accepted", pre+` ;; {c.f = []} => * ;; (hget c %f) => []`, aSem|aPanic)
		} else {
			check("empty-slice-rejected", pre+` ;; (hset c f: []) => !`+same, aSem|aPanic)
		}
	}
	// fields that are not declared
	pre := decl + ` (struct Car [(field f: int64) (field g: string)]) (struct O [(field c: Car)]) (def c (Car f: 3 g: "z")) (def p (& c)) (def o (O c: c))`
	same := ` ;; (hget c %f) => 3 ;; (hget c %g) => "z" ;; (str (keys c)) => "[f g]" ;; (len c) => 2`
	for _, k := range []string{"h:", "(quote h)", `"f"`, `"h"`, "'f'", "'h'", "102", "0", "-1", "true", "2.5", "nil", "[1]", "[h:]", `["f"]`, "[f: g:]", "(list 1)", "(quote (f))", "(quote F)", "%.f", "(quote a.f)", "(quote c.f)", "5ULL", "dd", "(symnum %f)", "(str %f)", "(gensym)", "%ff", "(raw \"f\")"} {
		for _, r := range []string{`(hset c K 4)`, `((fn [r k] (hset r k 4)) c K)`, `(hset (deref p) K 4)`, `(apply hset [c K 4])`, `(hset o.c K 4)`} {
			check("undeclared-rejected", pre+" ;; "+strings.ReplaceAll(r, "K", k)+" => !"+same, aSem|aRest|aPanic)
		}
		if !strings.HasSuffix(k, ":") {
			check("undeclared-rejected", pre+" ;; {c["+strings.Replace(k, "(quote ", "(quote ", 1)+"] = 4} => !"+same, aSem|aPanic)
		}
		check("undeclared-rejected", pre+" ;; (def c (Car f: 4 "+k+" 4)) => !"+same, aSem|aPanic)
	}
	for _, w := range []string{`{c.h = 4}`, `(set c.h 4)`, `{c.h := 4}`, `{o.c.h = 4}`, `{c.f.x = 4}`, `{o.d = 4}`, `{o.c = c} {o.c.h = 1}`, `(derefSet p (Car h: 3))`, `(derefSet p (hash h: 3))`, `(derefSet p dd)`, `(derefSet p 5)`, `(derefSet p "f")`, `(derefSet p nil)`, `(derefSet p [1])`, `(derefSet p p)`, `(derefSet p (& dd))`, `(derefSet (& %f) %h)`, `(let [k %f] (derefSet (& k) (quote h)))`, `(hset c 1)`, `(hset c f:)`, `(def c.h 4)`, `{c.h++}`, `{c.h += 4}`, `{c.g += 4}`, `{c.f += 1.5}`} {
		w2 := w
		want := " => *"
		if !strings.HasPrefix(w, "(def c.h") {
			want = " => !"
		}
		check("undeclared-rejected", pre+" ;; "+w2+want+same, aSem|aPanic)
	}
	for _, t := range texts17 {
		check(t[0], t[1], aSem|aPanic)
	}
	c.Floor("ill-typed-rejected", 800)
	c.Floor("well-typed-accepted", 200)
	c.Floor("undeclared-rejected", 200)
	c.Stats["programs"] = s.Runs
	c.Stats["paths"] = s.Paths
}

// rule, program
var texts17 = [][2]string{
	// elements of slices, written later and through other names
	{"slice-element", `(struct Car [(field s: ([]string))]) (def c (Car s: ["a" "b"])) ;; {c.s[0] = 5} => ! ;; (== (hget c %s) ["a" "b"]) => true ;; {c.s[1] = "z"} => * ;; (== (hget c %s) ["a" "z"]) => true`},
	{"slice-element", `(struct Car [(field s: ([]string))]) (def c (Car s: ["a" "b"])) ;; (aset (hget c s:) 0 5) => ! ;; (== (hget c %s) ["a" "b"]) => true ;; (aset (hget c s:) 0 "y") => * ;; (== (hget c %s) ["y" "b"]) => true`},
	{"slice-element", `(struct Car [(field s: ([]string))]) (def t ["a"]) (def c (Car s: t)) ;; (aset t 0 5) => ! ;; {t[0] = 5} => ! ;; (aset t 0 nil) => * ;; (== (hget c %s) [nil]) => true`},
	{"slice-element", `(struct Car [(field s: ([]string))]) (def t ["a"]) (def c (Car s: t)) ;; (derefSet (& t) [1 2]) => ! ;; (== (hget c %s) ["a"]) => true ;; (derefSet (& t) ["p" "q"]) => * ;; (== (hget c %s) ["p" "q"]) => true ;; (aset t 1 4) => ! ;; (== (hget c %s) ["p" "q"]) => true`},
	{"slice-element", `(struct Car [(field s: ([]string))]) (def t ["a"]) (def u ["b"]) (def c (Car s: t)) (derefSet (& t) u) ;; (aset u 0 4) => ! ;; (== (hget c %s) ["b"]) => true`},
	{"slice-element", `(struct Car [(field s: ([] int64))]) (def t [1 2 3]) (def c (Car s: t)) (def b {t[0:2]}) ;; (append b "s") => * ;; (== (hget c %s) [1 2 3]) => true ;; (aset b 0 "s") => ! ;; (== (hget c %s) [1 2 3]) => true`},
	{"slice-element", `(struct Car [(field s: ([] int64))]) (def t [1 2 3]) (def c (Car s: t)) (def b {t[0:2]}) ;; (appendslice b ["s" "t"]) => * ;; (concat b ["s"]) => * ;; (== (hget c %s) [1 2 3]) => true`},
	{"slice-element", `(struct Car [(field s: ([] int64))]) (def c (Car s: [1])) ;; (hset c s: (append (hget c s:) "x")) => ! ;; (== (hget c %s) [1]) => true ;; (hset c s: (append (hget c s:) 2)) => * ;; (== (hget c %s) [1 2]) => true ;; (hset c s: (append [] "x")) => ! ;; (== (hget c %s) [1 2]) => true`},
	{"slice-element", `(struct Car [(field s: ([] int64))]) (def e []) (def c (Car s: e)) (type? e) ;; (hset c s: (append e "x")) => ! ;; (== (hget c %s) []) => true ;; (hset c s: (appendslice e [3])) => * ;; (== (hget c %s) [3]) => true`},
	{"slice-element", `(struct Car [(field s: ([] ([] int64)))]) (def i [1]) (def c (Car s: [i])) ;; (aset i 0 "x") => ! ;; (aset (hget c s:) 0 ["x"]) => ! ;; (aset (hget c s:) 0 3) => ! ;; (== (hget c %s) [[1]]) => true ;; (aset (hget c s:) 0 [4]) => * ;; (aset (aget (hget c s:) 0) 0 "x") => ! ;; (== (hget c %s) [[4]]) => true`},
	{"slice-element", `(struct Dog [(field x: int64)]) (struct Cat [(field x: int64)]) (struct Car [(field s: ([] Dog))]) (def c (Car s: [(Dog x: 1)])) ;; (aset (hget c s:) 0 (Cat x: 2)) => ! ;; (hset (aget (hget c s:) 0) x: "s") => ! ;; (hget (aget (hget c s:) 0) x:) => 1`},
	{"slice-element", `(def a [1 2]) (aset a 0 "x") ;; (== a ["x" 2]) => true ;; (type? a) => * ;; (aset a 1 2.5) => * ;; (== a ["x" 2.5]) => true`},
	{"slice-view", `(struct Car [(field s: ([] int64))]) (def t [1 2 3]) (def b {t[0:2]}) (def c (Car s: t)) ;; (aset b 0 "s") => ! ;; (== (hget c %s) [1 2 3]) => true`},
	// through pointers to the value of a field
	{"pointer-write", `(struct Car [(field s: int64)]) (def a 4) (def c (Car s: a)) ;; (derefSet (& a) "x") => ! ;; (derefSet (& a) 2.5) => ! ;; (derefSet (& a) true) => ! ;; (derefSet (& a) c) => ! ;; (hget c %s) => 4`},
	{"pointer-write", `(struct Car [(field s: string)]) (def a "x") (def c (Car s: a)) ;; (derefSet (& a) 5) => ! ;; (derefSet (& a) (quote b)) => ! ;; (derefSet (& a) ["b"]) => ! ;; (hget c %s) => "x"`},
	{"pointer-write", `(struct Dog [(field x: int64)]) (struct Cat [(field x: int64)]) (struct Car [(field s: (* Dog))]) (def p (& (Dog x: 1))) (def c (Car s: p)) ;; (derefSet (& p) (& (Cat x: 5))) => ! ;; (hget (deref (hget c s:)) x:) => 1 ;; (derefSet p (Cat x: 5)) => ! ;; (hget (deref (hget c s:)) x:) => 1 ;; (derefSet p (Dog x: 6)) => * ;; (hget (deref (hget c s:)) x:) => 6`},
	{"pointer-write", `(struct Car [(field s: int64)]) (def c (Car s: 4)) (def d (Car s: 7)) (derefSet (& c) d) ;; (hset c s: "x") => ! ;; (hset d s: 3) => * ;; [(hget c %s) (hget d %s)] => [7 3] ;; (hset c "t" 1) => ! ;; (str (keys c)) => "[s]"`},
	// definitions in force
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car a: 1)) (struct Car [(field b: string)]) ;; (hset c b: "x") => ! ;; (hset c a: "x") => ! ;; (hset c a: 5) => * ;; (hget c a:) => 5 ;; (str (keys c)) => "[a]" ;; (def d (Car b: "q")) => * ;; (hset d a: 1) => ! ;; (hset d b: 2) => ! ;; (Car a: 1) => ! ;; (hset c a: nil) => * ;; (hget c a:) => nil ;; (hset c b: nil) => !`},
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car a: 1)) (struct Car [(field a: string)]) ;; (hset c a: "x") => ! ;; {c.a = "x"} => ! ;; (hset c a: 7) => * ;; (hget c a:) => 7 ;; (def d (Car a: "y")) => * ;; (hset d a: 7) => ! ;; {d.a = "z"} => * ;; (hget d a:) => "z"`},
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car)) (struct Car [(field a: string)]) ;; (hset c a: "x") => ! ;; (str (keys c)) => "[]" ;; (hset c a: 3) => *`},
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car a: 1)) (struct Car [(field b: string)]) ;; (derefSet (& c) (Car b: "s")) => ! ;; (str (keys c)) => "[a]" ;; (hget c a:) => 1`},
	{"redeclared", `(struct Car [(field a: int64)]) (struct O [(field c: Car)]) (def c (Car a: 1)) (def o (O c: c)) (struct Car [(field a: string)]) (def d (Car a: "s")) ;; (hset o c: d) => ! ;; (hget (hget o c:) a:) => 1 ;; {o.c = d} => ! ;; {o.c.a = "s"} => ! ;; {o.c.a = 4} => * ;; (hget c a:) => 4 ;; (hset o c: c) => *`},
	{"redeclared", `(struct Car [(field a: int64)]) (struct O [(field c: ([] Car)) (field p: (* Car))]) (def c (Car a: 1)) (def o (O c: [c] p: (& c))) (struct Car [(field a: string)]) (def d (Car a: "s")) ;; (hset o c: [d]) => ! ;; (hset o c: [c d]) => ! ;; (hset o p: (& d)) => ! ;; (aset (hget o c:) 0 d) => ! ;; (hset o c: [c c]) => * ;; (hset o p: (& c)) => * ;; (hget (aget (hget o c:) 1) a:) => 1`},
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car a: 1)) (struct Car [(field a: string)]) (def d (Car a: "s")) (struct O [(field c: ([] Car)) (field p: (* Car)) (field q: Car)]) (def o (O)) ;; (hset o c: [c]) => ! ;; (hset o p: (& c)) => ! ;; (hset o q: c) => ! ;; (str (keys o)) => "[]" ;; (hset o c: [d d]) => * ;; (hset o p: (& d)) => * ;; (hset o q: d) => * ;; (str (keys o)) => "[c p q]"`},
	{"redeclared", `(defmap Car) (def c (Car z: 1)) (struct Car [(field a: int64)]) ;; (Car z: 1) => ! ;; (hset c z: "x") => * ;; (hget c z:) => "x" ;; (def d (Car a: 4)) => * ;; (hset d z: 1) => !`},
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car a: 1)) ;; (struct Car [(field b: nosuch)]) => ! ;; (hset c b: 1) => ! ;; (hset c a: "x") => ! ;; (def d (Car a: 6)) => * ;; (hget d a:) => 6 ;; (Car b: 1) => !`},
	{"redeclared", `(struct Car [(field a: int64)]) (def c (Car a: 1)) ((fn [] (struct Car [(field b: string)]) 1)) ;; (hset c b: "x") => ! ;; (hset c a: "x") => ! ;; (hset c a: 9) => * ;; (hget c a:) => 9`},
	{"redeclared", `(struct Car [(field a: int64)]) (def mk (fn [v] (Car a: v))) (def c (mk 1)) (struct Car [(field a: string)]) ;; (mk 1) => ! ;; (hget (mk "s") a:) => "s" ;; (hset c a: "s") => ! ;; (hset c a: 3) => *`},
	// a struct that refers to itself
	{"self-reference", `(struct N [(field v: int64) (field next: (* N)) (field kids: ([] N)) (field me: N)]) (struct M [(field v: int64)]) (def a (N v: 1)) (def m (M v: 1)) (def b (N v: 2 next: (& a) kids: [a a] me: a)) ;; (hset b next: (& m)) => ! ;; (hset b kids: [a m]) => ! ;; (hset b me: m) => ! ;; (hget (deref (hget b next:)) v:) => 1 ;; (len (hget b kids:)) => 2 ;; (hset b kids: [b]) => * ;; (hset b next: (& b)) => * ;; (hget (deref (hget b next:)) v:) => 2`},
	// a record that is no declared struct is not restricted
	{"undeclared-types-free", `(def h (hash a: 1)) ;; (hset h "b" 2) => * ;; (hset h a: "x") => * ;; (hset h 3 [1 "x"]) => * ;; (hget h a:) => "x" ;; (len h) => 3`},
	{"undeclared-types-free", `(defmap Foo) (def h (Foo a: 1)) ;; (hset h "b" 2) => * ;; (hset h a: "x") => * ;; (hget h a:) => "x"`},
	{"independent-instances", `(struct Car [(field a: int64) (field s: ([] int64))]) (def c (Car a: 1 s: [1])) (def d (Car a: 1 s: [2])) ;; (hset c a: 5) => * ;; (hset d a: "x") => ! ;; [(hget c a:) (hget d a:)] => [5 1] ;; (aset (hget c s:) 0 9) => * ;; (== [(hget c s:) (hget d s:)] [[9] [2]]) => true`},
	{"delete-then-write", `(struct Car [(field a: int64) (field b: string)]) (def c (Car a: 1 b: "x")) (hdel c a:) ;; (hset c a: "x") => ! ;; (str (keys c)) => "[b]" ;; (hset c a: 4) => * ;; (hget c a:) => 4`},
	{"empty-struct", `(struct E []) (def e (E)) ;; (hset e a: 1) => ! ;; (hset e "a" 1) => ! ;; (len e) => 0 ;; (E a: 1) => !`},
	{"empty-struct", `(struct E) (def e (E)) ;; (hset e a: 1) => ! ;; {e.a = 1} => ! ;; (len e) => 0`},
	{"multi-field", `(struct Car [(field a: int64) (field b: string) (field c: bool)]) (def r (Car a: 1)) ;; (Car a: 1 b: 2 c: true) => ! ;; (Car a: 1 b: "x" c: 3) => ! ;; (Car c: true b: "s" a: "x") => ! ;; (hset r b: true) => ! ;; (hset r c: "s") => ! ;; (hset r b: "s") => * ;; (str (keys r)) => "[a b]"`},
}
