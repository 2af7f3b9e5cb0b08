package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func init() { checks["C14"] = checkC14; sharded["C14"] = true }

// dump renders everything reachable from v, objects named by the order in which they are met;
// interpreters, registered types and functions are left out.
func (f *Fix) dump(st *State, v Value) string {
	var sb strings.Builder
	num := map[string]int{}
	skip := map[string]bool{"Zlisp": true, "RegisteredType": true, "SexpFunction": true, "PrintState": true}
	leaf := map[string]bool{"SexpInt": true, "SexpUint64": true, "SexpFloat": true, "SexpChar": true, "SexpStr": true, "SexpSymbol": true, "SexpBool": true} // never written after they are made
	var walk func(v Value, d int)
	walk = func(v Value, d int) {
		if d > 60 {
			sb.WriteString("DEEP")
			return
		}
		id := func(k string) bool {
			n, ok := num[k]
			if !ok {
				n = len(num)
				num[k] = n
			}
			fmt.Fprintf(&sb, "#%d", n)
			return !ok
		}
		switch x := v.(type) {
		case IfaceV:
			sb.WriteString(typeKey(x.T) + ":")
			walk(x.V, d+1)
		case PtrV:
			c, ok := st.rawLoad(x)
			if s, is := c.(*StructV); is {
				if n, isN := s.T.(*types.Named); isN && skip[n.Obj().Name()] {
					sb.WriteString("&" + n.Obj().Name())
					return
				}
			}
			if s, is := c.(*StructV); is {
				if n, isN := s.T.(*types.Named); isN && leaf[n.Obj().Name()] {
					sb.WriteString(n.Obj().Name())
					if n.Obj().Name() == "SexpSymbol" { // the spelling k: or k does not matter
						fmt.Fprintf(&sb, "%s/%s", valKey(f.FieldOf(s, "name")), valKey(f.FieldOf(s, "isDot")))
						return
					}
					walk(c, d+1)
					return
				}
			}
			if id(valKey(x)) && ok {
				walk(c, d+1)
			}
		case *StructV:
			if n, isN := x.T.(*types.Named); isN && skip[n.Obj().Name()] {
				sb.WriteString(n.Obj().Name())
				return
			}
			sb.WriteString("{")
			for _, e := range x.F {
				walk(e, d+1)
				sb.WriteString(",")
			}
			sb.WriteString("}")
		case *ArrV:
			for _, e := range x.E {
				walk(e, d+1)
				sb.WriteString(",")
			}
		case SliceV:
			if x.Len == 0 {
				sb.WriteString("[]")
				return
			}
			id(fmt.Sprintf("s%d%s", x.Obj, x.P.String()))
			fmt.Fprintf(&sb, "@%d[", x.Off)
			for i := 0; i < x.Len; i++ {
				walk(st.sliceElem(x, i), d+1)
				sb.WriteString(" ")
			}
			sb.WriteString("]")
		case MapV:
			if id(fmt.Sprintf("m%d", x.Obj)) {
				if m, ok := st.mapObj(x.Obj); ok {
					es := append([]MapEnt{}, m.Ents...)
					sort.Slice(es, func(i, j int) bool { return valKey(es[i].K) < valKey(es[j].K) })
					for _, e := range es {
						if !e.Del {
							walk(e.K, d+1)
							sb.WriteString("=>")
							walk(e.V, d+1)
							sb.WriteString(";")
						}
					}
				}
			}
		default:
			sb.WriteString(valKey(v))
		}
	}
	walk(v, 0)
	return sb.String()
}

type key14 struct{ src, canon, print, js string } // how it is written, rendered by canon, printed in a hash, written in JSON ("" : not a JSON key)

type set14 struct {
	name  string
	keys  []key14
	miss  []string // keys never set: looking them up or deleting them changes nothing
	ctor  string   // constructor
	tn    string   // type name
	setup string
}

type node14 struct {
	st    *State
	keys  []int // live keys in insertion order
	vals  map[int]int
	trail []string
}

func sym14(n string) key14 { return key14{n + ":", `sym:"` + n + `"`, n, n} }
func int14(n string) key14 { return key14{n, "SexpInt:i" + n, n, ""} }
func str14(s string) key14 {
	return key14{strconv.Quote(s), "SexpStr:" + strconv.Quote(s), strconv.Quote(s), s}
}

func hashSets() []set14 {
	return []set14{
		{name: "symbols", keys: []key14{sym14("a"), sym14("b"), sym14("c")}, miss: []string{"zz:", "5", "\"a\""}},
		{name: "integers", keys: []key14{int14("1"), int14("2"), int14("-1")}, miss: []string{"3", "\"1\"", "zz:"}},
		{name: "strings", keys: []key14{str14("a"), str14("b"), str14("")}, miss: []string{"\"c\"", "a:", "0"}},
		{name: "characters", keys: []key14{{"'a'", "SexpChar:i97", "'a'", ""}, {"'b'", "SexpChar:i98", "'b'", ""}, sym14("a")}, miss: []string{"'c'", "\"a\"", "99"}},
		{name: "colliding", keys: []key14{sym14("a"), {"(symnum %a)", "SexpInt:$a", "$a", ""}, sym14("b")}, miss: []string{"(symnum %b)", "(symnum %zz)", "zz:"}},
		{name: "colliding-2", keys: []key14{{"(symnum %q)", "SexpInt:$q", "$q", ""}, int14("7"), sym14("q")}, miss: []string{"(symnum %zz)", "zz:"}},
		{name: "mixed", keys: []key14{sym14("a"), str14("a"), {"[1 2]", "[SexpInt:i1 SexpInt:i2]", "[1 2]", ""}}, miss: []string{"[2 1]", "[]", "97"}},
		{name: "one-element-array", keys: []key14{{"[5]", "SexpInt:i5", "5", ""}, sym14("a"), {"[\"s\"]", `SexpStr:"s"`, `"s"`, ""}}, miss: []string{"[6]", "[zz:]"}},
		{name: "map-type", keys: []key14{sym14("a"), sym14("b"), str14("c")}, ctor: "(rec14", tn: "rec14", setup: "(defmap rec14) ", miss: []string{"zz:", "1"}},
	}
}

func checkC14(c *Ctx) {
	c.Explain = "Hashes as insertion-ordered maps: from the empty hash, every operation (setting each of three keys to each of two values, deleting each key, deleting and looking up missing keys) is applied by abstract interpretation of the source to every representation state reachable, until no new representation (buckets, key order, counters, sharing) appears or the depth bound is reached, for several key sets (symbols, integers, strings, characters, arrays, colliding hash codes, mixed kinds, named map types). At every state length, key list, lookups with and without default, positional access, range iteration, the printed form and the JSON text must denote exactly the model's content in insertion order. Each operation is applied through each of its script spellings; literals, repeated keys, copies through pointers and deletion between copies separately."
	c.Assume = []string{"The set of reachable representations is computed for three keys and two values per key set; hashes of more keys rely on buckets and key order being handled uniformly. First-insertion order of a key that was deleted counts from its new insertion."}
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp+StandardSetup", err)
		return
	}
	s := NewSchemas(c, f, false, 10)
	maxDepth, maxStates := 6, 700
	if c.Tier == "thorough" {
		maxDepth, maxStates = 14, 6000
	}
	states, edges := 0, 0
	for _, ks := range hashSets() {
		if c.Tier == "thorough" { // a fourth key
			ks.keys = append(ks.keys, key14{"fourth:", `sym:"fourth"`, "fourth", "fourth"})
		}
		if !c.Mine() {
			continue
		}
		ev := func(st *State, t string) (*State, Value, bool, string) {
			outs, err := f.Call(st.Clone(), "Zlisp", "EvalString", f.Env, StrV(t))
			switch {
			case err != nil:
				return nil, nil, false, err.Error()
			case len(outs) != 1:
				return nil, nil, false, fmt.Sprintf("undecided: %d outcomes", len(outs))
			case outs[0].Kind == kPanic:
				return outs[0].St, nil, false, "Go panic: " + outs[0].St.Show(outs[0].PanicV)
			case outs[0].Kind != kReturn:
				return outs[0].St, nil, false, "undecided: " + outs[0].Why
			}
			o := outs[0]
			o.St.trace = nil
			return o.St, o.Ret[0], isNilV(o.Ret[1]), ""
		}
		bad := 0
		fail := func(n *node14, rule, f string, a ...interface{}) {
			bad++
			c.Ob(rule, ks.name+": "+strings.Join(n.trail, " "), false, "zygo/hashutils.go", f, a...)
		}
		ctor := ks.ctor
		tn := "hash"
		if ctor == "" {
			ctor = "(hash"
		} else {
			tn = ks.tn
		}
		st, _, ok, why := ev(f.St, ks.setup+" (def h "+ctor+")) (def acc 0) (quote (zz q a b c))")
		if !ok {
			c.Ob("hash-states", ks.name, false, "", "cannot build the empty hash: %s", why)
			continue
		}
		// the numbers of symbols in canonical forms
		for i := range ks.keys {
			k := &ks.keys[i]
			if j := strings.Index(k.canon, "$"); j >= 0 {
				_, v, ok, why := ev(st, k.src)
				if !ok {
					c.Ob("hash-states", ks.name, false, "", "symnum: %s", why)
				}
				k.canon = s.canon(st, v, 5)
				if st2, v2, ok, _ := ev(st, k.src); ok {
					k.canon = s.canon(st2, v2, 5)
				}
				k.print = strings.TrimPrefix(k.canon, "SexpInt:i")
			}
		}
		root := &node14{st: st, vals: map[int]int{}}
		seen := map[string]bool{}
		front := []*node14{root}
		nst, ned, depth := 0, 0, 0
		complete := true
		for len(front) > 0 && bad < 3 {
			var next []*node14
			for _, n := range front {
				nst++
				observe14(f, s, ks, tn, n, ev, fail)
				if bad >= 3 {
					break
				}
				if depth >= maxDepth || nst > maxStates {
					complete = false
					continue
				}
				type op struct {
					text string
					key  int
					val  int // 0 delete, <0 nothing
				}
				var ops []op
				for i, k := range ks.keys {
					for _, v := range []int{1, 2} {
						spell := []string{fmt.Sprintf("(hset h %s %d)", k.src, v)}
						if !strings.HasPrefix(k.src, "[") {
							spell = append(spell, fmt.Sprintf("{h[%s] = %d}", strings.Replace(k.src, ":", "", 1), v))
						}
						if strings.HasSuffix(k.src, ":") {
							spell[1] = fmt.Sprintf("{h.%s = %d}", strings.TrimSuffix(k.src, ":"), v)
						}
						ops = append(ops, op{spell[(nst+i+v)%len(spell)], i, v})
					}
					ops = append(ops, op{fmt.Sprintf("(hdel h %s)", k.src), i, 0})
				}
				for _, m := range ks.miss {
					ops = append(ops, op{"(hdel h " + m + ")", -1, -1}, op{"(hget h " + m + " 0)", -1, -1})
				}
				for _, o := range ops {
					ned++
					m := &node14{vals: map[int]int{}, trail: append(append([]string{}, n.trail...), o.text)}
					for k, v := range n.vals {
						m.vals[k] = v
					}
					m.keys = append(m.keys, n.keys...)
					if o.val > 0 {
						if m.vals[o.key] == 0 {
							m.keys = append(m.keys, o.key)
						}
						m.vals[o.key] = o.val
					} else if o.val == 0 && m.vals[o.key] != 0 {
						delete(m.vals, o.key)
						var r []int
						for _, k := range m.keys {
							if k != o.key {
								r = append(r, k)
							}
						}
						m.keys = r
					}
					st, _, ok, why := ev(n.st, o.text)
					if !ok {
						fail(m, "hash-operation", "the operation fails: %s", why)
						break
					}
					m.st = st
					_, hv, ok, why := ev(st, "h")
					if !ok {
						fail(m, "hash-operation", "the hash is gone: %s", why)
						break
					}
					d := fmt.Sprint(m.keys, m.vals) + f.dump(st, hv)
					if seen[d] {
						continue
					}
					seen[d] = true
					next = append(next, m)
				}
				if bad >= 3 {
					break
				}
			}
			front = next
			depth++
		}
		states += nst
		edges += ned
		if bad == 0 {
			c.Ob("hash-states", ks.name, nst >= 20, "zygo/hashutils.go", "%d representation states, %d operations, complete=%v", nst, ned, complete)
		}
		c.Stats["states "+ks.name] = nst
		if complete {
			c.Stats["complete "+ks.name] = 1
		}
	}
	// literals and repeated keys
	for _, t := range []string{
		"(len (hash a:1 b:2 a:3)) => 2 ;; (hget (hash a:1 b:2 a:3) a:) => 3 ;; (str (hash a:1 b:2 a:3)) => \"{a:3 b:2}\"",
		"(str (hash)) => \"{}\" ;; (len (hash)) => 0 ;; (hget (hash) a:) => ! ;; (hget (hash) a: 7) => 7 ;; (hpair (hash) 0) => !",
		"(def h (hash a:1 b:2)) ;; (hdel h a:) ;; (hdel h b:) ;; (str h) => \"{}\" ;; (len h) => 0 ;; (empty? h) => true ;; (hset h b: 4) ;; (str h) => \"{b:4}\" ;; (empty? h) => false",
		"(def h (hash a:1)) ;; (hset h 1.5 2) => ! ;; (hset h true 2) => ! ;; (hset h nil 2) => ! ;; (hset h (hash) 2) => ! ;; (len h) => 1 ;; (str h) => \"{a:1}\"",
		"(def h (hash a:1 b:2 c:3)) ;; (hpair h 3) => ! ;; (hpair h -1) => ! ;; (hdel h b:) ;; (hpair h 1) => (quote (c 3)) ;; (hpair h 2) => ! ;; (hpair h 0) => (quote (a 1))",
		"(def h (hash a:1 b:2)) (def g h) ;; (hdel g a:) ;; (len h) => 1 ;; (hset h c: 5) ;; (str g) => \"{b:2 c:5}\"",
		"(def h (hash a:(hash b:1))) ;; (hset (hget h a:) c: 2) ;; (str h) => \"{a:{b:1 c:2}}\" ;; (hdel (hget h a:) b:) ;; (str h) => \"{a:{c:2}}\" ;; {h.a.c = 9} ;; (str h) => \"{a:{c:9}}\"",
		"(def h (hash a:1 b:2 c:3)) ;; (begin (def s \"\") (range k v h (set s (concat s (str k) (str v)))) s) => \"a1b2c3\" ;; (hdel h a:) ;; (begin (def s \"\") (range k v h (set s (concat s (str k) (str v)))) s) => \"b2c3\"",
		// copies through a pointer
		"(def h (hash a:1 b:2)) (def p (& h)) (def g (hash c:3 d:4)) ;; (derefSet p g) ;; (str h) => \"{c:3 d:4}\" ;; (hset g c: 9) (hset g e: 5) (hdel g d:) ;; (str h) => \"{c:3 d:4}\" ;; (str g) => \"{c:9 e:5}\" ;; (hset h d: 7) (hset h f: 8) ;; (str h) => \"{c:3 d:7 f:8}\" ;; (str g) => \"{c:9 e:5}\" ;; (len h) => 3 ;; (len g) => 2",
		"(def h (hash a:1)) (def p (& h)) (def g (hash c:3)) ;; (derefSet p g) ;; (hdel h c:) ;; (str g) => \"{c:3}\" ;; (hget g c: 0) => 3 ;; (len g) => 1 ;; (len h) => 0 ;; (hset g x: 1) (hset h y: 2) (hset g z: 3) ;; (str g) => \"{c:3 x:1 z:3}\" ;; (str h) => \"{y:2}\"",
		"(def h (hash a:1 b:2 c:3)) ;; (begin (def n 0) (range k v h (hset h k (+ v 10))) (str h)) => \"{a:11 b:12 c:13}\"",
		"(def h (hash a:1)) (def k [1 2]) ;; (hset h k 5) (hget h [1 2]) => 5 ;; (hset h [1 2] 6) ;; (len h) => 2 ;; (hget h k) => 6 ;; (hdel h [1 2]) ;; (len h) => 1",
		"(def h (hash a:1 b:2 c:3)) (def ks (keys h)) ;; (hdel h a:) ;; (hset h d: 4) ;; (str ks) => \"[a b c]\" ;; (str (keys h)) => \"[b c d]\" ;; (aset ks 0 7) ;; (str h) => \"{b:2 c:3 d:4}\"",
		"(def h (hash a:1 b:2)) (def ks (keys h)) ;; (aset ks 0 7) ;; (str h) => \"{a:1 b:2}\" ;; (str (keys h)) => \"[a b]\" ;; (def p (hpair h 0)) ;; (hset h a: 9) ;; (str p) => \"(a 1)\"",
		"(def h (hash)) ;; (for [(def i 0) (< i 9) (set i (+ i 1))] (hset h i (* i i))) ;; (len h) => 9 ;; (for [(def i 0) (< i 9) (set i (+ i 2))] (hdel h i)) ;; (str h) => \"{1:1 3:9 5:25 7:49}\" ;; (hset h 0 100) ;; (str h) => \"{1:1 3:9 5:25 7:49 0:100}\"",
	} {
		s.Text = true
		segs := strings.Split(t, ";;")
		for i := range segs {
			if !strings.Contains(segs[i], "=>") {
				segs[i] += " => * "
			}
		}
		s.Check(c, "hash-script", strings.Join(segs, " ;; "), aSem|aRest|aPanic)
	}
	c.Floor("hash-states", 1)
	c.Floor("hash-script", 8)
	c.Stats["representation states"] = states
	c.Stats["operations"] = edges
}

func observe14(f *Fix, s *Schemas, ks set14, tn string, n *node14, ev func(*State, string) (*State, Value, bool, string), fail func(*node14, string, string, ...interface{})) {
	val := func(rule, t, want string) {
		st, v, ok, why := ev(n.st, t)
		if !ok {
			if why == "" {
				why = st.Show(v)
			}
			fail(n, rule, "%s fails: %s, expected %s", t, why, want)
			return
		}
		if got := s.canon(st, v, 30); got != want {
			fail(n, rule, "%s yields %s, expected %s", t, got, want)
		}
	}
	errs := func(rule, t string) {
		st, v, ok, why := ev(n.st, t)
		if why != "" {
			fail(n, rule, "%s: %s, expected an error", t, why)
		} else if ok {
			fail(n, rule, "%s yields %s, expected an error", t, st.Show(v))
		}
	}
	iv := func(i int) string { return fmt.Sprintf("SexpInt:i%d", i) }
	var kc, pr []string
	for _, k := range n.keys {
		kc = append(kc, ks.keys[k].canon)
		pr = append(pr, fmt.Sprintf("%s:%d", ks.keys[k].print, n.vals[k]))
	}
	val("length", "(len h)", iv(len(n.keys)))
	val("keys", "(keys h)", "["+strings.Join(kc, " ")+"]")
	val("empty", "(empty? h)", map[bool]string{true: "SexpBool:T", false: "SexpBool:F"}[len(n.keys) == 0])
	for i, k := range ks.keys {
		if v := n.vals[i]; v != 0 {
			val("lookup", "(hget h "+k.src+")", iv(v))
			val("lookup", "(hget h "+k.src+" 77)", iv(v))
		} else {
			errs("lookup", "(hget h "+k.src+")")
			val("lookup", "(hget h "+k.src+" 77)", iv(77))
		}
	}
	for _, m := range ks.miss {
		val("lookup", "(hget h "+m+" 77)", iv(77))
		errs("lookup", "(hget h "+m+")")
	}
	for i, k := range n.keys {
		val("position", fmt.Sprintf("(hpair h %d)", i), "("+ks.keys[k].canon+" "+iv(n.vals[k])+")")
	}
	errs("position", fmt.Sprintf("(hpair h %d)", len(n.keys)))
	errs("position", "(hpair h -1)")
	var it []string
	for i := range n.keys {
		it = append(it, "["+kc[i]+" "+iv(n.vals[n.keys[i]])+"]")
	}
	same := true
	for _, k := range kc {
		same = same && strings.SplitN(k, ":", 2)[0] == strings.SplitN(kc[0], ":", 2)[0] && k[0] == kc[0][0]
	}
	if same || len(kc) == 0 { // a loop variable keeps its type
		val("iteration", "(begin (set acc []) (range k v h (set acc (append acc [k v]))) acc)", "["+strings.Join(it, " ")+"]")
		val("iteration", "(begin (set acc []) {for k, v := range h { acc = (append acc [k v]) }} acc)", "["+strings.Join(it, " ")+"]")
		val("iteration", "(begin (set acc []) {for k := range h { acc = (append acc k) }} acc)", "["+strings.Join(kc, " ")+"]")
	}
	want := "{" + strings.Join(pr, " ") + "}"
	if tn != "hash" {
		want = " (" + tn + " " + strings.Join(pr, " ") + ")"
		if len(pr) == 0 {
			want = " (" + tn + " )"
		}
	}
	st, v, ok, why := ev(n.st, "(str h)")
	if !ok {
		fail(n, "printed", "printing fails: %s", why)
	} else if got := s.canon(st, v, 3); norm14(got) != norm14("SexpStr:"+strconv.Quote(want)) {
		fail(n, "printed", "the printed form is %s, expected %q", got, want)
	}
	for _, k := range n.keys {
		if ks.keys[k].js == "" && ks.keys[k].src != `""` {
			return
		}
	}
	if ks.name == "mixed" { // a symbol and a string of the same name share a JSON name
		return
	}
	st, v, ok, why = ev(n.st, "(raw2str (json h))")
	if !ok {
		fail(n, "json", "encoding fails: %s", why)
		return
	}
	_, sv := f.Unbox(st, v)
	str, isStr := f.FieldOf(sv, "S").(StrV)
	if !isStr {
		fail(n, "json", "undecided: the JSON text is %s", st.Show(v))
		return
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(str), &m); err != nil {
		fail(n, "json", "%q is not JSON: %v", string(str), err)
		return
	}
	if m["Atype"] != tn {
		fail(n, "json", "%q does not name the type", string(str))
	}
	cnt := 0
	for i, k := range ks.keys {
		x, have := m[k.js]
		if n.vals[i] == 0 && have || n.vals[i] != 0 && x != float64(n.vals[i]) {
			fail(n, "json", "%q disagrees with the content at %s", string(str), k.src)
		}
		if have {
			cnt++
		}
	}
	ord, _ := m["zKeyOrder"].([]interface{})
	for i, k := range n.keys {
		if i >= len(ord) || ord[i] != ks.keys[k].js {
			fail(n, "json", "%q does not list the keys in order", string(str))
			break
		}
	}
	if len(ord) > len(n.keys) || len(m) > cnt+2 {
		fail(n, "json", "%q holds more than the content", string(str))
	}
}

// norm14 drops spaces next to the delimiters of a printed hash.
func norm14(s string) string {
	for _, d := range []string{"{", "}", "(", ")"} {
		s = strings.ReplaceAll(strings.ReplaceAll(s, d+" ", d), " "+d, d)
	}
	return strings.TrimSpace(s)
}
