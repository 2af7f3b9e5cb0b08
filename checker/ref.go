package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- reference semantics
//
// A direct evaluator of the core language over schemata. Host calls are answered from the event trace of the
// analysed path (an oracle); every host call the reference makes must be the next event of that path.

type rv interface{}

type (
	rHost  struct{ V Value } // value delivered by a host call
	rInt   int64
	rStr   string
	rBool  bool
	rNull  struct{}
	rTruth struct{ T Value } // boolean given by a term of the path
	rSym   string
	rList  struct{ E []rv } // non-empty proper list
	rArr   struct{ E []rv }
	rFn    struct {
		name    string
		params  []string
		varargs bool
		body    []*sx
		env     *rScope
		lazy    []bool
	}
	rHostFn struct{ name string }
	rPrim   struct{ name string }
	rLazy   struct {
		expr   *sx
		env    *rScope
		forced bool
		val    rv
	}
	rTerm struct{ T Value } // integer given by a term of the path
	rAny  struct{}          // any value
	rHash struct {
		keys []rv
		vals []rv
	}
)

// rLit is a literal of another scalar kind.
type rLit struct {
	kind string
	V    Value
}

type rScope struct {
	vars   map[string]rv
	parent *rScope
}

func newRScope(p *rScope) *rScope { return &rScope{vars: map[string]rv{}, parent: p} }

type rErr struct{ why string }      // script error
type rMismatch struct{ why string } // the path deviates from the reference
type rExhausted struct{}            // events of a truncated path used up
type rBreak struct{ loop *rLoop }
type rContinue struct{ loop *rLoop }
type rLoop struct {
	label string
	up    *rLoop
}

type Ref struct {
	f      *Fix
	st     *State // final state of the path
	evs    []hostCall
	pos    int
	trunc  bool
	global *rScope
	macros map[string]*rFn
	hosts  map[string]bool
	depth  int
	Log    []string
}

func NewRef(f *Fix, st *State, evs []hostCall, trunc bool, hs []HostFn) *Ref {
	r := &Ref{f: f, st: st, evs: evs, trunc: trunc, global: newRScope(nil), macros: map[string]*rFn{}, hosts: map[string]bool{}}
	for _, h := range hs {
		r.hosts[h.Name] = true
	}
	return r
}

func (r *Ref) mismatch(f string, a ...interface{}) { panic(rMismatch{fmt.Sprintf(f, a...)}) }
func (r *Ref) err(f string, a ...interface{})      { panic(rErr{fmt.Sprintf(f, a...)}) }

func (r *Ref) lookup(sc *rScope, n string) (rv, bool) {
	for s := sc; s != nil; s = s.parent {
		if v, ok := s.vars[n]; ok {
			return v, true
		}
	}
	if r.hosts[n] {
		return rHostFn{n}, true
	}
	if refPrims[n] != nil {
		return rPrim{n}, true
	}
	return nil, false
}

// truthTerm is the truth value of v as a boolean constant or term of the path.
func (r *Ref) truthTerm(v rv) Value {
	switch x := v.(type) {
	case rHost:
		n, s := r.f.Unbox(r.st, x.V)
		switch n {
		case "SexpBool":
			return r.f.FieldOf(s, "Val")
		case "SexpInt":
			return r.f.E.not(r.f.E.eqVal(r.st, r.f.FieldOf(s, "Val"), IntV(0)))
		case "SexpStr", "SexpPair", "SexpArray", "SexpHash", "SexpFunction", "SexpSymbol":
			return BoolV(true)
		case "SexpSentinel":
			return BoolV(false)
		}
		r.mismatch("truth of %s is undecided", r.st.Show(x.V))
	case rTruth:
		return x.T
	case rInt:
		return BoolV(x != 0)
	case rTerm:
		return r.f.E.not(r.f.E.eqVal(r.st, x.T, IntV(0)))
	case rBool:
		return BoolV(x)
	case rNull:
		return BoolV(false)
	}
	return BoolV(true)
}

func (r *Ref) truthy(v rv) bool {
	b, known := r.f.E.Tri(r.st, r.truthTerm(v))
	if !known {
		r.mismatch("the path does not test the value %s it must branch on", r.show(v))
	}
	return b
}

func (r *Ref) evalBody(body []*sx, sc *rScope, lp *rLoop) rv {
	var v rv = rNull{}
	for _, b := range body {
		if b.k == 'c' {
			continue
		}
		v = r.eval(b, sc, lp)
	}
	return v
}

func (r *Ref) eval(x *sx, sc *rScope, lp *rLoop) rv {
	switch x.k {
	case 'v', 'q':
		return x.v
	case 'i':
		return rInt(x.i)
	case 't':
		return rStr(x.s)
	case 'b':
		return rBool(x.s == "true")
	case 'n', 'c':
		return rNull{}
	case '!':
		r.err("error expected")
	case '*':
		return rAny{}
	case 's':
		if n := strings.TrimSuffix(x.s, ":"); n != x.s && n != "" {
			return rSym(n)
		}
		v, ok := r.lookup(sc, x.s)
		if !ok {
			r.err("symbol %s not found", x.s)
		}
		return v
	case 'a':
		var vs []rv
		for _, k := range x.kids {
			vs = append(vs, r.eval(k, sc, lp))
		}
		return &rArr{vs}
	}
	if len(x.kids) == 0 {
		return rNull{}
	}
	h := x.kids[0]
	args := x.kids[1:]
	// infix style assignment lists (a = e)
	if len(x.kids) == 3 && x.kids[1].k == 's' && (x.kids[1].s == "=" || x.kids[1].s == ":=") && h.k == 's' {
		v := r.eval(x.kids[2], sc, lp)
		r.bind(sc, h.s, v)
		return v
	}
	if h.k == 's' {
		switch h.s {
		case "quote":
			return r.datum(args[0])
		case "syntaxQuote":
			return r.template(args[0], sc, lp)
		case "begin":
			return r.evalBody(args, sc, lp)
		case "newScope":
			return r.evalBody(args, newRScope(sc), lp)
		case "let", "letseq":
			n := newRScope(sc)
			bs := args[0].kids
			if h.s == "letseq" {
				for i := 0; i+1 < len(bs); i += 2 {
					v := r.eval(bs[i+1], n, lp)
					n.vars[bs[i].s] = v
				}
			} else {
				var vs []rv
				for i := 0; i+1 < len(bs); i += 2 {
					vs = append(vs, r.eval(bs[i+1], n, lp))
				}
				// the rightmost binding is stored first; a repeated name keeps its first value
				for i := len(vs) - 1; i >= 0; i-- {
					n.vars[bs[2*i].s] = vs[i]
				}
			}
			return r.evalBody(args[1:], n, lp)
		case "def":
			v := r.eval(args[1], sc, lp)
			r.bind(sc, args[0].s, v)
			return v
		case "set":
			v := r.eval(args[1], sc, lp)
			for s := sc; s != nil; s = s.parent {
				if _, ok := s.vars[args[0].s]; ok {
					s.vars[args[0].s] = v
					return v
				}
			}
			sc.vars[args[0].s] = v
			return v
		case "mdef":
			v := r.eval(args[len(args)-1], sc, lp)
			l, ok := r.listElems(v)
			if !ok || len(l) < len(args)-1 {
				r.err("mdef")
			}
			for i := 0; i < len(args)-1; i++ {
				r.bind(sc, args[i].s, l[i])
			}
			return v
		case "cond":
			i := 0
			for ; i+1 < len(args); i += 2 {
				if r.truthy(r.eval(args[i], sc, lp)) {
					return r.eval(args[i+1], sc, lp)
				}
			}
			return r.eval(args[i], sc, lp)
		case "and", "or":
			var v rv = rNull{}
			for i, a := range args {
				v = r.eval(a, sc, lp)
				if i < len(args)-1 && r.truthy(v) == (h.s == "or") {
					return v
				}
			}
			return v
		case "fn":
			return r.mkfn("", args[0], args[1:], sc)
		case "defn":
			f := r.mkfn(args[0].s, args[1], args[2:], sc)
			r.bind(sc, args[0].s, f)
			return rNull{}
		case "func":
			ps := &sx{k: 'a'}
			for _, k := range args[1].kids {
				if k.k == 's' && strings.HasSuffix(k.s, ":") {
					ps.kids = append(ps.kids, sSym(strings.TrimSuffix(k.s, ":")))
				}
			}
			f := r.mkfn(args[0].s, ps, args[3:], sc)
			r.bind(sc, args[0].s, f)
			return f
		case "defmac":
			r.macros[args[0].s] = r.mkfn(args[0].s, args[1], args[2:], r.global)
			return rNull{}
		case "assert":
			if !r.truthy(r.eval(args[0], sc, lp)) {
				r.err("assertion failed")
			}
			return rNull{}
		case "for":
			return r.forLoop(args, sc, lp)
		case "break", "continue":
			l := lp
			if len(args) == 1 {
				n := labelName(args[0])
				for l != nil && l.label != n {
					l = l.up
				}
			}
			if l == nil {
				r.err("%s outside of a loop", h.s)
			}
			if h.s == "break" {
				panic(rBreak{l})
			}
			panic(rContinue{l})
		}
		if m := r.macros[h.s]; m != nil {
			var vs []rv
			for _, a := range args {
				vs = append(vs, r.datum(a))
			}
			form := r.toSx(r.call(m, vs, nil, nil))
			return r.eval(form, sc, lp)
		}
	}
	fv := r.eval(h, sc, lp)
	// an argument is compiled and run as its own unit: break/continue inside it cannot reach the loop
	return r.callExpr(fv, args, sc)
}

func labelName(x *sx) string {
	if x.k == 'l' && len(x.kids) == 2 {
		return x.kids[1].s
	}
	return x.s
}

func (r *Ref) bind(sc *rScope, n string, v rv) { sc.vars[n] = v }

func (r *Ref) mkfn(name string, ps *sx, body []*sx, sc *rScope) *rFn {
	f := &rFn{name: name, env: sc, body: body}
	for i := 0; i < len(ps.kids); i++ {
		n := ps.kids[i].s
		if n == "&" {
			f.varargs = true
			continue
		}
		f.params = append(f.params, n)
		f.lazy = append(f.lazy, !f.varargs && strings.HasPrefix(n, "#") && len(n) > 1)
	}
	return f
}

func (r *Ref) forLoop(args []*sx, sc *rScope, up *rLoop) rv {
	lp := &rLoop{up: up}
	if args[0].k != 'a' {
		lp.label = labelName(args[0])
		args = args[1:]
	}
	ctl := args[0].kids
	body := args[1:]
	n := newRScope(sc)
	outer := &rLoop{up: up, label: lp.label}
	_ = outer
	ev := func(xs []*sx) (brk bool) {
		defer func() {
			if p := recover(); p != nil {
				switch c := p.(type) {
				case rBreak:
					if c.loop == lp {
						brk = true
						return
					}
				case rContinue:
					if c.loop == lp {
						return
					}
				}
				panic(p)
			}
		}()
		r.evalBody(xs, n, lp)
		return false
	}
	if ev(ctl[:1]) {
		return rNull{}
	}
	for {
		t := false
		if func() (brk bool) {
			defer func() {
				if p := recover(); p != nil {
					if c, ok := p.(rBreak); ok && c.loop == lp {
						brk = true
						return
					}
					panic(p)
				}
			}()
			t = r.truthy(r.eval(ctl[1], n, lp))
			return false
		}() {
			return rNull{}
		}
		if !t {
			return rNull{}
		}
		if ev(body) {
			return rNull{}
		}
		if ev(ctl[2:]) {
			return rNull{}
		}
	}
}

func (r *Ref) callExpr(fv rv, args []*sx, sc *rScope) rv {
	switch f := fv.(type) {
	case *rFn:
		var vs []rv
		for i, a := range args {
			li := i
			if li >= len(f.params) {
				li = len(f.params) - 1
			}
			if i < len(f.params) && f.lazy[i] {
				vs = append(vs, &rLazy{expr: a, env: sc})
				continue
			}
			vs = append(vs, r.eval(a, sc, nil))
		}
		return r.call(f, vs, nil, nil)
	case rHostFn, rPrim:
		var vs []rv
		for _, a := range args {
			vs = append(vs, r.eval(a, sc, nil))
		}
		return r.call(fv, vs, nil, nil)
	}
	if len(args) == 0 {
		return fv
	}
	r.err("not a function")
	return nil
}

// call applies a function value to evaluated arguments.
func (r *Ref) call(fv rv, vs []rv, _ *rScope, _ *rLoop) rv {
	r.depth++
	if r.depth > 60 {
		r.mismatch("reference recursion too deep")
	}
	defer func() { r.depth-- }()
	switch f := fv.(type) {
	case rHostFn:
		return r.host(f.name, vs)
	case rPrim:
		return refPrims[f.name](r, vs)
	case *rFn:
		n := newRScope(f.env)
		np := len(f.params)
		if f.varargs {
			if len(vs) < np-1 {
				r.err("arity")
			}
			rest := vs[np-1:]
			vs = append(append([]rv(nil), vs[:np-1]...), r.mkList(rest))
		} else if len(vs) != np {
			r.err("arity")
		}
		for i := np - 1; i >= 0; i-- {
			n.vars[f.params[i]] = vs[i]
		}
		return r.evalBody(f.body, n, nil)
	}
	r.err("not a function")
	return nil
}

func (r *Ref) mkList(vs []rv) rv {
	if len(vs) == 0 {
		return rNull{}
	}
	return &rList{append([]rv(nil), vs...)}
}

func (r *Ref) host(name string, vs []rv) rv {
	if r.pos >= len(r.evs) {
		if r.trunc {
			panic(rExhausted{})
		}
		r.mismatch("the reference calls %s here, the path ends without that effect", name)
	}
	ev := r.evs[r.pos]
	r.pos++
	if ev.Name != name {
		r.mismatch("effect %d: the reference performs %s, the path performs %s", r.pos, name, ev.Name)
	}
	if len(ev.Args) != len(vs) {
		r.mismatch("effect %d (%s): %d arguments instead of %d", r.pos, name, len(ev.Args), len(vs))
	}
	for i := range vs {
		if !r.same(ev.Args[i], vs[i]) {
			r.mismatch("effect %d (%s): argument %d is %s, the reference passes %s", r.pos, name, i, r.st.Show(ev.Args[i]), r.show(vs[i]))
		}
	}
	if ev.Fail != "" {
		r.err("host failure")
	}
	return rHost{ev.Res}
}

func (r *Ref) listElems(v rv) ([]rv, bool) {
	switch x := v.(type) {
	case rNull:
		return nil, true
	case *rList:
		return x.E, true
	case *rArr:
		return x.E, true
	case rHost:
		return r.hostElems(x.V)
	}
	return nil, false
}

func (r *Ref) hostElems(v Value) ([]rv, bool) {
	n, s := r.f.Unbox(r.st, v)
	switch n {
	case "SexpSentinel":
		return nil, true
	case "SexpArray":
		es, ok := r.st.Elems(r.f.FieldOf(s, "Val"))
		var out []rv
		for _, e := range es {
			out = append(out, rHost{e})
		}
		return out, ok
	case "SexpPair":
		var out []rv
		for n == "SexpPair" && len(out) < 100 {
			out = append(out, rHost{r.f.FieldOf(s, "Head")})
			n, s = r.f.Unbox(r.st, r.f.FieldOf(s, "Tail"))
		}
		return out, n == "SexpSentinel"
	}
	return nil, false
}

var refPrims map[string]func(r *Ref, a []rv) rv

func init() {
	refPrims = map[string]func(r *Ref, a []rv) rv{
		"list": func(r *Ref, a []rv) rv { return r.mkList(a) },
		"cons": func(r *Ref, a []rv) rv {
			if len(a) != 2 {
				r.err("arity")
			}
			l, ok := r.listElems(a[1])
			if _, isArr := a[1].(*rArr); isArr || !ok {
				panic("reference: cons onto a non-list is not modelled")
			}
			return r.mkList(append([]rv{a[0]}, l...))
		},
		"+": refArith(token.ADD), "-": refArith(token.SUB), "*": refArith(token.MUL),
		"<": refCompare(token.LSS), ">": refCompare(token.GTR), "<=": refCompare(token.LEQ), ">=": refCompare(token.GEQ),
		"==": refCompare(token.EQL), "!=": refCompare(token.NEQ),
		"first": func(r *Ref, a []rv) rv {
			r.nargs(a, 1)
			l, ok := r.listElems(a[0])
			if !ok || len(l) == 0 {
				r.err("first")
			}
			return l[0]
		},
		"second": func(r *Ref, a []rv) rv {
			r.nargs(a, 1)
			l, ok := r.listElems(a[0])
			if !ok || len(l) < 2 {
				r.err("second")
			}
			return l[1]
		},
		"rest": func(r *Ref, a []rv) rv {
			r.nargs(a, 1)
			if _, null := a[0].(rNull); null {
				return a[0]
			}
			l, ok := r.listElems(a[0])
			if !ok || len(l) == 0 {
				r.err("rest")
			}
			if _, isArr := a[0].(*rArr); isArr {
				return &rArr{l[1:]}
			}
			return r.mkList(l[1:])
		},
		"append": func(r *Ref, a []rv) rv {
			l, ok := a[0].(*rArr)
			if !ok {
				panic("reference: append is modelled for arrays only")
			}
			return &rArr{append(append([]rv(nil), l.E...), a[1:]...)}
		},
		"len": func(r *Ref, a []rv) rv {
			r.nargs(a, 1)
			if h, ok := a[0].(*rHash); ok {
				return rInt(len(h.keys))
			}
			l, ok := r.listElems(a[0])
			if !ok {
				panic("reference: len is modelled for lists and arrays only")
			}
			return rInt(len(l))
		},
		"hash": func(r *Ref, a []rv) rv {
			if len(a)%2 != 0 {
				r.err("hash")
			}
			h := &rHash{}
			for i := 0; i < len(a); i += 2 {
				r.hset(h, a[i], a[i+1])
			}
			return h
		},
		"hget": func(r *Ref, a []rv) rv {
			if len(a) < 2 || len(a) > 3 {
				r.err("arity")
			}
			h, ok := a[0].(*rHash)
			if !ok {
				r.err("hget")
			}
			if i := r.hfind(h, a[1]); i >= 0 {
				return h.vals[i]
			}
			if len(a) == 3 {
				return a[2]
			}
			r.err("hget: key not found")
			return nil
		},
		"hset": func(r *Ref, a []rv) rv {
			r.nargs(a, 3)
			h, ok := a[0].(*rHash)
			if !ok {
				r.err("hset")
			}
			r.hset(h, a[1], a[2])
			return rNull{}
		},
		"hdel": func(r *Ref, a []rv) rv {
			r.nargs(a, 2)
			h, ok := a[0].(*rHash)
			if !ok {
				r.err("hdel")
			}
			if i := r.hfind(h, a[1]); i >= 0 {
				h.keys = append(append([]rv(nil), h.keys[:i]...), h.keys[i+1:]...)
				h.vals = append(append([]rv(nil), h.vals[:i]...), h.vals[i+1:]...)
			}
			return rNull{}
		},
		"keys": func(r *Ref, a []rv) rv {
			r.nargs(a, 1)
			h, ok := a[0].(*rHash)
			if !ok {
				r.err("keys")
			}
			return &rArr{append([]rv(nil), h.keys...)}
		},
		"hpair": func(r *Ref, a []rv) rv {
			r.nargs(a, 2)
			h, ok := a[0].(*rHash)
			i, ok2 := a[1].(rInt)
			if !ok || !ok2 || i < 0 || int(i) >= len(h.keys) {
				r.err("hpair")
			}
			return &rList{[]rv{h.keys[i], h.vals[i]}}
		},
		"array": func(r *Ref, a []rv) rv { return &rArr{append([]rv(nil), a...)} },
		"apply": func(r *Ref, a []rv) rv {
			if len(a) != 2 {
				r.err("arity")
			}
			l, ok := r.listElems(a[1])
			if _, null := a[1].(rNull); null || !ok { // only a non-empty list or an array is accepted
				r.err("apply")
			}
			if !isCallable(a[0]) {
				r.err("apply")
			}
			return r.call(a[0], r.wrapLazy(a[0], l), nil, nil)
		},
		"map": func(r *Ref, a []rv) rv {
			if len(a) != 2 || !isCallable(a[0]) {
				r.err("map")
			}
			l, ok := r.listElems(a[1])
			if _, null := a[1].(rNull); null || !ok {
				r.err("map")
			}
			var out []rv
			for _, e := range l {
				out = append(out, r.call(a[0], r.wrapLazy(a[0], []rv{e}), nil, nil))
			}
			if _, isArr := a[1].(*rArr); isArr {
				return &rArr{out}
			}
			if h, ok := a[1].(rHost); ok {
				if n, _ := r.f.Unbox(r.st, h.V); n == "SexpArray" {
					return &rArr{out}
				}
			}
			return r.mkList(out)
		},
		"not": func(r *Ref, a []rv) rv {
			if len(a) != 1 {
				r.err("arity")
			}
			t := r.f.E.not(r.truthTerm(a[0]))
			if b, k := r.f.E.Tri(r.st, t); k {
				return rBool(b)
			}
			return rTruth{t}
		},
		"force": func(r *Ref, a []rv) rv {
			if len(a) != 1 {
				r.err("arity")
			}
			l, ok := a[0].(*rLazy)
			if !ok {
				return a[0]
			}
			if !l.forced {
				l.val = r.eval(l.expr, l.env, nil)
				l.forced = true
			}
			return l.val
		},
		"substitute": func(r *Ref, a []rv) rv {
			if len(a) != 1 {
				r.err("arity")
			}
			l, ok := a[0].(*rLazy)
			if !ok {
				return a[0]
			}
			return r.datum(l.expr)
		},
		"eval": func(r *Ref, a []rv) rv {
			if len(a) != 1 {
				r.err("arity")
			}
			return r.eval(r.toSx(a[0]), r.global, nil)
		},
	}
}

// rvEq decides equality of two reference values used as hash keys.
func (r *Ref) rvEq(a, b rv) bool {
	if x, ok := r.intTerm(a); ok {
		y, ok := r.intTerm(b)
		if !ok {
			return false
		}
		eq, known := r.f.E.Tri(r.st, r.f.E.eqVal(r.st, x, y))
		if !known {
			r.mismatch("the path does not compare the keys %s and %s", r.show(a), r.show(b))
		}
		return eq
	}
	switch a.(type) {
	case rSym, rStr, rBool:
		return a == b
	}
	panic("reference: key kind is not modelled")
}

func (r *Ref) hfind(h *rHash, k rv) int {
	for i := range h.keys {
		if r.rvEq(h.keys[i], k) {
			return i
		}
	}
	return -1
}

func (r *Ref) hset(h *rHash, k, v rv) {
	if i := r.hfind(h, k); i >= 0 {
		h.vals[i] = v
		return
	}
	h.keys = append(append([]rv(nil), h.keys...), k)
	h.vals = append(append([]rv(nil), h.vals...), v)
}

// nargs demands exactly n arguments.
func (r *Ref) nargs(a []rv, n int) {
	if len(a) != n {
		r.err("arity")
	}
}

// intTerm is the int64 payload of an integer value.
func (r *Ref) intTerm(v rv) (Value, bool) {
	switch x := v.(type) {
	case rInt:
		return IntV(x), true
	case rTerm:
		return x.T, true
	case rHost:
		if n, s := r.f.Unbox(r.st, x.V); n == "SexpInt" {
			return r.f.FieldOf(s, "Val"), true
		}
	}
	return nil, false
}

// boolTerm is the payload of a boolean value.
func (r *Ref) boolTerm(v rv) (Value, bool) {
	switch x := v.(type) {
	case rBool:
		return BoolV(x), true
	case rTruth:
		return x.T, true
	case rHost:
		if n, s := r.f.Unbox(r.st, x.V); n == "SexpBool" {
			return r.f.FieldOf(s, "Val"), true
		}
	}
	return nil, false
}

func refArith(op token.Token) func(*Ref, []rv) rv {
	return func(r *Ref, a []rv) rv {
		if len(a) == 0 {
			r.err("arity")
		}
		acc, ok := r.intTerm(a[0])
		if !ok {
			r.err("not a number")
		}
		for _, x := range a[1:] {
			t, ok := r.intTerm(x)
			if !ok {
				r.err("not a number")
			}
			acc, _ = r.f.E.binopT(r.st, op, types.Typ[types.Int64], types.Typ[types.Int64], acc, t)
		}
		if n, ok := acc.(IntV); ok {
			return rInt(n)
		}
		return rTerm{acc}
	}
}

func refCompare(op token.Token) func(*Ref, []rv) rv {
	return func(r *Ref, a []rv) rv {
		r.nargs(a, 2)
		x, ok1 := r.intTerm(a[0])
		y, ok2 := r.intTerm(a[1])
		if _, ok := r.boolTerm(a[0]); ok && (op == token.EQL || op == token.NEQ) {
			x, ok1 = r.boolTerm(a[0])
			y, ok2 = r.boolTerm(a[1])
			if ok2 {
				t := r.f.E.eqVal(r.st, x, y)
				if op == token.NEQ {
					t = r.f.E.not(t)
				}
				if b, k := r.f.E.Tri(r.st, t); k {
					return rBool(b)
				}
				return rTruth{t}
			}
		}
		if !ok1 || !ok2 {
			panic("reference: only integer comparison is modelled")
		}
		t, _ := r.f.E.binopT(r.st, op, types.Typ[types.Int64], types.Typ[types.Bool], x, y)
		if b, k := r.f.E.Tri(r.st, t); k {
			return rBool(b)
		}
		return rTruth{t}
	}
}

func isCallable(v rv) bool {
	switch v.(type) {
	case *rFn, rHostFn, rPrim:
		return true
	}
	return false
}

// wrapLazy turns values handed to lazy formals into already-evaluated lazy arguments.
func (r *Ref) wrapLazy(fv rv, vs []rv) []rv {
	f, ok := fv.(*rFn)
	if !ok {
		return vs
	}
	out := append([]rv(nil), vs...)
	for i := range out {
		if i < len(f.lazy) && f.lazy[i] {
			out[i] = &rLazy{expr: r.toSx(out[i]), forced: true, val: out[i]}
		}
	}
	return out
}

// ---------------------------------------------------------------- data and templates

func (r *Ref) datum(x *sx) rv {
	switch x.k {
	case 'v', 'q':
		return x.v
	case 's':
		if n := strings.TrimSuffix(x.s, ":"); n != x.s && n != "" {
			return rSym(n)
		}
		return rSym(x.s)
	case 'a':
		var e []rv
		for _, k := range x.kids {
			e = append(e, r.datum(k))
		}
		return &rArr{e}
	case 'l':
		var e []rv
		for _, k := range x.kids {
			e = append(e, r.datum(k))
		}
		return r.mkList(e)
	}
	return r.eval(x, nil, nil)
}

func (r *Ref) toSx(v rv) *sx {
	switch x := v.(type) {
	case rSym:
		return sSym(string(x))
	case rInt:
		return &sx{k: 'i', i: int64(x)}
	case rStr:
		return &sx{k: 't', s: string(x)}
	case rBool:
		return &sx{k: 'b', s: fmt.Sprint(bool(x))}
	case rNull:
		return &sx{k: 'n'}
	case *rList:
		l := &sx{k: 'l'}
		for _, e := range x.E {
			l.kids = append(l.kids, r.toSx(e))
		}
		return l
	case *rArr:
		l := &sx{k: 'a'}
		for _, e := range x.E {
			l.kids = append(l.kids, r.toSx(e))
		}
		return l
	}
	return &sx{k: 'v', v: v}
}

// template evaluates a syntax-quoted template: exact substitution.
func (r *Ref) template(x *sx, sc *rScope, lp *rLoop) rv {
	if x.k == 'l' && len(x.kids) == 2 && x.kids[0].isSym("unquote") {
		return r.eval(x.kids[1], sc, lp)
	}
	if x.k != 'l' && x.k != 'a' {
		return r.datum(x)
	}
	var out []rv
	for _, k := range x.kids {
		if k.k == 'l' && len(k.kids) == 2 && k.kids[0].isSym("unquote-splicing") {
			v := r.eval(k.kids[1], sc, lp)
			if _, isArr := v.(*rArr); isArr {
				r.err("splice of a non-list")
			}
			l, ok := r.listElems(v)
			if !ok {
				r.err("splice of a non-list")
			}
			out = append(out, l...)
			continue
		}
		out = append(out, r.template(k, sc, lp))
	}
	if x.k == 'a' {
		return &rArr{out}
	}
	return r.mkList(out)
}

// ---------------------------------------------------------------- comparison

func (r *Ref) show(v rv) string {
	switch x := v.(type) {
	case rHost:
		return r.st.Show(x.V)
	case rInt:
		return fmt.Sprint(int64(x))
	case rLit:
		return x.kind + ":" + r.st.Show(x.V)
	case rStr:
		return fmt.Sprintf("%q", string(x))
	case rBool:
		return fmt.Sprint(bool(x))
	case rNull, nil:
		return "nil"
	case rTruth:
		return r.st.Show(x.T)
	case rTerm:
		return r.st.Show(x.T)
	case rSym:
		return "'" + string(x)
	case *rList:
		var s []string
		for _, e := range x.E {
			s = append(s, r.show(e))
		}
		return "(" + strings.Join(s, " ") + ")"
	case *rArr:
		var s []string
		for _, e := range x.E {
			s = append(s, r.show(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *rFn:
		return "<fn " + x.name + ">"
	case rHostFn:
		return "<host " + x.name + ">"
	case *rLazy:
		return "<lazy " + x.expr.String() + ">"
	}
	return fmt.Sprintf("%v", v)
}

// same decides whether the abstract value v equals the reference value x on this path.
func (r *Ref) same(v Value, x rv) bool {
	if _, ok := x.(rAny); ok {
		return true
	}
	if h, ok := x.(rHost); ok {
		if valKey(v) == valKey(h.V) {
			return true
		}
		n, s := r.f.Unbox(r.st, v)
		m, t := r.f.Unbox(r.st, h.V)
		if n != m || s == nil || t == nil {
			return false
		}
		switch n {
		case "SexpInt", "SexpBool":
			a, b := r.f.FieldOf(s, "Val"), r.f.FieldOf(t, "Val")
			if valKey(a) == valKey(b) {
				return true
			}
			eq, known := r.f.E.Tri(r.st, r.f.E.eqVal(r.st, a, b))
			return known && eq
		case "SexpStr":
			return valKey(r.f.FieldOf(s, "S")) == valKey(r.f.FieldOf(t, "S"))
		case "SexpSentinel":
			return valKey(r.f.FieldOf(s, "Val")) == valKey(r.f.FieldOf(t, "Val"))
		case "SexpPair", "SexpArray":
			a, ok1 := r.hostElems(v)
			b, ok2 := r.hostElems(h.V)
			if !ok1 || !ok2 || len(a) != len(b) {
				return false
			}
			for i := range a {
				if !r.same(a[i].(rHost).V, b[i]) {
					return false
				}
			}
			return true
		}
		return false
	}
	n, s := r.f.Unbox(r.st, v)
	switch y := x.(type) {
	case rLit:
		if n != y.kind {
			return false
		}
		a := r.f.FieldOf(s, "Val")
		if valKey(a) == valKey(y.V) {
			return true
		}
		eq, known := r.f.E.Tri(r.st, r.f.E.eqVal(r.st, a, y.V))
		return known && eq
	case rTerm:
		if n != "SexpInt" {
			return false
		}
		a := r.f.FieldOf(s, "Val")
		if valKey(a) == valKey(y.T) {
			return true
		}
		eq, known := r.f.E.Tri(r.st, r.f.E.eqVal(r.st, a, y.T))
		return known && eq
	case rInt:
		if n != "SexpInt" {
			return false
		}
		eq, known := r.f.E.Tri(r.st, r.f.E.eqVal(r.st, r.f.FieldOf(s, "Val"), IntV(y)))
		return known && eq
	case rBool:
		if n != "SexpBool" {
			return false
		}
		b, known := r.f.E.Tri(r.st, r.f.FieldOf(s, "Val"))
		return known && b == bool(y)
	case rTruth:
		if n != "SexpBool" {
			return false
		}
		b := r.f.FieldOf(s, "Val")
		if valKey(b) == valKey(y.T) {
			return true
		}
		b1, k1 := r.f.E.Tri(r.st, b)
		b2, k2 := r.f.E.Tri(r.st, y.T)
		return k1 && k2 && b1 == b2
	case rStr:
		if n != "SexpStr" {
			return false
		}
		return valKey(r.f.FieldOf(s, "S")) == valKey(StrV(y))
	case rNull, nil:
		return n == "SexpSentinel" && valKey(v) == valKey(r.f.Null(r.st))
	case rSym:
		return n == "SexpSymbol" && valKey(r.f.FieldOf(s, "name")) == valKey(StrV(y))
	case *rList:
		l, ok := r.hostElems(v)
		if n != "SexpPair" || !ok || len(l) != len(y.E) {
			return false
		}
		for i := range l {
			if !r.same(l[i].(rHost).V, y.E[i]) {
				return false
			}
		}
		return true
	case *rArr:
		l, ok := r.hostElems(v)
		if n != "SexpArray" || !ok || len(l) != len(y.E) {
			return false
		}
		for i := range l {
			if !r.same(l[i].(rHost).V, y.E[i]) {
				return false
			}
		}
		return true
	case *rFn:
		return n == "SexpFunction" && isFalse(r.f.FieldOf(s, "user"))
	case rHostFn, rPrim:
		return n == "SexpFunction"
	case *rLazy:
		return n == "SexpLazyArg"
	case *rHash:
		return n == "SexpHash"
	}
	return false
}

func isFalse(v Value) bool { b, ok := v.(BoolV); return ok && !bool(b) }

// Verdict is the reference's view of one path.
type Verdict struct {
	Mismatch string // path deviates from the reference semantics
	Err      bool   // reference says: script error
	Trunc    bool
	Val      rv
	Extra    string
}

// Eval runs the forms in the reference and compares effects along the way.
func (r *Ref) Eval(forms []*sx) (v Verdict) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case rErr:
			v.Err = true
			v.Extra = p.why
		case rMismatch:
			v.Mismatch = p.why
		case rExhausted:
			v.Trunc = true
		case rBreak, rContinue:
			v.Err = true
			v.Extra = "break/continue escapes"
		default:
			panic(p)
		}
		r.depth = 0
	}()
	v.Val = r.evalBody(forms, r.global, nil)
	return
}

func sortedNames(m map[string]rv) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = types.Typ
