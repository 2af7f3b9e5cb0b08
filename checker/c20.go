package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

// sources of values that differ from run to run
func unstableSource(fn *ssa.Function) string {
	pk, n := fnPkg(fn), fn.Name()
	switch pk {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
			return "reads the clock"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		if !strings.HasPrefix(n, "init") {
			return "is random"
		}
	case "maps":
		if n == "Keys" || n == "Values" || n == "All" || n == "Collect" {
			return "iterates over a Go map"
		}
	case "reflect":
		if n == "MapKeys" || n == "MapRange" || n == "Seq" || n == "Seq2" || n == "Pointer" || n == "UnsafePointer" || n == "UnsafeAddr" {
			return "exposes map order or addresses"
		}
	case "runtime":
		switch n {
		case "NumGoroutine", "ReadMemStats", "Stack", "NumCPU", "GOMAXPROCS":
			return "depends on the process"
		}
	case "runtime/debug":
		if n == "Stack" || n == "PrintStack" || n == "ReadGCStats" {
			return "depends on the process"
		}
	case "os":
		switch n {
		case "Getpid", "Getppid", "Hostname", "TempDir", "Getwd", "CreateTemp", "MkdirTemp":
			return "depends on the process"
		}
	}
	return ""
}

// the explicit random, time and pointer-printing functions of the language, by the names they are bound to
var unstableByDesign = map[string]bool{"random": true, "now": true, "millis": true, "timeit": true, "goon": true, "dump": true}

func checkC20(c *Ctx) {
	c.Explain = "Every place where a run-to-run difference can enter what a script sees is found in the source and judged: (map-order) each loop over a Go map in code that can run on behalf of a script must have an effect that does not depend on the order (an effect analysis of the loop body, following calls: distinct entries written under the loop's own key, commutative accumulation, constant results, or collecting and then sorting); (source) clocks, randomness, addresses and process properties may only be used by the functions that exist for that; (address) no text that is printed or becomes a value or an error may contain the address of an object (the verbs of every format are matched with the types of their operands); (global) code that runs on behalf of a script may not change package-level state, which later interpreters of the process would see; (select, go) no scheduling choice is visible."
	c.Assume = []string{"standard-library and third-party functions other than the listed sources are deterministic", "no two elements a sort orders by a field agree in that field", "goon/dump print addresses by design", "a method called by name on a registered Go struct is as deterministic as the host wrote it"}
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp", err)
		return
	}
	r := NewReach(c.P)
	r.SinkOf = unstableSource
	r.DefaultFlags = true
	names := c08roots(f, r, "script")
	n := 0
	for _, m := range scriptEntry {
		if fn := c.P.Method(m[0], m[1]); fn != nil {
			n++
			r.Add(fn, nil, fn.Pos(), "entry point")
		}
	}
	// building an interpreter is part of running a program in a fresh one
	for _, nm := range []string{"NewZlisp", "NewZlispSandbox"} {
		if fn := c.P.Func(nm); fn != nil {
			r.Add(fn, nil, fn.Pos(), "constructor")
		}
	}
	if fn := c.P.Method("Zlisp", "StandardSetup"); fn != nil {
		r.Add(fn, nil, fn.Pos(), "constructor")
	}
	r.Run()
	c.Ob("entry", "script", n >= 8 && len(names) > 50, "", "entry points %d, bound functions %d", n, len(names))
	x := &c20{c: c, r: r, f: f, eff: map[*ssa.Function]*effect{}, ctor: map[*ssa.Function]bool{}, effNil: map[effKey]*effect{}}
	x.bound()
	x.effects()
	x.sources()
	var fns []*ssa.Function
	for fn := range r.fns {
		if strings.Contains(fnPkg(fn), "/zygomys/") && !x.design(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		x.loops(fn)
		x.formats(fn)
		x.globals(fn)
	}
	c.Stats["functions analysed"] = len(fns)
	c.Floor("map-order", 5)
	c.Floor("format", 100)
}

type c20 struct {
	c        *Ctx
	r        *Reach
	f        *Fix
	eff      map[*ssa.Function]*effect
	bd       map[*ssa.Function]string
	effNil   map[effKey]*effect
	memo     map[*ssa.Function]bool
	kinds    map[string]map[string]bool
	globals_ map[string]*ssa.Global
	assign   []*ssa.Function
	ctor     map[*ssa.Function]bool
}

// bound finds the script names of user functions.
func (x *c20) bound() {
	x.bd = map[*ssa.Function]string{}
	h := &heapWalk{st: x.f.St, seen: map[int]bool{}}
	h.fun = func(v *FuncV) {}
	h.obj = func(s *StructV) {
		if s.T == nil || !strings.HasSuffix(typeKey(s.T), ".SexpFunction") {
			return
		}
		nm, _ := x.f.FieldOf(s, "name").(StrV)
		if fv, ok := x.f.FieldOf(s, "userfun").(*FuncV); ok {
			if unstableByDesign[string(nm)] {
				x.bd[fv.Fn] = string(nm)
			}
		}
	}
	h.walk(x.f.Env)
	x.memo = map[*ssa.Function]bool{}
}

// design: fn only runs as part of a function that is unstable by design (or of a method of a demo struct).
func (x *c20) design(fn *ssa.Function) bool {
	for g := fn; g != nil; g = g.Parent() {
		if x.bd[g] != "" {
			return true
		}
	}
	if v, ok := x.memo[fn]; ok {
		return v
	}
	x.memo[fn] = false
	y := x.r.fns[fn]
	if y == nil || y.from == nil || len(y.callers) == 0 || y.how != "call" {
		return false
	}
	res := true
	for g := range y.callers {
		if !x.design(g) {
			res = false
		}
	}
	x.memo[fn] = res
	return res
}

func (x *c20) sources() {
	for _, s := range x.r.SortedSinks() {
		if s.in == nil || !strings.Contains(fnPkg(s.in), "/zygomys/") || x.design(s.in) || onlyDerefs(s.in, s.fn) {
			continue
		}
		x.c.Ob("source", shortFn(s.fn)+" in "+shortFn(s.in), false, x.c.P.Pos(s.pos), "%s %s: %s", shortFn(s.fn), s.why, x.r.Path(s.in))
	}
}

// onlyDerefs: the addresses fn asks src for are only used to reach what is there.
func onlyDerefs(fn, src *ssa.Function) bool {
	if fnPkg(src) != "reflect" || src.Name() == "MapKeys" || src.Name() == "MapRange" {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != src {
				continue
			}
			for _, ref := range *c.Referrers() {
				switch r := ref.(type) {
				case *ssa.DebugRef:
				case *ssa.Convert:
					if b, ok := r.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- effects of functions

// wkind is a kind of object that is changed, and one that is passed on the way to it.
type wkind struct{ own, via types.Type }

// from is w seen from a root with the object hop on the way.
func (w wkind) from(hop types.Type) wkind {
	if hop != nil {
		w.via = hop
	}
	return w
}

func (w wkind) key() string { return typeKey(w.own) + " via " + typeKey(w.via) }

type effect struct {
	writes  map[int]map[string]wkind // what kinds of object it changes, parameters through which it writes (closures: free variables count from 1000)
	global  map[string]bool          // package variables it changes
	gpos    map[string]token.Pos
	io      bool // prints, sends, starts goroutines, calls what is not known to be harmless
	iowhy   string
	rets    map[int]bool // parameters its results may point into
	retGlob map[string]bool
}

func newEffect() *effect {
	return &effect{writes: map[int]map[string]wkind{}, global: map[string]bool{}, gpos: map[string]token.Pos{}, rets: map[int]bool{}, retGlob: map[string]bool{}}
}

func (e *effect) size() int {
	n := len(e.global) + len(e.rets) + len(e.retGlob)
	for _, m := range e.writes {
		n += 1 + len(m)
	}
	if e.io {
		n++
	}
	return n
}

func pureStd(fn *ssa.Function) bool {
	switch fnPkg(fn) {
	case "strings", "strconv", "math", "math/big", "errors", "unicode", "unicode/utf8", "bytes", "regexp", "reflect", "sort", "slices", "math/bits", "hash/fnv", "time", "cmp", "encoding/base64", "encoding/hex", "encoding/json", "runtime", "bufio", "io", "sync", "sync/atomic":
		return true
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	}
	return false
}

// roots of a value: parameters it may point into, package variables it was loaded from.
type roots struct {
	params map[int]map[types.Type]bool // with the object passed on the way, if any
	globs  map[string]map[types.Type]bool
	other  bool // fresh or unknown
	fresh  bool
}

type rootKey struct {
	v   ssa.Value
	hop types.Type
}

func (r *roots) param(i int, hop types.Type) {
	if r.params[i] == nil {
		r.params[i] = map[types.Type]bool{}
	}
	r.params[i][hop] = true
}

func (r *roots) glob(g string, hop types.Type) {
	if r.globs[g] == nil {
		r.globs[g] = map[types.Type]bool{}
	}
	r.globs[g][hop] = true
}

func newRoots() *roots {
	return &roots{params: map[int]map[types.Type]bool{}, globs: map[string]map[types.Type]bool{}}
}

func (x *c20) rootsOf(fn *ssa.Function, v ssa.Value, hop types.Type, seen map[rootKey]bool, out *roots) {
	if seen[rootKey{v, hop}] {
		return
	}
	seen[rootKey{v, hop}] = true
	// the object that has to be passed on the way from the root
	on := hop
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			on = p.Elem()
		}
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range fn.Params {
			if p == v {
				out.param(i, hop)
			}
		}
	case *ssa.FreeVar:
		for i, p := range fn.FreeVars {
			if p == v {
				out.param(1000+i, hop)
			}
		}
	case *ssa.Global:
		out.glob(v.String(), hop)
	case *ssa.FieldAddr:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.IndexAddr:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.Field:
		x.rootsOf(fn, v.X, on, seen, out)
	case *ssa.Index:
		x.rootsOf(fn, v.X, on, seen, out)
	case *ssa.Lookup:
		x.rootsOf(fn, v.X, on, seen, out)
	case *ssa.Slice:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.UnOp:
		if v.Op == token.MUL || v.Op == token.ARROW {
			if a, ok := v.X.(*ssa.Alloc); ok {
				// a local variable: what was stored in it
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						x.rootsOf(fn, s.Val, on, seen, out)
					}
				}
				return
			}
			x.rootsOf(fn, v.X, on, seen, out)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			x.rootsOf(fn, e, hop, seen, out)
		}
	case *ssa.ChangeType:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.ChangeInterface:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.MakeInterface:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.TypeAssert:
		x.rootsOf(fn, v.X, on, seen, out)
	case *ssa.Convert:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.Extract:
		x.rootsOf(fn, v.Tuple, on, seen, out)
	case *ssa.Next:
		x.rootsOf(fn, v.Iter, hop, seen, out)
	case *ssa.Range:
		x.rootsOf(fn, v.X, hop, seen, out)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			x.rootsOf(fn, v.Call.Args[0], hop, seen, out)
			return
		}
		for _, g := range x.callees(&v.Call) {
			e := x.eff[g]
			if e == nil {
				continue
			}
			for i := range e.rets {
				if i < len(v.Call.Args) {
					x.rootsOf(fn, v.Call.Args[i], hop, seen, out)
				}
			}
			for g := range e.retGlob {
				out.glob(g, hop)
			}
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		out.fresh = true
	}
}

func (x *c20) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if !c.IsInvoke() {
		return nil
	}
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, t := range x.r.dynL {
		if it != nil && types.Implements(t, it) {
			if sel := x.c.P.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := x.c.P.Prog.MethodValue(sel); f != nil && x.r.fns[f] != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerish(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// effKey is a function together with the parameters that are nil (a bit for each).
type effKey struct {
	fn  *ssa.Function
	nil uint32
}

// at is the effect of a call of g with the given arguments.
func (x *c20) at(g *ssa.Function, args []ssa.Value) *effect {
	if x.eff[g] == nil {
		return nil
	}
	k := effKey{fn: g}
	for i, a := range args {
		if c, ok := a.(*ssa.Const); ok && i < 32 && i < len(g.Params) && c.IsNil() {
			k.nil |= 1 << i
		}
	}
	return x.eff1(k)
}

// atK is at for a call made while the parameters in k are nil.
func (x *c20) atK(k effKey, g *ssa.Function, args []ssa.Value) *effect {
	if x.eff[g] == nil {
		return nil
	}
	n := effKey{fn: g}
	for i, a := range args {
		if i < 32 && i < len(g.Params) && nilConst(k, a) {
			n.nil |= 1 << i
		}
	}
	return x.eff1(n)
}

func (x *c20) eff1(k effKey) *effect {
	if k.nil == 0 {
		return x.eff[k.fn]
	}
	e := x.effNil[k]
	if e == nil {
		e = newEffect()
		x.effNil[k] = e
	}
	return e
}

// nilConst: v is nil when the parameters in the mask are.
func nilConst(k effKey, v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Parameter:
		for i, p := range k.fn.Params {
			if p == v && i < 32 {
				return k.nil&(1<<i) != 0
			}
		}
	}
	return false
}

// liveNil is the blocks of k.fn that can run when the parameters in the mask are nil.
func (x *c20) liveNil(k effKey) map[*ssa.BasicBlock]bool {
	all := x.r.Live(k.fn)
	if k.nil == 0 {
		return all
	}
	out := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if out[b] || !all[b] {
			return
		}
		out[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) && nilConst(k, c.X) && nilConst(k, c.Y) {
				if c.Op == token.EQL {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(k.fn.Blocks) > 0 {
		walk(k.fn.Blocks[0])
	}
	if k.fn.Recover != nil {
		walk(k.fn.Recover)
	}
	return out
}

func (x *c20) effects() {
	var fns []*ssa.Function
	for fn := range x.r.fns {
		if fn.Blocks != nil && strings.Contains(fnPkg(fn), "/zygomys/") {
			fns = append(fns, fn)
			x.eff[fn] = newEffect()
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for round := 0; round < 30; round++ {
		ch := false
		for _, fn := range fns {
			n := x.eff[fn].size()
			x.effect(effKey{fn: fn})
			if x.eff[fn].size() != n {
				ch = true
			}
		}
		var ks []effKey
		for k := range x.effNil {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			a, b := ks[i].fn.String(), ks[j].fn.String()
			return a < b || a == b && ks[i].nil < ks[j].nil
		})
		for _, k := range ks {
			n := x.effNil[k].size()
			x.effect(k)
			if x.effNil[k].size() != n {
				ch = true
			}
		}
		if len(x.effNil) != len(ks) {
			ch = true
		}
		if !ch {
			return
		}
	}
}

// owner is the kind of object that a store to addr changes.
func owner(addr ssa.Value) types.Type {
	switch a := addr.(type) {
	case *ssa.Global:
		return a.Type()
	case *ssa.FieldAddr:
		return a.X.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.IndexAddr:
		if p, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return a.X.Type()
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return addr.Type()
}

// holds: an object of kind own can be reached from what package variable g holds.
func (x *c20) holds(g string, w wkind) bool {

	if x.kinds == nil {
		x.kinds = map[string]map[string]bool{}
		x.globals_ = map[string]*ssa.Global{}
		for _, p := range x.c.P.Prog.AllPackages() {
			for _, m := range p.Members {
				if gl, ok := m.(*ssa.Global); ok {
					x.globals_[gl.String()] = gl
				}
			}
		}
	}
	ks, ok := x.kinds[g]
	if !ok {
		ks = map[string]bool{}
		x.kinds[g] = ks
		gl := x.globals_[g]
		if gl == nil {
			ks["*"] = true
		} else {
			ks[typeKey(gl.Type())] = true
			if x.heapKinds(gl, ks) {
				return x.inKinds(ks, w)
			}
			for _, t := range x.contents(gl) {
				x.reachTypes(t, ks)
			}
		}
	}
	return x.inKinds(ks, w)
}

func (x *c20) inKinds(ks map[string]bool, w wkind) bool {
	return ks["*"] || ks[typeKey(w.own)] && (w.via == nil || ks[typeKey(w.via)])
}

// heapKinds finds the kinds of object that g holds once an interpreter is
// built. As long as none of those is changed on behalf of a script, nothing
// else can come to be held by g.
func (x *c20) heapKinds(g *ssa.Global, ks map[string]bool) bool {
	if g.Pkg != x.f.P.Zygo {
		return false
	}
	add := func(t types.Type) { shallowTypes(t, ks, 0) }
	h := &heapWalk{st: x.f.St, seen: map[int]bool{}}
	h.fun = func(v *FuncV) {}
	h.typ = add
	h.obj = func(s *StructV) {
		if s.T != nil {
			add(s.T)
		}
	}
	add(g.Type().Underlying().(*types.Pointer).Elem())
	h.walk(x.f.Global(x.f.St, g.Name()))
	return h.opaq == 0
}

func shallowTypes(t types.Type, ks map[string]bool, d int) {
	if ks[typeKey(t)] && d > 0 || d > 8 {
		return
	}
	ks[typeKey(t)] = true
	switch u := t.Underlying().(type) {
	case *types.Slice:
		shallowTypes(u.Elem(), ks, d+1)
	case *types.Array:
		shallowTypes(u.Elem(), ks, d+1)
	case *types.Map:
		shallowTypes(u.Elem(), ks, d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			shallowTypes(u.Field(i).Type(), ks, d+1)
		}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			shallowTypes(u.Elem(), ks, d+1)
		}
	}
}

// contents is the types of what g can hold.
func (x *c20) contents(g *ssa.Global) []types.Type {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if !types.IsInterface(t) {
		return []types.Type{t}
	}
	var out []types.Type
	for _, fn := range x.assigners() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(g) {
					continue
				}
				switch v := s.Val.(type) {
				case *ssa.MakeInterface:
					out = append(out, v.X.Type())
					continue
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f != nil && (fnPkg(f) == "errors" && f.Name() == "New" || fnPkg(f) == "fmt" && f.Name() == "Errorf") {
						continue
					}
				}
				return []types.Type{t}
			}
		}
	}
	return out
}

// assigners is the functions that may assign package variables: those scripts reach and the initialisers.
func (x *c20) assigners() []*ssa.Function {
	if x.assign != nil {
		return x.assign
	}
	for fn := range x.r.fns {
		x.assign = append(x.assign, fn)
	}
	for _, p := range x.c.P.Prog.AllPackages() {
		for nm, m := range p.Members {
			if fn, ok := m.(*ssa.Function); ok && (nm == "init" || strings.HasPrefix(nm, "init#")) && x.r.fns[fn] == nil {
				x.assign = append(x.assign, fn)
			}
		}
	}
	return x.assign
}

func (x *c20) reachTypes(t types.Type, ks map[string]bool) {
	k := typeKey(t)
	if ks[k] || ks["*"] {
		return
	}
	ks[k] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x.reachTypes(u.Elem(), ks)
	case *types.Slice:
		x.reachTypes(u.Elem(), ks)
	case *types.Array:
		x.reachTypes(u.Elem(), ks)
	case *types.Map:
		x.reachTypes(u.Key(), ks)
		x.reachTypes(u.Elem(), ks)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.reachTypes(u.Field(i).Type(), ks)
		}
	case *types.Interface, *types.Signature, *types.Chan:
		if _, ok := u.(*types.Signature); !ok {
			ks["*"] = true
		}
	}
}

func (x *c20) markT(fn *ssa.Function, e *effect, v ssa.Value, ts map[string]wkind, pos token.Pos) {
	for _, t := range ts {
		x.mark(fn, e, v, t, pos)
	}
}

func (x *c20) mark(fn *ssa.Function, e *effect, addr ssa.Value, w wkind, pos token.Pos) {
	out := newRoots()
	x.rootsOf(fn, addr, nil, map[rootKey]bool{}, out)
	for i, hops := range out.params {
		if e.writes[i] == nil {
			e.writes[i] = map[string]wkind{}
		}
		for h := range hops {
			n := w.from(h)
			e.writes[i][n.key()] = n
		}
	}
	for g, hops := range out.globs {
		has := false
		for h := range hops {
			has = has || x.holds(g, w.from(h))
		}
		if !has {
			continue
		}
		if !e.global[g] {
			e.gpos[g] = pos
		}
		e.global[g] = true
	}
}

func (x *c20) effect(k effKey) {
	fn := k.fn
	e := x.eff1(k)
	live := x.liveNil(k)
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok && !a.Heap {
					break
				}
				if _, ok := in.Addr.(*ssa.Alloc); ok {
					break
				}
				x.mark(fn, e, in.Addr, wkind{own: owner(in.Addr)}, in.Pos())
			case *ssa.MapUpdate:
				x.mark(fn, e, in.Map, wkind{own: in.Map.Type()}, in.Pos())
			case *ssa.Send, *ssa.Go, *ssa.Select:
				e.io, e.iowhy = true, "goroutines or channels"
			case *ssa.Return:
				for _, v := range in.Results {
					if !pointerish(v.Type()) {
						continue
					}
					out := newRoots()
					x.rootsOf(fn, v, nil, map[rootKey]bool{}, out)
					for i := range out.params {
						e.rets[i] = true
					}
					for g := range out.globs {
						e.retGlob[g] = true
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "delete", "copy", "clear":
					x.mark(fn, e, c.Args[0], wkind{own: c.Args[0].Type()}, in.Pos())
				case "print", "println", "close":
					e.io, e.iowhy = true, bi.Name()
				}
				continue
			}
			if f := c.StaticCallee(); f != nil && x.eff[f] == nil {
				if !pureStd(f) {
					e.io = true
					if e.iowhy == "" {
						e.iowhy = "calls " + shortFn(f)
					}
				}
				continue
			}
			cs := x.callees(c)
			if c.StaticCallee() == nil && !c.IsInvoke() {
				e.io, e.iowhy = true, "calls a function value"
			}
			for _, g := range cs {
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, c.Args...)
				}
				ge := x.atK(k, g, args)
				if ge == nil {
					continue
				}
				if ge.io && !e.io {
					e.io, e.iowhy = true, "calls "+shortFn(g)+", which "+ge.iowhy
				}
				for i, ts := range ge.writes {
					if i < len(args) {
						x.markT(fn, e, args[i], ts, in.Pos())
					} else if i >= 1000 {
						if mc, ok := c.Value.(*ssa.MakeClosure); ok && i-1000 < len(mc.Bindings) {
							x.markT(fn, e, mc.Bindings[i-1000], ts, in.Pos())
						}
					}
				}
				if !c.IsInvoke() || true {
					for gl := range ge.global {
						if !e.global[gl] {
							e.gpos[gl] = in.Pos()
						}
						e.global[gl] = true
					}
				}
			}
		}
	}
}

// globals reports the package variables fn itself changes (not through its callees, which are reported themselves).
func (x *c20) globals(fn *ssa.Function) {
	live := x.r.Live(fn)
	done := map[string]bool{}
	ok := true
	by := "a part"
	rep := func(addr ssa.Value, w wkind, pos token.Pos) {
		out := newRoots()
		x.rootsOf(fn, addr, nil, map[rootKey]bool{}, out)
		for g, hops := range out.globs {
			has := false
			for h := range hops {
				has = has || x.holds(g, w.from(h))
			}
			if !done[g] && has {
				done[g] = true
				ok = false
				x.c.Ob("global", strings.ReplaceAll(g, "github.com/glycerine/zygomys/v9/", "")+" in "+shortFn(fn), false, x.c.P.Pos(pos), "%s, which every interpreter of the process shares, is changed (%s of a %s) on behalf of a script: %s", g, by, shortType(w.own), x.r.Path(fn))
			}
		}
	}
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, isA := in.Addr.(*ssa.Alloc); !isA {
					rep(in.Addr, wkind{own: owner(in.Addr)}, in.Pos())
				}
			case *ssa.MapUpdate:
				rep(in.Map, wkind{own: in.Map.Type()}, in.Pos())
			}
			if ci, is := in.(ssa.CallInstruction); is {
				c := ci.Common()
				if bi, is := c.Value.(*ssa.Builtin); is && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
					rep(c.Args[0], wkind{own: c.Args[0].Type()}, in.Pos())
				}
				for _, g := range x.callees(c) {
					args := c.Args
					if c.IsInvoke() {
						args = append([]ssa.Value{c.Value}, c.Args...)
					}
					ge := x.at(g, args)
					if ge == nil {
						continue
					}
					for i, ts := range ge.writes {
						if i < len(args) {
							for _, t := range ts {
								by = "by " + shortFn(g) + ", a part"
								rep(args[i], t, in.Pos())
								by = "a part"
							}
						}
					}
				}
			}
		}
	}
	x.c.Ob("global-free", shortFn(fn), true, "", "%v", ok)
}

// ctorOnly: fn only runs while an interpreter is being built.
// ctorOnly: fn only runs while an interpreter is built. That takes no input, so
// what happened when the fixture was built is what always happens.
func (x *c20) ctorOnly(fn *ssa.Function) bool {
	if v, ok := x.ctor[fn]; ok {
		return v
	}
	x.ctor[fn] = false
	y := x.r.fns[fn]
	if y == nil {
		return false
	}
	if y.from == nil {
		x.ctor[fn] = y.how == "constructor"
		return x.ctor[fn]
	}
	if y.how != "call" || len(y.callers) == 0 {
		return false
	}
	for g := range y.callers {
		if !x.ctorOnly(g) {
			return false
		}
	}
	x.ctor[fn] = true
	return true
}

// panics: every way on from b ends in a panic.
func panics(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		return false
	}
	for _, s := range b.Succs {
		if !panics(s, seen) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- loops over maps

func (x *c20) loops(fn *ssa.Function) {
	live := x.r.Live(fn)
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					why, pos := x.loop(fn, in, live)
					if pos == token.NoPos {
						pos = in.Pos()
					}
					x.c.Ob("map-order", fmt.Sprintf("loop over %s in %s", mapName(in.X), shortFn(fn)), why == "", x.c.P.Pos(pos), "the result depends on the order Go iterates in: %s (%s)", why, x.r.Path(fn))
				}
			case *ssa.Select:
				x.c.Ob("select", shortFn(fn), len(in.States) <= 1, x.c.P.Pos(in.Pos()), "the choice among ready channels is random")
			case *ssa.Go:
				x.c.Ob("go", shortFn(fn), false, x.c.P.Pos(in.Pos()), "a goroutine runs beside the script: %s", x.r.Path(fn))
			}
		}
	}
}

func mapName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		return mapName(v.X)
	case *ssa.FieldAddr:
		_, s := structKey(v.X.Type())
		if s != nil {
			return s.Field(v.Field).Name()
		}
	case *ssa.Global:
		return v.Name()
	}
	return shortType(v.Type())
}

// loop explains why the effect of a loop over a map depends on the order of iteration ("" if it does not).
func (x *c20) loop(fn *ssa.Function, rg *ssa.Range, live map[*ssa.BasicBlock]bool) (string, token.Pos) {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return "", 0
	}
	head := next.Block()
	// the body: blocks from which the head can be reached again, entered from the head
	body := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if body[b] || !head.Dominates(b) {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) && live[p] {
			back(p)
		}
	}
	// blocks entered from the body which leave the function without coming back: early exits
	exits := map[*ssa.BasicBlock]bool{}
	var okFalse *ssa.BasicBlock
	if iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If); ok {
		_ = iff
		okFalse = head.Succs[1]
	}
	for b := range body {
		if b == head {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && s != okFalse && live[s] {
				exits[s] = true
			}
		}
	}
	// everything computed from the key and value of this round
	loc := map[ssa.Value]bool{next: true}
	var keyV ssa.Value
	for _, ref := range *next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			keyV = e
		}
	}
	for ch := true; ch; {
		ch = false
		for b := range body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || loc[v] {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok && b == head {
					continue
				}
				l := false
				switch in.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
					l = true
				default:
					var ops [12]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						if *op != nil && loc[*op] {
							l = true
						}
					}
				}
				if l {
					loc[v] = true
					ch = true
				}
			}
		}
	}
	isKey := func(v ssa.Value) bool {
		for {
			switch y := v.(type) {
			case *ssa.Convert:
				v = y.X
				continue
			case *ssa.ChangeType:
				v = y.X
				continue
			case *ssa.MakeInterface:
				v = y.X
				continue
			}
			return keyV != nil && v == keyV
		}
	}
	local := func(v ssa.Value) bool { // an object of this round only
		out := newRoots()
		seen := map[ssa.Value]bool{}
		for w := v; ; {
			switch y := w.(type) {
			case *ssa.FieldAddr:
				w = y.X
				continue
			case *ssa.IndexAddr:
				w = y.X
				continue
			case *ssa.Slice:
				w = y.X
				continue
			case *ssa.UnOp:
				if y.Op == token.MUL {
					w = y.X
					continue
				}
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				return body[w.(ssa.Instruction).Block()]
			case *ssa.Extract:
				if y.Tuple == next {
					return true
				}
			}
			if loc[w] {
				return true
			}
			break
		}
		_ = out
		_ = seen
		return loc[v]
	}
	why, pos := "", token.NoPos
	bad := func(p token.Pos, s string, a ...interface{}) {
		if why == "" {
			why, pos = fmt.Sprintf(s, a...), p
		}
	}
	// a unique match: the loop is left only where the key was found equal to something that does not change
	unique := func(s *ssa.BasicBlock) bool {
		for _, p := range s.Preds {
			if !body[p] {
				continue
			}
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !(bo.Op == token.EQL && p.Succs[0] == s || bo.Op == token.NEQ && p.Succs[1] == s) {
				return false
			}
			if !(isKey(bo.X) && !loc[bo.Y] || isKey(bo.Y) && !loc[bo.X]) {
				return false
			}
		}
		return true
	}
	// accumulators
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, p := range head.Preds {
			if !body[p] || !live[p] {
				continue
			}
			if w := x.accum(fn, phi, phi.Edges[i], body, loc, map[ssa.Value]bool{}); w != "" {
				bad(phi.Pos(), "%s", w)
			}
		}
	}
	for _, b := range fn.Blocks {
		if !body[b] || !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if local(in.Addr) {
					if ia, ok := in.Addr.(*ssa.IndexAddr); !ok || isKey(ia.Index) || local(ia.X) {
						break
					}
				}
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isKey(ia.Index) {
					break
				}
				if !loc[in.Val] {
					if _, isC := in.Val.(*ssa.Const); isC {
						break // the same value whichever round stores it
					}
				}
				if a, ok := in.Addr.(*ssa.Alloc); ok {
					if w := x.cell(fn, a, in, body, loc); w == "" {
						break
					}
				}
				if x.filled(fn, in.Addr, body) {
					break
				}
				bad(in.Pos(), "a variable is overwritten in every round")
			case *ssa.MapUpdate:
				if isKey(in.Key) || local(in.Map) {
					break
				}
				if c, isC := in.Value.(*ssa.Const); isC && c != nil {
					break // a set
				}
				bad(in.Pos(), "entries are written under keys which may be equal for different entries of the map")
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				bad(in.Pos(), "a send, go or defer in every round")
			case *ssa.Panic:
				bad(in.Pos(), "which entry panics first")
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "delete":
					if !isKey(c.Args[1]) && !local(c.Args[0]) {
						bad(in.Pos(), "deletes entries under other keys")
					}
				case "copy", "print", "println", "close":
					if !local(c.Args[0]) {
						bad(in.Pos(), "%s in every round", bi.Name())
					}
				}
				continue
			}
			if f := c.StaticCallee(); f != nil && x.eff[f] == nil {
				if !pureStd(f) {
					bad(in.Pos(), "calls %s in every round", shortFn(f))
				}
				continue
			}
			if c.StaticCallee() == nil && !c.IsInvoke() {
				bad(in.Pos(), "calls a function value in every round")
				continue
			}
			for _, g := range x.callees(c) {
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, c.Args...)
				}
				ge := x.at(g, args)
				if ge == nil {
					continue
				}
				if ge.io {
					bad(in.Pos(), "calls %s, which %s", shortFn(g), ge.iowhy)
				}
				for gl := range ge.global {
					bad(in.Pos(), "calls %s, which changes %s", shortFn(g), gl)
				}
				for i := range ge.writes {
					if i < len(args) && !local(args[i]) {
						bad(in.Pos(), "calls %s, which changes what its argument %d refers to", shortFn(g), i)
					}
				}
			}
		}
	}
	for s := range exits {
		if x.ctorOnly(fn) && panics(s, map[*ssa.BasicBlock]bool{}) {
			continue
		}
		if unique(s) {
			continue
		}
		// what is done there must not depend on the entry
		if w := x.exit(fn, s, body, loc); w != "" {
			bad(s.Instrs[0].Pos(), "%s", w)
		}
	}
	return why, pos
}

// accum explains how a loop-carried value depends on the order of the rounds.
func (x *c20) accum(fn *ssa.Function, phi *ssa.Phi, v ssa.Value, body map[*ssa.BasicBlock]bool, loc map[ssa.Value]bool, seen map[ssa.Value]bool) string {
	if v == phi || seen[v] {
		return ""
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for _, e := range y.Edges {
			if w := x.accum(fn, phi, e, body, loc, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.BinOp:
		b, _ := y.Type().Underlying().(*types.Basic)
		comm := b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0
		switch y.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if comm {
				if w := x.accum(fn, phi, y.X, body, loc, seen); w == "" {
					return ""
				}
				if w := x.accum(fn, phi, y.Y, body, loc, seen); w == "" {
					return ""
				}
			}
		case token.SUB:
			if comm {
				return x.accum(fn, phi, y.X, body, loc, seen)
			}
		}
		return "a value is combined in the order of iteration"
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				if w := x.accum(fn, phi, y.Call.Args[0], body, loc, seen); w != "" {
					return w
				}
				if x.sortedAfter(fn, phi, body) {
					return ""
				}
				return "a slice is filled in the order of iteration and not sorted before it is used"
			case "min", "max":
				return ""
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok && !body[in.Block()] {
		return ""
	}
	if !loc[v] {
		if _, ok := v.(*ssa.Parameter); ok {
			return ""
		}
	}
	return "a value of the last round survives the loop"
}

// sortedAfter: outside the loop the slice is only used by a sort, or after one.
func (x *c20) sortedAfter(fn *ssa.Function, v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	var uses []ssa.Instruction
	var sorts []ssa.Instruction
	var visit func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value, d int) {
		if seen[v] || d > 6 {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if body[ref.Block()] {
				continue
			}
			switch r := ref.(type) {
			case *ssa.MakeInterface:
				visit(r, d+1)
			case *ssa.ChangeType:
				visit(r, d+1)
			case *ssa.Phi:
				visit(r, d+1)
			case *ssa.Slice:
				visit(r, d+1)
			case *ssa.MakeClosure:
			case *ssa.DebugRef:
			case *ssa.Call:
				f := r.Call.StaticCallee()
				if f != nil && x.sorts(f) && x.totalSort(r) {
					sorts = append(sorts, r)
				} else if bi, ok := r.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				} else {
					uses = append(uses, r)
				}
			default:
				uses = append(uses, ref)
			}
		}
	}
	visit(v, 0)
	if len(sorts) == 0 {
		return len(uses) == 0
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// filled: the address is that of an element (or a part of one) of a slice which is sorted before it is used.
func (x *c20) filled(fn *ssa.Function, addr ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for {
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			addr = fa.X
			continue
		}
		break
	}
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	switch y := ia.X.(type) {
	case *ssa.MakeSlice:
		return !body[y.Block()] && x.sortedAfter(fn, y, body)
	case *ssa.Slice:
		_, ok := y.X.(*ssa.Alloc)
		return ok && !body[y.Block()] && x.sortedAfter(fn, y, body)
	case *ssa.UnOp:
		a, ok := y.X.(*ssa.Alloc)
		if !ok || y.Op != token.MUL {
			return false
		}
		n := 0
		for _, ref := range *a.Referrers() {
			u, ok := ref.(*ssa.UnOp)
			if !ok || body[u.Block()] {
				continue
			}
			n++
			if !x.sortedAfterCell(fn, a, u, body) {
				return false
			}
		}
		return n > 0
	}
	return false
}

// sorts: f sorts its first argument.
func (x *c20) sorts(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	pk := fnPkg(f)
	if pk == "sort" {
		return true
	}
	if pk == "slices" {
		return strings.HasPrefix(f.Name(), "Sort")
	}
	if f.Blocks == nil || len(f.Params) == 0 || !strings.Contains(pk, "/zygomys/") {
		return false
	}
	// a helper that hands its argument to a sort on every path
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || len(c.Call.Args) == 0 {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !(fnPkg(g) == "sort" || fnPkg(g) == "slices") || !x.sorts(g) || !x.totalSort(c) {
				continue
			}
			v := c.Call.Args[0]
			for {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				} else if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				} else {
					break
				}
			}
			if v == ssa.Value(f.Params[0]) {
				all := true
				for _, o := range f.Blocks {
					if _, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok && !b.Dominates(o) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// totalSort: the comparison the sort is given tells any two different elements apart.
func (x *c20) totalSort(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if o := g.Origin(); o != nil {
		g = o
	}
	var less *ssa.Function
	switch pk := fnPkg(g); {
	case pk == "sort" && (g.Name() == "Sort" || g.Name() == "Stable"):
		mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		less = x.c.P.Prog.LookupMethod(mi.X.Type(), nil, "Less")
	case pk == "sort" && (g.Name() == "Slice" || g.Name() == "SliceStable"), pk == "slices" && (g.Name() == "SortFunc" || g.Name() == "SortStableFunc"):
		switch y := c.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			less, _ = y.Fn.(*ssa.Function)
		case *ssa.Function:
			less = y
		}
	default:
		return true
	}
	if less == nil || less.Blocks == nil || len(less.Params) < 2 {
		return false
	}
	return totalOrder(less)
}

// totalOrder: wherever the comparison returns, it has compared something that tells the elements apart.
func totalOrder(f *ssa.Function) bool {
	p, q := f.Params[len(f.Params)-2], f.Params[len(f.Params)-1]
	sw := func(v ssa.Value) ssa.Value {
		if v == ssa.Value(p) {
			return q
		} else if v == ssa.Value(q) {
			return p
		}
		return v
	}
	var judge func(v ssa.Value, b *ssa.BasicBlock, d int) bool
	judge = func(v ssa.Value, b *ssa.BasicBlock, d int) bool {
		if d > 6 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Phi:
			for i, e := range y.Edges {
				if !judge(e, y.Block().Preds[i], d+1) {
					return false
				}
			}
			return true
		case *ssa.Const:
			// what a comparison before it decided
			for b != nil {
				if len(b.Preds) == 1 {
					if i, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok {
						if c, ok := i.Cond.(*ssa.BinOp); ok && (c.Op == token.LSS || c.Op == token.GTR) && b.Preds[0].Succs[0] == b {
							return true
						}
					}
				}
				if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok { // the value an && or || takes
					c, ok := i.Cond.(*ssa.BinOp)
					return ok && (c.Op == token.LSS || c.Op == token.GTR)
				}
				b = b.Idom()
			}
			return false
		case *ssa.BinOp:
			switch y.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if k, ok := y.Y.(*ssa.Const); ok && k.Value != nil {
					return judge(y.X, b, d+1) // strings.Compare(a, b) < 0
				}
				return sameExpr(y.X, y.Y, sw, 0) && (plain(y.X, 0) || apart(b, y.X, y.Y))
			}
		case *ssa.Call:
			g := y.Call.StaticCallee()
			if g == nil {
				return false
			}
			if o := g.Origin(); o != nil {
				g = o
			}
			if n := fnPkg(g) + "." + g.Name(); n == "strings.Compare" || n == "cmp.Compare" || n == "bytes.Compare" || n == "cmp.Less" {
				return sameExpr(y.Call.Args[0], y.Call.Args[1], sw, 0) && (plain(y.Call.Args[0], 0) || apart(b, y.Call.Args[0], y.Call.Args[1]))
			}
		}
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			n++
			if !judge(r.Results[0], b, 0) {
				return false
			}
		}
	}
	return n > 0
}

// sameExpr: b is a, with the values sw swaps.
func sameExpr(a, b ssa.Value, sw func(ssa.Value) ssa.Value, d int) bool {
	if sw(a) == b {
		return true
	}
	if d > 8 || a == nil || b == nil {
		return false
	}
	ia, ok := a.(ssa.Instruction)
	ib, ok2 := b.(ssa.Instruction)
	if !ok || !ok2 {
		ca, ok := a.(*ssa.Const)
		cb, ok2 := b.(*ssa.Const)
		return ok && ok2 && ca.Value != nil && cb.Value != nil && constant.Compare(ca.Value, token.EQL, cb.Value)
	}
	switch ya := a.(type) {
	case *ssa.FieldAddr:
		yb, ok := b.(*ssa.FieldAddr)
		return ok && ya.Field == yb.Field && sameExpr(ya.X, yb.X, sw, d+1)
	case *ssa.Field:
		yb, ok := b.(*ssa.Field)
		return ok && ya.Field == yb.Field && sameExpr(ya.X, yb.X, sw, d+1)
	case *ssa.Phi, *ssa.Alloc:
		return false
	}
	oa, ob := ia.Operands(nil), ib.Operands(nil)
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) || len(oa) != len(ob) || !types.Identical(a.Type(), b.Type()) {
		return false
	}
	for i := range oa {
		if !sameExpr(*oa[i], *ob[i], sw, d+1) {
			return false
		}
	}
	return true
}

// plain: the value is an element, a part of it, or what a method without arguments says of it.
func plain(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Const:
		return true
	case *ssa.UnOp:
		return y.Op == token.MUL && plain(y.X, d+1)
	case *ssa.FieldAddr:
		return plain(y.X, d+1)
	case *ssa.Field:
		return plain(y.X, d+1)
	case *ssa.IndexAddr:
		if s, ok := y.X.Type().Underlying().(*types.Basic); ok && s.Info()&types.IsString != 0 {
			return false
		}
		_, k := y.Index.(*ssa.Const)
		return !k && plain(y.X, d+1) && plain(y.Index, d+1)
	case *ssa.Lookup:
		b, ok := y.X.Type().Underlying().(*types.Basic)
		return !(ok && b.Info()&types.IsString != 0) && plain(y.X, d+1) && plain(y.Index, d+1)
	case *ssa.TypeAssert:
		return plain(y.X, d+1)
	case *ssa.Extract:
		return plain(y.Tuple, d+1)
	case *ssa.Alloc: // a copy of the element
		var st *ssa.Store
		for _, ref := range *y.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == y {
				if st != nil {
					return false
				}
				st = s
			}
		}
		return st != nil && plain(st.Val, d+1)
	case *ssa.Call:
		if y.Call.IsInvoke() {
			return len(y.Call.Args) == 0 && plain(y.Call.Value, d+1)
		}
		g := y.Call.StaticCallee()
		return g != nil && g.Signature.Recv() != nil && len(y.Call.Args) == 1 && plain(y.Call.Args[0], d+1)
	}
	return false
}

// apart: b is only reached when p and q differ.
func apart(b *ssa.BasicBlock, p, q ssa.Value) bool {
	id := func(v ssa.Value) ssa.Value { return v }
	for ; b != nil && len(b.Preds) == 1; b = b.Preds[0] {
		i, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || !(sameExpr(c.X, p, id, 0) && sameExpr(c.Y, q, id, 0) || sameExpr(c.X, q, id, 0) && sameExpr(c.Y, p, id, 0)) {
			continue
		}
		if c.Op == token.NEQ && b.Preds[0].Succs[0] == b || c.Op == token.EQL && b.Preds[0].Succs[1] == b {
			return true
		}
	}
	return false
}

// cell: a variable that lives in memory (captured, or its address taken) used as an accumulator.
func (x *c20) cell(fn *ssa.Function, a *ssa.Alloc, st *ssa.Store, body map[*ssa.BasicBlock]bool, loc map[ssa.Value]bool) string {
	load := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == a
	}
	switch y := st.Val.(type) {
	case *ssa.BinOp:
		b, _ := y.Type().Underlying().(*types.Basic)
		if b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0 && (y.Op == token.ADD || y.Op == token.OR || y.Op == token.AND || y.Op == token.MUL) && (load(y.X) || load(y.Y)) {
			return ""
		}
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && load(y.Call.Args[0]) {
			// every load outside the loop is sorted first
			for _, ref := range *a.Referrers() {
				u, ok := ref.(*ssa.UnOp)
				if !ok || body[u.Block()] {
					continue
				}
				if !x.sortedAfterCell(fn, a, u, body) {
					return "not sorted"
				}
			}
			return ""
		}
	}
	return "overwritten"
}

func (x *c20) sortedAfterCell(fn *ssa.Function, a *ssa.Alloc, u *ssa.UnOp, body map[*ssa.BasicBlock]bool) bool {
	isSort := func(v ssa.Value) ssa.Instruction {
		for _, ref := range *v.Referrers() {
			w := ref
			if mi, ok := ref.(*ssa.MakeInterface); ok {
				for _, r2 := range *mi.Referrers() {
					w = r2
					if c, ok := w.(*ssa.Call); ok && c.Call.StaticCallee() != nil && x.sorts(c.Call.StaticCallee()) && x.totalSort(c) {
						return c
					}
				}
			}
			if c, ok := w.(*ssa.Call); ok && c.Call.StaticCallee() != nil && x.sorts(c.Call.StaticCallee()) && x.totalSort(c) {
				return c
			}
		}
		return nil
	}
	if isSort(u) != nil {
		return true
	}
	for _, ref := range *a.Referrers() {
		o, ok := ref.(*ssa.UnOp)
		if !ok || body[o.Block()] {
			continue
		}
		if s := isSort(o); s != nil {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						return true
					}
					if in == ssa.Instruction(u) {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				return true
			}
		}
	}
	return false
}

// exit explains how what follows an early exit depends on the entry that caused it.
func (x *c20) exit(fn *ssa.Function, s *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, loc map[ssa.Value]bool) string {
	dep := func(v ssa.Value) bool { return v != nil && loc[v] }
	seen := map[*ssa.BasicBlock]bool{}
	why := ""
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || why != "" || body[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			uses := false
			for _, op := range in.Operands(ops[:0]) {
				if *op != nil && dep(*op) {
					uses = true
				}
			}
			if uses {
				if p, ok := in.(*ssa.Phi); ok {
					_ = p
				}
				why = "the loop is left in the middle with a value of the entry it met first"
				return
			}
		}
		for _, t := range b.Succs {
			walk(t)
		}
	}
	walk(s)
	return why
}

// ---------------------------------------------------------------- addresses in texts

func (x *c20) formats(fn *ssa.Function) {
	live := x.r.Live(fn)
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			f := c.StaticCallee()
			if f == nil {
				continue
			}
			fi, plain := x.formatter(f)
			if fi < -1 {
				continue
			}
			if len(c.Args) == 0 {
				continue
			}
			args := variadic(c.Args[len(c.Args)-1])
			if plain {
				for i, a := range args {
					w := ""
					if a != nil {
						w = x.shows(a, 'v', fn)
					}
					x.c.Ob("format", fmt.Sprintf("%s operand %d of %s", shortFn(fn), i, f.Name()), w == "", x.c.P.Pos(in.Pos()), "the text shows an address: %s (%s)", w, x.r.Path(fn))
				}
				continue
			}
			k, ok := c.Args[fi].(*ssa.Const)
			var format string
			if ok && k.Value != nil {
				format = constant.StringVal(k.Value)
			} else {
				format = constFormat(c.Args[fi])
			}
			if format == "" {
				continue
			}
			ai := 0
			for i := 0; i < len(format); i++ {
				if format[i] != '%' {
					continue
				}
				i++
				sharp := false
				for i < len(format) && strings.ContainsRune("+-# 0123456789.*[", rune(format[i])) {
					sharp = sharp || format[i] == '#'
					if format[i] == '*' {
						ai++
					}
					if j := strings.IndexByte(format[i:], ']'); format[i] == '[' && j > 0 {
						n, _ := strconv.Atoi(format[i+1 : i+j])
						ai, i = n-1, i+j
					}
					i++
				}
				if i >= len(format) || format[i] == '%' {
					continue
				}
				verb := format[i]
				if ai >= 0 && ai < len(args) && args[ai] != nil {
					v := verb
					if v == 'v' && sharp {
						v = '#'
					}
					w := x.shows(args[ai], v, fn)
					x.c.Ob("format", fmt.Sprintf("%s: operand %d of %q", shortFn(fn), ai, cutText(format, 40)), w == "", x.c.P.Pos(in.Pos()), "the text shows an address: %s (%s)", w, x.r.Path(fn))
				}
				ai++
			}
		}
	}
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func constFormat(v ssa.Value) string {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		l, r := constFormat(b.X), constFormat(b.Y)
		return l + r
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

// formatter: the index of the format argument, or -1 for Print-like functions (-2: neither).
func (x *c20) formatter(f *ssa.Function) (int, bool) {
	pk := fnPkg(f)
	if pk == "fmt" {
		switch f.Name() {
		case "Sprintf", "Printf", "Errorf":
			return 0, false
		case "Fprintf":
			return 1, false
		case "Sprint", "Sprintln", "Print", "Println":
			return -1, true
		case "Fprint", "Fprintln":
			return -1, true
		}
		return -2, false
	}
	// a wrapper that hands its operands on to fmt
	y := x.r.fns[f]
	if y == nil || f.Blocks == nil || !f.Signature.Variadic() || !strings.Contains(pk, "/zygomys/") || len(f.Params) < 2 {
		return -2, false
	}
	if b, ok := f.Params[len(f.Params)-2].Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return -2, false
	}
	live := x.r.Live(f)
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := ci.Common()
				if g := c.StaticCallee(); g != nil && g != f && len(c.Args) > 0 && c.Args[len(c.Args)-1] == ssa.Value(f.Params[len(f.Params)-1]) {
					if i, _ := x.formatter(g); i >= 0 {
						return len(f.Params) - 2, false
					}
				}
			}
		}
	}
	return -2, false
}

// variadic lists the operands packed into a ...interface{} argument (nil where one is not known).
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i, _ := constant.Int64Val(k.Value)
		for _, u := range *ia.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ia && int(i) < len(out) {
				out[i] = s.Val
			}
		}
	}
	return out
}

// shows says how an operand printed with a verb reveals an address.
func (x *c20) shows(v ssa.Value, verb byte, fn *ssa.Function) string {
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		} else if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
		} else {
			break
		}
	}
	t := v.Type()
	if p := fn.Signature.Recv(); p != nil && fn.Name() == "SexpString" {
		// how a pointer, and a Go value that may be one, prints is the explicit exception
		if k := typeKey(p.Type()); strings.HasSuffix(k, ".SexpPointer") || strings.HasSuffix(k, ".SexpReflect") {
			return ""
		}
	}
	if verb == 'p' {
		return "%p"
	}
	if recovered(v, 0) {
		return "" // the texts of the panics themselves are judged where they are raised
	}
	if verb == 'T' || verb == 't' || verb == 'c' || verb == 'q' && !types.IsInterface(t) {
		return ""
	}
	return x.ptrText(t, verb == '#', 0, map[types.Type]bool{})
}

// recovered says that the value is what recover returned.
func recovered(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "recover"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !recovered(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.TypeAssert:
		return recovered(v.X, d+1)
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL {
			return false
		}
		n := 0
		only := true
		var uses func(p ssa.Value)
		uses = func(p ssa.Value) {
			for _, ref := range *p.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					only = only && ref.Addr == p && recovered(ref.Val, d+1)
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					for i, b := range ref.Bindings {
						if b == p {
							uses(ref.Fn.(*ssa.Function).FreeVars[i])
						}
					}
				default:
					only = false
				}
			}
		}
		uses(a)
		return only && n > 0
	case *ssa.Extract:
		return recovered(v.Tuple, d+1)
	case *ssa.ChangeInterface:
		return recovered(v.X, d+1)
	}
	return false
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			s, ok := ms.At(i).Obj().Type().(*types.Signature)
			return ok && s.Params().Len() == 0 && s.Results().Len() == 1
		}
	}
	return false
}

func (x *c20) ptrText(t types.Type, sharp bool, d int, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	defer delete(seen, t)
	if !sharp && (hasMethod(t, "Error") || hasMethod(t, "String")) {
		return ""
	}
	if sharp && (hasMethod(t, "GoString")) {
		return ""
	}
	if p := typePkg(t); p != "builtin" && stdPath(p) && p != "reflect" {
		if _, isP := t.Underlying().(*types.Pointer); !isP || d == 0 {
			return ""
		}
	}
	if typeKey(t) == "reflect.Value" || typeKey(t) == "reflect.Type" {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "an unsafe pointer"
		}
		return ""
	case *types.Signature, *types.Chan:
		return "a " + shortType(t)
	case *types.Pointer:
		if d > 0 {
			return "a pointer " + shortType(t)
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return x.ptrText(u.Elem(), sharp, d+1, seen)
		}
		return "a pointer " + shortType(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w := x.ptrText(u.Field(i).Type(), sharp, d+1, seen); w != "" {
				return "field " + u.Field(i).Name() + ": " + w
			}
		}
		return ""
	case *types.Slice:
		return x.ptrText(u.Elem(), sharp, d+1, seen)
	case *types.Array:
		return x.ptrText(u.Elem(), sharp, d+1, seen)
	case *types.Map:
		if w := x.ptrText(u.Key(), sharp, d+1, seen); w != "" {
			return w
		}
		return x.ptrText(u.Elem(), sharp, d+1, seen)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "whatever the interface{} holds"
		}
		return "whatever pointer the " + shortType(t) + " holds"
	}
	return ""
}
