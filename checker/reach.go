package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reach computes which functions of the module and of its third-party dependencies can run, starting at a set
// of roots: a call-graph traversal (static calls, every function whose address is taken in code that can run,
// interface calls resolved over the types converted to interfaces in code that can run) combined with
// interprocedural conditional constant propagation of booleans and nil-ness, so that code behind a permission
// flag which is constant in the analysed configuration is known not to run.

type rval struct {
	k byte // 0 bottom, 1 constant, 2 nil, 3 not nil, 4 anything
	c constant.Value
}

var (
	rBot    = rval{}
	rNil    = rval{k: 2}
	rNonNil = rval{k: 3}
	rTop    = rval{k: 4}
)

func (a rval) eq(b rval) bool {
	if a.k != b.k {
		return false
	}
	return a.k != 1 || a.c.ExactString() == b.c.ExactString() && a.c.Kind() == b.c.Kind()
}

func (a rval) join(b rval) rval {
	switch {
	case a.k == 0:
		return b
	case b.k == 0 || a.eq(b):
		return a
	}
	return rTop
}

func (a rval) String() string {
	switch a.k {
	case 0:
		return "none"
	case 1:
		return a.c.ExactString()
	case 2:
		return "nil"
	case 3:
		return "not nil"
	}
	return "anything"
}

func rConstBool(b bool) rval { return rval{k: 1, c: constant.MakeBool(b)} }

type rfn struct {
	fn      *ssa.Function
	params  []rval
	rets    []rval
	callers map[*ssa.Function]bool
	from    *ssa.Function // how it was first reached
	pos     token.Pos
	how     string
	queued  bool
	instrs  int
}

type rfield struct {
	T string
	F int
}

type rsink struct {
	in  *ssa.Function
	fn  *ssa.Function
	pos token.Pos
	why string
}

type Reach struct {
	P       *Program
	fns     map[*ssa.Function]*rfn
	queue   []*ssa.Function
	fields  map[rfield]rval
	fload   map[rfield]map[*ssa.Function]bool
	forced  map[rfield]rval
	globals map[*ssa.Global]rval // invariant value of a global that code which can run never changes
	gload   map[*ssa.Global]map[*ssa.Function]bool
	gseen   map[*ssa.Global]bool
	OnGlob  func(g *ssa.Global)
	Stop    func(fn *ssa.Function) bool // functions which are not followed
	dyn     map[string]types.Type
	dynL    []types.Type
	invs    map[string]rinv
	invL    []rinv
	Sinks   map[string]rsink
	SinkOf  func(fn *ssa.Function) string
	refl    bool
	Calls   int
	noBody  map[string]bool
	live    map[*ssa.Function]map[*ssa.BasicBlock]bool

	DefaultFlags bool // exported boolean variables keep the value they are initialised with
}

// Live is the set of blocks of a reached function that can run.
func (r *Reach) Live(fn *ssa.Function) map[*ssa.BasicBlock]bool { return r.live[fn] }

type rinv struct {
	I    *types.Interface
	M    *types.Func
	from *ssa.Function
	pos  token.Pos
}

func NewReach(p *Program) *Reach {
	return &Reach{P: p, fns: map[*ssa.Function]*rfn{}, fields: map[rfield]rval{}, fload: map[rfield]map[*ssa.Function]bool{}, forced: map[rfield]rval{},
		globals: map[*ssa.Global]rval{}, gload: map[*ssa.Global]map[*ssa.Function]bool{}, gseen: map[*ssa.Global]bool{},
		dyn: map[string]types.Type{}, invs: map[string]rinv{}, Sinks: map[string]rsink{}, SinkOf: outsideWorld, noBody: map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func stdPath(p string) bool {
	if p == "" {
		return false
	}
	if i := strings.Index(p, "/"); i >= 0 {
		p = p[:i]
	}
	return !strings.Contains(p, ".")
}

// Add makes fn run with unknown arguments.
func (r *Reach) Add(fn *ssa.Function, from *ssa.Function, pos token.Pos, how string) {
	ps := make([]rval, len(fn.Params))
	for i := range ps {
		ps[i] = rTop
	}
	r.call(fn, ps, from, pos, how)
}

func (r *Reach) call(fn *ssa.Function, args []rval, from *ssa.Function, pos token.Pos, how string) *rfn {
	if r.Stop != nil && r.Stop(fn) {
		return nil
	}
	if why := r.SinkOf(fn); why != "" {
		k := fmt.Sprintf("%v|%v", from, fn)
		if _, ok := r.Sinks[k]; !ok {
			r.Sinks[k] = rsink{in: from, fn: fn, pos: pos, why: why}
		}
		return nil
	}
	pk := fnPkg(fn)
	if stdPath(pk) {
		if pk == "reflect" && (fn.Name() == "Call" || fn.Name() == "CallSlice" || fn.Name() == "Method" || fn.Name() == "MethodByName") {
			r.refl = true
		}
		return nil
	}
	x := r.fns[fn]
	if x == nil {
		if fn.Blocks == nil && fn.Pkg != nil {
			fn.Pkg.Build()
		}
		x = &rfn{fn: fn, callers: map[*ssa.Function]bool{}, from: from, pos: pos, how: how, params: make([]rval, len(fn.Params))}
		if fn.Blocks == nil {
			r.noBody[fn.String()] = true
			x.rets = []rval{rTop, rTop, rTop, rTop}
		}
		r.fns[fn] = x
		r.enqueue(x)
	}
	for i := range x.params {
		if i < len(args) {
			n := x.params[i].join(args[i])
			if !n.eq(x.params[i]) {
				x.params[i] = n
				r.enqueue(x)
			}
		}
	}
	if from != nil {
		x.callers[from] = true
	}
	return x
}

func (r *Reach) enqueue(x *rfn) {
	if !x.queued && x.fn.Blocks != nil {
		x.queued = true
		r.queue = append(r.queue, x.fn)
	}
}

func (r *Reach) addType(t types.Type, from *ssa.Function, pos token.Pos) {
	k := typeKey(t)
	if r.dyn[k] != nil {
		return
	}
	if types.IsInterface(t) {
		return
	}
	r.dyn[k] = t
	r.dynL = append(r.dynL, t)
	for _, iv := range r.invL {
		r.bind(t, iv)
	}
	// methods the standard library calls on its own
	ms := r.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if stdCalled[ms.At(i).Obj().Name()] {
			if f := r.P.Prog.MethodValue(ms.At(i)); f != nil {
				r.Add(f, from, pos, "method of a type passed as an interface")
			}
		}
	}
}

var stdCalled = map[string]bool{"String": true, "Error": true, "GoString": true, "Format": true, "Unwrap": true, "Is": true, "As": true,
	"Read": true, "Write": true, "Close": true, "ReadByte": true, "ReadRune": true, "UnreadRune": true, "UnreadByte": true, "WriteByte": true, "WriteString": true, "ReadFrom": true, "WriteTo": true, "Seek": true, "ReadAt": true, "WriteAt": true,
	"Len": true, "Less": true, "Swap": true, "Push": true, "Pop": true, "Lock": true, "Unlock": true, "Set": true, "Get": true, "Scan": true,
	"MarshalJSON": true, "UnmarshalJSON": true, "MarshalText": true, "UnmarshalText": true, "MarshalBinary": true, "UnmarshalBinary": true, "GobEncode": true, "GobDecode": true, "Int63": true, "Uint64": true, "Seed": true}

func (r *Reach) bind(t types.Type, iv rinv) {
	if !types.Implements(t, iv.I) {
		return
	}
	sel := r.P.Prog.MethodSets.MethodSet(t).Lookup(iv.M.Pkg(), iv.M.Name())
	if sel == nil {
		return
	}
	if f := r.P.Prog.MethodValue(sel); f != nil {
		r.Add(f, iv.from, iv.pos, "interface call of "+iv.M.Name())
	}
}

func (r *Reach) invoke(c *ssa.CallCommon, from *ssa.Function) {
	it := c.Value.Type().Underlying().(*types.Interface)
	k := typeKey(c.Value.Type()) + "." + c.Method.Name()
	if _, ok := r.invs[k]; ok {
		return
	}
	iv := rinv{I: it, M: c.Method, from: from, pos: c.Pos()}
	r.invs[k] = iv
	r.invL = append(r.invL, iv)
	for _, t := range r.dynL {
		r.bind(t, iv)
	}
}

// Run takes the traversal to its fixpoint.
func (r *Reach) Run() {
	for len(r.queue) > 0 {
		fn := r.queue[0]
		r.queue = r.queue[1:]
		x := r.fns[fn]
		x.queued = false
		r.analyse(x)
	}
}

func structKey(t types.Type) (string, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return typeKey(t), s
}

func zeroR(t types.Type) rval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return rConstBool(false)
		case u.Info()&types.IsInteger != 0:
			return rval{k: 1, c: constant.MakeInt64(0)}
		case u.Info()&types.IsString != 0:
			return rval{k: 1, c: constant.MakeString("")}
		}
		return rTop
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan, *types.Slice:
		return rNil
	}
	return rTop
}

func (r *Reach) fieldVal(t types.Type, i int, fn *ssa.Function) rval {
	k, s := structKey(t)
	if s == nil || i >= s.NumFields() {
		return rTop
	}
	fk := rfield{k, i}
	if v, ok := r.forced[fk]; ok {
		return v
	}
	if s.Field(i).Exported() || !r.inModule(s.Field(i).Pkg()) {
		return rTop
	}
	if r.fload[fk] == nil {
		r.fload[fk] = map[*ssa.Function]bool{}
	}
	r.fload[fk][fn] = true
	return r.fields[fk]
}

func (r *Reach) inModule(p *types.Package) bool {
	return p != nil && (p == r.P.Zygo.Pkg || r.P.Cmd != nil && p == r.P.Cmd.Pkg)
}

func (r *Reach) joinField(t types.Type, i int, v rval) {
	k, s := structKey(t)
	if s == nil {
		return
	}
	fk := rfield{k, i}
	n := r.fields[fk].join(v)
	if n.eq(r.fields[fk]) {
		return
	}
	r.fields[fk] = n
	for fn := range r.fload[fk] {
		r.enqueue(r.fns[fn])
	}
}

// zeroAll records that zero values of t exist.
func (r *Reach) zeroAll(t types.Type, d int) {
	if d > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		r.zeroAll(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.joinField(t, i, zeroR(u.Field(i).Type()))
			r.zeroAll(u.Field(i).Type(), d+1)
		}
	}
}

func (r *Reach) joinGlobal(g *ssa.Global, v rval) {
	n := r.globals[g].join(v)
	if n.eq(r.globals[g]) {
		return
	}
	r.globals[g] = n
	for fn := range r.gload[g] {
		r.enqueue(r.fns[fn])
	}
}

func (r *Reach) touch(g *ssa.Global) {
	if !r.gseen[g] {
		r.gseen[g] = true
		if r.OnGlob != nil && g.Pkg != nil && r.inModule(g.Pkg.Pkg) {
			r.OnGlob(g)
		}
	}
}

func (r *Reach) analyse(x *rfn) {
	fn := x.fn
	vals := map[ssa.Value]rval{}
	live := map[*ssa.BasicBlock]bool{}
	edge := map[[2]int]bool{}
	var get func(v ssa.Value) rval
	get = func(v ssa.Value) rval {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				z := zeroR(v.Type())
				return z
			}
			return rval{k: 1, c: v.Value}
		case *ssa.Function, *ssa.Global, *ssa.Builtin:
			return rNonNil
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == v {
					return x.params[i]
				}
			}
			return rTop
		case *ssa.FreeVar:
			return rTop
		}
		return vals[v]
	}
	var domRet func(b *ssa.BasicBlock) bool
	domRet = func(b *ssa.BasicBlock) bool {
		for _, o := range fn.Blocks {
			if !live[o] || len(o.Instrs) == 0 {
				continue
			}
			if _, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok && !b.Dominates(o) {
				return false
			}
		}
		return true
	}
	rets := []rval{}
	live[fn.Blocks[0]] = true
	if fn.Recover != nil {
		live[fn.Recover] = true
	}
	eval := func(in ssa.Instruction) rval {
		switch in := in.(type) {
		case *ssa.Phi:
			v := rBot
			for i, p := range in.Block().Preds {
				if edge[[2]int{p.Index, in.Block().Index}] {
					v = v.join(get(in.Edges[i]))
				}
			}
			return v
		case *ssa.BinOp:
			a, b := get(in.X), get(in.Y)
			if a.k == 0 || b.k == 0 {
				return rBot
			}
			if in.Op == token.EQL || in.Op == token.NEQ {
				res, known := false, false
				switch {
				case a.k == 1 && b.k == 1:
					res, known = constant.Compare(a.c, token.EQL, b.c), true
				case a.k == 2 && b.k == 2:
					res, known = true, true
				case a.k == 2 && b.k == 3 || a.k == 3 && b.k == 2:
					res, known = false, true
				}
				if known {
					return rConstBool(res == (in.Op == token.EQL))
				}
			}
			return rTop
		case *ssa.UnOp:
			switch in.Op {
			case token.NOT:
				a := get(in.X)
				if a.k == 1 && a.c.Kind() == constant.Bool {
					return rConstBool(!constant.BoolVal(a.c))
				}
				if a.k == 0 {
					return a
				}
				return rTop
			case token.MUL:
				switch p := in.X.(type) {
				case *ssa.FieldAddr:
					return r.fieldVal(p.X.Type(), p.Field, fn)
				case *ssa.Global:
					if r.gload[p] == nil {
						r.gload[p] = map[*ssa.Function]bool{}
					}
					r.gload[p][fn] = true
					r.touch(p)
					if v, ok := r.globals[p]; ok {
						return v
					}
				}
			}
			return rTop
		case *ssa.Field:
			return r.fieldVal(in.X.Type(), in.Field, fn)
		case *ssa.ChangeType:
			return get(in.X)
		case *ssa.ChangeInterface:
			return get(in.X)
		case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
			return rNonNil
		case *ssa.Extract:
			if c, ok := in.Tuple.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil {
					if y := r.fns[f]; y != nil && !stdPath(fnPkg(f)) {
						if in.Index < len(y.rets) {
							return y.rets[in.Index]
						}
						return rBot
					}
				}
			}
			return rTop
		case *ssa.Call:
			if f := in.Call.StaticCallee(); f != nil {
				if stdPath(fnPkg(f)) {
					switch f.String() {
					case "fmt.Errorf", "errors.New":
						return rNonNil
					}
					return rTop
				}
				if y := r.fns[f]; y != nil {
					if f.Signature.Results().Len() == 1 {
						if len(y.rets) > 0 {
							return y.rets[0]
						}
						return rBot
					}
				}
			}
			return rTop
		}
		return rTop
	}
	doCall := func(in ssa.CallInstruction) {
		c := in.Common()
		if c.IsInvoke() {
			r.invoke(c, fn)
			return
		}
		f := c.StaticCallee()
		if f == nil {
			return
		}
		args := make([]rval, len(c.Args))
		for i, a := range c.Args {
			args[i] = get(a)
		}
		r.call(f, args, fn, in.Pos(), "call")
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					doCall(ci) // before its value is used
				}
				if v, ok := in.(ssa.Value); ok {
					n := vals[v].join(eval(in))
					if !n.eq(vals[v]) {
						vals[v] = n
						changed = true
					}
				}
			}
			if len(b.Instrs) == 0 {
				continue
			}
			take := func(i int) {
				e := [2]int{b.Index, b.Succs[i].Index}
				if !edge[e] {
					edge[e] = true
					changed = true
				}
				if !live[b.Succs[i]] {
					live[b.Succs[i]] = true
					changed = true
				}
			}
			if last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				v := get(last.Cond)
				switch {
				case v.k == 0:
				case v.k == 1 && v.c.Kind() == constant.Bool:
					if constant.BoolVal(v.c) {
						take(0)
					} else {
						take(1)
					}
				default:
					take(0)
					take(1)
				}
			} else {
				for i := range b.Succs {
					take(i)
				}
			}
		}
	}
	r.live[fn] = live
	x.instrs = 0
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			x.instrs++
			callee := ssa.Value(nil)
			if ci, ok := in.(ssa.CallInstruction); ok {
				r.Calls++
				if !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
			}
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					if ssa.Value(v) != callee {
						r.Add(v, fn, in.Pos(), "value")
					}
				case *ssa.Global:
					r.touch(v)
				}
			}
			switch in := in.(type) {
			case *ssa.MakeInterface:
				r.addType(in.X.Type(), fn, in.Pos())
			case *ssa.MakeClosure:
				r.Add(in.Fn.(*ssa.Function), fn, in.Pos(), "closure")
			case *ssa.Return:
				for i, v := range in.Results {
					for len(rets) <= i {
						rets = append(rets, rBot)
					}
					rets[i] = rets[i].join(get(v))
				}
			case *ssa.Alloc:
				t := in.Type().(*types.Pointer).Elem()
				s, ok := t.Underlying().(*types.Struct)
				if !ok {
					r.zeroAll(t, 0)
					break
				}
				set := map[int]bool{}
				for _, ref := range *in.Referrers() {
					switch ref := ref.(type) {
					case *ssa.FieldAddr:
						for _, u := range *ref.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == ref && domRet(s.Block()) {
								set[ref.Field] = true
							}
						}
					case *ssa.Store:
						if ref.Addr == in && domRet(ref.Block()) {
							for i := 0; i < s.NumFields(); i++ {
								set[i] = true
							}
						}
					}
				}
				for i := 0; i < s.NumFields(); i++ {
					if !set[i] {
						r.joinField(t, i, zeroR(s.Field(i).Type()))
						r.zeroAll(s.Field(i).Type(), 0)
					}
				}
			case *ssa.MakeSlice:
				r.zeroAll(in.Type().Underlying().(*types.Slice).Elem(), 0)
			case *ssa.FieldAddr:
				for _, u := range *in.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if u.Addr == in && u.Val != in {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						continue
					}
					r.joinField(in.X.Type(), in.Field, rTop)
				}
			case *ssa.Store:
				switch p := in.Addr.(type) {
				case *ssa.FieldAddr:
					r.joinField(p.X.Type(), p.Field, get(in.Val))
				case *ssa.Global:
					r.joinGlobal(p, get(in.Val))
				}
				if c, ok := in.Val.(*ssa.Const); ok && c.Value == nil {
					if _, s := structKey(c.Type()); s != nil {
						if _, isS := c.Type().Underlying().(*types.Struct); isS {
							for i := 0; i < s.NumFields(); i++ {
								r.joinField(c.Type(), i, zeroR(s.Field(i).Type()))
							}
						}
					}
				}
			}
		}
	}
	for i, v := range rets {
		for len(x.rets) <= i {
			x.rets = append(x.rets, rBot)
		}
		n := x.rets[i].join(v)
		if !n.eq(x.rets[i]) {
			x.rets[i] = n
			for c := range x.callers {
				if y := r.fns[c]; y != nil {
					r.enqueue(y)
				}
			}
		}
	}
}

// Path shows how fn is reached.
func (r *Reach) Path(fn *ssa.Function) string {
	var ps []string
	for i := 0; fn != nil && i < 40; i++ {
		x := r.fns[fn]
		if x == nil {
			break
		}
		s := shortFn(fn)
		if x.from == nil {
			s = x.how + " " + s
		} else if x.how != "call" {
			s = "(" + x.how + ") " + s
		}
		ps = append(ps, s)
		fn = x.from
	}
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	return strings.Join(ps, " -> ")
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, "github.com/glycerine/zygomys/v9/", "")
}

func (r *Reach) SortedSinks() []rsink {
	var ks []string
	for k := range r.Sinks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []rsink
	for _, k := range ks {
		out = append(out, r.Sinks[k])
	}
	return out
}

// Heap walks an abstract value and reports every function, every boxed type and every object of a named
// struct type in it.
type heapWalk struct {
	st   *State
	seen map[int]bool
	fun  func(f *FuncV)
	typ  func(t types.Type)
	obj  func(s *StructV)
	n    int
	opaq int
}

func (h *heapWalk) walk(v Value) {
	switch v := v.(type) {
	case PtrV:
		h.object(v.Obj)
		if v.P != nil {
			for _, p := range pathList(v.P) {
				if p.idx != nil {
					h.walk(p.idx)
				}
			}
		}
	case *PtrV:
		h.object(v.Obj)
	case *StructV:
		if h.obj != nil {
			h.obj(v)
		}
		for _, x := range v.F {
			h.walk(x)
		}
	case *ArrV:
		for _, x := range v.E {
			h.walk(x)
		}
	case *TupleV:
		for _, x := range v.E {
			h.walk(x)
		}
	case SliceV:
		h.object(v.Obj)
	case MapV:
		h.object(v.Obj)
	case *MapObj:
		for _, x := range v.Ents {
			if !x.Del {
				h.walk(x.K)
				h.walk(x.V)
			}
		}
	case *LazyArr:
		for _, w := range v.W {
			h.walk(w.V)
		}
		h.opaq++
	case IfaceV:
		if h.typ != nil && v.T != nil {
			h.typ(v.T)
		}
		h.walk(v.V)
	case *FuncV:
		h.fun(v)
		for _, x := range v.Free {
			h.walk(x)
		}
	case *HostV:
		if s, ok := v.V.(*StructV); ok {
			h.walk(s)
		}
	case *Term:
		h.opaq++
		for _, x := range v.Args {
			h.walk(x)
		}
	}
}

func (h *heapWalk) object(id int) {
	if h.seen[id] {
		return
	}
	h.seen[id] = true
	v, ok := h.st.obj(id)
	if !ok {
		return
	}
	h.n++
	h.walk(v)
}
