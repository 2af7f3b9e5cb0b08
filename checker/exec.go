package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"runtime/metrics"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	next *deferRec
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

type frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	free   []Value
	st     *State
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers *deferRec
	visits map[*ssa.BasicBlock]int
	// panic handling
	panicking   Value // value being propagated through deferred calls of this frame
	inPanic     bool
	isDeferred  bool
	callerPanic Value // panic value visible to recover() in this (deferred) frame
	recoveredUp bool
}

func (f *frame) clone(st *State) *frame {
	n := *f
	n.env = append([]Value(nil), f.env...)
	n.st = st
	if f.visits != nil {
		n.visits = copyMap(f.visits)
	}
	return &n
}

func (e *Engine) infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := e.fninfo[fn]; ok {
		return i
	}
	i := &fnInfo{slots: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		i.slots[p] = i.n
		i.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				i.slots[v] = i.n
				i.n++
			}
		}
	}
	e.fninfo[fn] = i
	return i
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPrefix+"/zygo.", "zygo.")
	s = strings.ReplaceAll(s, modPrefix+"/cmd/zygo.", "main.")
	return s
}

const modPrefix = "github.com/glycerine/zygomys/v9"

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func heapMB() uint64 {
	metrics.Read(heapSample)
	return heapSample[0].Value.Uint64() >> 20
}

type budgetErr struct{ why string }

// Run interprets fn with a fresh budget and converts engine failures into an error.
func (e *Engine) Run(fn *ssa.Function, args []Value, st *State) (outs []Outcome, err error) {
	e.Steps, e.lastExec = 0, 0
	e.stack = nil
	e.onstack = map[*ssa.Function]int{}
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				err = fmt.Errorf("undecided: %s", b.why)
				return
			}
			panic(r)
		}
	}()
	outs = e.CallFn(fn, args, nil, st, 0, nil, false)
	return
}

func (e *Engine) trunc(st *State, why string) Outcome {
	e.Truncated++
	e.TruncWhy[why]++
	return Outcome{St: st, Kind: kTrunc, Why: why}
}

// CallFn interprets a function body.
func (e *Engine) CallFn(fn *ssa.Function, args []Value, free []Value, st *State, depth int, cp Value, isDeferred bool) []Outcome {
	if fn.Blocks == nil {
		e.ensureBuilt(fn)
	}
	if fn.Blocks == nil {
		return e.opaqueCall(&Call{E: e, St: st, Fn: fn, Name: shortName(fn.String()), Args: args, Sig: fn.Signature, Depth: depth})
	}
	if e.onstack[fn] >= e.MaxRec || depth > 400 {
		return []Outcome{e.trunc(st, "recursion "+fn.Name())}
	}
	e.onstack[fn]++
	if fn.Name() == "Execute" {
		e.lastExec = e.Steps
	}
	e.visitedFn[fn]++
	defer func() { e.onstack[fn]-- }()
	info := e.infoOf(fn)
	f := &frame{fn: fn, info: info, env: make([]Value, info.n), free: free, st: st, blk: fn.Blocks[0], isDeferred: isDeferred, callerPanic: cp}
	for i := range fn.Params {
		if i < len(args) {
			f.env[i] = args[i]
		}
	}
	var outs []Outcome
	work := []*frame{f}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		e.step(f, depth, &work, &outs)
		if len(outs) > e.MaxOut {
			panic(budgetErr{"too many paths in " + fn.String()})
		}
	}
	return outs
}

func (e *Engine) ensureBuilt(fn *ssa.Function) {
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if pk != nil && e.InlinePkg[pk.Pkg.Path()] {
		pk.Build()
	}
}

func (f *frame) get(e *Engine, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return PtrV{Obj: e.globalObj(f.st, x)}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &HostV{Kind: "builtin", V: x.Name()}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				if i < len(f.free) {
					return f.free[i]
				}
				return e.Sym("free:"+x.Name(), x.Type())
			}
		}
	}
	s, ok := f.info.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, f.fn))
	}
	r := f.env[s]
	if r == nil {
		r = e.Fresh("undef:"+v.Name(), v.Type())
	}
	return r
}

func (f *frame) set(v ssa.Value, x Value) { f.env[f.info.slots[v]] = x }

func (e *Engine) globalObj(st *State, g *ssa.Global) int {
	o, ok := e.globals[g]
	if !ok {
		e.nobj++
		o = e.nobj
		e.globals[g] = o
	}
	if _, ok := st.obj(o); !ok {
		et := g.Type().(*types.Pointer).Elem()
		if e.inited[g.Pkg] {
			st.setObj(o, e.Zero(et))
		} else {
			t := e.Sym("global:"+shortName(g.String()), et)
			if isIface(et) {
				d := st.dyn[t.ID]
				d.NonNil = true
				st.dyn[t.ID] = d
			}
			st.setObj(o, t)
		}
	}
	return o
}

// branch forks f on a boolean value; returns the frames for true and false (nil if infeasible).
func (e *Engine) branch(f *frame, c Value) (*frame, *frame) {
	if r, k := e.Tri(f.st, c); k {
		if r {
			return f, nil
		}
		return nil, f
	}
	if _, ok := c.(*Term); !ok {
		c = e.Fresh("cond", tBool)
	}
	s1, s2 := f.st.Clone(), f.st.Clone()
	var f1, f2 *frame
	if e.Assume(s1, c, true) {
		f1 = f.clone(s1)
	}
	if e.Assume(s2, c, false) {
		f2 = f.clone(s2)
	}
	return f1, f2
}

func (e *Engine) rtPanic(f *frame, msg string) Value {
	return IfaceV{T: runtimeErrT, V: StrV("runtime error: " + msg)}
}

var runtimeErrT types.Type = types.NewNamed(types.NewTypeName(0, nil, "runtime.Error", nil), types.Typ[types.String], nil)

// raise starts panicking in f: runs defers, then emits outcomes.
func (e *Engine) raise(f *frame, pv Value, depth int, work *[]*frame, outs *[]Outcome) {
	f.inPanic = true
	f.panicking = pv
	e.runDefers(f, depth, work, outs)
}

func (e *Engine) posOf(in ssa.Instruction) string {
	return e.P.Pos(in.Pos())
}

// runDefers executes pending defers of f; f.inPanic tells whether panicking.
func (e *Engine) runDefers(f *frame, depth int, work *[]*frame, outs *[]Outcome) {
	fs := []*frame{f}
	for len(fs) > 0 {
		f := fs[len(fs)-1]
		fs = fs[:len(fs)-1]
		if f.defers == nil {
			if f.inPanic {
				*outs = append(*outs, Outcome{St: f.st, Kind: kPanic, PanicV: f.panicking, recovered: f.recoveredUp})
				continue
			}
			// normal completion (continue after RunDefers) or recovered
			*work = append(*work, f)
			continue
		}
		d := f.defers
		f.defers = d.next
		var cp Value
		if f.inPanic {
			cp = f.panicking
		}
		os := e.invoke(f, d.call, d.fn, d.args, depth+1, cp, true, d.pos)
		for i, o := range os {
			g := f
			if i < len(os)-1 {
				g = f.clone(o.St)
			} else {
				g.st = o.St
			}
			switch o.Kind {
			case kReturn:
				if o.recovered && g.inPanic {
					g.inPanic = false
					g.panicking = nil
					if g.defers == nil {
						e.afterRecover(g, depth, work, outs)
						continue
					}
					// remaining defers then recover block
					g.blk = nil
				}
				if g.blk == nil && g.defers == nil && !g.inPanic {
					e.afterRecover(g, depth, work, outs)
					continue
				}
				fs = append(fs, g)
			case kPanic:
				g.inPanic = true
				g.panicking = o.PanicV
				fs = append(fs, g)
			default:
				*outs = append(*outs, o)
			}
		}
	}
}

func (e *Engine) afterRecover(f *frame, depth int, work *[]*frame, outs *[]Outcome) {
	if f.fn.Recover == nil {
		r := []Value{}
		for i := 0; i < f.fn.Signature.Results().Len(); i++ {
			r = append(r, e.Zero(f.fn.Signature.Results().At(i).Type()))
		}
		*outs = append(*outs, Outcome{St: f.st, Kind: kReturn, Ret: r, recovered: f.recoveredUp})
		return
	}
	f.prev = nil
	f.blk = f.fn.Recover
	f.pc = 0
	*work = append(*work, f)
}

func (e *Engine) step(f *frame, depth int, work *[]*frame, outs *[]Outcome) {
	for {
		if f.pc == 0 && f.prev != nil {
			// phis
			var idx int
			for i, p := range f.blk.Preds {
				if p == f.prev {
					idx = i
					break
				}
			}
			var vals []Value
			n := 0
			for _, in := range f.blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, f.get(e, ph.Edges[idx]))
				n++
			}
			for i := 0; i < n; i++ {
				f.set(f.blk.Instrs[i].(*ssa.Phi), vals[i])
			}
			f.pc = n
		}
		in := f.blk.Instrs[f.pc]
		e.Steps++
		if e.Steps&0x3ffff == 0 && heapMB() > 2500 {
			runtime.GC()
			if heapMB() > 2000 {
				panic(budgetErr{"memory budget in " + f.fn.String()})
			}
		}
		if e.Steps > e.MaxSteps {
			if e.Steps-e.lastExec > e.MaxSteps/2 {
				panic(budgetErr{"step budget, without an instruction of the program, in " + f.fn.String()})
			}
			panic(budgetErr{"step budget in " + f.fn.String()})
		}
		f.pc++
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			f.prev, f.blk, f.pc = f.blk, f.blk.Succs[0], 0
		case *ssa.If:
			c := f.get(e, x.Cond)
			_, known := e.Tri(f.st, c)
			t, fl := e.branch(f, c)
			if !known {
				if e.ForkLog != nil {
					e.ForkLog[f.fn.Name()+"@"+e.P.Pos(x.Cond.Pos())+" "+f.st.Show(c)]++
				}
				for _, g := range []*frame{t, fl} {
					if g == nil {
						continue
					}
					if g.visits == nil {
						g.visits = map[*ssa.BasicBlock]int{}
					}
					g.visits[x.Block()]++
				}
			}
			b := x.Block()
			if t != nil {
				t.prev, t.blk, t.pc = b, b.Succs[0], 0
			}
			if fl != nil {
				fl.prev, fl.blk, fl.pc = b, b.Succs[1], 0
			}
			if !known && f.visits != nil && f.visits[b] >= e.LoopK {
				// prune the arm that stays in the loop
				if t != nil && e.inLoop(b, b.Succs[0]) && !(e.inLoop(b, b.Succs[1])) {
					*outs = append(*outs, e.trunc(t.st, "loop in "+f.fn.Name()))
					t = nil
				} else if fl != nil && e.inLoop(b, b.Succs[1]) && !(e.inLoop(b, b.Succs[0])) {
					*outs = append(*outs, e.trunc(fl.st, "loop in "+f.fn.Name()))
					fl = nil
				} else if f.visits[b] >= e.LoopK+2 && e.inLoop(b, b.Succs[0]) && e.inLoop(b, b.Succs[1]) {
					if t != nil {
						*outs = append(*outs, e.trunc(t.st, "loop in "+f.fn.Name()))
					}
					if fl != nil {
						*outs = append(*outs, e.trunc(fl.st, "loop in "+f.fn.Name()))
					}
					return
				}
			}
			switch {
			case t != nil && fl != nil:
				*work = append(*work, fl)
				f = t
			case t != nil:
				f = t
			case fl != nil:
				f = fl
			default:
				return
			}
		case *ssa.Return:
			var r []Value
			for _, v := range x.Results {
				r = append(r, f.get(e, v))
			}
			*outs = append(*outs, Outcome{St: f.st, Kind: kReturn, Ret: r, recovered: f.recoveredUp})
			return
		case *ssa.Panic:
			e.raise(f, f.get(e, x.X), depth, work, outs)
			return
		case *ssa.RunDefers:
			if f.defers != nil {
				e.runDefers(f, depth, work, outs)
				return
			}
		case *ssa.Defer:
			fnv, args, _ := e.prepareCall(f, &x.Call)
			f.defers = &deferRec{next: f.defers, call: &x.Call, fn: fnv, args: args, pos: x.Pos()}
		case *ssa.Go:
			fnv, args, _ := e.prepareCall(f, &x.Call)
			f.st.Emit("go", e.posOf(x), append([]Value{fnv}, args...)...)
		case *ssa.Send:
			f.st.Emit("send", e.posOf(x), f.get(e, x.Chan), f.get(e, x.X))
		case *ssa.Store:
			p := f.get(e, x.Addr)
			v := f.get(e, x.Val)
			pp, ok := e.deref(f.st, p)
			if !ok {
				e.raise(f, e.rtPanic(f, "nil pointer dereference (store) at "+e.posOf(x)), depth, work, outs)
				return
			}
			if e.OnStore != nil {
				e.OnStore(f.fn, x, f.st, pp, v)
			}
			if !e.Store(f.st, pp, v) {
				e.note("unresolved store in " + f.fn.Name())
			}
		case *ssa.MapUpdate:
			m, k, v := f.get(e, x.Map), f.get(e, x.Key), f.get(e, x.Value)
			var sts []*State
			if !e.MapUpdate(f.st, m, k, v, false, func(s *State) { sts = append(sts, s) }) {
				e.raise(f, e.rtPanic(f, "assignment to entry in nil map"), depth, work, outs)
				return
			}
			if len(sts) == 0 {
				return
			}
			for _, s := range sts[1:] {
				*work = append(*work, f.clone(s))
			}
			f.st = sts[0]
		case ssa.Value:
			if !e.value(f, x, in, depth, work, outs) {
				return
			}
		default:
			panic(fmt.Sprintf("instr %T", in))
		}
	}
}

// inLoop: can 'to' reach 'from' again.
var loopCache = map[[2]*ssa.BasicBlock]bool{}

func (e *Engine) inLoop(from, to *ssa.BasicBlock) bool {
	k := [2]*ssa.BasicBlock{from, to}
	if r, ok := loopCache[k]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == from {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	r := dfs(to)
	loopCache[k] = r
	return r
}

// value evaluates a value-producing instruction; false = f consumed (forked, panicked).
func (e *Engine) value(f *frame, v ssa.Value, in ssa.Instruction, depth int, work *[]*frame, outs *[]Outcome) bool {
	st := f.st
	switch x := v.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		f.set(x, e.NewObj(st, e.Zero(et)))
	case *ssa.BinOp:
		r, pan := e.binop(st, x, f.get(e, x.X), f.get(e, x.Y))
		if pan != "" {
			e.raise(f, e.rtPanic(f, pan), depth, work, outs)
			return false
		}
		if r == nil { // division by an unknown divisor: fork on zero
			y := f.get(e, x.Y)
			z := e.eqVal(st, y, IntV(0))
			t, fl := e.branch(f, z)
			if t != nil {
				e.raise(t, e.rtPanic(t, "integer divide by zero"), depth, work, outs)
			}
			if fl != nil {
				fl.set(x, e.NewTerm(x.Op.String(), x.Type(), f.get(e, x.X), y))
				*work = append(*work, fl)
			}
			return false
		}
		f.set(x, r)
	case *ssa.UnOp:
		a := f.get(e, x.X)
		switch x.Op {
		case token.MUL:
			r, ok := e.Load(st, a)
			if !ok {
				if _, isT := a.(*Term); !isT {
					if p, isP := a.(PtrV); isP {
						e.note(fmt.Sprintf("unresolved load %s in %s", valKey(p), f.fn.Name()))
						f.set(x, e.Fresh("load", x.Type()))
						return true
					}
				}
				e.raise(f, e.rtPanic(f, "nil pointer dereference at "+e.posOf(in)), depth, work, outs)
				return false
			}
			f.set(x, r)
		case token.NOT:
			f.set(x, e.not(a))
		case token.SUB:
			switch y := a.(type) {
			case IntV:
				f.set(x, normInt(-y, x.Type().Underlying().(*types.Basic)))
			case FltV:
				f.set(x, -y)
			default:
				if isFloat(x.Type()) {
					f.set(x, e.NewTerm("neg", x.Type(), a))
				} else {
					f.set(x, e.sub(IntV(0), a, x.Type()))
				}
			}
		case token.XOR:
			if y, ok := a.(IntV); ok {
				f.set(x, normInt(^y, x.Type().Underlying().(*types.Basic)))
			} else {
				f.set(x, e.NewTerm("compl", x.Type(), a))
			}
		case token.ARROW:
			st.Emit("recv", e.posOf(in), a)
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				f.set(x, &TupleV{E: []Value{e.Fresh("recv", tt.At(0).Type()), e.Fresh("recvok", tBool)}})
			} else {
				f.set(x, e.Fresh("recv", x.Type()))
			}
		}
	case *ssa.ChangeType:
		f.set(x, retype(f.get(e, x.X), x.Type()))
	case *ssa.ChangeInterface:
		f.set(x, f.get(e, x.X))
	case *ssa.Convert:
		f.set(x, e.convert(st, f.get(e, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		f.set(x, e.convert(st, f.get(e, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		f.set(x, IfaceV{T: x.X.Type(), V: f.get(e, x.X)})
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.Free = append(fv.Free, f.get(e, b))
		}
		f.set(x, fv)
	case *ssa.MakeMap:
		f.set(x, e.NewMap(st, x.Type().Underlying().(*types.Map)))
	case *ssa.MakeChan:
		f.set(x, e.Fresh("chan", x.Type()))
	case *ssa.MakeSlice:
		l, c := f.get(e, x.Len), f.get(e, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if n, ok := l.(IntV); ok {
			cc, ok := c.(IntV)
			if !ok {
				cc = n
			}
			if n < 0 || cc < n || cc > 1<<47 {
				e.raise(f, e.rtPanic(f, "makeslice: len out of range"), depth, work, outs)
				return false
			}
			if n > 65536 {
				panic(budgetErr{"large slice in " + f.fn.String()})
			}
			if cc > 65536 {
				cc = 65536
			}
			a := &ArrV{E: make([]Value, cc)}
			z := e.Zero(et)
			for i := range a.E {
				a.E[i] = z
			}
			f.set(x, SliceV{Obj: e.alloc(st, a), Len: int(n), Cap: int(cc)})
		} else {
			e.nfresh++
			t := e.NewTerm("makeslice", x.Type(), StrV(fmt.Sprint("#", e.nfresh)), l)
			o := e.alloc(st, &LazyArr{Base: t, Elem: et, Zero: true})
			st.mat[t.ID] = o
			d := st.dyn[t.ID]
			d.NonNil = true
			st.dyn[t.ID] = d
			f.set(x, t)
		}
	case *ssa.FieldAddr:
		p, ok := e.deref(st, f.get(e, x.X))
		if !ok {
			e.raise(f, e.rtPanic(f, "nil pointer dereference (field) at "+e.posOf(in)), depth, work, outs)
			return false
		}
		f.set(x, PtrV{Obj: p.Obj, P: e.path(p.P, x.Field, nil)})
	case *ssa.Field:
		switch y := f.get(e, x.X).(type) {
		case *StructV:
			f.set(x, y.F[x.Field])
		case *Term:
			f.set(x, e.fieldTerm(y, x.Field))
		default:
			f.set(x, e.Fresh("field", x.Type()))
		}
	case *ssa.IndexAddr:
		return e.indexAddr(f, x, depth, work, outs)
	case *ssa.Index:
		return e.index(f, x, depth, work, outs)
	case *ssa.Lookup:
		m, k := f.get(e, x.X), f.get(e, x.Index)
		if isStringT(x.X.Type()) {
			return e.strIndex(f, x, m, k, depth, work, outs)
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		first := true
		var nf []*frame
		e.MapLookup(st, m, k, vt, func(s *State, val, ok Value) {
			g := f
			if !first || s != st {
				g = f.clone(s)
			}
			first = false
			if x.CommaOk {
				g.set(x, &TupleV{E: []Value{val, ok}})
			} else {
				g.set(x, val)
			}
			nf = append(nf, g)
		})
		if len(nf) == 1 && nf[0] == f {
			return true
		}
		*work = append(*work, nf...)
		return false
	case *ssa.Slice:
		return e.sliceOp(f, x, depth, work, outs)
	case *ssa.SliceToArrayPointer:
		f.set(x, e.Fresh("sl2arr", x.Type()))
	case *ssa.Extract:
		switch t := f.get(e, x.Tuple).(type) {
		case *TupleV:
			f.set(x, t.E[x.Index])
		default:
			f.set(x, e.NewTerm(fmt.Sprintf("ext%d", x.Index), x.Type(), t))
		}
	case *ssa.TypeAssert:
		return e.typeAssert(f, x, depth, work, outs)
	case *ssa.Range:
		m := f.get(e, x.X)
		it := &IterObj{}
		if isStringT(x.X.Type()) {
			it.IsStr, it.Str = true, m
		} else {
			mt := x.X.Type().Underlying().(*types.Map)
			it.KT, it.VT = mt.Key(), mt.Elem()
			it.Map = m
			if _, mo, ok := e.mapOf(st, m); ok {
				it.Snap, it.Base = mo.Ents, mo.Base
			}
		}
		f.set(x, PtrV{Obj: e.alloc(st, it)})
	case *ssa.Next:
		return e.next(f, x, work)
	case *ssa.Select:
		tt := x.Type().(*types.Tuple)
		tv := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			tv.E = append(tv.E, e.Fresh("select", tt.At(i).Type()))
		}
		f.set(x, tv)
	case *ssa.Call:
		return e.doCall(f, x, depth, work, outs)
	case *ssa.Phi:
		// entry without predecessor
		f.set(x, e.Fresh("phi", x.Type()))
	default:
		panic(fmt.Sprintf("value instr %T in %v", v, f.fn))
	}
	return true
}

func retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		return &StructV{T: t, F: x.F}
	case *Term:
		return x
	}
	return v
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		switch x := v.(type) {
		case IntV:
			switch {
			case tb.Info()&types.IsInteger != 0:
				return normInt(x, tb)
			case tb.Info()&types.IsFloat != 0:
				if fb.Info()&types.IsUnsigned != 0 {
					return fround(float64(uint64(x)), tb)
				}
				return fround(float64(x), tb)
			case tb.Info()&types.IsString != 0:
				return StrV(string(rune(x)))
			}
		case FltV:
			switch {
			case tb.Info()&types.IsInteger != 0:
				if tb.Info()&types.IsUnsigned != 0 {
					return normInt(IntV(uint64(x)), tb)
				}
				return normInt(IntV(int64(x)), tb)
			case tb.Info()&types.IsFloat != 0:
				return fround(float64(x), tb)
			}
		case StrV:
			return x
		case *Term:
			if types.Identical(fb, tb) {
				return x
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				fs, ts := intSize(fb), intSize(tb)
				fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
				if fs == ts && fu == tu {
					return x
				}
				// widening that preserves the value keeps the identity for round trips
				if x.Op == "conv" && len(x.Args) == 1 {
					if src, ok := x.Args[0].(*Term); ok && src.T != nil {
						if sb, ok := src.T.Underlying().(*types.Basic); ok && types.Identical(sb, tb) && fs >= ts {
							return src
						}
					}
				}
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return x
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsNumeric != 0 {
				return e.NewTerm("conv", to, stripWiden(x))
			}
			return e.NewTerm("conv", to, x)
		}
		return e.NewTerm("conv", to, v)
	}
	// string <-> slices
	if tb != nil && tb.Info()&types.IsString != 0 {
		if el, ok := st.Elems(v); ok {
			sl, _ := from.Underlying().(*types.Slice)
			var bs []byte
			all := true
			for _, x := range el {
				i, ok := x.(IntV)
				if !ok {
					all = false
					break
				}
				if sl != nil && isRuneElem(sl.Elem()) {
					bs = utf8.AppendRune(bs, rune(i))
				} else {
					bs = append(bs, byte(i))
				}
			}
			if all {
				return StrV(bs)
			}
			return e.NewTerm("str", to, el...)
		}
		if t, ok := v.(*Term); ok && t.Op == "conv" && len(t.Args) == 1 {
			if s, ok := t.Args[0].(*Term); ok && s.T != nil && isStringT(s.T) {
				return s
			}
		}
		return e.NewTerm("conv", to, v)
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := v.(StrV); ok {
			sl, _ := to.Underlying().(*types.Slice)
			var el []Value
			if sl != nil && isRuneElem(sl.Elem()) {
				for _, r := range string(s) {
					el = append(el, IntV(r))
				}
			} else {
				for i := 0; i < len(s); i++ {
					el = append(el, IntV(s[i]))
				}
			}
			return e.NewSlice(st, el...)
		}
		t := e.NewTerm("conv", to, v)
		return t
	}
	if fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		return e.NewTerm("unsafeconv", to, v)
	}
	return v
}

func isRuneElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func fround(f float64, b *types.Basic) Value {
	if b.Kind() == types.Float32 {
		return FltV(float64(float32(f)))
	}
	return FltV(f)
}

func (e *Engine) binop(st *State, x *ssa.BinOp, a, b Value) (Value, string) {
	return e.binopT(st, x.Op, x.X.Type(), x.Type(), a, b)
}

func (e *Engine) binopT(st *State, op token.Token, opT, resT types.Type, a, b Value) (Value, string) {
	if t, ok := a.(*Term); ok {
		if c, ok := st.eqc[t.ID]; ok {
			a = c
		}
	}
	if t, ok := b.(*Term); ok {
		if c, ok := st.eqc[t.ID]; ok {
			b = c
		}
	}
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b), ""
	case token.NEQ:
		return e.not(e.eqVal(st, a, b)), ""
	}
	if x, ok := a.(IntV); ok {
		if y, ok := b.(IntV); ok {
			u := isUnsigned(opT)
			rb, _ := resT.Underlying().(*types.Basic)
			n := func(v IntV) (Value, string) {
				if rb != nil {
					return normInt(v, rb), ""
				}
				return v, ""
			}
			switch op {
			case token.ADD:
				return n(x + y)
			case token.SUB:
				return n(x - y)
			case token.MUL:
				return n(x * y)
			case token.QUO:
				if y == 0 {
					return nil, "integer divide by zero"
				}
				if u {
					return n(IntV(uint64(x) / uint64(y)))
				}
				if y == -1 {
					return n(-x)
				}
				return n(x / y)
			case token.REM:
				if y == 0 {
					return nil, "integer divide by zero"
				}
				if u {
					return n(IntV(uint64(x) % uint64(y)))
				}
				if y == -1 {
					return IntV(0), ""
				}
				return n(x % y)
			case token.AND:
				return n(x & y)
			case token.OR:
				return n(x | y)
			case token.XOR:
				return n(x ^ y)
			case token.AND_NOT:
				return n(x &^ y)
			case token.SHL:
				if uint64(y) > 63 {
					return n(0)
				}
				return n(x << uint64(y))
			case token.SHR:
				if u {
					if uint64(y) > 63 {
						return n(0)
					}
					return n(IntV(uint64(x) >> uint64(y)))
				}
				if uint64(y) > 63 {
					y = 63
				}
				return n(x >> uint64(y))
			case token.LSS:
				if u {
					return BoolV(uint64(x) < uint64(y)), ""
				}
				return BoolV(x < y), ""
			case token.LEQ:
				if u {
					return BoolV(uint64(x) <= uint64(y)), ""
				}
				return BoolV(x <= y), ""
			case token.GTR:
				if u {
					return BoolV(uint64(x) > uint64(y)), ""
				}
				return BoolV(x > y), ""
			case token.GEQ:
				if u {
					return BoolV(uint64(x) >= uint64(y)), ""
				}
				return BoolV(x >= y), ""
			}
		}
	}
	if x, ok := a.(FltV); ok {
		if y, ok := b.(FltV); ok {
			switch op {
			case token.ADD:
				return FltV(x + y), ""
			case token.SUB:
				return FltV(x - y), ""
			case token.MUL:
				return FltV(x * y), ""
			case token.QUO:
				return FltV(float64(x) / float64(y)), ""
			case token.LSS:
				return BoolV(x < y), ""
			case token.LEQ:
				return BoolV(x <= y), ""
			case token.GTR:
				return BoolV(x > y), ""
			case token.GEQ:
				return BoolV(x >= y), ""
			}
		}
	}
	if x, ok := a.(StrV); ok {
		if y, ok := b.(StrV); ok {
			switch op {
			case token.ADD:
				return x + y, ""
			case token.LSS:
				return BoolV(x < y), ""
			case token.LEQ:
				return BoolV(x <= y), ""
			case token.GTR:
				return BoolV(x > y), ""
			case token.GEQ:
				return BoolV(x >= y), ""
			}
		}
	}
	if x, ok := a.(BoolV); ok {
		switch op {
		case token.AND, token.LAND:
			if !x {
				return BoolV(false), ""
			}
			return b, ""
		case token.OR, token.LOR:
			if x {
				return BoolV(true), ""
			}
			return b, ""
		}
	}
	// symbolic
	switch op {
	case token.ADD:
		if isIntT(opT) && !isUnsigned(opT) {
			return e.add(a, b), ""
		}
		if isStringT(opT) {
			return e.strCat(a, b), ""
		}
	case token.SUB:
		if isIntT(opT) && !isUnsigned(opT) {
			return e.sub(a, b, opT), ""
		}
	case token.QUO, token.REM:
		if isIntT(opT) {
			if y, ok := b.(IntV); ok {
				if y == 0 {
					return nil, "integer divide by zero"
				}
				return e.NewTerm(op.String(), resT, a, b), ""
			}
			z := e.eqVal(st, b, IntV(0))
			if r, k := e.Tri(st, z); k {
				if r {
					return nil, "integer divide by zero"
				}
				return e.NewTerm(op.String(), resT, a, b), ""
			}
			return nil, ""
		}
	case token.LSS:
		return e.cmpLt(st, opT, a, b), ""
	case token.GTR:
		return e.cmpLt(st, opT, b, a), ""
	case token.LEQ:
		return e.cmpLe(st, opT, a, b), ""
	case token.GEQ:
		return e.cmpLe(st, opT, b, a), ""
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if !isStringT(opT) && valKey(b) < valKey(a) {
			a, b = b, a
		}
	}
	return e.NewTerm(op.String(), resT, a, b), ""
}

func (e *Engine) strCat(a, b Value) Value {
	if a == Value(StrV("")) {
		return b
	}
	if b == Value(StrV("")) {
		return a
	}
	var parts []Value
	add := func(v Value) {
		if t, ok := v.(*Term); ok && t.Op == "cat" {
			for _, p := range t.Args {
				parts = append(parts, p)
			}
			return
		}
		parts = append(parts, v)
	}
	add(a)
	n := len(parts)
	add(b)
	if n > 0 && n < len(parts) {
		if x, ok := parts[n-1].(StrV); ok {
			if y, ok := parts[n].(StrV); ok {
				parts = append(append(append([]Value(nil), parts[:n-1]...), x+y), parts[n+1:]...)
			}
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return e.NewTerm("cat", tString, parts...)
}

func (e *Engine) cmpLt(st *State, t types.Type, a, b Value) Value {
	x := e.NewTerm("<", tBool, a, b)
	if r, k := e.Tri(st, x); k {
		return BoolV(r)
	}
	return x
}

func (e *Engine) cmpLe(st *State, t types.Type, a, b Value) Value {
	if isFloat(t) {
		x := e.NewTerm("<=", tBool, a, b)
		if r, k := e.Tri(st, x); k {
			return BoolV(r)
		}
		return x
	}
	return e.not(e.cmpLt(st, t, b, a))
}

// boundsFork checks 0<=i<n; returns ok frames, raising the others when the violation is possible and relevant.
func (e *Engine) bounds(f *frame, in ssa.Instruction, i, n Value, what string, depth int, work *[]*frame, outs *[]Outcome) *frame {
	st := f.st
	lo, k1 := e.leq(st, IntV(0), i, 0)
	hi, k2 := e.leq(st, i, n, -1)
	if (k1 && !lo) || (k2 && !hi) {
		e.raise(f, e.rtPanic(f, what+" out of range at "+e.posOf(in)), depth, work, outs)
		return nil
	}
	if k1 && k2 {
		return f
	}
	if e.MayPanic != nil && e.MayPanic(f.fn, in, what, st, i) {
		g := f.clone(st.Clone())
		ok := true
		if !k2 {
			ok = e.addLeq(g.st, n, i, 0)
		} else {
			ok = e.addLeq(g.st, i, IntV(-1), 0)
		}
		if ok {
			e.raise(g, e.rtPanic(g, what+" may be out of range at "+e.posOf(in)), depth, work, outs)
		}
	}
	if !k1 && !e.addLeq(st, IntV(0), i, 0) {
		return nil
	}
	if !k2 && !e.addLeq(st, i, n, -1) {
		return nil
	}
	return f
}

func (e *Engine) resolveInt(st *State, v Value) Value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	if c, ok := st.eqc[t.ID]; ok {
		return c
	}
	// pinned by the zone domain?
	base, c, _ := linear(v)
	if base != nil {
		if hi, ok := e.zdist(st, 0, base.ID); ok {
			if lo, ok := e.zdist(st, base.ID, 0); ok && hi == -lo {
				return IntV(hi + c)
			}
		}
	}
	return v
}

func (e *Engine) indexAddr(f *frame, x *ssa.IndexAddr, depth int, work *[]*frame, outs *[]Outcome) bool {
	a := f.get(e, x.X)
	i := e.resolveInt(f.st, f.get(e, x.Index))
	switch y := a.(type) {
	case NilV:
		e.raise(f, e.rtPanic(f, "index out of range (nil) at "+e.posOf(x)), depth, work, outs)
		return false
	case SliceV:
		g := e.bounds(f, x, i, IntV(y.Len), "index", depth, work, outs)
		if g == nil {
			return false
		}
		if n, ok := i.(IntV); ok {
			g.set(x, PtrV{Obj: y.Obj, P: e.path(y.P, -1, n+IntV(y.Off))})
			return true
		}
		// unknown index into known slice: fork over elements
		if y.Len <= 8 {
			for k := 0; k < y.Len; k++ {
				s2 := g.st.Clone()
				if e.Assume(s2, e.eqVal(s2, i, IntV(k)), true) {
					h := g.clone(s2)
					h.set(x, PtrV{Obj: y.Obj, P: e.path(y.P, -1, IntV(k+y.Off))})
					*work = append(*work, h)
				}
			}
			return false
		}
		g.set(x, PtrV{Obj: y.Obj, P: e.path(y.P, -1, i)})
		return true
	case PtrV: // pointer to array
		c, ok := f.st.rawLoad(y)
		if !ok {
			f.set(x, e.Fresh("idxaddr", x.Type()))
			return true
		}
		var n Value = IntV(0)
		if ar, ok := c.(*ArrV); ok {
			n = IntV(len(ar.E))
		} else {
			n = IntV(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
		g := e.bounds(f, x, i, n, "index", depth, work, outs)
		if g == nil {
			return false
		}
		g.set(x, PtrV{Obj: y.Obj, P: e.path(y.P, -1, i)})
		return true
	case *Term:
		if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
			p, ok := e.deref(f.st, y)
			if !ok {
				e.raise(f, e.rtPanic(f, "nil deref"), depth, work, outs)
				return false
			}
			f.set(x, PtrV{Obj: p.Obj, P: e.path(p.P, -1, i)})
			return true
		}
		g := e.bounds(f, x, i, e.Len(f.st, y), "index", depth, work, outs)
		if g == nil {
			return false
		}
		st := g.st
		// append(known...) element
		if r, ok := e.appendElem(st, y, i); ok {
			o := e.alloc(st, r)
			g.set(x, PtrV{Obj: o})
			return true
		}
		root, off := sliceRoot(y)
		o, ok := st.mat[root.ID]
		if !ok {
			var et types.Type
			if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			o = e.alloc(st, &LazyArr{Base: root, Elem: et})
			st.mat[root.ID] = o
		}
		g.set(x, PtrV{Obj: o, P: e.path(nil, -1, e.add(i, off))})
		return true
	}
	f.set(x, e.Fresh("idxaddr", x.Type()))
	return true
}

// appendElem resolves reads of elements of append terms.
func (e *Engine) appendElem(st *State, t *Term, i Value) (Value, bool) {
	for depth := 0; depth < 20; depth++ {
		switch t.Op {
		case "append":
			l := e.Len(st, t.Args[0])
			d := e.sub(i, l, tInt)
			if n, ok := d.(IntV); ok && n >= 0 && int(n) < len(t.Args)-1 {
				return t.Args[1+n], true
			}
			if r, k := e.leq(st, i, l, -1); k && r {
				if b, ok := t.Args[0].(*Term); ok {
					t = b
					if t.Op != "append" {
						return e.NewTerm("idx", nil, t, i), true
					}
					continue
				}
				if s, ok := t.Args[0].(SliceV); ok {
					if n, ok := i.(IntV); ok && int(n) < s.Len {
						return st.sliceElem(s, int(n)), true
					}
				}
			}
		}
		break
	}
	return nil, false
}

func (e *Engine) index(f *frame, x *ssa.Index, depth int, work *[]*frame, outs *[]Outcome) bool {
	a := f.get(e, x.X)
	i := e.resolveInt(f.st, f.get(e, x.Index))
	if isStringT(x.X.Type()) {
		return e.strIndex(f, x, a, i, depth, work, outs)
	}
	if ar, ok := a.(*ArrV); ok {
		if n, ok := i.(IntV); ok {
			if int(n) < 0 || int(n) >= len(ar.E) {
				e.raise(f, e.rtPanic(f, "index out of range at "+e.posOf(x)), depth, work, outs)
				return false
			}
			f.set(x, ar.E[n])
			return true
		}
	}
	f.set(x, e.NewTerm("idx", x.Type(), a, i))
	return true
}

func (e *Engine) strIndex(f *frame, x ssa.Value, a, i Value, depth int, work *[]*frame, outs *[]Outcome) bool {
	in := x.(ssa.Instruction)
	i = e.resolveInt(f.st, i)
	g := e.bounds(f, in, i, e.Len(f.st, a), "string index", depth, work, outs)
	if g == nil {
		return false
	}
	if s, ok := a.(StrV); ok {
		if n, ok := i.(IntV); ok {
			g.set(x, IntV(s[n]))
			return true
		}
	}
	g.set(x, e.NewTerm("idx", x.Type(), a, i))
	return true
}

func (e *Engine) sliceOp(f *frame, x *ssa.Slice, depth int, work *[]*frame, outs *[]Outcome) bool {
	st := f.st
	a := f.get(e, x.X)
	var lo Value = IntV(0)
	var hi Value
	if x.Low != nil {
		lo = e.resolveInt(st, f.get(e, x.Low))
	}
	if x.High != nil {
		hi = e.resolveInt(st, f.get(e, x.High))
	}
	chk := func(l, h, n Value) *frame {
		// 0<=l<=h<=n
		g := f
		for _, c := range [][2]Value{{IntV(0), l}, {l, h}, {h, n}} {
			r, k := e.leq(g.st, c[0], c[1], 0)
			if k && !r {
				e.raise(g, e.rtPanic(g, "slice bounds out of range at "+e.posOf(x)), depth, work, outs)
				return nil
			}
			if !k {
				if e.MayPanic != nil && e.MayPanic(f.fn, x, "slice", g.st, c[0]) {
					h := g.clone(g.st.Clone())
					if e.addLeq(h.st, c[1], c[0], -1) {
						e.raise(h, e.rtPanic(h, "slice bounds may be out of range at "+e.posOf(x)), depth, work, outs)
					}
				}
				e.addLeq(g.st, c[0], c[1], 0)
			}
		}
		return g
	}
	switch y := a.(type) {
	case NilV:
		if hi == nil {
			hi = IntV(0)
		}
		if chk(lo, hi, IntV(0)) == nil {
			return false
		}
		f.set(x, NilV{})
		return true
	case StrV:
		if hi == nil {
			hi = IntV(len(y))
		}
		if chk(lo, hi, IntV(len(y))) == nil {
			return false
		}
		l, ok1 := lo.(IntV)
		h, ok2 := hi.(IntV)
		if ok1 && ok2 {
			f.set(x, y[l:h])
		} else {
			f.set(x, e.NewTerm("substr", x.Type(), y, lo, hi))
		}
		return true
	case SliceV:
		if hi == nil {
			hi = IntV(y.Len)
		}
		if chk(lo, hi, IntV(y.Cap)) == nil {
			return false
		}
		l, ok1 := lo.(IntV)
		h, ok2 := hi.(IntV)
		if ok1 && ok2 {
			cp := y.Cap
			if x.Max != nil {
				if m, ok := f.get(e, x.Max).(IntV); ok {
					cp = int(m)
				}
			}
			f.set(x, SliceV{Obj: y.Obj, P: y.P, Off: y.Off + int(l), Len: int(h - l), Cap: cp - int(l)})
			return true
		}
		if l2 := hi; ok1 && l2 != nil { // fork on a small unknown high bound
			if y.Len <= 8 {
				for k := int(l); k <= y.Cap; k++ {
					s2 := st.Clone()
					if e.Assume(s2, e.eqVal(s2, hi, IntV(k)), true) {
						g := f.clone(s2)
						g.set(x, SliceV{Obj: y.Obj, P: y.P, Off: y.Off + int(l), Len: k - int(l), Cap: y.Cap - int(l)})
						*work = append(*work, g)
					}
				}
				return false
			}
		}
		f.set(x, e.NewTerm("slice", x.Type(), y, lo, hi))
		return true
	case PtrV: // array pointer
		c, ok := st.rawLoad(y)
		if ar, isA := c.(*ArrV); ok && isA {
			if hi == nil {
				hi = IntV(len(ar.E))
			}
			if chk(lo, hi, IntV(len(ar.E))) == nil {
				return false
			}
			l, ok1 := lo.(IntV)
			h, ok2 := hi.(IntV)
			if ok1 && ok2 {
				f.set(x, SliceV{Obj: y.Obj, P: y.P, Off: int(l), Len: int(h - l), Cap: len(ar.E) - int(l)})
				return true
			}
		}
		f.set(x, e.NewTerm("slice", x.Type(), y, lo, NilV{}))
		return true
	case *Term:
		if isStringT(x.X.Type()) {
			n := e.Len(st, y)
			h := hi
			if h == nil {
				h = n
			}
			if chk(lo, h, n) == nil {
				return false
			}
			if lo == Value(IntV(0)) && hi == nil {
				f.set(x, y)
			} else {
				f.set(x, e.NewTerm("substr", x.Type(), y, lo, h))
			}
			return true
		}
		n := e.Len(st, y)
		h := hi
		if h == nil {
			h = n
		}
		if chk(lo, h, n) == nil {
			return false
		}
		if lo == Value(IntV(0)) && hi == nil {
			f.set(x, y)
			return true
		}
		// slicing a slice term
		if y.Op == "slice" {
			nlo := e.add(y.Args[1], lo)
			var nhi Value = NilV{}
			if hi != nil {
				nhi = e.add(y.Args[1], hi)
			} else {
				nhi = y.Args[2]
			}
			f.set(x, e.NewTerm("slice", x.Type(), y.Args[0], nlo, nhi))
			return true
		}
		// reslicing of append(...)[:len] back to the base
		if y.Op == "append" && hi != nil && lo == Value(IntV(0)) {
			if d := e.sub(hi, e.Len(st, y.Args[0]), tInt); d == Value(IntV(0)) {
				f.set(x, y.Args[0])
				return true
			}
		}
		var nhi Value = NilV{}
		if hi != nil {
			nhi = hi
			if d := e.sub(hi, n, tInt); d == Value(IntV(0)) {
				if lo == Value(IntV(0)) {
					f.set(x, y)
					return true
				}
				nhi = NilV{}
			}
		}
		f.set(x, e.NewTerm("slice", x.Type(), y, lo, nhi))
		return true
	}
	f.set(x, e.Fresh("slice", x.Type()))
	return true
}

func (e *Engine) next(f *frame, x *ssa.Next, work *[]*frame) bool {
	st := f.st
	p := f.get(e, x.Iter).(PtrV)
	o, _ := st.obj(p.Obj)
	it := *(o.(*IterObj))
	setit := func(s *State, n IterObj) { s.setObj(p.Obj, &n) }
	tt := x.Type().(*types.Tuple)
	done := func(g *frame) {
		g.set(x, &TupleV{E: []Value{BoolV(false), e.Zero(tt.At(1).Type()), e.Zero(tt.At(2).Type())}})
	}
	if it.IsStr {
		if s, ok := it.Str.(StrV); ok {
			if it.Pos >= len(s) {
				done(f)
				return true
			}
			r, n := utf8.DecodeRuneInString(string(s[it.Pos:]))
			f.set(x, &TupleV{E: []Value{BoolV(true), IntV(it.Pos), IntV(r)}})
			it.Pos += n
			setit(st, it)
			return true
		}
		// opaque string: iterate symbolically
		more := e.NewTerm(fmt.Sprintf("strmore%d", it.N), tBool, it.Str)
		if it.N >= e.MaxSym {
			done(f)
			e.Truncated++
			e.TruncWhy["string range"]++
			return true
		}
		t, fl := e.branch(f, more)
		if t != nil {
			n := it
			n.N++
			setit(t.st, n)
			pos := e.NewTerm(fmt.Sprintf("strpos%d", it.N), tInt, it.Str)
			if it.N == 0 {
				t.set(x, &TupleV{E: []Value{BoolV(true), IntV(0), e.NewTerm("rune0", types.Typ[types.Int32], it.Str)}})
			} else {
				t.set(x, &TupleV{E: []Value{BoolV(true), pos, e.NewTerm(fmt.Sprintf("rune%d", it.N), types.Typ[types.Int32], it.Str)}})
			}
		}
		if fl != nil {
			done(fl)
		}
		return e.cont(f, t, fl, work)
	}
	// map: known entries first
	for it.Pos < len(it.Snap) {
		en := it.Snap[it.Pos]
		it.Pos++
		if en.Del {
			continue
		}
		// still present?
		val := en.V
		if _, mo, ok := e.mapOf(st, it.Map); ok {
			found := false
			for _, e2 := range mo.Ents {
				if r, k := e.triEq(st, e2.K, en.K); k && r {
					if !e2.Del {
						found = true
						val = e2.V
					}
					break
				}
			}
			if !found {
				continue
			}
		}
		setit(st, it)
		f.set(x, &TupleV{E: []Value{BoolV(true), en.K, val}})
		return true
	}
	setit(st, it)
	if it.Base == nil {
		done(f)
		return true
	}
	if it.N >= e.MaxSym {
		e.Truncated++
		e.TruncWhy["map range"]++
		done(f)
		return true
	}
	more := e.NewTerm(fmt.Sprintf("mapmore%d", it.N), tBool, it.Base)
	t, fl := e.branch(f, more)
	if t != nil {
		n := it
		n.N++
		setit(t.st, n)
		k := e.NewTerm(fmt.Sprintf("mapkey%d", it.N), it.KT, it.Base)
		e.Assume(t.st, e.NewTerm("mapok", tBool, it.Base, k), true)
		t.set(x, &TupleV{E: []Value{BoolV(true), k, e.NewTerm("mapval", it.VT, it.Base, k)}})
	}
	if fl != nil {
		done(fl)
	}
	return e.cont(f, t, fl, work)
}

func (e *Engine) cont(f, t, fl *frame, work *[]*frame) bool {
	if t != nil && fl == nil && t == f {
		return true
	}
	if fl != nil && t == nil && fl == f {
		return true
	}
	if fl != nil {
		*work = append(*work, fl)
	}
	if t != nil {
		*work = append(*work, t)
	}
	return false
}

// dynTri: does interface value v have dynamic type satisfying T?
func (e *Engine) dynTri(st *State, v Value, T types.Type) (res bool, known bool) {
	switch x := v.(type) {
	case NilV:
		return false, true
	case IfaceV:
		if isIface(T) {
			return types.Implements(x.T, T.Underlying().(*types.Interface)), true
		}
		return types.Identical(x.T, T), true
	case *Term:
		d := st.dyn[x.ID]
		if d.IsNil {
			return false, true
		}
		if d.T != nil {
			if isIface(T) {
				return types.Implements(d.T, T.Underlying().(*types.Interface)), true
			}
			return types.Identical(d.T, T), true
		}
		if isIface(T) {
			if x.T != nil && isIface(x.T) && types.Implements(x.T, T.Underlying().(*types.Interface)) {
				if d.NonNil {
					return true, true
				}
			}
			for _, i := range d.Impl {
				if types.Identical(i, T) {
					return true, true
				}
			}
			for _, i := range d.NotImpl {
				if types.Identical(i, T) {
					return false, true
				}
			}
			return false, false
		}
		for _, n := range d.Not {
			if types.Identical(n, T) {
				return false, true
			}
		}
		for _, i := range d.Impl {
			if !types.Implements(T, i.Underlying().(*types.Interface)) {
				return false, true
			}
		}
		for _, i := range d.NotImpl {
			if types.Implements(T, i.Underlying().(*types.Interface)) {
				return false, true
			}
		}
		if x.T != nil && isIface(x.T) && !types.Implements(T, x.T.Underlying().(*types.Interface)) {
			return false, true
		}
		return false, false
	}
	return false, false
}

// dynVal extracts the value of dynamic type T from interface value v.
func (e *Engine) dynVal(v Value, T types.Type) Value {
	switch x := v.(type) {
	case IfaceV:
		if isIface(T) {
			return x
		}
		return x.V
	case *Term:
		if isIface(T) {
			return x
		}
		return e.NewTerm("dyn", T, x)
	}
	return v
}

// SetDyn fixes the dynamic type of an opaque interface term.
func (e *Engine) SetDyn(st *State, t *Term, T types.Type) {
	d := st.dyn[t.ID]
	d.T = T
	d.NonNil = true
	st.dyn[t.ID] = d
}

func (e *Engine) typeAssert(f *frame, x *ssa.TypeAssert, depth int, work *[]*frame, outs *[]Outcome) bool {
	v := f.get(e, x.X)
	T := x.AssertedType
	r, k := e.dynTri(f.st, v, T)
	yes := func(g *frame) {
		val := e.dynVal(v, T)
		if x.CommaOk {
			g.set(x, &TupleV{E: []Value{val, BoolV(true)}})
		} else {
			g.set(x, val)
		}
	}
	if k {
		if r {
			yes(f)
			return true
		}
		if x.CommaOk {
			f.set(x, &TupleV{E: []Value{e.Zero(T), BoolV(false)}})
			return true
		}
		e.raise(f, e.rtPanic(f, "interface conversion at "+e.posOf(x)), depth, work, outs)
		return false
	}
	t, ok := v.(*Term)
	if !ok {
		f.set(x, e.Fresh("assert", x.Type()))
		return true
	}
	fyes, fno := f.clone(f.st.Clone()), f.clone(f.st.Clone())
	d := fyes.st.dyn[t.ID]
	d.NonNil = true
	if isIface(T) {
		d.Impl = append(append([]types.Type(nil), d.Impl...), T)
	} else {
		d.T = T
	}
	fyes.st.dyn[t.ID] = d
	yes(fyes)
	if x.CommaOk {
		d := fno.st.dyn[t.ID]
		if isIface(T) {
			d.NotImpl = append(append([]types.Type(nil), d.NotImpl...), T)
		} else {
			d.Not = append(append([]types.Type(nil), d.Not...), T)
		}
		fno.st.dyn[t.ID] = d
		fno.set(x, &TupleV{E: []Value{e.Zero(T), BoolV(false)}})
		*work = append(*work, fno)
	} else if e.MayPanic != nil && e.MayPanic(f.fn, x, "type assertion", f.st, v) {
		e.raise(fno, e.rtPanic(fno, "interface conversion may fail at "+e.posOf(x)), depth, work, outs)
	}
	*work = append(*work, fyes)
	return false
}

// ---------------------------------------------------------------- calls

func (e *Engine) prepareCall(f *frame, c *ssa.CallCommon) (Value, []Value, string) {
	var args []Value
	if c.IsInvoke() {
		recv := f.get(e, c.Value)
		for _, a := range c.Args {
			args = append(args, f.get(e, a))
		}
		return recv, args, ""
	}
	fn := f.get(e, c.Value)
	for _, a := range c.Args {
		args = append(args, f.get(e, a))
	}
	return fn, args, ""
}

func (e *Engine) doCall(f *frame, x *ssa.Call, depth int, work *[]*frame, outs *[]Outcome) bool {
	fnv, args, _ := e.prepareCall(f, &x.Call)
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "recover" {
			if f.callerPanic != nil && !f.recoveredUp {
				f.set(x, f.callerPanic)
				f.recoveredUp = true
			} else {
				f.set(x, NilV{})
			}
			return true
		}
		return e.builtin(f, x, b.Name(), args, depth, work, outs)
	}
	os := e.invoke(f, &x.Call, fnv, args, depth+1, nil, false, x.Pos())
	nres := x.Call.Signature().Results().Len()
	// single plain return: continue in place
	for i, o := range os {
		var g *frame
		if i == len(os)-1 {
			g = f
			g.st = o.St
		} else {
			g = f.clone(o.St)
		}
		switch o.Kind {
		case kReturn:
			switch nres {
			case 0:
			case 1:
				var r Value
				if len(o.Ret) > 0 {
					r = o.Ret[0]
				}
				g.set(x, r)
			default:
				g.set(x, &TupleV{E: o.Ret})
			}
			if len(os) == 1 {
				return true
			}
			*work = append(*work, g)
		case kPanic:
			e.raise(g, o.PanicV, depth, work, outs)
		default:
			*outs = append(*outs, o)
		}
	}
	return false
}

func (e *Engine) invoke(f *frame, c *ssa.CallCommon, fnv Value, args []Value, depth int, cp Value, isDefer bool, pos token.Pos) []Outcome {
	st := f.st
	if c.IsInvoke() {
		return e.InvokeMethod(st, fnv, c.Method, args, depth, cp, isDefer, pos)
	}
	return e.CallValue(st, fnv, args, c.Signature(), depth, cp, isDefer, pos)
}

// InvokeMethod calls an interface method on recv.
func (e *Engine) InvokeMethod(st *State, recv Value, m *types.Func, args []Value, depth int, cp Value, isDefer bool, pos token.Pos) []Outcome {
	sig := m.Type().(*types.Signature)
	var dt types.Type
	var rv Value
	switch r := recv.(type) {
	case NilV:
		return []Outcome{{St: st, Kind: kPanic, PanicV: IfaceV{T: runtimeErrT, V: StrV("runtime error: method call on nil interface at " + e.P.Pos(pos))}}}
	case IfaceV:
		dt, rv = r.T, r.V
	case *Term:
		d := st.dyn[r.ID]
		if d.IsNil {
			return []Outcome{{St: st, Kind: kPanic, PanicV: IfaceV{T: runtimeErrT, V: StrV("runtime error: method call on nil interface at " + e.P.Pos(pos))}}}
		}
		if d.T != nil {
			dt = d.T
			rv = e.dynVal(r, dt)
		}
	}
	name := "invoke:" + shortName(types.TypeString(sig.Recv().Type(), nil)) + "." + m.Name()
	if s, ok := e.Stubs[name]; ok {
		if os := s(&Call{E: e, St: st, Name: name, Args: append([]Value{recv}, args...), Sig: sig, Pos: pos, Depth: depth}); os != nil {
			return os
		}
	}
	if dt != nil {
		fn := e.P.Prog.LookupMethod(dt, m.Pkg(), m.Name())
		if fn != nil {
			return e.CallValue(st, &FuncV{Fn: fn}, append([]Value{rv}, args...), fn.Signature, depth, cp, isDefer, pos)
		}
	}
	return e.opaqueCall(&Call{E: e, St: st, Name: name, Args: append([]Value{recv}, args...), Sig: sig, Pos: pos, Depth: depth})
}

// CallValue calls a function value.
func (e *Engine) CallValue(st *State, fnv Value, args []Value, sig *types.Signature, depth int, cp Value, isDefer bool, pos token.Pos) []Outcome {
	switch fn := fnv.(type) {
	case *FuncV:
		name := shortName(fn.Fn.String())
		if e.Watch[name] {
			st.Emit("enter:"+name, e.P.Pos(pos), args...)
		}
		c := &Call{E: e, St: st, Fn: fn.Fn, Name: name, Args: args, Sig: fn.Fn.Signature, Pos: pos, Depth: depth}
		if o := fn.Fn.Origin(); o != nil {
			if s, ok := e.Stubs[shortName(o.String())]; ok {
				if os := s(c); os != nil {
					return os
				}
			}
		}
		if s, ok := e.Stubs[name]; ok {
			if os := s(c); os != nil {
				return os
			}
		}
		if fn.Fn.Name() == "init" && fn.Fn.Signature.Recv() == nil && fn.Fn.Pkg != nil && fn.Fn.Pkg != e.P.Zygo {
			return ret(st)
		}
		if !e.inlineable(fn.Fn) {
			return e.opaqueCall(c)
		}
		return e.CallFn(fn.Fn, args, fn.Free, st, depth, cp, isDefer)
	case NilV:
		return []Outcome{{St: st, Kind: kPanic, PanicV: IfaceV{T: runtimeErrT, V: StrV("runtime error: call of nil function at " + e.P.Pos(pos))}}}
	case *Term:
		c := &Call{E: e, St: st, Name: "dyncall", Args: append([]Value{fn}, args...), Sig: sig, Pos: pos, Depth: depth}
		if s, ok := e.Stubs["dyncall"]; ok {
			if os := s(c); os != nil {
				return os
			}
		}
		return e.opaqueCall(c)
	case *HostV:
		c := &Call{E: e, St: st, Name: "host:" + fn.Kind, Args: append([]Value{fn}, args...), Sig: sig, Pos: pos, Depth: depth}
		if s, ok := e.Stubs[c.Name]; ok {
			if os := s(c); os != nil {
				return os
			}
		}
		return e.opaqueCall(c)
	}
	return e.opaqueCall(&Call{E: e, St: st, Name: "unknowncall", Args: args, Sig: sig, Pos: pos, Depth: depth})
}

func (e *Engine) inlineable(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Package()
		}
	}
	if pk == nil {
		// synthetic wrapper: inline
		return fn.Blocks != nil
	}
	pp := pk.Pkg.Path()
	if strings.HasPrefix(pp, modPrefix) {
		return true
	}
	return e.InlinePkg[pp]
}

var purePkgs = []string{"strings.", "strconv.", "math.", "unicode.", "unicode/utf8.", "fmt.Sprint", "fmt.Errorf", "errors.", "path.", "path/filepath.", "reflect.TypeOf", "reflect.ValueOf", "math/bits.",
	"regexp.", "(*regexp.Regexp).", "sort.Search"}

// opaqueCall models a call whose body is not analysed.
func (e *Engine) opaqueCall(c *Call) []Outcome {
	pure := false
	for _, p := range purePkgs {
		if strings.HasPrefix(c.Name, p) {
			pure = true
		}
	}
	if strings.HasSuffix(c.Name, "Sexp.SexpString") || strings.HasSuffix(c.Name, "Sexp.Type") {
		pure = true
	}
	st := c.St
	if !pure {
		st.Emit("call:"+c.Name, e.P.Pos(c.Pos), c.Args...)
	}
	var r []Value
	n := c.Sig.Results().Len()
	for i := 0; i < n; i++ {
		t := c.Sig.Results().At(i).Type()
		nm := c.Name
		if n > 1 {
			nm = fmt.Sprintf("%s/%d", c.Name, i)
		}
		var tm *Term
		if pure {
			tm = e.NewTerm(nm, t, c.Args...)
		} else {
			e.nfresh++
			tm = e.NewTerm(fmt.Sprintf("%s#%d", nm, e.nfresh), t, c.Args...)
		}
		switch c.Name {
		case "fmt.Errorf", "errors.New", "fmt.Sprintf":
			d := st.dyn[tm.ID]
			d.NonNil = true
			st.dyn[tm.ID] = d
		}
		r = append(r, tm)
	}
	return []Outcome{{St: st, Kind: kReturn, Ret: r}}
}

func ret(st *State, vs ...Value) []Outcome { return []Outcome{{St: st, Kind: kReturn, Ret: vs}} }

func (e *Engine) builtin(f *frame, x *ssa.Call, name string, args []Value, depth int, work *[]*frame, outs *[]Outcome) bool {
	st := f.st
	switch name {
	case "len":
		f.set(x, e.Len(st, args[0]))
	case "cap":
		switch y := args[0].(type) {
		case SliceV:
			f.set(x, IntV(y.Cap))
		case NilV:
			f.set(x, IntV(0))
		default:
			f.set(x, e.NewTerm("cap", tInt, y))
		}
	case "append":
		f.set(x, e.appendOp(st, args[0], args[1], x.Type()))
	case "copy":
		e.copyOp(f, x, args)
	case "delete":
		var sts []*State
		e.MapUpdate(st, args[0], args[1], NilV{}, true, func(s *State) { sts = append(sts, s) })
		if len(sts) == 0 {
			return false
		}
		for _, s := range sts[1:] {
			*work = append(*work, f.clone(s))
		}
		f.st = sts[0]
	case "print", "println":
		st.Emit("call:print", e.P.Pos(x.Pos()), args...)
	case "panic":
		e.raise(f, args[0], depth, work, outs)
		return false
	case "close":
		st.Emit("close", e.P.Pos(x.Pos()), args...)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if i, ok := r.(IntV); ok {
				if j, ok := a.(IntV); ok {
					if (name == "min") == (j < i) {
						r = j
					}
					continue
				}
			}
			if i, ok := r.(FltV); ok {
				if j, ok := a.(FltV); ok {
					if name == "min" {
						r = FltV(math.Min(float64(i), float64(j)))
					} else {
						r = FltV(math.Max(float64(i), float64(j)))
					}
					continue
				}
			}
			// fork
			lt := e.cmpLt(st, x.Type(), a, r)
			t, fl := e.branch(f, lt)
			if t != nil && fl != nil && len(args) == 2 {
				if name == "min" {
					t.set(x, args[1])
					fl.set(x, args[0])
				} else {
					t.set(x, args[0])
					fl.set(x, args[1])
				}
				*work = append(*work, t, fl)
				return false
			}
			r = e.NewTerm(name, x.Type(), r, a)
		}
		f.set(x, r)
	case "clear":
		if m, ok := args[0].(MapV); ok {
			o, _ := st.obj(m.Obj)
			st.setObj(m.Obj, &MapObj{T: o.(*MapObj).T})
		}
	case "ssa:wrapnilchk":
		if _, ok := args[0].(NilV); ok {
			e.raise(f, e.rtPanic(f, "nil pointer wrapper"), depth, work, outs)
			return false
		}
		f.set(x, args[0])
	default:
		if x.Call.Signature().Results().Len() > 0 {
			f.set(x, e.Fresh("builtin:"+name, x.Type()))
		}
	}
	return true
}

func (e *Engine) appendOp(st *State, a, b Value, t types.Type) Value {
	// b is a slice or string
	var add []Value
	switch y := b.(type) {
	case StrV:
		for i := 0; i < len(y); i++ {
			add = append(add, IntV(y[i]))
		}
	case NilV:
		return a
	case SliceV:
		add, _ = st.Elems(y)
	case *Term:
		if l, ok := e.Len(st, y).(IntV); ok && l == 0 {
			return a
		}
		if n, ok := a.(NilV); ok {
			_ = n
			a = e.NewSlice(st)
		}
		if s, ok := a.(SliceV); ok && s.Len == 0 {
			// fresh copy of b
			e.nfresh++
			tm := e.NewTerm("appends", t, SliceV{Obj: 0}, y)
			return tm
		}
		return e.NewTerm("appends", t, e.freezeSlice(st, a), y)
	}
	switch x := a.(type) {
	case NilV:
		if len(add) == 0 {
			return a
		}
		return e.growSlice(st, nil, add, 0)
	case SliceV:
		if len(add) == 0 {
			return a
		}
		if x.Len+len(add) <= x.Cap {
			for i, v := range add {
				e.Store(st, PtrV{Obj: x.Obj, P: e.path(x.P, -1, IntV(x.Off+x.Len+i))}, v)
			}
			x.Len += len(add)
			return x
		}
		cur, _ := st.Elems(x)
		return e.growSlice(st, cur, add, x.Cap)
	case *Term:
		if len(add) == 0 {
			return a
		}
		if x.Op == "append" {
			return e.NewTerm("append", t, append(append([]Value(nil), x.Args...), add...)...)
		}
		return e.NewTerm("append", t, append([]Value{x}, add...)...)
	}
	return e.Fresh("append", t)
}

// freezeSlice turns a slice into an immutable key (tuple of elements) for use inside terms.
func (e *Engine) freezeSlice(st *State, a Value) Value {
	if el, ok := st.Elems(a); ok {
		return &TupleV{E: el}
	}
	return a
}

func (e *Engine) growSlice(st *State, cur, add []Value, oldcap int) Value {
	n := len(cur) + len(add)
	nc := oldcap * 2
	if oldcap > 256 {
		nc = oldcap + oldcap/4 + 192
	}
	if nc < n {
		nc = n
	}
	arr := &ArrV{E: make([]Value, nc)}
	copy(arr.E, cur)
	copy(arr.E[len(cur):], add)
	for i := n; i < nc; i++ {
		arr.E[i] = NilV{}
	}
	return SliceV{Obj: e.alloc(st, arr), Len: n, Cap: nc}
}

func (e *Engine) copyOp(f *frame, x *ssa.Call, args []Value) {
	st := f.st
	var src []Value
	known := true
	switch y := args[1].(type) {
	case StrV:
		for i := 0; i < len(y); i++ {
			src = append(src, IntV(y[i]))
		}
	case SliceV, NilV:
		src, _ = st.Elems(y)
	default:
		known = false
	}
	if d, ok := args[0].(SliceV); ok && known {
		n := d.Len
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			e.Store(st, PtrV{Obj: d.Obj, P: e.path(d.P, -1, IntV(d.Off+i))}, src[i])
		}
		f.set(x, IntV(n))
		return
	}
	if dt, ok := args[0].(*Term); ok {
		root, _ := sliceRoot(dt)
		if o, ok := st.mat[root.ID]; ok {
			if la, ok := func() (*LazyArr, bool) { c, _ := st.obj(o); l, ok := c.(*LazyArr); return l, ok }(); ok {
				if s, ok := args[1].(*Term); ok && len(la.W) == 0 {
					_, off := sliceRoot(dt)
					if off == Value(IntV(0)) {
						// whole copy
						st.setObj(o, &LazyArr{Base: s, Elem: la.Elem})
						f.set(x, e.Len(st, s))
						return
					}
				}
				nl := &LazyArr{Base: e.Fresh("copied", dt.T), Elem: la.Elem}
				st.setObj(o, nl)
			}
		}
	} else if d, ok := args[0].(SliceV); ok {
		for i := 0; i < d.Len; i++ {
			e.Store(st, PtrV{Obj: d.Obj, P: e.path(d.P, -1, IntV(d.Off+i))}, e.NewTerm("idx", nil, args[1], IntV(i)))
		}
	}
	f.set(x, e.Fresh("copyn", tInt))
}
