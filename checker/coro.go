package main

import "go/types"

// ---------------------------------------------------------------- iter.Pull
//
// The parser runs as an iter.Pull coroutine. The body of the sequence is analysed on a second analyser
// goroutine; the abstract state is handed over at every switch. A coroutine belongs to one analysis path: a
// path that forks while the coroutine is suspended is reported as undecided.

type coMsg struct {
	kind string // yield, done, panic
	st   *State
	v    Value
	outs []Outcome
	ok   bool
	pan  interface{}
}

type coro struct {
	seq           Value
	started, done bool
	stopped       bool // iter.Pull's stop was called: yield returns false from then on
	in, out       chan coMsg
	step          int
	obj           Value // abstract cell holding the step number of the owning path
}

func installCoro(e *Engine) {
	pull := func(c *Call) []Outcome {
		co := &coro{seq: c.Args[0], in: make(chan coMsg), out: make(chan coMsg)}
		co.obj = e.NewObj(c.St, IntV(0))
		return ret(c.St, &HostV{Kind: "conext", V: co}, &HostV{Kind: "costop", V: co})
	}
	e.Stubs["iter.Pull"] = pull
	check := func(c *Call, co *coro) {
		v, ok := e.Load(c.St, co.obj)
		if !ok || v != Value(IntV(co.step)) {
			panic(budgetErr{"a coroutine is resumed on two analysis paths"})
		}
		co.step++
		p, _ := e.deref(c.St, co.obj)
		e.Store(c.St, p, IntV(co.step))
	}
	start := func(c *Call, co *coro) {
		co.started = true
		st := c.St
		go func() {
			defer func() {
				if p := recover(); p != nil {
					co.out <- coMsg{kind: "panic", pan: p}
				}
			}()
			y := &HostV{Kind: "coyield", V: co}
			sig, _ := c.Sig.Results().At(0).Type().(*types.Signature)
			outs := e.CallValue(st, co.seq, []Value{y}, sig, c.Depth+1, nil, false, c.Pos)
			co.out <- coMsg{kind: "done", outs: outs}
		}()
	}
	e.Stubs["host:coyield"] = func(c *Call) []Outcome {
		co := c.Args[0].(*HostV).V.(*coro)
		if co.stopped {
			return ret(c.St, BoolV(false))
		}
		co.out <- coMsg{kind: "yield", st: c.St, v: c.Args[1]}
		m := <-co.in
		return ret(m.st, BoolV(m.ok))
	}
	// wait for the coroutine to yield or finish
	wait := func(c *Call, co *coro) ([]Outcome, *coMsg) {
		m := <-co.out
		switch m.kind {
		case "panic":
			co.done = true
			panic(m.pan)
		case "done":
			co.done = true
			return m.outs, nil
		}
		return nil, &m
	}
	e.Stubs["host:conext"] = func(c *Call) []Outcome {
		co := c.Args[0].(*HostV).V.(*coro)
		zero := e.Zero(c.Sig.Results().At(0).Type())
		check(c, co)
		if co.done {
			return ret(c.St, zero, BoolV(false))
		}
		if !co.started {
			start(c, co)
		} else {
			co.in <- coMsg{st: c.St, ok: true}
		}
		outs, y := wait(c, co)
		if y != nil {
			return ret(y.st, y.v, BoolV(true))
		}
		var r []Outcome
		for _, o := range outs {
			if o.Kind == kReturn {
				r = append(r, Outcome{St: o.St, Kind: kReturn, Ret: []Value{zero, BoolV(false)}})
			} else {
				r = append(r, o)
			}
		}
		return r
	}
	e.Stubs["host:costop"] = func(c *Call) []Outcome {
		co := c.Args[0].(*HostV).V.(*coro)
		check(c, co)
		if co.done || !co.started {
			co.done = true
			return ret(c.St)
		}
		co.stopped = true
		co.in <- coMsg{st: c.St, ok: false}
		outs, y := wait(c, co)
		if y != nil {
			panic(budgetErr{"a stopped coroutine yields"})
		}
		var r []Outcome
		for _, o := range outs {
			if o.Kind == kReturn {
				r = append(r, Outcome{St: o.St, Kind: kReturn})
			} else {
				r = append(r, o)
			}
		}
		return r
	}
}
