package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func init() { checks["DBG"] = dbg }

func dbg(c *Ctx) {
	f, err := NewFixStd(c.P, "NewZlisp")
	if err != nil {
		fmt.Println(err)
		return
	}
	hs := []HostFn{}
	for i := 0; i < 6; i++ {
		hs = append(hs, HostFn{Name: fmt.Sprintf("h%d", i), Kind: 'h'}, HostFn{Name: fmt.Sprintf("p%d", i), Kind: 'p'}, HostFn{Name: fmt.Sprintf("v%d", i), Kind: 'v'})
	}
	st := f.InstallHost(f.St, hs, 12)
	b, _ := os.ReadFile("/tmp/schemas")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		t0 := time.Now()
		outs, err := f.EvalSchema(st, parseSchema(l))
		fmt.Printf("%s  => %d outs err=%v steps=%d %.3fs\n", l, len(outs), err, f.E.Steps, time.Since(t0).Seconds())
		for _, o := range outs {
			fmt.Printf("   %s  | stacks %v |", showOut(o), f.StackSizes(o.St, f.Env))
			for _, h := range hostEvents(o.St) {
				fmt.Printf(" %s(%d)%s", h.Name, len(h.Args), h.Fail)
			}
			fmt.Println()
		}
	}
	fmt.Println(f.E.TruncWhy, f.E.Notes)
}
