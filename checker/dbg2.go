package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	checks["DBG2"] = func(c *Ctx) {
		f, err := NewFixStd(c.P, "NewZlisp")
		if err != nil {
			fmt.Println(err)
			return
		}
		f.E.Files = map[string]string{"good": "(def fa 1) (+ fa 2)", "bad": "(def fb 1) (", "fail": "(def fc 3) (let [x 1] (nosuch))", "lines": "a\nb\n", "empty": ""}
		f.E.ForkLog = map[string]int{}
		b, _ := os.ReadFile("/tmp/texts")
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			outs, err := f.Call(f.St.Clone(), "Zlisp", "EvalString", f.Env, StrV(l))
			fmt.Printf("%s  => %d outs err=%v\n", l, len(outs), err)
			for _, o := range outs {
				fmt.Printf("   %s  | stacks %v\n", showOut(o), f.StackSizes(o.St, f.Env))
			}
		}
		fmt.Println(f.E.TruncWhy, f.E.Notes)
		for k, n := range f.E.ForkLog {
			fmt.Println("fork", n, k)
		}
	}
}
