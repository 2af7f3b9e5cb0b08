package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var checks = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker <property> [quick|thorough]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier == "" {
		tier = "quick"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif, _ = filepath.Abs(".")
	}
	debug.SetGCPercent(400)
	ids := []string{id}
	if id == "all" {
		ids = nil
		for k := range checks {
			if strings.HasPrefix(k, "DBG") {
				continue
			}
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	t0 := time.Now()
	if os.Getenv("CHK_SHARD") == "" && len(ids) == 1 && sharded[id] {
		os.Exit(runShards(id, tier, verif, t0))
	}
	P, err := LoadProgram(repo)
	rc := 0
	for _, id := range ids {
		fn := checks[id]
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no such check", id)
			os.Exit(2)
		}
		c := &Ctx{ID: id, Tier: tier, P: P, ByRule: map[string]int{}, seen: map[string]bool{}, Floors: map[string]int{}, Stats: map[string]int{}, t0: t0, NShard: 1}
		if sh := os.Getenv("CHK_SHARD"); sh != "" {
			fmt.Sscanf(sh, "%d/%d", &c.Shard, &c.NShard)
		}
		if err != nil {
			c.fail("load", "repository", "", "cannot load /repo: %v", err)
		} else {
			runCheck(c, fn)
		}
		if out := os.Getenv("CHK_OUT"); out != "" {
			if err := c.dump(out); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			continue
		}
		if c.finish(verif) != 0 {
			rc = 1
		}
		t0 = time.Now()
	}
	os.Exit(rc)
}

// sharded checks distribute their schemata over worker processes.
var sharded = map[string]bool{}

func runShards(id, tier, verif string, t0 time.Time) int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	c := &Ctx{ID: id, Tier: tier, ByRule: map[string]int{}, seen: map[string]bool{}, Floors: map[string]int{}, Stats: map[string]int{}, t0: t0}
	dir, err := os.MkdirTemp("", "chk")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	errs := make([]error, n)
	outs := make([][]byte, n)
	work := func(i int) {
		cmd := exec.Command(os.Args[0], id, tier)
		cmd.Env = append(os.Environ(), fmt.Sprintf("CHK_SHARD=%d/%d", i, n), fmt.Sprintf("CHK_OUT=%s/%d.json", dir, i), "GOMAXPROCS=2", "GOMEMLIMIT=1600MiB")
		outs[i], errs[i] = cmd.CombinedOutput()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			work(i)
		}(i)
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		// a worker ended from outside (memory ran out elsewhere) does its share again, alone
		if ee, ok := errs[i].(*exec.ExitError); ok && ee.ExitCode() == -1 {
			work(i)
		}
	}
	for i := 0; i < n; i++ {
		if errs[i] == nil {
			errs[i] = c.merge(fmt.Sprintf("%s/%d.json", dir, i), i == 0)
		}
		if len(outs[i]) > 0 {
			os.Stdout.Write(outs[i])
		}
		if errs[i] != nil {
			c.fail("worker", fmt.Sprint(i), "", "worker failed: %v", errs[i])
		}
	}
	return c.finish(verif)
}

func runCheck(c *Ctx, fn func(*Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				c.fail("undecided", b.why, "", "%s", b.why)
				return
			}
			c.fail("checker-panic", fmt.Sprint(r), "", "%v\n%s", r, debug.Stack())
		}
	}()
	fn(c)
}
