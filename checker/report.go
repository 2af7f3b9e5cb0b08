package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Finding struct {
	Rule, Construct, Pos, Detail string
}

func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

// Ctx collects the obligations of one property check.
type Ctx struct {
	ID       string
	Tier     string
	P        *Program
	Obl      int
	ByRule   map[string]int
	Findings []Finding
	seen     map[string]bool
	Samples  []string
	Explain  string
	Assume   []string
	Floors   map[string]int
	Stats    map[string]int
	t0       time.Time
	Shard    int // index of this worker process
	NShard   int // number of workers (1: everything in this process)
	jobs     int
}

// Mine reports whether the next distributable job belongs to this worker.
func (c *Ctx) Mine() bool {
	c.jobs++
	return c.NShard <= 1 || c.jobs%c.NShard == c.Shard
}

// Main reports whether this worker also does the work that is not distributed.
func (c *Ctx) Main() bool { return c.Shard == 0 }

type shardResult struct {
	Obl      int
	ByRule   map[string]int
	Findings []Finding
	Samples  []string
	Explain  string
	Assume   []string
	Floors   map[string]int
	Stats    map[string]int
}

func (c *Ctx) dump(path string) error {
	b, err := json.Marshal(shardResult{c.Obl, c.ByRule, c.Findings, c.Samples, c.Explain, c.Assume, c.Floors, c.Stats})
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func (c *Ctx) merge(path string, first bool) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var r shardResult
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	c.Obl += r.Obl
	for k, n := range r.ByRule {
		c.ByRule[k] += n
	}
	for _, f := range r.Findings {
		c.fail(f.Rule, f.Construct, f.Pos, "%s", f.Detail)
	}
	for k, n := range r.Stats {
		c.Stats[k] += n
	}
	for k, n := range r.Floors {
		c.Floors[k] = n
	}
	if first {
		c.Samples, c.Explain, c.Assume = r.Samples, r.Explain, r.Assume
	}
	return nil
}

func (c *Ctx) Ob(rule, construct string, ok bool, pos, detailf string, a ...interface{}) bool {
	c.Obl++
	c.ByRule[rule]++
	if len(c.Samples) < 12 && c.ByRule[rule] <= 2 {
		c.Samples = append(c.Samples, rule+": "+construct)
	}
	if !ok {
		c.fail(rule, construct, pos, detailf, a...)
	}
	return ok
}

func (c *Ctx) fail(rule, construct, pos, detailf string, a ...interface{}) {
	f := Finding{Rule: rule, Construct: construct, Pos: pos, Detail: fmt.Sprintf(detailf, a...)}
	if c.seen[f.Key()] {
		return
	}
	c.seen[f.Key()] = true
	c.Findings = append(c.Findings, f)
}

// Undecided is a violation: the engine could not settle the obligation.
func (c *Ctx) Undecided(rule, construct string, err error) {
	c.Obl++
	c.ByRule[rule]++
	c.fail(rule, construct, "", "undecided: %v", err)
}

// Floor demands at least n instances of a rule.
func (c *Ctx) Floor(rule string, n int) { c.Floors[rule] = n }

func (c *Ctx) finish(verif string) int {
	for r, n := range c.Floors {
		if c.ByRule[r] < n {
			c.fail("instance-floor", r, "", "only %d instances of rule %s were found, %d expected: the rule would pass vacuously", c.ByRule[r], r, n)
		}
	}
	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS"), c.ID)
	sort.Slice(c.Findings, func(i, j int) bool { return c.Findings[i].Key() < c.Findings[j].Key() })
	var bad []Finding
	nknown := 0
	for _, f := range c.Findings {
		if why, ok := known[f.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s -- %s (%s)\n", c.ID, f.Key(), why, f.Pos)
			nknown++
			continue
		}
		bad = append(bad, f)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", c.ID+".violations.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var sb strings.Builder
		for _, f := range bad {
			fmt.Fprintf(&sb, "[%s] %s\n  at %s\n  %s\n", f.Rule, f.Construct, f.Pos, f.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, f := range bad {
			if i >= 40 {
				fmt.Printf("  ... and %d more (see %s)\n", len(bad)-i, replay)
				break
			}
			fmt.Printf("[%s] %s at %s: %s\n", f.Rule, f.Construct, f.Pos, f.Detail)
		}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed(), "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         c.Explain,
			"obligations":         c.Obl,
			"discharged":          c.Obl - len(c.Findings),
			"obligations_by_rule": c.ByRule,
			"measured":            c.Stats,
			"known_findings":      nknown,
			"samples":             c.Samples,
			"exhaustive":          false,
		},
		"assumptions": c.Assume, "violations": len(bad), "wall_s": time.Since(c.t0).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d findings (%d known), %.1fs\n", c.ID, c.Obl, len(c.Findings), nknown, time.Since(c.t0).Seconds())
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		return 1
	}
	return 0
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

// loadKnown reads lines "known: property=<id> key=<rule|construct> :: <what fails>".
func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		p := "known: property=" + id + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		rest := strings.TrimPrefix(l, p)
		k, why, _ := strings.Cut(rest, " :: ")
		m[k] = why
	}
	return m
}
