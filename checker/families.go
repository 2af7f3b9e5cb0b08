package main

import (
	"fmt"
	"strings"
)

// fill replaces the slots of a schema text: _ a value hole, P a predicate hole, numbered left to right.
func fill(t string) string {
	h, p := 0, 0
	var sb strings.Builder
	for i := 0; i < len(t); i++ {
		if isSlot(t, i) {
			if t[i] == '_' {
				fmt.Fprintf(&sb, "(h%d)", h)
				h++
			} else {
				fmt.Fprintf(&sb, "(p%d)", p)
				p++
			}
			continue
		}
		if t[i] == '#' && i+1 < len(t) && t[i+1] == 'H' { // #H : the name of a fresh value hole
			fmt.Fprintf(&sb, "h%d", h)
			h++
			i++
			continue
		}
		sb.WriteByte(t[i])
	}
	return sb.String()
}

func isSlot(t string, i int) bool {
	if t[i] != '_' && t[i] != 'P' {
		return false
	}
	delim := func(j int) bool { return j < 0 || j >= len(t) || strings.ContainsRune(" ()[]~@", rune(t[j])) }
	return delim(i-1) && delim(i+1)
}

// slots lists the positions of the slots of t.
func slots(t string) []int {
	var r []int
	for i := range t {
		if isSlot(t, i) {
			r = append(r, i)
		}
	}
	return r
}

var coreForms = []string{
	"_",
	"(begin _)",
	"(begin _ _)",
	"(begin _ _ _)",
	"(let [a _] _)",
	"(let [a _ b _] (#H a b))",
	"(let [] _ _)",
	"(letseq [a _ b (#H a)] (#H a b) _)",
	"(newScope _)",
	"(newScope _ _)",
	"(newScope (def a _) (#H a))",
	"(cond _)",
	"(cond P _ _)",
	"(cond P _ P _ _)",
	"(cond _ _ _ _ _)",
	"(and _)",
	"(and P _)",
	"(and P P _)",
	"(or _)",
	"(or P _)",
	"(or P P _)",
	"(for [_ P _] _)",
	"(for [_ P _] _ _)",
	"(for [_ P _])",
	"(for lab [_ P _] _)",
	"(for [(def i _) P (set i (#H i))] (#H i))",
	"(def a _)",
	"(set a _)",
	"(begin (def a _) (set a _) (#H a))",
	"(mdef a b (list _ _))",
	"(#H _ _)",
	"(#H _ _ _)",
	"((fn [a b] (#H a) (#H b)) _ _)",
	"((fn [a & r] (#H a r)) _ _ _)",
	"((fn [a & r] (#H a r)) _)",
	"((fn [& r] (#H r)) _ _)",
	"((fn [] _ _))",
	"((fn [a] (#H a)) _ _)",
	"((begin _ id) _)",
	"((begin _ (fn [a b] (#H b a))) _ _)",
	"(begin (defn g [a] (#H a) _) (g _))",
	"[_ _]",
	"[]",
	"(list _ _)",
	"(map (fn [a] (#H a)) [_ _])",
	"(map #H [_ _])",
	"(map #H (list _ _))",
	"(apply #H [_ _])",
	"(apply (fn [a b] (#H b a)) (list _ _))",
	"(assert P)",
	"(quote (a b 1))",
	"(quote a)",
	"(begin _ COMMENT _)",
	"(begin)",
	"(newScope)",
	"(begin COMMENT)",
	"(let [a _] COMMENT _)",
	"(newScope COMMENT _ COMMENT)",
	"(not P)",
	"nosuchsymbol",
	"(nosuchfunction _)",
}

// flatForms are analysed on their own only (a rebinding must keep the type of the value).
var flatForms = []string{
	"(let [a _ a _] (#H a))",
	"(letseq [a _ a (#H a)] (#H a))",
}

// nest2 lists every core form with one slot replaced by another core form.
func nest2(outer, inner []string) []string {
	var r []string
	for _, o := range outer {
		for _, s := range slots(o) {
			for _, in := range inner {
				if len(slots(in)) == 0 && !strings.HasPrefix(in, "(") && !strings.HasPrefix(in, "[") {
					continue
				}
				r = append(r, o[:s]+in+o[s+1:])
			}
		}
	}
	return r
}

// loopWraps are contexts around a break/continue inside a loop body; B marks the place.
var loopWraps = []string{
	"B",
	"(begin _ B _)",
	"(let [x _] B)",
	"(let [x _] B _)",
	"(let [x B] _)",
	"(letseq [x _] _ B)",
	"(newScope B)",
	"(newScope _ B _)",
	"(cond P B _)",
	"(cond P _ B)",
	"(cond B _ _)",
	"(and P B)",
	"(and B _)",
	"(or P B)",
	"(or B _)",
	"(for [_ P _] B)",
	"(for [_ P _] _ B _)",
	"(for lab [_ P _] (let [y _] B))",
	"(def x B)",
	"(set x B)",
	"[_ B]",
}

// headWraps put the jump in a clause of an inner loop; only jumps to the outer loop are specified there.
var headWraps = []string{
	"(for [(let [y _] B) P _] _)",
	"(for [B P _] _)",
	"(for [_ (begin B P) _] _)",
	"(for [_ P (let [y _] B)] _)",
}

func loopSchemas(depth int) []string {
	ctx := []string{"B"}
	level := []string{"B"}
	for d := 0; d < depth; d++ {
		var nx []string
		for _, c := range level {
			for _, w := range loopWraps[1:] {
				nx = append(nx, strings.Replace(c, "B", w, 1))
			}
		}
		ctx = append(ctx, nx...)
		level = nx
	}
	var r []string
	for _, w := range headWraps {
		for _, j := range []string{"(break outer)", "(continue outer)"} {
			r = append(r, "(for outer [_ P _] "+strings.Replace(w, "B", j, 1)+" _)")
		}
	}
	for _, c := range ctx {
		for _, j := range []string{"(break)", "(continue)", "(break outer)", "(continue outer)"} {
			if strings.Contains(c, "lab ") && j == "(break)" {
				r = append(r, "(for outer [_ P _] "+strings.Replace(c, "B", "(break lab)", 1)+" _)")
			}
			r = append(r, "(for outer [_ P _] "+strings.Replace(c, "B", j, 1)+" _)")
		}
	}
	return r
}

// loopScopeSchemas read, after the loop, a variable that the loop's own scopes shadow.
func loopScopeSchemas() []string {
	var r []string
	for _, w := range append(append([]string(nil), loopWraps...), headWraps...) {
		for _, j := range []string{"(break outer)", "(continue outer)"} {
			b := strings.Replace(w, "B", "(let [i _] "+j+")", 1)
			r = append(r, "(begin (def i _) (for outer [(def i _) P _] "+b+") (#H i))")
			r = append(r, "(let [i _] (for outer [(def i _) P _] "+b+") (#H i))")
		}
	}
	return r
}
