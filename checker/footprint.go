package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// footprint totals, per owning struct field, the elements of every slice and map reachable from v.
// The symbol table is left out: interning a name is meant to be permanent.
func (f *Fix) footprint(st *State, v Value) map[string]int {
	fp := map[string]int{}
	seen := map[string]bool{}
	var walk func(v Value, owner string)
	walk = func(v Value, owner string) {
		switch x := v.(type) {
		case IfaceV:
			walk(x.V, owner)
		case PtrV:
			k := valKey(x)
			if seen[k] {
				return
			}
			seen[k] = true
			fp["objects of "+owner]++
			if c, ok := st.rawLoad(x); ok {
				walk(c, owner)
			}
		case *StructV:
			s, _ := x.T.Underlying().(*types.Struct)
			for i, fv := range x.F {
				if s == nil || i >= s.NumFields() {
					continue
				}
				n := s.Field(i).Name()
				if n == "symtable" || n == "revsymtable" {
					continue
				}
				walk(fv, shortType(x.T)+"."+n)
			}
		case *ArrV:
			for _, e := range x.E {
				walk(e, owner)
			}
		case SliceV:
			k := fmt.Sprintf("s%d%s/%d", x.Obj, x.P.String(), x.Off)
			if seen[k] {
				return
			}
			seen[k] = true
			fp["elements of "+owner] += x.Len
			for i := 0; i < x.Len; i++ {
				walk(st.sliceElem(x, i), owner)
			}
		case MapV:
			k := fmt.Sprintf("m%d", x.Obj)
			if seen[k] {
				return
			}
			seen[k] = true
			if m, ok := st.mapObj(x.Obj); ok {
				for _, e := range m.Ents {
					if !e.Del {
						fp["entries of "+owner]++
						walk(e.V, owner)
					}
				}
			}
		case *FuncV:
			for _, y := range x.Free {
				walk(y, owner)
			}
		case *Term, StrV, IntV, BoolV, FltV, NilV, *HostV, nil:
		}
	}
	walk(v, "interpreter")
	return fp
}

// CheckGrowth evaluates the same program four times: the interpreter may not be bigger after the last than after the one before.
func (s *Schemas) CheckGrowth(c *Ctx, rule, text string) {
	if !c.Mine() {
		return
	}
	sg := s.mkseg(text)
	s.Runs++
	paths, err := s.Run([]seg{sg, sg, sg, sg})
	if err != nil {
		c.Undecided(rule, text, err)
		return
	}
	ok, det := len(paths) > 0, "no feasible path"
	for _, p := range paths {
		s.Paths++
		if len(p.res) < 4 || p.res[3].kind != kReturn {
			ok, det = false, fmt.Sprintf("undecided: evaluation %d does not return: %s %s", len(p.res), p.res[len(p.res)-1].why, p.st.Show(p.res[len(p.res)-1].pv))
			continue
		}
		a, b := s.F.footprint(p.res[2].st, s.F.Env), s.F.footprint(p.res[3].st, s.F.Env)
		var g []string
		for k, n := range b {
			if n > a[k] {
				g = append(g, fmt.Sprintf("%s: %d, then %d", k, a[k], n))
			}
		}
		sort.Strings(g)
		if len(g) > 0 && ok {
			ok, det = false, "evaluating the same text again makes the idle interpreter grow: "+strings.Join(g, "; ")
		}
	}
	c.Ob(rule, text, ok, "zygo (footprint of *Zlisp)", "%s", det)
}

func (st *State) mapObj(id int) (*MapObj, bool) {
	v, _ := st.obj(id)
	m, ok := v.(*MapObj)
	return m, ok
}
