package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

var jobTrace = os.Getenv("CHK_TRACE")

const (
	aSem   = 1 << iota // effects, value and error equal the reference
	aRest              // a successful evaluation leaves the interpreter at rest
	aFault             // a failed evaluation restores the interpreter
	aPanic             // no Go panic escapes
	aSpace             // successive calls of the same hole find stacks of the same depth
)

type evalRes struct {
	kind int
	val  Value
	err  bool
	szs  []int
	pv   Value
	ev   Value
	st   *State
	why  string
}

type schemaPath struct {
	st  *State
	res []evalRes
}

// Schemas runs families of schemata against one interpreter fixture.
type Schemas struct {
	F      *Fix
	St     *State
	Hosts  []HostFn
	Rest   []int // stack depths at rest
	Names  []string
	Paths  int
	Runs   int
	Probes []string
	Fails  bool
	Max    int
	Weak   bool // compare only errors/rest, not effects (malformed programs)
	Text   bool // evaluate the text through EvalString (lexer and parser included)
	WantOK bool // with Weak: every evaluation must succeed
}

func NewSchemas(c *Ctx, f *Fix, fail bool, maxCalls int) *Schemas {
	s := &Schemas{F: f, Fails: fail, Max: maxCalls}
	for i := 0; i < 12; i++ {
		n := fmt.Sprint(i)
		s.Hosts = append(s.Hosts, HostFn{Name: "h" + n, Kind: 'h', Fail: fail}, HostFn{Name: "p" + n, Kind: 'p', Fail: fail})
	}
	for i := 0; i < 4; i++ {
		for _, k := range "fsur" {
			s.Hosts = append(s.Hosts, HostFn{Name: fmt.Sprintf("x%c%d", k, i), Kind: byte(k), Fail: fail})
		}
	}
	s.Hosts = append(s.Hosts, HostFn{Name: "id", Kind: 'q'}, HostFn{Name: "hl", Kind: 'l'}, HostFn{Name: "hz", Kind: 'h'}, HostFn{Name: "hn", Kind: 'n'})
	s.St = f.InstallHost(f.St, s.Hosts, maxCalls)
	s.Rest = f.StackSizes(s.St, f.Env)
	s.Names = f.StackNames()
	return s
}

// Run evaluates the segments of a program one after another on the same interpreter.
func (s *Schemas) Run(segs []seg) ([]schemaPath, error) {
	s.F.E.HostMax = s.Max
	paths := []schemaPath{{st: s.St.Clone()}}
	for _, sg := range segs {
		var next []schemaPath
		for _, p := range paths {
			if len(p.res) > 0 && p.res[len(p.res)-1].kind != kReturn {
				next = append(next, p)
				continue
			}
			var outs []Outcome
			var err error
			if sg.useText {
				outs, err = s.F.Call(p.st.Clone(), "Zlisp", "EvalString", s.F.Env, StrV(sg.text))
			} else {
				outs, err = s.F.EvalSchema(p.st, sg.forms)
			}
			if err != nil {
				return nil, err
			}
			for _, o := range outs {
				r := evalRes{kind: o.Kind, pv: o.PanicV, st: o.St, why: o.Why}
				if o.Kind == kReturn {
					r.val = o.Ret[0]
					r.ev = o.Ret[1]
					r.err = !isNilV(o.Ret[1])
					if t, ok := o.Ret[1].(*Term); ok {
						if o.St.dyn[t.ID].IsNil {
							r.err = false
						}
					}
				}
				r.szs = s.F.StackSizes(o.St, s.F.Env)
				next = append(next, schemaPath{st: o.St, res: append(append([]evalRes(nil), p.res...), r)})
			}
		}
		paths = next
		if len(paths) > 4000 {
			return nil, fmt.Errorf("too many paths (%d)", len(paths))
		}
	}
	return paths, nil
}

type seg struct {
	forms   []*sx
	want    []*sx // reference program when it differs from the evaluated text
	text    string
	useText bool
}

func (g seg) String() string {
	if g.useText {
		return g.text
	}
	return showForms(g.forms)
}

func (s *Schemas) mkseg(t string) seg {
	want := ""
	if i := strings.Index(t, " => "); i >= 0 {
		t, want = t[:i], strings.TrimSpace(t[i+4:])
	}
	g := seg{text: strings.TrimSpace(t), useText: s.Text}
	if want != "" {
		switch want {
		case "!":
			want = "!!"
		case "*":
			want = "**any"
		}
		g.want = parseSchema(want)
		if !s.Text {
			g.forms = parseSchema(t)
		}
		return g
	}
	if !s.Text || !s.Weak {
		g.forms = parseSchema(t)
	}
	return g
}

// Check analyses one program ("seg1 ;; seg2 ...") under the given aspects.
func (s *Schemas) Check(c *Ctx, rule, text string, asp int, probes ...string) bool {
	if !c.Mine() {
		return true
	}
	var segs []seg
	for _, t := range strings.Split(text, ";;") {
		segs = append(segs, s.mkseg(t))
	}
	nmain := len(segs)
	// probes: the interpreter must behave normally afterwards
	segs = append(segs, s.mkseg(""), s.mkseg("(hz 7)"))
	for _, p := range probes {
		segs = append(segs, s.mkseg(p))
	}
	s.Runs++
	if jobTrace != "" {
		t0, n0 := time.Now(), s.F.E.Steps
		defer func() {
			if d := time.Since(t0); d > 2*time.Second {
				fmt.Fprintf(os.Stderr, "slow %.1fs %d paths=%d %s: %s\n", d.Seconds(), s.F.E.Steps-n0, s.Paths, rule, text)
			}
		}()
	}
	paths, err := s.Run(segs)
	if err != nil {
		c.Undecided(rule, text, err)
		return false
	}
	ok, det := len(paths) > 0, "no feasible path"
	bad := func(p schemaPath, f string, a ...interface{}) {
		if ok {
			ok = false
			var tr []string
			for _, h := range hostEvents(p.st) {
				t := h.Name
				if h.Fail != "" {
					t += "!" + h.Fail
				} else if strings.HasPrefix(h.Name, "p") {
					b, k := s.F.E.Tri(p.st, s.F.FieldOf(func() *StructV { _, x := s.F.Unbox(p.st, h.Res); return x }(), "Val"))
					if k {
						t += fmt.Sprintf("=%v", b)
					}
				}
				tr = append(tr, t)
			}
			det = fmt.Sprintf("path [%s]: %s", strings.Join(tr, " "), fmt.Sprintf(f, a...))
		}
	}
	for _, p := range paths {
		s.Paths++
		last := p.res[len(p.res)-1]
		if asp&aSpace != 0 {
			first := map[string]hostCall{}
			for _, h := range hostEvents(p.st) {
				f, ok := first[h.Name]
				if !ok {
					first[h.Name] = h
					continue
				}
				for k := range h.Szs {
					if h.Szs[k] != f.Szs[k] {
						bad(p, "%s is at depth %d at call 0 of %s and at depth %d at call %d: space grows with the number of iterations", s.Names[k], f.Szs[k], h.Name, h.Szs[k], h.N)
					}
				}
				if h.Dep != f.Dep {
					bad(p, "the interpreter's own call stack is at depth %d at call 0 of %s and at depth %d at call %d: space grows with the number of iterations", f.Dep, h.Name, h.Dep, h.N)
				}
			}
		}
		ref := NewRef(s.F, p.st, hostEvents(p.st), last.kind == kTrunc, s.Hosts)
		for i, r := range p.res {
			if r.kind == kTrunc && r.why != "host call bound" {
				bad(p, "undecided: %s", r.why)
				break
			}
			var v Verdict
			if !s.Weak || i >= nmain {
				if i == nmain {
					v.Val = rNull{}
				} else if s.Weak {
					ref.pos = len(ref.evs)
					// only the plain probe is judged after a malformed program
				} else {
					w := segs[i].want
					if w == nil {
						w = segs[i].forms
					}
					v = ref.Eval(w)
				}
			}
			lbl := ""
			if i >= nmain {
				lbl = fmt.Sprintf("afterwards, evaluating %q: ", segs[i].String())
			} else if nmain > 1 {
				lbl = fmt.Sprintf("evaluation %d: ", i+1)
			}
			if r.kind == kPanic {
				if asp&(aPanic|aSem|aFault) != 0 {
					bad(p, "%sGo panic escapes: %s", lbl, p.st.Show(r.pv))
				}
				break
			}
			if r.kind == kTrunc {
				if v.Mismatch != "" && asp&aSem != 0 {
					bad(p, "%s%s", lbl, v.Mismatch)
				}
				break
			}
			if r.kind != kReturn {
				bad(p, "%sthe process exits", lbl)
				break
			}
			failed := false
			for j := 0; j <= i && j < len(p.res); j++ {
				if p.res[j].err {
					failed = true
				}
			}
			if s.Weak {
				if s.WantOK && i < nmain && r.err {
					bad(p, "%sevaluation fails: %s", lbl, p.st.Show(r.ev))
				}
				if i < nmain && !r.err && asp&aFault != 0 {
					for _, h := range hostEvents(r.st)[prevEvents(p, i):] {
						if h.Fail != "" {
							bad(p, "%scall %d of %s failed but the evaluation succeeds with %s", lbl, h.N, h.Name, p.st.Show(r.val))
						}
					}
				}
				if i == nmain && (r.err || !ref.same(r.val, rNull{})) && asp&(aRest|aFault) != 0 {
					bad(p, "%sresult %s err=%v, expected nil", lbl, p.st.Show(r.val), r.err)
				}
				if i == nmain+1 && (r.err || len(hostEvents(p.st)) == 0) && asp&(aFault|aRest) != 0 {
					bad(p, "%sthe interpreter no longer evaluates normally", lbl)
				}
			} else {
				semHere := asp&aSem != 0 || (i >= nmain && (failed && asp&aFault != 0 || !failed && asp&aRest != 0)) || (failed && asp&aFault != 0)
				if v.Mismatch != "" && semHere {
					bad(p, "%s%s", lbl, v.Mismatch)
					break
				}
				if v.Mismatch == "" && semHere {
					if v.Err != r.err {
						if r.err {
							bad(p, "%san error (%s) is returned, the reference yields %s", lbl, p.st.Show(r.ev), ref.show(v.Val))
						} else {
							bad(p, "%sthe reference fails (%s) but the evaluation succeeds with %s", lbl, v.Extra, p.st.Show(r.val))
						}
						break
					}
					if !v.Err && !ref.same(r.val, v.Val) {
						bad(p, "%svalue %s, the reference yields %s", lbl, s.canon(p.st, r.val, 12), ref.show(v.Val))
						break
					}
				}
			}
			// rest state
			if !r.err && asp&aRest != 0 || r.err && asp&aFault != 0 {
				for k, n := range r.szs {
					if n != s.Rest[k] {
						what := "succeeds"
						if r.err {
							what = "fails"
						}
						bad(p, "%sthe evaluation %s and leaves %s at depth %d instead of %d", lbl, what, s.Names[k], n, s.Rest[k])
					}
				}
			}
		}
	}
	c.Ob(rule, text, ok, "zygo (program schema)", "%s", det)
	return ok
}

func showForms(xs []*sx) string {
	var a []string
	for _, x := range xs {
		a = append(a, x.String())
	}
	return strings.Join(a, " ")
}

func prevEvents(p schemaPath, i int) int {
	if i == 0 {
		return 0
	}
	return len(hostEvents(p.res[i-1].st))
}

// canon renders a script value up to identity of heap objects.
func (s *Schemas) canon(st *State, v Value, d int) string {
	f := s.F
	n, sv := f.Unbox(st, v)
	if n == "" || sv == nil {
		return valKey(v)
	}
	if d == 0 {
		return n
	}
	if d < -300 {
		return "cyclic"
	}
	switch n {
	case "SexpInt", "SexpBool", "SexpFloat", "SexpChar", "SexpUint64", "SexpSentinel":
		return n + ":" + valKey(f.FieldOf(sv, "Val"))
	case "SexpStr":
		return n + ":" + valKey(f.FieldOf(sv, "S"))
	case "SexpSymbol":
		return "sym:" + valKey(f.FieldOf(sv, "name"))
	case "SexpPair":
		var sb strings.Builder
		sep := "("
		for ; n == "SexpPair" && d > 0; d-- {
			sb.WriteString(sep + s.canon(st, f.FieldOf(sv, "Head"), d-1))
			sep = " "
			v = f.FieldOf(sv, "Tail")
			n, sv = f.Unbox(st, v)
		}
		if n != "SexpSentinel" {
			sb.WriteString(" . " + s.canon(st, v, d-1))
		}
		return sb.String() + ")"
	case "SexpArray":
		es, ok := st.Elems(f.FieldOf(sv, "Val"))
		if !ok {
			return n + valKey(f.FieldOf(sv, "Val"))
		}
		var a []string
		for _, e := range es {
			a = append(a, s.canon(st, e, d-1))
		}
		return "[" + strings.Join(a, " ") + "]"
	case "SexpHash":
		if d <= 1 {
			return n
		}
		live, ok := map[string]string{}, false
		if m, isMap := f.FieldOf(sv, "Map").(MapV); isMap {
			var mo *MapObj
			if mo, ok = st.mapObj(m.Obj); ok {
				for _, e := range mo.Ents {
					es, _ := st.Elems(e.V)
					if e.Del {
						continue
					}
					for _, p := range es {
						if _, pr := f.Unbox(st, f.Sexp(p, "SexpPair")); pr != nil {
							live[s.canon(st, f.FieldOf(pr, "Head"), d-2)] = s.canon(st, f.FieldOf(pr, "Tail"), d-2)
						}
					}
				}
			}
		}
		ks, ok2 := st.Elems(f.FieldOf(sv, "KeyOrder"))
		if !ok || !ok2 {
			return n
		}
		var a []string
		for _, k := range ks {
			kc := s.canon(st, k, d-2)
			if v, have := live[kc]; have {
				a = append(a, kc+":"+v)
			}
		}
		return fmt.Sprintf("%s{%s}/%d", valKey(f.FieldOf(sv, "TypeName")), strings.Join(a, " "), len(live))
	}
	return n
}

// behaviour is the set of observable behaviours of a program: effects with their arguments, value or error, rest.
func (s *Schemas) behaviour(segs []seg) (map[string]string, error) {
	paths, err := s.Run(segs)
	if err != nil {
		return nil, err
	}
	set := map[string]string{}
	for _, p := range paths {
		s.Paths++
		var sb, tr strings.Builder
		for _, h := range hostEvents(p.st) {
			sb.WriteString(h.Name + "(")
			for _, a := range h.Args {
				sb.WriteString(s.canon(p.st, a, 30) + ",")
			}
			sb.WriteString(")" + h.Fail)
			tr.WriteString(h.Name + " ")
			if strings.HasPrefix(h.Name, "p") && h.Fail == "" {
				_, x := s.F.Unbox(p.st, h.Res)
				b, k := s.F.E.Tri(p.st, s.F.FieldOf(x, "Val"))
				sb.WriteString(fmt.Sprint(b, k))
			}
			sb.WriteString("\n")
		}
		for _, r := range p.res {
			switch {
			case r.kind == kTrunc && r.why == "host call bound":
				sb.WriteString("bound")
			case r.kind == kTrunc:
				return nil, fmt.Errorf("undecided: %s", r.why)
			case r.kind == kPanic:
				sb.WriteString("panic")
				tr.WriteString("Go panic " + p.st.Show(r.pv))
			case r.kind != kReturn:
				sb.WriteString("exit")
			case r.err:
				sb.WriteString("error")
				tr.WriteString("error " + p.st.Show(r.ev))
			default:
				sb.WriteString("value " + s.canon(p.st, r.val, 30))
				tr.WriteString("value " + s.canon(p.st, r.val, 30))
				for k, n := range r.szs {
					if n != s.Rest[k] {
						fmt.Fprintf(&sb, " leaves %s at %d", s.Names[k], n)
						fmt.Fprintf(&tr, " leaves %s at %d", s.Names[k], n)
					}
				}
			}
			sb.WriteString(";")
			tr.WriteString("; ")
		}
		set[sb.String()] = tr.String()
	}
	return set, nil
}

// Same decides that two programs have the same observable behaviours from the same interpreter state.
func (s *Schemas) Same(c *Ctx, rule, a, b string) bool {
	if !c.Mine() {
		return true
	}
	s.Runs++
	split := func(t string) (r []seg) {
		for _, x := range strings.Split(t, ";;") {
			r = append(r, seg{text: strings.TrimSpace(x), useText: true})
		}
		return
	}
	x, err := s.behaviour(split(a))
	if err == nil {
		var y map[string]string
		y, err = s.behaviour(split(b))
		if err == nil {
			ok, det := len(x) > 0, "no feasible path"
			for k, t := range x {
				if _, found := y[k]; !found && ok {
					ok, det = false, fmt.Sprintf("behaviour [%s] of %q is not a behaviour of %q", t, a, b)
				}
			}
			for k, t := range y {
				if _, found := x[k]; !found && ok {
					ok, det = false, fmt.Sprintf("behaviour [%s] of %q is not a behaviour of %q", t, b, a)
				}
			}
			c.Ob(rule, a+"  ==  "+b, ok, "zygo (program schema)", "%s", det)
			return ok
		}
	}
	c.Undecided(rule, a+"  ==  "+b, err)
	return false
}
