package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() { checks["C13"] = checkC13; sharded["C13"] = true }

// ---------------------------------------------------------------- driving the parser

type parse13 struct {
	f      *Fix
	more   Value // the "more input needed" error
	memo   map[string]parsed
	bufT   types.Type
	parser Value
}

type parsed struct {
	exprs string // canonical rendering, one line per expression
	n     int
	err   string // "", "more" or the error
	st    *State
	bad   string // not decided, or a Go panic
}

func (p parsed) String() string {
	e := strings.ReplaceAll(p.exprs, "\n", " ")
	switch {
	case p.bad != "":
		return p.bad
	case p.err == "more":
		return "(asks for more input)"
	case p.err != "":
		return "error " + p.err
	case e == "":
		return "(nothing)"
	}
	return e
}

func (p parsed) key() string {
	if p.err != "" {
		return "!" + p.err
	}
	return p.exprs
}

func newParse13(P *Program) (*parse13, error) {
	f, err := NewFix(P, "NewZlisp")
	if err != nil {
		return nil, err
	}
	f.E.MaxRec = 300
	x := &parse13{f: f, memo: map[string]parsed{}}
	x.parser = f.EnvField(f.St, "parser")
	x.more = f.Global(f.St, "ErrMoreInputNeeded")
	if x.parser == nil || x.more == nil {
		return nil, fmt.Errorf("anchor: parser field or ErrMoreInputNeeded not found")
	}
	if f.P.Method("Parser", "ParseTokens") == nil || f.P.Method("Parser", "ResetAddNewInput") == nil || f.P.Method("Parser", "NewInput") == nil {
		return nil, fmt.Errorf("anchor: Parser methods not found")
	}
	return x, nil
}

func (x *parse13) stream(st *State, text string) (Value, *State, error) {
	mk := x.f.P.Prog.ImportedPackage("bytes").Func("NewBufferString")
	outs, err := x.f.E.Run(mk, []Value{StrV(text)}, st)
	if err != nil || len(outs) != 1 {
		return nil, nil, fmt.Errorf("stream: %v (%d)", err, len(outs))
	}
	return IfaceV{T: mk.Signature.Results().At(0).Type(), V: outs[0].Ret[0]}, outs[0].St, nil
}

// feed gives one piece of text to the parser and parses.
func (x *parse13) feed(st *State, reset bool, text string) parsed {
	f := x.f
	s, st, err := x.stream(st, text)
	if err != nil {
		return parsed{bad: err.Error()}
	}
	m := "NewInput"
	if reset {
		m = "ResetAddNewInput"
	}
	outs, err := f.Call(st, "Parser", m, x.parser, s)
	if err != nil {
		return parsed{bad: err.Error()}
	}
	if len(outs) != 1 {
		return parsed{bad: fmt.Sprintf("%s depends on unknown leftovers (%d outcomes)", m, len(outs))}
	}
	if outs[0].Kind != kReturn {
		return parsed{bad: "Go panic in " + m + ": " + outs[0].St.Show(outs[0].PanicV)}
	}
	outs, err = f.Call(outs[0].St, "Parser", "ParseTokens", x.parser)
	if err != nil {
		return parsed{bad: err.Error()}
	}
	if len(outs) != 1 {
		return parsed{bad: fmt.Sprintf("parsing depends on unknown leftovers (%d outcomes)", len(outs))}
	}
	return x.result(outs[0])
}

func (x *parse13) result(o Outcome) parsed {
	switch o.Kind {
	case kPanic:
		return parsed{bad: "Go panic: " + o.St.Show(o.PanicV)}
	case kReturn:
	default:
		return parsed{bad: "undecided: " + o.Why}
	}
	p := parsed{st: o.St}
	ev := o.Ret[1]
	switch {
	case isNilV(ev):
	case x.isMore(o.St, ev):
		p.err = "more"
	default:
		p.err = o.St.Show(ev)
	}
	if p.err == "" {
		if isNilV(o.Ret[0]) {
			return p
		}
		es, ok := o.St.Elems(o.Ret[0])
		if !ok {
			return parsed{bad: "the list of expressions is not determined"}
		}
		for _, e := range es {
			p.exprs += x.canon(o.St, e, 60) + "\n"
		}
		p.n = len(es)
	}
	return p
}

func (x *parse13) isMore(st *State, ev Value) bool {
	iv, ok := ev.(IfaceV)
	if !ok {
		return false
	}
	if b, k := x.f.E.triEq(st, iv.V, x.more); k && b {
		return true
	}
	return false
}

// canon renders an expression completely: every field but source positions and environment links.
func (x *parse13) canon(st *State, v Value, d int) string {
	f := x.f
	if d == 0 {
		return "..."
	}
	n, sv := f.Unbox(st, v)
	if n == "" || sv == nil {
		return st.Show(v)
	}
	switch n {
	case "SexpSymbol":
		s := fmt.Sprint(valKey(f.FieldOf(sv, "name")))
		for _, k := range []string{"isDot", "colonTail", "isSigil"} {
			if fv := f.FieldOf(sv, k); fv != nil && fv != Value(BoolV(false)) {
				s += "+" + k + "=" + valKey(fv)
			}
		}
		return s
	case "SexpPair":
		return "(" + x.canon(st, f.FieldOf(sv, "Head"), d-1) + " . " + x.canon(st, f.FieldOf(sv, "Tail"), d-1) + ")"
	case "SexpArray":
		es, ok := st.Elems(f.FieldOf(sv, "Val"))
		if !ok && !isNilV(f.FieldOf(sv, "Val")) {
			return "[?]"
		}
		var a []string
		for _, e := range es {
			a = append(a, x.canon(st, e, d-1))
		}
		return "[" + strings.Join(a, " ") + "]inf=" + valKey(f.FieldOf(sv, "Infix"))
	case "SexpHash":
		if l, ok := f.E.Len(st, f.FieldOf(sv, "KeyOrder")).(IntV); ok && l == 0 {
			return "emptyhash"
		}
		return "hash?"
	}
	// the remaining kinds are plain data
	var a []string
	t := f.T(n)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return n
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Basic); ok {
			a = append(a, s.Field(i).Name()+"="+valKey(f.FieldOf(sv, s.Field(i).Name())))
		}
	}
	return n + "{" + strings.Join(a, ",") + "}"
}

// fresh is the parse of a text delivered whole to a new interpreter.
func (x *parse13) fresh(text string) parsed {
	if p, ok := x.memo[text]; ok {
		return p
	}
	p := x.feed(x.f.St.Clone(), true, text)
	x.memo[text] = p
	return p
}

// ---------------------------------------------------------------- an independent scanner of unfinished prefixes

// unfinished tells whether a text ends inside a bracket, string, raw string or block comment.
func unfinished13(s string) bool {
	r := []rune(s)
	depth := 0
	for i := 0; i < len(r); i++ {
		switch c := r[i]; {
		case c == '(' || c == '[' || c == '{':
			depth++
		case c == ')' || c == ']' || c == '}':
			depth--
		case c == '"' || c == '\'':
			i++
			for i < len(r) && r[i] != c {
				if r[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(r) {
				return c == '"' || depth > 0
			}
		case c == '`':
			for i++; i < len(r) && r[i] != '`'; i++ {
			}
			if i >= len(r) {
				return true
			}
		case c == '/' && i+1 < len(r) && r[i+1] == '/':
			for i < len(r) && r[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(r) && r[i+1] == '*':
			i += 2
			for i+1 < len(r) && !(r[i] == '*' && r[i+1] == '/') {
				i++
			}
			if i+1 >= len(r) {
				return true
			}
			i++
		}
	}
	return depth > 0
}

// ---------------------------------------------------------------- the texts

var atoms13 = []string{"a", "abc", "a.b", ".q", "?x", "#y", "-", "+", "*", "/", "<=", "->", "!=", "**", "5", "-5", "- 5", "1_000", "2.5", "-.5", "1e5", "1e-5", "0x1F", "0o17", "0b11", "7ULL", "0xFFULL", "true", "NaN", "Inf", "-Inf", "- Inf",
	"'c'", "'\\n'", "\"s\"", "\"\"", "\"a\\n\\\"b\\\\\"", "\"(\"", "`raw`", "`a\\\"(\nb`", "a:", ":", ":=", "x:=3", "x-1", "a=3", "a==b", "&&", "$", "%q", "^z", "nil"}

var contexts13 = []string{"@", "@\n", "(@)", "(f @)", "(@ b)", "[@]", "[1, @]", "{@}", "{a = @; b}", "{a: @}", "{\"k\": @ }", "{`k`: @ }", "%@", "%(@ (b))", "^(a ~(g @) ~@(h @))", "(a \\ @)", "@ // c", "// c\n@", "/* c */ @", "/* c **/ @ /* d\ne */", "@ @", "(@ (@ [@]))", "(@ // c )\n b)", "{// c\n @}", "{/* c */ @}", "(a /* ) */ @)", "~@ b"}

var whole13 = []string{
	"(def x 10) -5 %foo %(a b) \"str\" 'c' `raw` ",
	"(- Inf) - Inf +", "1 {`k`: 2} {for i=1;i<2;i++ {x}}", "{ /* hi */ // there\n a: 1}", "{ \"k\": 1, \"l\": [1, 2, {\"m\": null}]}",
	"(defn f [a b & rest] (let [x 1] ^(q ~x ~@rest)))\n(f 1 2)\n;(g)\n", "{}", "[]", "()", "{} {a: {}}", "(a)(b)[c]{d}", "a(b)c[d]e", "\"a\"\"b\"", "x[3] y[1:2] z[:]", "{out: for i := 0; i < 2; i++ { x }}", "{out: for { break out } }", "{for k, v := range h { x }}", "{for: 3}", "{a: for}", "{`k`: for}", "{if: 3}", "{a[1:2]}", "{a[0].b = f(c, d)}", "{x := 3 y := x + 1}", "{if a {b} else {c}}",
	"", " ", "\n\n", "// only", "/* only */", "a//b\nc", "a/b", "a/*b*/c", "{a / b}", "1e5-1e-5 a-1 -1", "(f -1 - 1 -x)", "é (ü \"ß\")",
}

var histories13 = []string{"(", "((a [b", "\"abc", "\"abc\\", "(\"abc", "`abc", "(a `abc", "/* abc", "(a /* abc *", "{", "{a", "{\"a\"", "{`a`", "{`a", "{a: 1", "{ /* c */", "{// c\n", ")", "]", "1x", "(1x", "\"\\q\"", "'", "'ab'", "(a 'b", "%", "(%", "~", "(~", "^(a ~@", "a", "abc-", "(a) -", "1e", "5 -", "a:", "x:", "3:", "(a \\ b", "(a \\ b c)", "// c", "a /", "(+ 1 2)", "{a b}", "{a = 3; b}", "e", "1.5e", "\"x\" \"y\"", "(a b) (c"}

func texts13() []string {
	seen := map[string]bool{}
	var out []string
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range whole13 {
		add(t)
	}
	for _, k := range contexts13 {
		for _, a := range atoms13 {
			add(strings.ReplaceAll(k, "@", a))
		}
	}
	// what follows an opening brace decides what it opens
	for _, a := range []string{"a", "a:", "for", "lab:", "\"k\"", "`k`", "7", "(x)", "[x]", "{y}", "'c'", "// c\n"} {
		for _, b := range []string{"", ":", "for", "a:", "\"s\"", "(y)", "+", "// d\n", "\n"} {
			for _, d := range []string{"", "1", "for", ": 2"} {
				add("{" + a + " " + b + " " + d + "}")
			}
		}
	}
	return out
}

func checkC13(c *Ctx) {
	c.Explain = "The parser (lexer, coroutine parser, token look-ahead) is analysed by abstract interpretation on a token-by-context grammar of texts. (1) leftover: every cell of the lexer and parser state whose value differs between any two parsing histories is replaced by an unknown value (leftover buffers, queues and streams by arbitrary contents; the pending coroutine's stop function by one that disturbs the lexer again); after ResetAddNewInput the parse of every text must be single-valued and equal to the parse in a new interpreter: this covers all histories. (2) history: the same with concrete unfinished and failed histories. (3) pieces: every text is cut at every position (and at all positions at once) and delivered with NewInput; the expressions must equal those of the whole text. (4) more: for every prefix of every text, the parser asks for more input only if an independent scanner finds it unfinished, and always if it is an unfinished prefix of a text that parses. (5) last: a text and the text followed by a newline mean the same. (6) routes: load-file and read return the same expressions as the parser."
	c.Assume = append(append([]string{}, schemaAssume...), "texts are drawn from the token-by-context grammar (every token kind in every bracket and comment context); cuts fall between runes")
	x, err := newParse13(c.P)
	if err != nil {
		c.fail("anchor", "parser", "", "%v", err)
		return
	}
	c.Floor("leftover", 500)
	c.Floor("history", 300)
	c.Floor("pieces", 800)
	c.Floor("more", 800)
	c.Floor("last", 500)
	pos := "zygo/parser.go, zygo/lexer.go"
	texts := texts13()

	// pieces, more, last
	for _, t := range texts {
		if !c.Mine() {
			continue
		}
		x.memo = map[string]parsed{}
		w := x.fresh(t)
		c.Stats["texts"]++
		if w.bad != "" {
			c.Ob("pieces", t, false, pos, "%s", w.bad)
			continue
		}
		rs := []rune(t)
		ok, det := true, ""
		moreOK, moreDet := true, ""
		var cuts []int // prefixes that are no hard error
		var pause []int
		for i := 0; i <= len(rs); i++ {
			pre := string(rs[:i])
			p := x.fresh(pre)
			un := unfinished13(pre)
			switch {
			case p.bad != "":
				moreOK, moreDet = false, fmt.Sprintf("%q: %s", pre, p.bad)
			case p.err == "more" && !un:
				moreOK, moreDet = false, fmt.Sprintf("%q is not an unfinished prefix but the parser asks for more input", pre)
			case p.err != "more" && un && w.err == "":
				moreOK, moreDet = false, fmt.Sprintf("%q is an unfinished prefix but the parser returns %s", pre, p)
			}
			if p.bad == "" && (p.err == "more" || p.err == "") && i < len(rs) && i > 0 {
				cuts = append(cuts, i)
				if p.err == "more" {
					pause = append(pause, i)
				}
			}
		}
		c.Ob("more", t, moreOK, pos, "%s", moreDet)
		deliver := func(at []int) {
			if !ok || len(at) == 0 {
				return
			}
			st, b := x.f.St.Clone(), 0
			var p parsed
			var show []string
			for k, e := range append(append([]int{}, at...), len(rs)) {
				piece := string(rs[b:e])
				show = append(show, piece)
				p = x.feed(st, k == 0, piece)
				if p.bad != "" || (p.err != "" && p.err != "more") {
					break
				}
				st, b = p.st, e
			}
			c.Stats["deliveries"]++
			if p.key() != w.key() || p.bad != "" {
				ok, det = false, fmt.Sprintf("delivered in pieces %q the text gives %s, delivered whole %s", show, p, w)
			}
		}
		for _, i := range pause {
			deliver([]int{i})
		}
		for _, i := range cuts {
			deliver([]int{i})
		}
		deliver(pause)
		deliver(cuts)
		for k := 0; k+1 < len(pause) && k < 12; k++ {
			deliver([]int{pause[k], pause[k+1]})
		}
		c.Ob("pieces", t, ok, pos, "%s", det)
		if w.err == "" {
			n := x.fresh(t + "\n")
			sp := x.fresh(t + " ")
			if strings.Contains(t, "//") {
				sp = n
			}
			c.Ob("last", t, n.bad == "" && sp.bad == "" && n.key() == w.key() && sp.key() == w.key(), pos, "the text gives %s, followed by a newline %s, by a space %s", w, n, sp)
		}
	}

	// the parse of plain data agrees with the structure of the text
	plainTexts := []string{"a", "(a b c)", "[1 2 (a)]", "(def x 10) (set x 5)", "\"s\" 3 (4 [5])", "(a (b (c (d))))", "5ULL 2.5 -7", "(f 'c' \"d\")", "^(a ~b ~@c)", "(let [a 1 b 2] (+ a b)) (list)", "[] [[]]", "a b c", "(a) (b) (c d)"}
	for _, t := range plainTexts {
		if !c.Mine() {
			continue
		}
		w := x.fresh(t)
		st := x.f.St.Clone()
		want := ""
		for _, e := range parseSchema(t) {
			want += x.canon(st, x.f.Build(st, e), 60) + "\n"
		}
		c.Ob("structure", t, w.bad == "" && w.err == "" && w.exprs == want, pos, "the parser gives %s, the text says %s", w, strings.ReplaceAll(want, "\n", " "))
	}

	// concrete histories, and the summary of what histories leave behind
	probes := []string{"a", "-5", "(a b) c", "{a: 1}", "\"s\"", "// c\n3", "{x = 1; y}", "%(q)", "1e5", "(", "e-5", "a: b", "x:=3", "/* c */ 7", "`r` 'c'"}
	var finals []*State
	for _, h := range histories13 {
		ph := x.feed(x.f.St.Clone(), true, h)
		if ph.bad != "" {
			if c.Main() {
				c.Ob("history", h, false, pos, "%s", ph.bad)
			}
			continue
		}
		// the abandoned parse unwinds
		outs, err := x.f.Call(ph.st, "Parser", "Stop", x.parser)
		if err != nil || len(outs) != 1 || outs[0].Kind != kReturn {
			if c.Main() {
				c.Ob("history", h+" (given up)", false, pos, "giving up an unfinished parse fails: %v", err)
			}
			continue
		}
		finals = append(finals, outs[0].St)
	}
	for i, h := range histories13 {
		for _, t := range probes {
			if !c.Mine() {
				continue
			}
			_ = i
			ph := x.feed(x.f.St.Clone(), true, h)
			if ph.bad != "" {
				continue
			}
			w := x.fresh(t)
			p := x.feed(ph.st, true, t)
			c.Ob("history", h+" ;; "+t, p.bad == "" && p.key() == w.key(), pos, "after %q, %q gives %s, in a new interpreter %s", h, t, p, w)
		}
	}
	// three generations
	for i, h := range histories13 {
		if !c.Mine() {
			continue
		}
		st := x.f.St.Clone()
		hs := []string{h, histories13[(i+7)%len(histories13)], histories13[(i*3+1)%len(histories13)]}
		bad := false
		for _, g := range hs {
			p := x.feed(st, true, g)
			if p.bad != "" {
				bad = true
				c.Ob("history", strings.Join(hs, " ;; "), false, pos, "%s", p.bad)
				break
			}
			st = p.st
		}
		if bad {
			continue
		}
		for _, t := range probes[:4] {
			p, w := x.feed(st, true, t), x.fresh(t)
			if p.bad != "" || p.key() != w.key() {
				c.Ob("history", strings.Join(hs, " ;; ")+" ;; "+t, false, pos, "%q gives %s, in a new interpreter %s", t, p, w)
			}
			if p.bad == "" {
				st = p.st
			}
		}
		c.Ob("history", strings.Join(hs, " ;; "), true, pos, "")
	}

	// any history at all
	hv, names := x.havoc(finals)
	c.Stats["varying state cells"] = len(names)
	if c.Main() {
		c.Samples = append(c.Samples, "cells that differ between histories: "+strings.Join(names, " "))
	}
	for i, t := range texts {
		if !c.Mine() {
			continue
		}
		if c.Tier != "thorough" && i%2 == 1 && i > 200 {
			continue
		}
		w := x.fresh(t)
		p := x.feed(hv.Clone(), true, t)
		c.Ob("leftover", t, p.bad == "" && p.key() == w.key(), pos, "after an unknown history %q gives %s, in a new interpreter %s (cells left unknown: %s)", t, p, w, strings.Join(names, " "))
	}

	// routes
	for _, t := range append(append([]string{}, whole13...), "a", "(a b)", "-5", "\"s\"", "(a b) c", "(", "\"abc", "{a: 1}", "a:", "%q") {
		if !c.Mine() {
			continue
		}
		w := x.fresh(t)
		x.f.E.Files = map[string]string{"f": t}
		for _, h := range []string{"", "(a", "(+ 1 2)"} {
			st := x.f.St.Clone()
			if h != "" {
				st = x.feed(st, true, h).st
			}
			outs, err := x.f.Call(st, "Zlisp", "ParseFile", x.f.Env, StrV("f"))
			if err != nil || len(outs) != 1 {
				c.Ob("route-file", t, false, pos, "undecided: %v (%d outcomes)", err, len(outs))
				continue
			}
			p := x.result(outs[0])
			c.Ob("route-file", h+" ;; "+t, p.bad == "" && (p.err != "") == (w.err != "") && p.exprs == w.exprs, pos, "read from a file after %q the text gives %s, delivered directly %s", h, p, w)
		}
	}
	x.repl(c)
}

// havoc returns a state in which every cell of the lexer and parser that differs between histories is unknown.
func (x *parse13) havoc(finals []*State) (*State, []string) {
	f := x.f
	st := f.St.Clone()
	var names []string
	lexer := f.E.GetField(st, x.parser, f.T("Parser"), "lexer")
	dirty := func(s *State) {
		for _, o := range []struct {
			t string
			p Value
		}{{"Lexer", lexer}, {"Parser", x.parser}} {
			str := f.T(o.t).Underlying().(*types.Struct)
			for i := 0; i < str.NumFields(); i++ {
				fd := str.Field(i)
				base := f.E.GetField(st, o.p, f.T(o.t), fd.Name())
				_, varies := fd.Type().Underlying().(*types.Signature) // parked coroutine
				for _, fs := range finals {
					if x.deep(fs, f.E.GetField(fs, o.p, f.T(o.t), fd.Name()), 4) != x.deep(st, base, 4) {
						varies = true
					}
				}
				if !varies {
					continue
				}
				if s == st {
					names = append(names, o.t+"."+fd.Name())
				}
			}
		}
	}
	dirty(st)
	apply := func(s *State, running bool) {
		for _, n := range names {
			if running && strings.HasPrefix(n, "Parser.") && n != "Parser.sendMe" {
				continue
			}
			tn, fn, _ := strings.Cut(n, ".")
			p := x.parser
			if tn == "Lexer" {
				p = lexer
			}
			str := f.T(tn).Underlying().(*types.Struct)
			for i := 0; i < str.NumFields(); i++ {
				if str.Field(i).Name() == fn {
					old := f.E.GetField(s, p, f.T(tn), fn)
					f.E.SetField(s, p, f.T(tn), fn, x.unknown(s, str.Field(i).Type(), n, old))
				}
			}
		}
	}
	f.E.Stubs["host:stale"] = func(c *Call) []Outcome {
		panic(budgetErr{"a function of an abandoned parse is called"})
	}
	f.E.Stubs["host:stalestop"] = func(c *Call) []Outcome {
		apply(c.St, true) // unwinding the abandoned parse may still disturb the lexer
		return ret(c.St)
	}
	apply(st, false)
	sort.Strings(names)
	return st, names
}

func (x *parse13) deep(st *State, v Value, d int) string {
	switch y := v.(type) {
	case PtrV:
		if d == 0 {
			return "ptr"
		}
		c, ok := x.f.E.Load(st, y)
		if !ok {
			return "ptr?"
		}
		return "&" + x.deep(st, c, d-1)
	case *StructV:
		s := "{"
		for _, e := range y.F {
			s += x.deep(st, e, d) + ","
		}
		return s + "}"
	case *ArrV:
		s := "["
		for _, e := range y.E {
			s += x.deep(st, e, d) + ","
		}
		return s + "]"
	case SliceV:
		es, ok := st.Elems(y)
		if !ok {
			return "slice?"
		}
		s := "[]"
		for _, e := range es {
			s += x.deep(st, e, d) + ","
		}
		return s
	case IfaceV:
		return "iface:" + x.deep(st, y.V, d)
	case *HostV:
		return "host"
	case FuncV, *FuncV:
		return "func"
	}
	return valKey(v)
}

func (x *parse13) unknown(st *State, t types.Type, name string, old Value) Value {
	f := x.f
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			return StrV("zz")
		}
		return f.E.NewTerm("leftover:"+name, t)
	case *types.Struct:
		sv := &StructV{F: make([]Value, u.NumFields())}
		if z, ok := f.E.Zero(t).(*StructV); ok {
			*sv = *z
			sv.F = make([]Value, u.NumFields())
		}
		for i := range sv.F {
			sv.F[i] = x.unknown(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), nil)
		}
		return sv
	case *types.Array:
		av := &ArrV{E: make([]Value, u.Len())}
		for i := range av.E {
			av.E[i] = x.unknown(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), nil)
		}
		return av
	case *types.Slice:
		return f.E.NewSlice(st, x.unknown(st, u.Elem(), name+"[0]", nil), x.unknown(st, u.Elem(), name+"[1]", nil))
	case *types.Signature:
		k := "stale"
		if strings.HasSuffix(name, ".stop") {
			k = "stalestop"
		}
		return &HostV{Kind: k}
	case *types.Interface:
		if types.Identical(t, errorT) {
			return f.E.errVal(st, "leftover error")
		}
		if t.String() == "io.RuneScanner" {
			s, _, err := x.streamIn(st, "yy (")
			if err == nil {
				return s
			}
		}
		return f.Str(st, StrV("leftover"))
	case *types.Pointer:
		if strings.HasSuffix(u.Elem().String(), "bytes.Buffer") {
			s, _, err := x.streamIn(st, "zz")
			if err == nil {
				return s.(IfaceV).V
			}
		}
		if n, ok := u.Elem().(*types.Named); ok {
			if n.Obj().Name() == "Zlisp" || n.Obj().Name() == "Lexer" || n.Obj().Name() == "Parser" {
				return old
			}
			return f.E.NewObj(st, x.unknown(st, u.Elem(), name, nil))
		}
	}
	return f.E.NewTerm("leftover:"+name, t)
}

// streamIn makes a buffer in place (the state is updated, not replaced).
func (x *parse13) streamIn(st *State, text string) (Value, *State, error) {
	s, st2, err := x.stream(st.Clone(), text)
	if err == nil {
		*st = *st2
	}
	return s, st, err
}

// repl drives the REPL's line reader: the lines of a text give the expressions of the text, and an unfinished or
// wrong text before it changes nothing.
func (x *parse13) repl(c *Ctx) {
	f := x.f
	if f.P.Method("Prompter", "getExpressionWithLiner") == nil {
		c.fail("anchor", "Prompter.getExpressionWithLiner", "", "not found")
		return
	}
	read := func(st *State, rd Value, pr Value) (Outcome, string) {
		outs, err := f.Call(st, "Prompter", "getExpressionWithLiner", pr, f.Env, rd, BoolV(true))
		if err != nil {
			return Outcome{}, err.Error()
		}
		if len(outs) != 1 {
			return Outcome{}, fmt.Sprintf("%d outcomes", len(outs))
		}
		if outs[0].Kind == kPanic {
			return Outcome{}, "Go panic: " + outs[0].St.Show(outs[0].PanicV)
		}
		return outs[0], ""
	}
	one := []string{"a", "(a b)", "(a\nb)", "(a\n(b\n[c\n{d\n}]))", "\"s\nt\"", "(f \"s\n\")", "`a\nb\n`", "/* a\nb */ 5", "{a: 1\n b: 2}", "{\n\"a\"\n: 1}", "{x = 1\ny}", "(a \\\nb)", "(- \nInf)", "-5", "1 2 (a\n) 3", "(a // c )\nb)", "", "// c", "%(a\nb)", "(%\na)", "^(a\n~\nb)", "(a b) (c\nd)", "x/", "a:", "\"abc\\n\nd\""}
	before := []string{"", "(a", "((a", "1x\n", ")\n", "(+ 1 2)\n", "{\"a\"", "{a", "\"x", "-\n"}
	for _, t := range one {
		for _, h := range before {
			if !c.Mine() {
				continue
			}
			w := x.fresh(t + "\n")
			st := f.St.Clone()
			mkrd := func(text string) Value {
				s, _, err := x.streamIn(st, text)
				if err != nil {
					return nil
				}
				outs, err := f.E.Run(f.P.Prog.ImportedPackage("bufio").Func("NewReader"), []Value{s}, st)
				if err != nil || len(outs) != 1 {
					return nil
				}
				st = outs[0].St
				return outs[0].Ret[0]
			}
			pr := f.Obj(st, "Prompter")
			label := h + " ;; " + t
			if h != "" {
				rd := mkrd(h)
				o, bad := read(st, rd, pr)
				if bad != "" {
					c.Ob("repl", label, false, "zygo/repl.go", "%s", bad)
					continue
				}
				st = o.St
			}
			rd := mkrd(t + "\n")
			o, bad := read(st, rd, pr)
			if bad != "" {
				c.Ob("repl", label, false, "zygo/repl.go", "%s", bad)
				continue
			}
			p := x.result(Outcome{Kind: kReturn, St: o.St, Ret: []Value{o.Ret[1], o.Ret[2]}})
			c.Ob("repl", label, p.bad == "" && (p.err != "") == (w.err != "") && p.exprs == w.exprs, "zygo/repl.go", "the lines %q give %s at the prompt, %s when parsed", t, p, w)
		}
	}
}
