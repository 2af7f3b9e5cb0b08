package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// InitPackage interprets the package initialiser of zygo so that package-level tables have known contents.
func (e *Engine) InitPackage(st *State) (*State, error) {
	e.inited[e.P.Zygo] = true
	fn := e.P.Zygo.Func("init")
	// the environment-dependent probing done by init() is fixed to one answer
	osStat, isDir := e.Stubs["os.Stat"], e.Stubs["invoke:io/fs.FileInfo.IsDir"]
	e.Stubs["os.Stat"] = func(c *Call) []Outcome { return ret(c.St, e.Sym("fileinfo", c.Sig.Results().At(0).Type()), NilV{}) }
	e.Stubs["invoke:io/fs.FileInfo.IsDir"] = func(c *Call) []Outcome { return ret(c.St, BoolV(false)) }
	defer func() {
		delete(e.Stubs, "os.Stat")
		delete(e.Stubs, "invoke:io/fs.FileInfo.IsDir")
		if osStat != nil {
			e.Stubs["os.Stat"] = osStat
		}
		if isDir != nil {
			e.Stubs["invoke:io/fs.FileInfo.IsDir"] = isDir
		}
	}()
	if u := e.P.Prog.ImportedPackage("unicode/utf8"); u != nil && u.Func("init") != nil {
		// tables of the decoder
		e.inited[u] = true
		outs, err := e.Run(u.Func("init"), nil, st)
		if err != nil || len(outs) != 1 {
			return nil, fmt.Errorf("initialiser of unicode/utf8: %v", err)
		}
		st = outs[0].St
	}
	outs, err := e.Run(fn, nil, st)
	if err != nil {
		return nil, err
	}
	var ok []*State
	for _, o := range outs {
		if o.Kind == kReturn {
			ok = append(ok, o.St)
		} else {
			e.note(fmt.Sprintf("init outcome kind %d %s", o.Kind, o.St.Show(o.PanicV)))
		}
	}
	if len(ok) == 0 {
		return nil, fmt.Errorf("package init has no normal outcome")
	}
	if len(ok) > 1 {
		e.note(fmt.Sprintf("init outcomes: %d", len(ok)))
	}
	return ok[0], nil
}

// goNative converts constant abstract values to Go values for constant folding of pure library functions.
func goNative(st *State, v Value, t reflect.Type, depth int) (reflect.Value, bool) {
	if iv, ok := v.(IfaceV); ok && t.Kind() != reflect.Interface {
		v = iv.V
	}
	rv := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if i, ok := v.(IntV); ok {
			rv.SetInt(int64(i))
			return rv, true
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if i, ok := v.(IntV); ok {
			rv.SetUint(uint64(i))
			return rv, true
		}
	case reflect.Float64, reflect.Float32:
		if i, ok := v.(FltV); ok {
			rv.SetFloat(float64(i))
			return rv, true
		}
	case reflect.String:
		if i, ok := v.(StrV); ok {
			rv.SetString(string(i))
			return rv, true
		}
	case reflect.Bool:
		if i, ok := v.(BoolV); ok {
			rv.SetBool(bool(i))
			return rv, true
		}
	case reflect.Slice:
		el, ok := st.Elems(v)
		if !ok {
			return rv, false
		}
		if _, isNil := v.(NilV); isNil {
			return rv, true
		}
		rv.Set(reflect.MakeSlice(t, len(el), len(el)))
		for i, x := range el {
			y, ok := goNative(st, x, t.Elem(), depth+1)
			if !ok {
				return rv, false
			}
			rv.Index(i).Set(y)
		}
		return rv, true
	case reflect.Interface:
		if _, ok := v.(NilV); ok {
			return rv, true
		}
		iv, ok := v.(IfaceV)
		if !ok {
			return rv, false
		}
		b, ok := iv.T.Underlying().(*types.Basic)
		if !ok || iv.T != types.Type(b) { // only predeclared types: named ones may have methods
			if nt, ok2 := iv.T.(*types.Named); !ok2 || nt.NumMethods() > 0 || !ok {
				return rv, false
			}
		}
		bt, ok := basicReflect[b.Kind()]
		if !ok {
			return rv, false
		}
		y, ok := goNative(st, iv.V, bt, depth+1)
		if !ok {
			return rv, false
		}
		rv.Set(y)
		return rv, true
	}
	return rv, false
}

var basicReflect = map[types.BasicKind]reflect.Type{
	types.Bool: reflect.TypeOf(false), types.Int: reflect.TypeOf(0), types.Int8: reflect.TypeOf(int8(0)), types.Int16: reflect.TypeOf(int16(0)), types.Int32: reflect.TypeOf(int32(0)), types.Int64: reflect.TypeOf(int64(0)),
	types.Uint: reflect.TypeOf(uint(0)), types.Uint8: reflect.TypeOf(uint8(0)), types.Uint16: reflect.TypeOf(uint16(0)), types.Uint32: reflect.TypeOf(uint32(0)), types.Uint64: reflect.TypeOf(uint64(0)),
	types.Float32: reflect.TypeOf(float32(0)), types.Float64: reflect.TypeOf(float64(0)), types.String: reflect.TypeOf(""),
}

// fromNative converts results back; errors become opaque non-nil terms or nil.
func fromNative(e *Engine, st *State, rv reflect.Value, why string) Value {
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return IntV(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return IntV(int64(rv.Uint()))
	case reflect.Float64, reflect.Float32:
		return FltV(rv.Float())
	case reflect.String:
		return StrV(rv.String())
	case reflect.Bool:
		return BoolV(rv.Bool())
	case reflect.Slice:
		if rv.IsNil() {
			return NilV{}
		}
		var el []Value
		for i := 0; i < rv.Len(); i++ {
			el = append(el, fromNative(e, st, rv.Index(i), why))
		}
		return e.NewSlice(st, el...)
	case reflect.Interface:
		if rv.IsNil() {
			return NilV{}
		}
		if err, ok := rv.Interface().(error); ok {
			t := e.NewTerm("error:"+err.Error(), errorT)
			d := st.dyn[t.ID]
			d.NonNil = true
			st.dyn[t.ID] = d
			return t
		}
	}
	return e.Fresh("native:"+why, nil)
}

var errorT = types.Universe.Lookup("error").Type()

// foldable pure library functions: constant-folded when all arguments are constants.
var foldFns = map[string]interface{}{
	"strings.Index": strings.Index, "strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Join": strings.Join, "strings.Split": strings.Split, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Repeat": strings.Repeat, "strings.Title": strings.Title, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.Trim": strings.Trim, "strings.TrimRight": strings.TrimRight, "strings.TrimLeft": strings.TrimLeft, "strings.Count": strings.Count, "strings.LastIndex": strings.LastIndex, "strings.EqualFold": strings.EqualFold, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.ContainsRune": strings.ContainsRune, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.AppendQuote": strconv.AppendQuote, "strconv.AppendInt": strconv.AppendInt, "strconv.AppendUint": strconv.AppendUint, "strconv.AppendFloat": strconv.AppendFloat, "strconv.AppendBool": strconv.AppendBool, "strconv.AppendQuoteRune": strconv.AppendQuoteRune, "strconv.UnquoteChar": strconv.UnquoteChar, "strconv.QuoteRuneToASCII": strconv.QuoteRuneToASCII, "strconv.CanBackquote": strconv.CanBackquote, "strconv.IsPrint": strconv.IsPrint, "strconv.QuoteRune": strconv.QuoteRune, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatUint": strconv.FormatUint, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseBool": strconv.ParseBool, "strconv.Unquote": strconv.Unquote,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsPunct": unicode.IsPunct, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsNumber": unicode.IsNumber, "unicode.IsTitle": unicode.IsTitle,
	"math.Pow": math.Pow, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf, "math.NaN": math.NaN, "math.Floor": math.Floor, "math.Mod": math.Mod, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Trunc": math.Trunc, "math.MaxInt": nil,
	"math.Float64bits": math.Float64bits, "math.Signbit": math.Signbit,
	"fmt.Sprintf": fmt.Sprintf, "fmt.Sprint": fmt.Sprint, "regexp.QuoteMeta": regexp.QuoteMeta,
}

func init() {
	for k, v := range foldFns {
		if v == nil {
			delete(foldFns, k)
		}
	}
}

func foldStub(name string, host interface{}) StubFn {
	hv := reflect.ValueOf(host)
	ht := hv.Type()
	return func(c *Call) []Outcome {
		var in []reflect.Value
		for i := 0; i < ht.NumIn(); i++ {
			if i >= len(c.Args) {
				return nil
			}
			v, ok := goNative(c.St, c.Args[i], ht.In(i), 0)
			if !ok {
				return opaquePure(c)
			}
			in = append(in, v)
		}
		var out []reflect.Value
		if ht.IsVariadic() {
			out = hv.CallSlice(in)
		} else {
			out = hv.Call(in)
		}
		var r []Value
		for _, o := range out {
			r = append(r, fromNative(c.E, c.St, o, name))
		}
		return ret(c.St, r...)
	}
}

// opaquePure builds result terms keyed by the argument *contents* (slices frozen).
func opaquePure(c *Call) []Outcome {
	var args []Value
	for _, a := range c.Args {
		args = append(args, c.E.freezeSlice2(c.St, a))
	}
	return c.E.opaqueCall(&Call{E: c.E, St: c.St, Fn: c.Fn, Name: c.Name, Args: args, Sig: c.Sig, Pos: c.Pos, Depth: c.Depth})
}

func (e *Engine) freezeSlice2(st *State, a Value) Value {
	if s, ok := a.(SliceV); ok {
		el, _ := st.Elems(s)
		return &TupleV{E: el}
	}
	return a
}

// forkErr returns two outcomes: success with results, and failure with a non-nil error.
func (c *Call) nonNilErr(name string) Value {
	t := c.E.Fresh(name, errorT)
	d := c.St.dyn[t.ID]
	d.NonNil = true
	c.St.dyn[t.ID] = d
	return t
}

func installStubs(e *Engine) {
	for k, v := range foldFns {
		e.Stubs[k] = foldStub(k, v)
	}
	e.Stubs["fmt.Errorf"] = func(c *Call) []Outcome { return opaquePure(c) }
	e.Stubs["regexp.MustCompile"] = func(c *Call) []Outcome {
		if s, ok := c.Args[0].(StrV); ok {
			if re, err := regexp.Compile(string(s)); err == nil {
				return ret(c.St, &HostV{Kind: "regexp", V: re})
			}
			return []Outcome{{St: c.St, Kind: kPanic, PanicV: StrV("regexp.MustCompile")}}
		}
		return nil
	}
	e.Stubs["regexp.Compile"] = func(c *Call) []Outcome {
		if s, ok := c.Args[0].(StrV); ok {
			re, err := regexp.Compile(string(s))
			if err == nil {
				return ret(c.St, &HostV{Kind: "regexp", V: re}, NilV{})
			}
			return ret(c.St, NilV{}, c.nonNilErr("regexp error"))
		}
		return nil
	}
	re := func(name string, f func(r *regexp.Regexp, st *State, s string) []Value) {
		e.Stubs["(*regexp.Regexp)."+name] = func(c *Call) []Outcome {
			h, ok := c.Args[0].(*HostV)
			if !ok {
				return nil
			}
			var s string
			if len(c.Args) > 1 {
				sv, ok := c.Args[1].(StrV)
				if !ok {
					return nil
				}
				s = string(sv)
			}
			return ret(c.St, f(h.V.(*regexp.Regexp), c.St, s)...)
		}
	}
	re("MatchString", func(r *regexp.Regexp, st *State, s string) []Value { return []Value{BoolV(r.MatchString(s))} })
	re("FindStringIndex", func(r *regexp.Regexp, st *State, s string) []Value {
		return []Value{fromNative(e, st, reflect.ValueOf(r.FindStringIndex(s)), "re")}
	})
	re("FindStringSubmatch", func(r *regexp.Regexp, st *State, s string) []Value {
		return []Value{fromNative(e, st, reflect.ValueOf(r.FindStringSubmatch(s)), "re")}
	})
	e.Stubs["(*regexp.Regexp).FindAllString"] = func(c *Call) []Outcome {
		h, ok := c.Args[0].(*HostV)
		s, ok2 := c.Args[1].(StrV)
		n, ok3 := c.Args[2].(IntV)
		if !ok || !ok2 || !ok3 {
			return nil
		}
		return ret(c.St, fromNative(e, c.St, reflect.ValueOf(h.V.(*regexp.Regexp).FindAllString(string(s), int(n))), "re"))
	}
	re("String", func(r *regexp.Regexp, st *State, s string) []Value { return []Value{StrV(r.String())} })
	// printing is an effect
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		n := n
		e.Stubs[n] = func(c *Call) []Outcome {
			c.St.Emit("call:"+n, c.E.P.Pos(c.Pos), c.Args...)
			return ret(c.St, c.E.Fresh("n", tInt), NilV{})
		}
	}
	// debugging printers of the code base have no semantic effect
	for _, n := range []string{"zygo.P", "zygo.Q", "zygo.VPrintf", "zygo.TSPrintf", "zygo.DebugVprint", "zygo.pp", "zygo.vv"} {
		if e.P.Func(strings.TrimPrefix(n, "zygo.")) != nil {
			e.Stubs[n] = func(c *Call) []Outcome { return ret(c.St, zeroResults(c)...) }
		}
	}
	// imported package initialisers
	e.Stubs["errors.New"] = func(c *Call) []Outcome {
		var t *Term
		if s, ok := c.Args[0].(StrV); ok {
			t = c.E.NewTerm("error:"+string(s), errorT, StrV(c.E.P.Pos(c.Pos)))
		} else {
			t = c.E.NewTerm("errors.New", errorT, c.Args...)
		}
		d := c.St.dyn[t.ID]
		d.NonNil = true
		c.St.dyn[t.ID] = d
		return ret(c.St, t)
	}
	e.Stubs["sync/atomic.AddInt64"] = func(c *Call) []Outcome {
		v, ok := c.E.Load(c.St, c.Args[0])
		if !ok {
			return nil
		}
		n := c.E.add(v, c.Args[1])
		p, _ := c.E.deref(c.St, c.Args[0])
		c.E.Store(c.St, p, n)
		return ret(c.St, n)
	}
}

func zeroResults(c *Call) []Value {
	var r []Value
	for i := 0; i < c.Sig.Results().Len(); i++ {
		r = append(r, c.E.Zero(c.Sig.Results().At(i).Type()))
	}
	return r
}

var _ = ssa.NewProgram
