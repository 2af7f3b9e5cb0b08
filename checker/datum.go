package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"math/big"
	"strings"
)

// datum is a script value as plain data.
type datum struct {
	sym  *Term  // an unknown number or string
	k    string // int float uint char str sym bool nil list pair arr hash other
	num  *big.Rat
	inf  string // NaN, Inf, -Inf
	s    string
	el   []*datum // elements, or the values of a hash
	keys []*datum
	typ  string
	tail *datum // of a dotted pair
}

// datumOf reads a script value of known contents.
func (f *Fix) datumOf(st *State, v Value, d int) (*datum, error) {
	if d > 40 {
		return nil, fmt.Errorf("value too deep")
	}
	n, sv := f.Unbox(st, v)
	if n == "" || sv == nil {
		return nil, fmt.Errorf("value %s", st.Show(v))
	}
	switch n {
	case "SexpInt", "SexpUint64", "SexpChar":
		i, ok := f.FieldOf(sv, "Val").(IntV)
		kind := map[string]string{"SexpInt": "int", "SexpUint64": "uint", "SexpChar": "char"}[n]
		if t, is := f.FieldOf(sv, "Val").(*Term); is {
			return &datum{k: kind, sym: bareTerm(t)}, nil
		}
		if !ok {
			return nil, fmt.Errorf("unknown number %s", st.Show(f.FieldOf(sv, "Val")))
		}
		r := new(big.Rat).SetInt64(int64(i))
		if n == "SexpUint64" {
			r = new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(i)))
		}
		return &datum{k: kind, num: r}, nil
	case "SexpFloat":
		if t, is := f.FieldOf(sv, "Val").(*Term); is {
			return &datum{k: "float", sym: bareTerm(t)}, nil
		}
		x, ok := f.FieldOf(sv, "Val").(FltV)
		if !ok {
			return nil, fmt.Errorf("unknown number")
		}
		return floatDatum(float64(x)), nil
	case "SexpBool":
		b, ok := f.FieldOf(sv, "Val").(BoolV)
		if !ok {
			if kb, known := f.E.Tri(st, f.FieldOf(sv, "Val")); known {
				b, ok = BoolV(kb), true
			}
		}
		if !ok {
			return &datum{k: "bool", s: valKey(f.FieldOf(sv, "Val"))}, nil
		}
		return &datum{k: "bool", s: fmt.Sprint(bool(b))}, nil
	case "SexpSentinel":
		if valKey(v) == valKey(f.Null(st)) {
			return &datum{k: "nil"}, nil
		}
		return &datum{k: "other", s: n}, nil
	case "SexpStr":
		if t, is := f.FieldOf(sv, "S").(*Term); is {
			return &datum{k: "str", sym: t}, nil
		}
		s, ok := f.FieldOf(sv, "S").(StrV)
		if !ok {
			return nil, fmt.Errorf("unknown string %s", st.Show(f.FieldOf(sv, "S")))
		}
		return &datum{k: "str", s: string(s)}, nil
	case "SexpRaw":
		s, ok := f.rawText(st, sv)
		if !ok {
			return nil, fmt.Errorf("unknown bytes")
		}
		return &datum{k: "raw", s: s}, nil
	case "SexpSymbol":
		s, ok := f.FieldOf(sv, "name").(StrV)
		if !ok {
			return nil, fmt.Errorf("unknown symbol")
		}
		return &datum{k: "sym", s: string(s)}, nil
	case "SexpPair":
		r := &datum{k: "list"}
		for n == "SexpPair" && len(r.el) < 1000 {
			h, err := f.datumOf(st, f.FieldOf(sv, "Head"), d+1)
			if err != nil {
				return nil, err
			}
			r.el = append(r.el, h)
			v = f.FieldOf(sv, "Tail")
			n, sv = f.Unbox(st, v)
		}
		if valKey(v) != valKey(f.Null(st)) {
			t, err := f.datumOf(st, v, d+1)
			if err != nil {
				return nil, err
			}
			r.tail = t
		}
		return r, nil
	case "SexpArray":
		es, ok := st.Elems(f.FieldOf(sv, "Val"))
		if !ok {
			return nil, fmt.Errorf("unknown array")
		}
		r := &datum{k: "arr"}
		for _, e := range es {
			h, err := f.datumOf(st, e, d+1)
			if err != nil {
				return nil, err
			}
			r.el = append(r.el, h)
		}
		return r, nil
	case "SexpHash":
		m, isMap := f.FieldOf(sv, "Map").(MapV)
		if !isMap {
			return nil, fmt.Errorf("unknown hash")
		}
		mo, ok := st.mapObj(m.Obj)
		tn, ok2 := f.FieldOf(sv, "TypeName").(StrV)
		ks, ok3 := st.Elems(f.FieldOf(sv, "KeyOrder"))
		if !ok || !ok2 || !ok3 {
			return nil, fmt.Errorf("unknown hash")
		}
		live := map[string]*datum{}
		for _, e := range mo.Ents {
			if e.Del {
				continue
			}
			es, ok := st.Elems(e.V)
			if !ok {
				return nil, fmt.Errorf("unknown bucket")
			}
			for _, p := range es {
				_, pr := f.Unbox(st, f.Sexp(p, "SexpPair"))
				if pr == nil {
					return nil, fmt.Errorf("unknown pair")
				}
				k, err := f.datumOf(st, f.FieldOf(pr, "Head"), d+1)
				if err != nil {
					return nil, err
				}
				x, err := f.datumOf(st, f.FieldOf(pr, "Tail"), d+1)
				if err != nil {
					return nil, err
				}
				if live[k.String()] != nil {
					return nil, fmt.Errorf("key %s is twice in the hash", k)
				}
				live[k.String()] = x
			}
		}
		r := &datum{k: "hash", typ: string(tn)}
		for _, kv := range ks {
			k, err := f.datumOf(st, kv, d+1)
			if err != nil {
				return nil, err
			}
			if x := live[k.String()]; x != nil {
				r.keys = append(r.keys, k)
				r.el = append(r.el, x)
				delete(live, k.String())
			}
		}
		for k := range live {
			return nil, fmt.Errorf("key %s is not in the key order", k)
		}
		return r, nil
	}
	return &datum{k: "other", s: n}, nil
}

func (f *Fix) rawText(st *State, sv *StructV) (string, bool) {
	el, ok := st.Elems(f.FieldOf(sv, "Val"))
	if !ok {
		return "", false
	}
	var b []byte
	for _, x := range el {
		i, ok := x.(IntV)
		if !ok {
			return "", false
		}
		b = append(b, byte(i))
	}
	return string(b), true
}

func floatDatum(x float64) *datum {
	switch {
	case math.IsNaN(x):
		return &datum{k: "float", inf: "NaN"}
	case math.IsInf(x, 1):
		return &datum{k: "float", inf: "Inf"}
	case math.IsInf(x, -1):
		return &datum{k: "float", inf: "-Inf"}
	}
	return &datum{k: "float", num: new(big.Rat).SetFloat64(x)}
}

func (d *datum) String() string {
	var sb strings.Builder
	d.print(&sb, false)
	return sb.String()
}

// print renders canonically; byValue drops the kind of a number.
func (d *datum) print(sb *strings.Builder, byValue bool) {
	if d == nil {
		sb.WriteString("<none>")
		return
	}
	if d.sym != nil && (d.k == "str" || byValue && d.k != "char") {
		if d.k == "str" {
			sb.WriteString("str:")
		}
		sb.WriteString(valKey(d.sym))
		return
	}
	switch d.k {
	case "int", "float", "uint", "char":
		if !byValue {
			sb.WriteString(d.k + ":")
		} else if d.k == "char" {
			sb.WriteString("char:")
		}
		if d.sym != nil {
			sb.WriteString(valKey(d.sym))
		} else if d.inf != "" {
			sb.WriteString(d.inf)
		} else {
			sb.WriteString(d.num.RatString())
		}
	case "str", "sym", "raw", "other":
		fmt.Fprintf(sb, "%s:%q", d.k, d.s)
	case "bool":
		sb.WriteString(d.s)
	case "nil":
		sb.WriteString("nil")
	case "list", "arr":
		o, c := "(", ")"
		if d.k == "arr" {
			o, c = "[", "]"
		}
		sb.WriteString(o)
		for i, e := range d.el {
			if i > 0 {
				sb.WriteString(" ")
			}
			e.print(sb, byValue)
		}
		if d.tail != nil {
			sb.WriteString(" . ")
			d.tail.print(sb, byValue)
		}
		sb.WriteString(c)
	case "hash":
		fmt.Fprintf(sb, "%q{", d.typ)
		for i, e := range d.el {
			if i > 0 {
				sb.WriteString(" ")
			}
			d.keys[i].print(sb, byValue)
			sb.WriteString("=")
			e.print(sb, byValue)
		}
		sb.WriteString("}")
	}
}

func (d *datum) ByValue() string {
	var sb strings.Builder
	d.print(&sb, true)
	return sb.String()
}

// bareTerm drops conversions that keep the value of a number.
func bareTerm(t *Term) *Term {
	for (t.Op == "conv" || t.Op == "intOf") && len(t.Args) == 1 {
		s, ok := t.Args[0].(*Term)
		if !ok || t.T == nil || s.T == nil {
			break
		}
		a, ok1 := t.T.Underlying().(*types.Basic)
		b, ok2 := s.T.Underlying().(*types.Basic)
		if !ok1 || !ok2 || t.Op == "conv" && (a.Info()&types.IsInteger == 0 || b.Info()&types.IsInteger == 0 || intSize(a) < 8) {
			break
		}
		t = s
	}
	return t
}

// unplaced replaces the placeholders in parsed JSON by the unknown values.
func (d *datum) unplaced(e *Engine) *datum {
	var v interface{}
	switch {
	case d.k == "str":
		v = d.s
	case d.k == "int" && d.num.IsInt() && d.num.Num().IsInt64():
		v = d.num.Num().Int64()
	case d.k == "int" && d.num.IsInt() && d.num.Num().IsUint64():
		v = d.num.Num().Uint64()
	case d.k == "float":
		v, _ = d.num.Float64()
	}
	if t, _, is := e.unplace(v); is && t != nil {
		return &datum{k: d.k, sym: bareTerm(t)}
	}
	for i := range d.el {
		d.el[i] = d.el[i].unplaced(e)
	}
	if d.tail != nil {
		d.tail = d.tail.unplaced(e)
	}
	return d
}

// jsonDatum parses one JSON text with the standard decoder; objects keep their member order.
func jsonDatum(text string) (*datum, error) {
	if !json.Valid([]byte(text)) {
		return nil, fmt.Errorf("not well-formed JSON: %q", text)
	}
	dec := json.NewDecoder(bytes.NewReader([]byte(text)))
	dec.UseNumber()
	var val func() (*datum, error)
	val = func() (*datum, error) {
		t, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case nil:
			return &datum{k: "nil"}, nil
		case bool:
			return &datum{k: "bool", s: fmt.Sprint(x)}, nil
		case string:
			return &datum{k: "str", s: x}, nil
		case json.Number:
			r, ok := new(big.Rat).SetString(string(x))
			if !ok {
				return nil, fmt.Errorf("number %s", x)
			}
			k := "int"
			if strings.ContainsAny(string(x), ".eE") {
				k = "float"
				// a standard decoder reads the nearest float64
				if fl, err := x.Float64(); err == nil {
					r.SetFloat64(fl)
				} else {
					return nil, err
				}
			}
			return &datum{k: k, num: r}, nil
		case json.Delim:
			r := &datum{k: "arr"}
			if x == '{' {
				r.k = "hash"
			}
			for dec.More() {
				if r.k == "hash" {
					kt, err := dec.Token()
					if err != nil {
						return nil, err
					}
					r.keys = append(r.keys, &datum{k: "str", s: kt.(string)})
				}
				e, err := val()
				if err != nil {
					return nil, err
				}
				r.el = append(r.el, e)
			}
			_, err := dec.Token()
			return r, err
		}
		return nil, fmt.Errorf("token %v", t)
	}
	d, err := val()
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	return d, nil
}

// denotes tells whether JSON data j stands for script data v; with meta the objects carry type name and field order.
func denotes(j, v *datum, meta bool) error {
	if v.sym != nil || j.sym != nil {
		if v.sym != j.sym || (v.k == "str") != (j.k == "str") {
			return fmt.Errorf("%s stands for %s", j, v)
		}
		return nil
	}
	switch v.k {
	case "int", "float", "uint":
		if j.num == nil || v.num == nil || j.num.Cmp(v.num) != 0 {
			return fmt.Errorf("%s stands for %s", j, v)
		}
	case "bool", "nil":
		if j.String() != v.String() {
			return fmt.Errorf("%s stands for %s", j, v)
		}
	case "str", "sym":
		if j.k != "str" || j.s != v.s {
			return fmt.Errorf("%s stands for %s", j, v)
		}
	case "arr":
		if j.k != "arr" || len(j.el) != len(v.el) {
			return fmt.Errorf("%s stands for %s", j, v)
		}
		for i := range v.el {
			if err := denotes(j.el[i], v.el[i], meta); err != nil {
				return err
			}
		}
	case "hash":
		if j.k != "hash" {
			return fmt.Errorf("%s stands for %s", j, v)
		}
		mem := map[string]*datum{}
		var order []string
		for i, k := range j.keys {
			if mem[k.s] != nil {
				return fmt.Errorf("member %q is there twice in %s", k.s, j)
			}
			mem[k.s] = j.el[i]
			if !meta || k.s != "Atype" && k.s != "zKeyOrder" {
				order = append(order, k.s)
			}
		}
		if meta {
			if a := mem["Atype"]; a == nil || a.k != "str" || a.s != v.typ {
				return fmt.Errorf("the type name of %s is not %q", j, v.typ)
			}
			if z := mem["zKeyOrder"]; z != nil {
				order = nil
				for _, e := range z.el {
					order = append(order, e.s)
				}
			}
		}
		var want []string
		for i, k := range v.keys {
			want = append(want, k.s)
			if mem[k.s] == nil {
				return fmt.Errorf("key %q is missing in %s", k.s, j)
			}
			if err := denotes(mem[k.s], v.el[i], meta); err != nil {
				return err
			}
		}
		if fmt.Sprintf("%q", order) != fmt.Sprintf("%q", want) {
			return fmt.Errorf("members %q instead of %q", order, want)
		}
		extra := len(mem) - len(want)
		if meta {
			if extra--; mem["zKeyOrder"] != nil {
				extra--
			}
		}
		if extra != 0 {
			return fmt.Errorf("additional members in %s", j)
		}
	default:
		return fmt.Errorf("value %s", v)
	}
	return nil
}

func (e *Engine) termByID(id int) *Term {
	if len(e.byID) < len(e.terms) {
		e.byID = map[int]*Term{}
		for _, t := range e.terms {
			e.byID[t.ID] = t
		}

	}
	return e.byID[id]
}
