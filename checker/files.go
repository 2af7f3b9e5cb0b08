package main

import (
	"go/types"
	"strings"
)

// A closed file system for texts that name files: the files of e.Files exist with the given contents, every
// other path does not exist. Only the reading side is modelled.

const fileOp = "file:"

func (e *Engine) errVal(st *State, what string, args ...Value) Value {
	t := e.NewTerm(what, types.Universe.Lookup("error").Type(), args...)
	d := st.dyn[t.ID]
	d.NonNil = true
	st.dyn[t.ID] = d
	return t
}

func (e *Engine) fileOf(v Value) (string, bool) {
	if iv, ok := v.(IfaceV); ok {
		v = iv.V
	}
	if t, ok := v.(*Term); ok && strings.HasPrefix(t.Op, fileOp) {
		c, ok := e.Files[strings.TrimPrefix(t.Op, fileOp)]
		return c, ok
	}
	return "", false
}

func installFiles(e *Engine) {
	e.InlinePkg["bufio"] = true
	indexByte := func(c *Call) []Outcome {
		el, ok := c.St.Elems(c.Args[0])
		b, ok2 := c.Args[1].(IntV)
		if !ok || !ok2 {
			return nil
		}
		for i, x := range el {
			if v, ok := x.(IntV); !ok {
				return nil
			} else if byte(v) == byte(b) {
				return ret(c.St, IntV(i))
			}
		}
		return ret(c.St, IntV(-1))
	}
	e.Stubs["bytes.IndexByte"] = indexByte
	e.Stubs["internal/bytealg.IndexByte"] = indexByte
	// the order of known bytes
	order := func(c *Call) []Outcome {
		var s [2]StrV
		for i := range s {
			v, ok := e.convert(c.St, c.Args[i], c.Sig.Params().At(0).Type(), types.Typ[types.String]).(StrV)
			if !ok {
				return nil
			}
			s[i] = v
		}
		return ret(c.St, IntV(strings.Compare(string(s[0]), string(s[1]))))
	}
	e.Stubs["bytes.Compare"] = order
	e.Stubs["internal/bytealg.Compare"] = order
	open := func(c *Call) []Outcome {
		st := c.St
		st.Emit("call:"+c.Name, e.P.Pos(c.Pos), c.Args...)
		n, ok := c.Args[0].(StrV)
		if !ok {
			return nil
		}
		rt := c.Sig.Results().At(0).Type()
		if _, ok := e.Files[string(n)]; !ok {
			return ret(st, e.Zero(rt), e.errVal(st, "open error", n))
		}
		t := e.NewTerm(fileOp+string(n), rt)
		d := st.dyn[t.ID]
		d.NonNil = true
		st.dyn[t.ID] = d
		return ret(st, t, NilV{})
	}
	e.Stubs["os.Open"] = open
	e.Stubs["os.OpenFile"] = open
	e.Stubs["os.ReadFile"] = func(c *Call) []Outcome {
		n, ok := c.Args[0].(StrV)
		if !ok {
			return nil
		}
		if s, ok := e.Files[string(n)]; ok {
			return ret(c.St, e.convert(c.St, StrV(s), types.Typ[types.String], c.Sig.Results().At(0).Type()), NilV{})
		}
		return ret(c.St, NilV{}, e.errVal(c.St, "open error", n))
	}
	e.Stubs["os.Stat"] = func(c *Call) []Outcome {
		n, ok := c.Args[0].(StrV)
		if !ok {
			return nil
		}
		if _, ok := e.Files[string(n)]; ok {
			t := e.NewTerm("fileinfo:"+string(n), c.Sig.Results().At(0).Type())
			d := c.St.dyn[t.ID]
			d.NonNil = true
			c.St.dyn[t.ID] = d
			return ret(c.St, t, NilV{})
		}
		return ret(c.St, NilV{}, e.errVal(c.St, "stat error", n))
	}
	e.Stubs["invoke:io/fs.FileInfo.IsDir"] = func(c *Call) []Outcome { return ret(c.St, BoolV(false)) }
	e.Stubs["(*os.File).Close"] = func(c *Call) []Outcome { return ret(c.St, NilV{}) }
	for _, nm := range []string{"bufio.NewReader", "bufio.NewScanner", "bufio.NewReaderSize", "io.ReadAll", "io/ioutil.ReadAll"} {
		e.Stubs[nm] = func(c *Call) []Outcome {
			s, ok := e.fileOf(c.Args[0])
			if !ok {
				return nil
			}
			mk := e.P.Prog.ImportedPackage("bytes").Func("NewBufferString")
			if mk == nil || c.Fn == nil {
				return nil
			}
			var res []Outcome
			for _, o := range e.CallFn(mk, []Value{StrV(s)}, nil, c.St, c.Depth+1, nil, false) {
				if o.Kind != kReturn {
					res = append(res, o)
					continue
				}
				args := append([]Value{IfaceV{T: mk.Signature.Results().At(0).Type(), V: o.Ret[0]}}, c.Args[1:]...)
				res = append(res, e.CallFn(c.Fn, args, nil, o.St, c.Depth+1, nil, false)...)
			}
			return res
		}
	}
}
