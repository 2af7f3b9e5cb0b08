SEEDS += [
dict(id='C20-symbol-base', property='C20', edits=[('zygo/environment.go','''	env.nextsymbol = 1
	env.before''','''	env.nextsymbol = 1 + interpreters*symbolRange
	interpreters++
	env.before'''),('zygo/environment.go','''func NewZlispWithFuncs(''','''// every interpreter numbers its symbols from its own range.
var interpreters int

const symbolRange = 100000

func NewZlispWithFuncs(''')],
 needs='a generated symbol whose name or number is looked at, in an interpreter that is not the first of the process',
 breaks='gensym names depend on how many interpreters were created before',
 test='''	var first string
	for i := 0; i < 3; i++ {
		env := NewZlisp()
		env.StandardSetup()
		res, err2 := env.EvalString("(sym2str (gensym))")
		if err2 != nil {
			t.Fatal(err2)
		}
		s := res.SexpString(nil)
		env.Close()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatalf("interpreter %v says %v, the first said %v", i, s, first)
		}
	}''', imports=''),
dict(id='C20-sort-by-length', property='C20', edits=[('zygo/jsonmsgp.go','''func (a KiSlice) Less(i, j int) bool { return a[i].key < a[j].key }''','''func (a KiSlice) Less(i, j int) bool {
	// numbered keys go by number: k2 is before k10
	if len(a[i].key) != len(a[j].key) {
		return len(a[i].key) < len(a[j].key)
	}
	return a[i].key[0] < a[j].key[0]
}''')],
 needs='decoding an object with keys of the same length that start with the same letter',
 breaks='the key order of a decoded object differs from run to run',
 test='''	var first string
	for i := 0; i < 40; i++ {
		env := NewZlisp()
		env.StandardSetup()
		res, err2 := env.EvalString("(str (unjson (raw `{\\"ka\\":1,\\"kb\\":2,\\"kc\\":3,\\"kd\\":4,\\"ke\\":5,\\"kf\\":6}`)))")
		if err2 != nil {
			t.Fatal(err2)
		}
		s := res.SexpString(nil)
		env.Close()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatalf("run %v says %v, the first said %v", i, s, first)
		}
	}''', imports=''),
dict(id='C20-did-you-mean', property='C20', edits=[('zygo/environment.go','''	return SexpNull, fmt.Errorf("symbol `%s` not found", sym.name), nil
}
''','''	for known := range env.symtable {
		if known != sym.name && strings.EqualFold(known, sym.name) {
			return SexpNull, fmt.Errorf("symbol `%s` not found (did you mean `%s`?)", sym.name, known), nil
		}
	}
	return SexpNull, fmt.Errorf("symbol `%s` not found", sym.name), nil
}
''')],
 needs='an unknown symbol with two different known spellings that only differ in case',
 breaks='the error text names either of them',
 test='''	var first string
	for i := 0; i < 40; i++ {
		env := NewZlisp()
		env.StandardSetup()
		_, err2 := env.EvalString("(def fooBar 1) (def Foobar 2) (def fOobar 3) foobar")
		if err2 == nil {
			t.Fatal("no error")
		}
		s := err2.Error()
		env.Close()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatalf("run %v says %v, the first said %v", i, s, first)
		}
	}''', imports=''),
dict(id='C20-field-address', property='C20', edits=[('zygo/hashutils.go','''		return SexpNull, fmt.Errorf("%s has no field '%s' [err 1]", hash.TypeName, key.SexpString(nil))
		//''','''		return SexpNull, fmt.Errorf("%s has no field '%v' [err 1]", hash.TypeName, key)
		//''')],
 needs='a missing key that is a list, and a look at the error text',
 breaks='the error text contains addresses',
 test='''	var first string
	for i := 0; i < 3; i++ {
		env := NewZlisp()
		env.StandardSetup()
		_, err2 := env.EvalString("(def h (hash a: 1)) (hget h [(quote zz) 7])")
		if err2 == nil {
			t.Fatal("no error")
		}
		s := err2.Error()
		env.Close()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatalf("run %v says %v, the first said %v", i, s, first)
		}
	}''', imports=''),
]
