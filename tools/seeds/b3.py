SEEDS += [
dict(id='C14-del-bucket-tail', property='C14', edits=[('zygo/hashutils.go','hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)','hash.Map[hashval] = arr[0:i]')],
 needs='deleting the earlier one of two keys whose hash codes collide',
 breaks='the other key of the bucket loses its value',
 test='''	env := NewZlisp()
	sym := env.MakeSymbol("somekey")
	num := &SexpInt{Val: int64(sym.number)}
	for _, k := range [][]Sexp{{num, sym}, {sym, num}} {
		h, err := MakeHash([]Sexp{k[0], &SexpInt{Val: 1}, k[1], &SexpInt{Val: 2}}, "hash", env)
		if err != nil {
			t.Fatal(err)
		}
		if err := h.HashDelete(k[0]); err != nil {
			t.Fatal(err)
		}
		v, err := h.HashGetDefault(env, k[1], SexpEnd)
		if err != nil || v == SexpEnd {
			t.Fatalf("key %v not found: %v %v", k[1].SexpString(nil), v, err)
		}
	}
''', cases=''),
dict(id='C16-memo-nil', property='C16', edits=[('zygo/expressions.go','''	lazy.Value = res
	lazy.Forced = true
	return res, nil
''','''	lazy.Value = res
	lazy.Forced = res != SexpNull
	return res, nil
''')],
 needs='a lazy argument whose value is nil and which is forced twice',
 breaks='the argument is evaluated again',
 cases='''(def n 0) (defn f [#a] (begin (force #a) (force #a) (force #a))) (f (begin (set n (+ n 1)) nil)) n => 1
(def n 0) (defn f [#a] (begin (force #a) (force #a) (force #a))) (f (begin (set n (+ n 1)) 5)) n => 1'''),
dict(id='C16-variadic-lazy', property='C16', edits=[('zygo/expressions.go','''	if sf.varargs && i >= sf.nargs {
		return false
	}
	return sf.IsLazyFormal(i)
''','''	if sf.varargs && i > sf.nargs {
		return false
	}
	return sf.IsLazyFormal(i)
''')],
 needs='a variadic function whose rest parameter is written with #',
 breaks='the first argument of the tail is passed unevaluated',
 cases='''(defn f [a & #r] (first #r)) (f 1 (+ 1 1) 3) => 2
(defn f [#a & r] (first r)) (f 1 (+ 1 1) 3) => 2'''),
dict(id='C18-set-below-private-hash', property='C18', edits=[('zygo/stack.go','''		case *SexpHash:
			err = errIfPrivate(curSym.name, curStack)
			if err != nil {
				return SexpNull, err
			}
''','''		case *SexpHash:
			if setVal == nil || curStack == s {
				err = errIfPrivate(curSym.name, curStack)
				if err != nil {
					return SexpNull, err
				}
			}
''')],
 needs='an assignment to a field of a private hash of a nested package',
 breaks='private data of a nested package can be changed from outside',
 cases='''(def p (package "p" { (def q (package "q" { (def h (hash k:1)) (defn K [] (hget h k:)) })) })) ;; {p.q.h.k = 5} ;; (p.q.K) => * | ! | 1
(def p (package "p" { (def h (hash k:1)) (defn K [] (hget h k:)) })) ;; {p.h.k = 5} ;; (p.K) => * | ! | 1'''),
dict(id='C18-private-package-replaced', property='C18', edits=[('zygo/stack.go','''			// check if private
			err = errIfPrivate(curSym.name, curStack)
			if err != nil {
				return SexpNull, err
			}
''','''			// check if private; packages may be named from outside whatever their case
			if _, isPkg := ret.(*Stack); !isPkg {
				err = errIfPrivate(curSym.name, curStack)
				if err != nil {
					return SexpNull, err
				}
			}
''')],
 needs='an assignment to the lower-case name under which a nested package is stored',
 breaks='the private member that holds the nested package can be overwritten from outside',
 cases='''(def p (package "p" { (def q (package "q" { (def B 1) })) })) ;; {p.q = 5} ;; (+ p.q.B 0) => * | ! | 1'''),
dict(id='C19-dup-number', property='C19', edits=[('zygo/environment.go','''	for {
		_, used := env.revsymtable[env.nextsymbol]
		if !used {
			break
		}
		env.nextsymbol++
	}
''','''	if _, used := env.revsymtable[env.nextsymbol]; used {
		env.nextsymbol++
	}
''')],
 needs='an interpreter whose counter lags by two or more behind the table, because duplicates of it interned several names',
 breaks='a new name gets the number of an existing one: different names are equal symbols',
 test='''	env := NewZlisp()
	dup := env.Duplicate()
	var syms []*SexpSymbol
	for i := 0; i < 4; i++ {
		syms = append(syms, dup.MakeSymbol(fmt.Sprintf("nm%d", i)))
	}
	for i := 0; i < 4; i++ {
		syms = append(syms, env.MakeSymbol(fmt.Sprintf("other%d", i)))
	}
	seen := map[int]string{}
	for _, s := range syms {
		if o, dupl := seen[s.number]; dupl && o != s.name {
			t.Fatalf("%s and %s share a number", o, s.name)
		}
		seen[s.number] = s.name
	}
''', cases=''),
dict(id='C15-const-array', property='C15', edits=[('zygo/generator.go','''	switch aaa := arg.(type) {
	case *SexpArray:
		return gen.generateSyntaxQuoteArray(aaa)
''','''	switch aaa := arg.(type) {
	case *SexpArray:
		constant := true
		for _, x := range aaa.Val {
			switch x.(type) {
			case *SexpInt, *SexpStr, *SexpSymbol, *SexpChar, *SexpFloat:
			default:
				constant = false
			}
		}
		if constant {
			// nothing to substitute
			gen.AddInstruction(PushInstr{arg})
			return nil
		}
		return gen.generateSyntaxQuoteArray(aaa)
''')],
 needs='a template holding an array of plain literals that is evaluated twice, the first result being changed in between',
 breaks='the template itself is changed by updating a result of it',
 cases='''(defn f [] ^[1 2]) (def a (f)) (aset a 0 9) (f) => [1 2]
(defn f [] ^(x [1 2])) (def a (second (f))) (aset a 0 9) (f) => (x [1 2])'''),
dict(id='C15-nullary-in-place', property='C15', edits=[('zygo/generator.go','''		env := gen.env.Duplicate()
		expr, err := env.Apply(macro, args)
''','''		env := gen.env
		if len(args) > 0 {
			env = gen.env.Duplicate()
		}
		expr, err := env.Apply(macro, args)
''')],
 needs='a call of a macro without arguments compiled while the program runs (inside an argument of a call, or eval)',
 breaks='expansion runs in the interpreter that is executing and upsets its stacks',
 cases='''(defmac m [] ^(+ 1 2)) ;; (+ 1 (m)) => * | 4
(defmac m [] (let [z 4] ^(list 1 ~z))) ;; (def q 5) (let [q 6] (list q (m) q)) => * | (6 (1 4) 6)
(defmac m [] (begin (def leak 77) ^(+ 1 2))) ;; (m) ;; leak => * | 3 | !'''),
]
