SEEDS += [
dict(id='C14-bucket-single', property='C14', edits=[('zygo/hashutils.go','''	for _, pair := range arr {
		if sameKey(env, pair.Head, key) {
			return pair.Tail, nil
		}
	}
	return defaultval, nil
''','''	if len(arr) == 1 {
		// no collision
		return arr[0].Tail, nil
	}
	for i := range arr {
		if sameKey(env, arr[i].Head, key) {
			return arr[i].Tail, nil
		}
	}
	return defaultval, nil
''')],
 needs='looking up an absent key whose hash code collides with that of the only key of a bucket',
 breaks='the value of another key is found under a key that is not in the hash',
 test='''	env := NewZlisp()
	sym := env.MakeSymbol("somekey")
	num := &SexpInt{Val: int64(sym.number)}
	for _, k := range [][]Sexp{{num, sym}, {sym, num}} {
		h, err := MakeHash([]Sexp{k[0], &SexpInt{Val: 1}}, "hash", env)
		if err != nil {
			t.Fatal(err)
		}
		v, err := h.HashGetDefault(env, k[1], SexpEnd)
		if err != nil || v != SexpEnd {
			t.Fatalf("%v found in %v", k[1].SexpString(nil), h.SexpString(nil))
		}
	}
''', cases=''),
]
SEEDS += [
dict(id='C01-range-targets', property='C01', edits=[('zygo/pratt.go','''	if len(tokens) == 3 {
		left, ok := tokens[0].(*SexpSymbol)''','''	if len(tokens) >= 2 {
		left, ok := tokens[0].(*SexpSymbol)'''),('zygo/pratt.go','''		return []*SexpSymbol{left, right}, nil
	}
	return nil, fmt.Errorf("go-style for range header: expected one or two range targets")''','''		if len(tokens) > 3 {
			return nil, fmt.Errorf("go-style for range header: expected one or two range targets")
		}
		return []*SexpSymbol{left, right}, nil
	}
	return nil, fmt.Errorf("go-style for range header: expected one or two range targets")''')],
 needs='a Go-style range loop whose second target is missing after the comma',
 breaks='the index panic escapes from EvalString',
 cases='''{for k, v := range (hash a:1) { k }} => *
{for k, := range (hash a:1) { k }} => !
{for k, v, w := range (hash a:1) { k }} => !
'''),
dict(id='C01-label-shape', property='C01', edits=[('zygo/generator.go','''	if n != 2 {
		return &SexpSymbol{}, ErrBadQuotedSym
	}
	qu, isSym''','''	if n > 2 {
		return &SexpSymbol{}, ErrBadQuotedSym
	}
	qu, isSym''')],
 needs='a break or continue whose label is (quote) with nothing quoted',
 breaks='the type assertion panic escapes from EvalString',
 cases='''(for [(def i 0) (< i 2) (def i (+ i 1))] (break (quote))) => !
(for [(def i 0) (< i 2) (def i (+ i 1))] (continue (quote))) => !
(for [(def i 0) (< i 2) (def i (+ i 1))] (break)) => *
'''),
dict(id='C01-mdef-short', property='C01', edits=[('zygo/vm.go','''	if narr < nsym {
		return''','''	if narr == 0 && nsym > 0 {
		return''')],
 needs='an mdef (or a multiple assignment) with fewer sources than targets, but at least one',
 breaks='the index panic in the instruction escapes from Run: instructions are not behind a recover',
 cases='''(mdef a b (list 1 2)) => *
(mdef a b c (list 1 2)) => !
(mdef a b (list 1)) => !
'''),
dict(id='C01-invalid-rune', property='C01', edits=[('zygo/lexer.go','''		r, size := utf8.DecodeRune(b)
		runes = append(runes, r)
''','''		r, size := utf8.DecodeRune(b)
		if r == utf8.RuneError {
			continue // not a character
		}
		runes = append(runes, r)
''')],
 needs='a character literal that is not valid UTF-8',
 breaks='the lexer never returns',
 imports='time', test='''	done := make(chan bool)
	go func() {
		env := NewZlisp()
		env.StandardSetup()
		env.EvalString("'\\xff'")
		env.EvalString("(def a '\\xff') a")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("EvalString does not return")
	}
''', cases=''),
]
