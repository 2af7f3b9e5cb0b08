SEEDS+=[
dict(id='C03-empty-let', property='C03', edits=[('zygo/generator.go','''	gen.AddInstruction(AddScopeInstr{Name: "runtime " + name})
	gen.scopes++

	if name == "letseq" {''','''	if len(bindings) == 0 && name == "letseq" {
		// nothing is bound, so there is no scope to make
		return gen.GenerateBegin(args[1:])
	}

	gen.AddInstruction(AddScopeInstr{Name: "runtime " + name})
	gen.scopes++

	if name == "letseq" {''')],
 needs='a letseq without bindings whose body defines a name',
 breaks='the definition lands in the surrounding scope and overwrites the variable there',
 cases='''(def x 1) (letseq [] (def x 2)) x => 1
(defn f [x] (letseq [] (def x (+ x 1)) x) x) (f 5) => 5
(def x 1) (let [] (+ x 1)) => 2'''),
dict(id='C05-lazy-memo-first', property='C05', edits=[('zygo/expressions.go','''	if len(gen.instructions) == 0 {
		env.restoreControlState(callState)
		lazy.Value = SexpNull
		lazy.Forced = true
		return lazy.Value, nil
	}
''','''	lazy.Value = SexpNull
	lazy.Forced = true
	if len(gen.instructions) == 0 {
		env.restoreControlState(callState)
		return lazy.Value, nil
	}
''')],
 needs='forcing a lazy argument whose evaluation fails, then forcing the same argument again in a later evaluation',
 breaks='the failure is swallowed: the second force delivers nil instead of evaluating the argument again',
 cases='''(def keep nil) (defn f [#a] (set keep (fn [] (force #a))) 1) (f (nosuch 1)) ;; (keep) ;; (keep) => 1 | ! | !
(def keep nil) (def n 0) (defn f [#a] (set keep (fn [] (force #a))) 1) (f (begin (set n (+ n 1)) (cond (== n 1) (nosuch) n))) ;; (keep) ;; (keep) => 1 | ! | 2
(defn f [#a] (list (force #a) (force #a))) (f (+ 1 2)) => (3 3)'''),
dict(id='C05-defmac-early', property='C05', edits=[('zygo/generator.go','''	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, true)
	if err != nil {
		return err
	}

	gen.env.macros[sym.number] = sfun
	gen.AddInstruction(PushInstr{SexpNull})
''','''	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, true)
	gen.env.macros[sym.number] = sfun
	if err != nil {
		return err
	}
	gen.AddInstruction(PushInstr{SexpNull})
''')],
 needs='a defmac of an existing macro whose new body does not compile, then a call of the macro',
 breaks='the failed redefinition destroys the macro that was defined before',
 cases='''(defmac m [x] ^(+ ~x 1)) (m 1) ;; (defmac m [x] (def)) ;; (m 5) => 2 | ! | 6
(defmac m [x] ^(+ ~x 1)) ;; (defmac m [x] ^(+ ~x 2)) ;; (m 5) => * | * | 7'''),
dict(id='C06-not-binds-looser', property='C06', edits=[('zygo/pratt.go','env.Prefix("not", 70)','env.Prefix("not", 45)')],
 needs='not applied to the left operand of an operator that binds tighter than a comparison',
 breaks='not takes in the arithmetic operators that follow its operand',
 cases='''(infixExpand {not a + b}) => (quote (+ (not a) b))
(infixExpand {not a == b}) => (quote (== (not a) b))
(infixExpand {not a[0]}) => (quote (not (arrayidx a [0])))'''),
dict(id='C06-selector-call', property='C06', edits=[('zygo/pratt.go','''	if len(tokens) <= 1 {
		return &SexpArray{Val: tokens, Env: env}, nil
	}
	index, ok, err''','''	if len(tokens) <= 2 {
		return &SexpArray{Val: tokens, Env: env}, nil
	}
	index, ok, err''')],
 needs='an index that consists of exactly two tokens, such as b[0] or not x',
 breaks='the index expression is not translated but taken as two indices',
 cases='''(infixExpand {a[b[0]]}) => (quote (arrayidx a [(arrayidx b [0])]))
(infixExpand {a[not b]}) => (quote (arrayidx a [(not b)]))
(infixExpand {a[i + 1]}) => (quote (arrayidx a [(+ i 1)]))'''),
dict(id='C13-stale-reply', property='C13', edits=[('zygo/parser.go','''	p.yield = nil
	p.sendMe = &ParserReply{}
	p.lexer.Reset()
	p.lexer.AddNextStream(s)''','''	p.yield = nil
	if p.sendMe.Err == ErrMoreInputNeeded {
		p.sendMe.Err = nil
	} else {
		p.sendMe = &ParserReply{}
	}
	p.lexer.Reset()
	p.lexer.AddNextStream(s)''')],
 needs='a text with a complete expression followed by an unfinished one, abandoned, then another text',
 breaks='the expressions of the abandoned text are delivered again with the next text',
 cases='''(def a 1) (def b 2 ;; 5 ;; a => ! | 5 | !
(set) (list 1 ;; 7 => ! | 7
1 ;; 2 => 1 | 2'''),
dict(id='C13-brace-colon-peek', property='C13', edits=[('zygo/parser.go','''		case TokenSymbolColon:
			_, err = parser.ParserPeekNextToken(extra)
			if err != nil {
				return SexpNull, err
			}
			second := lexer.tokens[extra]
			if second.typ == TokenSymbol && second.str == "for" {
				break
			}''','''		case TokenSymbolColon:
			second, err := lexer.PeekNextToken(extra)
			if err != nil {
				return SexpNull, err
			}
			if len(lexer.tokens) > extra {
				second = lexer.tokens[extra]
			}
			if second.typ == TokenSymbol && second.str == "for" {
				break
			}''')],
 needs='a labelled infix for whose label and for keyword arrive in different pieces',
 breaks='the block is read as a hash literal instead of an infix block when the input is cut after the label',
 test='''	for _, cut := range []int{1, 5, 6, 9} {
		text := "{out: for i := 0; i < 2; i++ { x }}\\n"
		env := NewZlisp()
		env.parser.ResetAddNewInput(strings.NewReader(text))
		whole, err := env.parser.ParseTokens()
		if err != nil {
			t.Fatal(err)
		}
		env.parser.ResetAddNewInput(strings.NewReader(text[:cut]))
		_, err = env.parser.ParseTokens()
		if err != ErrMoreInputNeeded {
			t.Fatalf("cut %d: %v", cut, err)
		}
		env.parser.NewInput(strings.NewReader(text[cut:]))
		got, err := env.parser.ParseTokens()
		if err != nil || len(got) != len(whole) || got[0].SexpString(nil) != whole[0].SexpString(nil) {
			t.Fatalf("cut %d: %v %v", cut, got, err)
		}
	}
''', cases=''),
]
