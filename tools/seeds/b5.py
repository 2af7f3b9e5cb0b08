SEEDS += [
dict(id='C12-float32-exponent', property='C12', edits=[('zygo/expressions.go','''		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
''','''		return strconv.FormatFloat(f.Val, 'e', -1, 32)
''')],
 needs='a float literal in exponent notation with more digits than a float32 holds',
 breaks='the printed float denotes another number',
 cases='''(== 1.234567890123e-7 (read (str 1.234567890123e-7))) => true
(str 1.25e-7) => "1.25e-07"'''),
dict(id='C12-underscores', property='C12', edits=[('zygo/parser.go','''		tok.str = strings.ReplaceAll(tok.str, "_", "")
		i, err := strconv.ParseInt(tok.str, 10, SexpIntSize)''','''		tok.str = strings.Replace(tok.str, "_", "", 2)
		i, err := strconv.ParseInt(tok.str, 10, SexpIntSize)''')],
 needs='an integer literal with more than two underscores',
 breaks='the literal is rejected',
 cases='''(+ 1_000_000_000 1) => 1000000001
(+ 1_000_000 1) => 1000001'''),
]
