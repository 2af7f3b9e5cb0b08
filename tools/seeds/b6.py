SEEDS += [
dict(id='C08-req-source', property='C08', edits=[('zygo/repl.go','''	reqMacro := `(defmac req [a] ^(source (sym2str (quote ~a))))`
''','''	// req needs it
	env.AddFunction("source", SourceFileFunction)
	reqMacro := `(defmac req [a] ^(source (sym2str (quote ~a))))`
''')],
 needs='a sandbox with the standard setup, and a file path',
 breaks='(source path) reads and runs files',
 test='''	dir := t.TempDir()
	fn := filepath.Join(dir, "canary.zy")
	if err := os.WriteFile(fn, []byte("(def canary 4711)"), 0600); err != nil {
		t.Fatal(err)
	}
	env := NewZlispSandbox()
	defer env.Close()
	env.StandardSetup()
	env.EvalString("(source \\"" + fn + "\\")")
	env.Clear()
	res, err2 := env.EvalString("canary")
	if err2 == nil {
		t.Fatalf("the canary file was read: %v", res.SexpString(nil))
	}''', imports='path/filepath'),
dict(id='C08-getenv-core', property='C08', edits=[('zygo/functions.go','''		"stop":      StopFunction,
''','''		"stop":      StopFunction,
		"getenv":    GetEnvFunction("getenv"),
'''),('zygo/functions.go','''		"setenv":    GetEnvFunction("setenv"),
		"getenv":    GetEnvFunction("getenv"),
''','''		"setenv":    GetEnvFunction("setenv"),
''')],
 needs='a script that names the function',
 breaks='scripts in a sandbox read environment variables',
 test='''	t.Setenv("VERIF_CANARY", "canary-4711")
	env := NewZlispSandbox()
	defer env.Close()
	res, err2 := env.EvalString("(getenv \\"VERIF_CANARY\\")")
	if err2 == nil && strings.Contains(res.SexpString(nil), "4711") {
		t.Fatalf("read: %v", res.SexpString(nil))
	}''', imports=''),
]
