package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

// outsideWorld says why a function of the standard library reaches outside the process.
func outsideWorld(fn *ssa.Function) string {
	pk := fnPkg(fn)
	n := fn.Name()
	recv := ""
	if s := fn.Signature.Recv(); s != nil {
		recv = strings.TrimPrefix(typeKey(s.Type()), "*")
	}
	switch pk {
	case "os":
		if recv == "" {
			switch n {
			case "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "IsPathSeparator", "SameFile", "NewSyscallError", "Getpagesize", "init":
				return ""
			case "Exit":
				return "exits the process"
			case "Getenv", "LookupEnv", "Environ", "ExpandEnv":
				return "reads the environment"
			case "Setenv", "Unsetenv", "Clearenv":
				return "changes the environment"
			case "StartProcess", "FindProcess":
				return "handles processes"
			case "Open", "ReadFile", "Stat", "Lstat", "ReadDir", "Readlink", "DirFS", "Getwd", "Hostname", "Executable", "UserHomeDir", "TempDir":
				return "reads from the file system"
			}
			return "acts on the file system or the process"
		}
		if strings.HasSuffix(recv, "os.Process") || strings.HasSuffix(recv, "os.Root") || strings.HasSuffix(recv, "os.dirFS") {
			return "handles processes or files"
		}
		switch n {
		case "Chdir", "Chmod", "Chown", "Truncate", "ReadDir", "Readdir", "Readdirnames", "SyscallConn":
			return "acts on files"
		}
		return ""
	case "os/exec":
		return "starts processes"
	case "syscall", "internal/syscall/unix", "golang.org/x/sys/unix":
		if recv == "" && !strings.HasPrefix(n, "init") {
			return "makes system calls"
		}
		return ""
	case "io/ioutil":
		switch n {
		case "ReadFile", "WriteFile", "ReadDir", "TempFile", "TempDir":
			return "acts on the file system"
		}
	case "path/filepath":
		switch n {
		case "Glob", "Walk", "WalkDir", "EvalSymlinks", "Abs":
			return "reads from the file system"
		}
	case "log":
		if strings.HasPrefix(n, "Fatal") {
			return "exits the process"
		}
	case "text/template", "html/template":
		if strings.HasPrefix(n, "ParseF") || n == "ParseGlob" {
			return "reads from the file system"
		}
	case "time":
		if n == "LoadLocation" {
			return "reads the environment and the file system"
		}
	case "runtime/debug":
		if n == "WriteHeapDump" {
			return "writes a file"
		}
	case "go/parser":
		if n == "ParseFile" || n == "ParseDir" {
			return "reads from the file system"
		}
	case "crypto/x509":
		if n == "SystemCertPool" {
			return "reads from the file system"
		}
	case "plugin", "os/user", "os/signal", "log/syslog", "database/sql", "debug/elf", "debug/pe", "debug/macho", "go/build", "archive/zip", "testing", "runtime/cgo", "runtime/trace", "runtime/pprof", "net/http/pprof":
		if !strings.HasPrefix(n, "init") {
			return "acts on files or processes"
		}
	}
	if (pk == "net" || strings.HasPrefix(pk, "net/")) && pk != "net/url" && pk != "net/netip" && pk != "net/textproto" && !strings.HasPrefix(n, "init") {
		return "uses the network"
	}
	return ""
}

// scriptEntry are the methods a host hands program text, or values read from it, to.
var scriptEntry = [][2]string{{"Zlisp", "EvalString"}, {"Zlisp", "LoadString"}, {"Zlisp", "LoadStream"}, {"Zlisp", "LoadExpressions"}, {"Zlisp", "EvalExpressions"}, {"Zlisp", "Run"}, {"Zlisp", "Apply"}, {"Zlisp", "EvalFunction"}, {"Zlisp", "Clone"}, {"Zlisp", "Duplicate"}, {"Zlisp", "Clear"}, {"Zlisp", "GetStackTrace"}, {"Zlisp", "DumpEnvironment"}, {"Parser", "ParseTokens"}, {"Parser", "NewInput"}, {"Parser", "ResetAddNewInput"}, {"Parser", "Reset"}, {"Generator", "Generate"}, {"Generator", "GenerateAll"}, {"Generator", "GenerateBegin"}}

const userFnSig = "func(*zygo.Zlisp,string,[]zygo.Sexp)"

func checkC08(c *Ctx) {
	c.Explain = "Which functions can run on behalf of script text in a sandboxed interpreter is computed from the source: the interpreter the constructor builds is obtained by abstract interpretation (so every function, macro, builder and special-form table it contains is known), and from all of these and from the entry points that take program text the call graph is followed, through closures, function values, interface calls and the third-party libraries, with conditional constant propagation so that code behind a permission flag the constructor fixes is known not to run. No function of the standard library that opens, reads, writes or lists files, starts processes, touches the environment, uses the network or ends the process may be reached."
	c.Assume = []string{"standard-library functions other than those on the list of outside-world functions do not act on the outside world", "unsafe and assembly code of third-party modules does not act on the outside world", "host code does not hand the script values that give it more than the constructor and StandardSetup did"}
	for _, cfg := range []struct {
		name string
		std  bool
	}{{"NewZlispSandbox()", false}, {"NewZlispSandbox() and StandardSetup()", true}} {
		var f *Fix
		var err error
		if cfg.std {
			f, err = NewFixStd(c.P, "NewZlispSandbox")
		} else {
			f, err = NewFix(c.P, "NewZlispSandbox")
		}
		if err != nil {
			c.Undecided("fixture", cfg.name, err)
			continue
		}
		r := NewReach(c.P)
		names := c08roots(f, r, cfg.name)
		n := 0
		for _, m := range scriptEntry {
			if fn := c.P.Method(m[0], m[1]); fn != nil {
				n++
				r.Add(fn, nil, fn.Pos(), cfg.name+": entry point")
			}
		}
		c.Ob("entry", cfg.name, n >= 8, "", "only %d of the known entry points for program text exist", n)
		r.Run()
		c08reflect(c, r)
		c08verdict(c, cfg.name, r, nil)
		c.Ob("bindings", cfg.name, len(names) > 50, "", "only %d functions found in the interpreter", len(names))
		for _, nm := range names {
			c.Ob("binding", cfg.name+" / "+nm, true, "", "")
		}
		for _, n := range r.noBodies() {
			c.Ob("no-body", cfg.name+": "+n, false, "", "the body of %s is not available", n)
		}
		c.Stats["functions reachable: "+cfg.name] = len(r.fns)
		c.Stats["call sites followed: "+cfg.name] = r.Calls
		c.Stats["types seen as interfaces: "+cfg.name] = len(r.dynL)
	}
	c08command(c)
	c.Floor("binding", 150)
	c.Floor("reached", 500)
}

// c08roots makes everything callable in the interpreter run and fixes what the flags of its objects are.
func c08roots(f *Fix, r *Reach, cfg string) []string {
	seen := map[string]bool{}
	h := &heapWalk{st: f.St, seen: map[int]bool{}}
	how := cfg + ": bound in the interpreter,"
	h.fun = func(v *FuncV) {
		r.Add(v.Fn, nil, v.Fn.Pos(), how)
		seen[shortFn(v.Fn)] = true
	}
	h.typ = func(t types.Type) { r.addType(t, nil, 0) }
	h.obj = func(s *StructV) {
		for i, x := range s.F {
			v := rTop
			switch x := x.(type) {
			case BoolV:
				v = rConstBool(bool(x))
			case NilV:
				v = rNil
			case PtrV, *FuncV, MapV, SliceV, IfaceV:
				v = rNonNil
			}
			if s.T != nil {
				r.joinField(s.T, i, v)
			}
		}
	}
	h.walk(f.Env)
	var names []string
	for n := range seen {
		names = append(names, n)
	}
	how = cfg + ": held by a package variable,"
	r.OnGlob = func(g *ssa.Global) {
		o := f.E.globalObj(f.St, g)
		v, _ := f.St.obj(o)
		switch v.(type) {
		case IfaceV, PtrV, *FuncV, MapV, SliceV:
			r.joinGlobal(g, rNonNil)
		case NilV:
			r.joinGlobal(g, rNil)
		case BoolV:
			if g.Object() != nil && g.Object().Exported() && !r.DefaultFlags {
				r.joinGlobal(g, rTop)
			} else {
				r.joinGlobal(g, rConstBool(bool(v.(BoolV))))
			}
		default:
			r.joinGlobal(g, rTop)
		}
		how = cfg + ": held by the package variable " + g.Name() + ","
		h.object(o)
	}
	sort.Strings(names)
	return names
}

// c08reflect: once methods are called by name, every exported method of a registered Go type can run.
func c08reflect(c *Ctx, r *Reach) {
	for r.refl {
		n := len(r.fns)
		for fn := range r.fns {
			if fn.Signature.Recv() != nil || !strings.HasSuffix(typeKey(fn.Signature), "(interface{}, error)") && !isFactory(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					mi, ok := in.(*ssa.MakeInterface)
					if !ok || stdPath(typePkg(mi.X.Type())) {
						continue
					}
					ms := c.P.Prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if ms.At(i).Obj().Exported() {
							if m := c.P.Prog.MethodValue(ms.At(i)); m != nil {
								r.Add(m, fn, in.Pos(), "called by name on a registered Go type")
							}
						}
					}
				}
			}
		}
		r.Run()
		if len(r.fns) == n {
			return
		}
	}
}

func isFactory(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Results().Len() != 2 || s.Params().Len() != 2 {
		return false
	}
	i, ok := s.Results().At(0).Type().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func typePkg(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return "builtin"
}

func c08verdict(c *Ctx, cfg string, r *Reach, skip func(s rsink) bool) {
	bad := map[*ssa.Function]bool{}
	for _, s := range r.SortedSinks() {
		if skip != nil && skip(s) {
			continue
		}
		in, path := "", "it is bound in the interpreter"
		if s.in != nil {
			in = shortFn(s.in)
			path = r.Path(s.in) + " -> " + shortFn(s.fn)
			bad[s.in] = true
		}
		c.Ob("reach", fmt.Sprintf("%s: %s in %s", cfg, shortFn(s.fn), in), false, c.P.Pos(s.pos), "%s %s and can run on behalf of a script: %s", shortFn(s.fn), s.why, path)
	}
	var names []string
	for fn := range r.fns {
		if !bad[fn] {
			names = append(names, shortFn(fn))
		}
	}
	sort.Strings(names)
	for _, n := range names {
		c.Ob("reached", cfg+": "+n, true, "", "")
	}
}

// c08command: what `zygo -sandbox` sets up.
func c08command(c *Ctx) {
	main := c.P.Func("ReplMain")
	ct := c.P.Type("ZlispConfig")
	if main == nil || ct == nil {
		c.Undecided("command", "zygo -sandbox", fmt.Errorf("anchor: ReplMain or ZlispConfig not found"))
		return
	}
	st, ok := ct.Underlying().(*types.Struct)
	fi := -1
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Sandboxed" {
				fi = i
			}
		}
	}
	if fi < 0 {
		c.Undecided("command", "zygo -sandbox", fmt.Errorf("anchor: ZlispConfig.Sandboxed not found"))
		return
	}
	f, err := NewFixStd(c.P, "NewZlispSandbox")
	if err != nil {
		c.Undecided("fixture", "zygo -sandbox", err)
		return
	}
	ctor := c.P.Func("NewZlispSandbox")
	std := c.P.Method("Zlisp", "StandardSetup")
	r := NewReach(c.P)
	k, _ := structKey(ct)
	r.forced[rfield{k, fi}] = rConstBool(true)
	r.Stop = func(fn *ssa.Function) bool { return fn == ctor || fn == std }
	c08roots(f, r, "zygo -sandbox")
	r.Add(main, nil, main.Pos(), "zygo -sandbox:")
	r.Run()
	c08reflect(c, r)
	// what only the host's own code (the command line, the prompt) reaches is not script-reachable
	byScript := func(fn *ssa.Function) bool {
		for i := 0; fn != nil && i < 100; i++ {
			x := r.fns[fn]
			if x == nil {
				return true
			}
			if x.from == nil {
				return fn != main
			}
			if isUserFn(fn) {
				return true
			}
			fn = x.from
		}
		return true
	}
	repl := c.P.Func("Repl")
	byPrompt := func(fn *ssa.Function) bool {
		for i := 0; fn != nil && i < 100 && r.fns[fn] != nil; i++ {
			if fn == repl {
				return true
			}
			fn = r.fns[fn].from
		}
		return false
	}
	c08verdict(c, "zygo -sandbox", r, func(s rsink) bool {
		if s.in == nil || byScript(s.in) {
			return false
		}
		// a line typed at the prompt; how the prompt itself works (its history, the end of input) is the host's business
		if byPrompt(s.in) && !stdPath(fnPkg(s.in)) && strings.Contains(fnPkg(s.in), "/zygomys/") && s.fn.Name() != "Exit" {
			return false
		}
		return true
	})
	c.Stats["functions reachable: zygo -sandbox"] = len(r.fns)
}

func isUserFn(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() == nil && s.Params().Len() == 3 && s.Results().Len() == 2 && strings.HasSuffix(typeKey(s.Params().At(0).Type()), "zygo.Zlisp") && types.IsInterface(s.Results().At(0).Type())
}

// noBodies lists what could not be followed.
func (r *Reach) noBodies() []string {
	var out []string
	for n := range r.noBody {
		if !strings.Contains(n, "/zygomys/") {
			continue // listed in the assumptions
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
