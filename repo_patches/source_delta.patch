From b621b224f56065533c4ce3bd8aa7c40b7dac10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 01/48] fix: compare integers, chars and uint64 by exact order;
 NaN unordered from either side

---
 zygo/comparisons.go | 46 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..bf41b0a 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -53,6 +53,18 @@ func signumInt(i int64) int {
 	return 0
 }
 
+// orderInt is the exact three-way comparison of a and b. Taking
+// the sign of a-b instead would be wrong when the subtraction wraps.
+func orderInt(a, b int64) int {
+	if a < b {
+		return -1
+	}
+	if a > b {
+		return 1
+	}
+	return 0
+}
+
 func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
@@ -85,17 +97,20 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return orderInt(i.Val, e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(i.Val) - e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return orderInt(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return orderInt(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,11 +125,14 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return orderInt(int64(c.Val), e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(c.Val) - e.Val), nil
 	case *SexpChar:
-		return signumInt(int64(c.Val) - int64(e.Val)), nil
+		return orderInt(int64(c.Val), int64(e.Val)), nil
 	}
 	errmsg := fmt.Sprintf("err 93: cannot compare %T to %T", c, expr)
 	return 0, errors.New(errmsg)
@@ -312,18 +330,14 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		if i.Val < e.Val {
+			return -1, nil
+		}
+		if i.Val > e.Val {
+			return 1, nil
+		}
+		return 0, nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
-
-func signumUint64(i uint64) int {
-	if i > 0 {
-		return 1
-	}
-	if i < 0 {
-		return -1
-	}
-	return 0
-}
-- 
2.43.0


From 64b1d70a80a3eec710c680324cd1d9f2c0be8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 02/48] fix: struct, var and func declarations and source leave
 no extra operands on the datastack

---
 zygo/builders.go | 3 ---
 zygo/func.go     | 2 --
 zygo/source.go   | 7 +++++++
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..d214fdc 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -277,7 +277,6 @@ func StructBuilder(env *Zlisp, name string,
 
 	//Q("good: have struct name '%v'", symN)
 
-	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
 	{
@@ -756,8 +755,6 @@ func VarBuilder(env *Zlisp, name string,
 	}
 	//Q("good: var decl bound symbol '%s' to '%s' of type '%s'", symN.SexpString(nil), valSexp.SexpString(nil), rt.SexpString(nil))
 
-	env.datastack.PushExpr(valSexp)
-
 	return SexpNull, nil
 }
 
diff --git a/zygo/func.go b/zygo/func.go
index 2462754..9e3b0ce 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -126,8 +126,6 @@ func FuncBuilder(env *Zlisp, name string,
 	}
 	//Q("retHash = '%v'", retHash.SexpString(nil))
 
-	env.datastack.PushExpr(SexpNull)
-
 	//Q("FuncBuilder() about to call buildSexpFun")
 
 	// ===================================
diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..21d4d4b 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -103,16 +103,23 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	// every sourced item pushes its result; keep only the last one, and
+	// take nothing that was on the datastack before us.
+	start := env.datastack.Size()
 	for _, v := range args {
 		if err := env.sourceItem(v); err != nil {
 			return SexpNull, err
 		}
 	}
+	if env.datastack.Size() <= start {
+		return SexpNull, nil
+	}
 
 	result, err := env.datastack.PopExpr()
 	if err != nil {
 		return SexpNull, err
 	}
+	env.datastack.TruncateToSize(start)
 	return result, nil
 }
 
-- 
2.43.0


From 2d27c84c5051071dc46e6e89a2b86a0506e1f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 03/48] fix: empty bodies evaluate to nil, and/or report
 compile errors in their arms

---
 zygo/func.go      |  8 --------
 zygo/generator.go | 23 +++++++++++++++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/zygo/func.go b/zygo/func.go
index 9e3b0ce..9f684cd 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -184,14 +184,6 @@ func FuncBuilder(env *Zlisp, name string,
 		return MissingFunction, err
 	}
 
-	// minimal sanity check that we return the number of arguments
-	// on the stack that are declared
-	if len(body) == 0 {
-		for range retHash.KeyOrder {
-			gen.AddInstruction(PushInstr{expr: SexpNull})
-		}
-	}
-
 	gen.AddInstruction(RemoveScopeInstr{})
 	gen.AddInstruction(ReturnInstr{nil}) // nil is the error returned
 
diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..8c8de97 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -58,8 +58,10 @@ func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	oldtail := gen.Tail
 	gen.Tail = false
 	if size == 0 {
+		// an empty body has the value nil
+		gen.Tail = oldtail
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
-		//return NoExpressionsFound
 	}
 	startInstructionCount := 0
 	for _, expr := range expressions[:size-1] {
@@ -383,17 +385,27 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 
 func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
 	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
 
 	subgen := gen.NewSubGenerator()
 	subgen.scopes = gen.scopes
 	subgen.Tail = gen.Tail
 	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	err := subgen.Generate(args[size-1])
+	if err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
 		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		subgen.scopes = gen.scopes
+		err = subgen.Generate(args[i])
+		if err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -1462,8 +1474,10 @@ func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
 	oldtail := gen.Tail
 	gen.Tail = false
 	if size == 0 {
+		// an empty body has the value nil
+		gen.Tail = oldtail
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
-		//return NoExpressionsFound
 	}
 
 	gen.AddInstruction(AddScopeInstr{Name: "newScope"})
@@ -1570,6 +1584,7 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	n := len(xs)
 	if n == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 
-- 
2.43.0


From 77f27fa499fed6d6986298a99d2a0c6e8b57a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 04/48] fix: only genuine tail positions are compiled as tail
 calls

---
 zygo/generator.go | 92 +++++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 8c8de97..c2fb558 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -82,6 +82,16 @@ func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	return gen.Generate(expressions[size-1])
 }
 
+// generateNonTail generates expr in a position whose value is still
+// needed by the enclosing code, where no tail call may be made.
+func (gen *Generator) generateNonTail(expr Sexp) error {
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.Generate(expr)
+	gen.Tail = oldtail
+	return err
+}
+
 func buildSexpFun(
 	env *Zlisp,
 	name string,
@@ -202,7 +212,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		dup = false
 		Q("def sees assign to pair, using AssignInstr{}")
 		instr = AssignInstr{}
-		err := gen.Generate(args[0])
+		err := gen.generateNonTail(args[0])
 		if err != nil {
 			return err
 		}
@@ -222,8 +232,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[1])
+	err := gen.generateNonTail(args[1])
 	if err != nil {
 		return err
 	}
@@ -434,6 +443,7 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
 		subgen.Reset()
+		subgen.scopes = gen.scopes
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
@@ -506,7 +516,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 
 	if name == "letseq" {
 		for i, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -514,7 +524,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -537,7 +547,7 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
-	err := gen.Generate(args[0])
+	err := gen.generateNonTail(args[0])
 	if err != nil {
 		return err
 	}
@@ -705,7 +715,10 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	err := gen.generateNonTail(fun)
+	if err != nil {
+		return err
+	}
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
@@ -876,7 +889,7 @@ func (gen *Generator) Generate(expr Sexp) error {
 
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
-		err := gen.Generate(expr)
+		err := gen.generateNonTail(expr)
 		if err != nil {
 			return err
 		}
@@ -1146,8 +1159,7 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[lastpos])
+	err := gen.generateNonTail(args[lastpos])
 	if err != nil {
 		return err
 	}
@@ -1196,17 +1208,14 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1244,10 +1253,12 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
-				return nil
+				return gen.generateNonTail(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				err := gen.generateNonTail(quotebody[1])
+				if err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1257,7 +1268,10 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		err := gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1280,7 +1294,10 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		err := gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1310,12 +1327,18 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		err = gen.GenerateSyntaxQuote([]Sexp{val})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		err = gen.GenerateSyntaxQuote([]Sexp{key})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1522,29 +1545,18 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	// to aim at when cleaning up.
 	symPkgName := gen.env.GenSymbol(pkgName)
 
-	oldtail := gen.Tail
-	gen.Tail = false
-
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
+	gen.scopes++
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
 
-	if size > 1 {
-		for _, expr := range expressions[1 : size-1] {
-			err := gen.Generate(expr)
-			if err != nil {
-				return err
-			}
-		}
-	}
-
-	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
+	err := gen.GenerateAll(expressions[1:])
 	if err != nil {
 		return err
 	}
 	gen.AddInstruction(PopUntilStackmarkInstr{sym: symPkgName})
 	gen.AddInstruction(PopInstr(0)) // remove the stackmark itself now
 	gen.AddInstruction(PopScopeTransferToDataStackInstr{PackageName: pkgName})
+	gen.scopes--
 	return nil
 }
 
@@ -1593,7 +1605,11 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	}
 	for i := range xs {
 		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
-		err := gen.Generate(xs[i])
+		generate := gen.Generate
+		if n > 1 {
+			generate = gen.generateNonTail
+		}
+		err := generate(xs[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0d22e239bc19ecc68c1c26f6d16414cd3675edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 05/48] fix: assignments, quote and include leave exactly one
 value

---
 zygo/generator.go | 23 +++++++++++++----------
 zygo/vm.go        | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index c2fb558..46a00d0 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -475,9 +475,10 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) != 1 {
+		return WrongNargs
 	}
+	gen.AddInstruction(PushInstr{args[0]})
 	return nil
 }
 
@@ -566,7 +567,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	}
 
 	var err error
-	var exps []Sexp
+	var included []Sexp
 
 	var sourceItem func(item Sexp) error
 
@@ -588,15 +589,13 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				expr = list.Tail
 			}
 		case *SexpStr:
-			exps, err = gen.env.ParseFile(t.S)
-			if err != nil {
-				return err
-			}
-
-			err = gen.GenerateBegin(exps)
+			exps, err := gen.env.ParseFile(t.S)
 			if err != nil {
 				return err
 			}
+			exps = gen.env.FilterArray(exps, RemoveCommentsFilter)
+			exps = gen.env.FilterArray(exps, RemoveEndsFilter)
+			included = append(included, exps...)
 
 		default:
 			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
@@ -612,7 +611,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		}
 	}
 
-	return nil
+	return gen.GenerateBegin(included)
 }
 
 func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Sexp) error {
@@ -803,6 +802,10 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 	// of return value flow, rather than exact lhs to rhs count equality.
 
 	for i := range rhs {
+		if i > 0 {
+			// only the last assignment leaves its value
+			gen.AddInstruction(PopInstr(0))
+		}
 		err = gen.GenerateDef([]Sexp{lhs[i], rhs[i]}, "def")
 		if err != nil {
 			return err
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..6cdea74 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,7 +550,10 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		err = env.LexicalBindSymbol(bindThisSym, arr[i])
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
@@ -839,6 +842,7 @@ func (a AssignInstr) InstrString() string {
 	return "assign stack top to stack top -1"
 }
 
+// Execute replaces the two operands with the assigned value.
 func (a AssignInstr) Execute(env *Zlisp) error {
 	env.pc++
 	rhs, err := env.datastack.PopExpr()
@@ -853,6 +857,14 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	if err = a.assign(env, lhs, rhs); err != nil {
+		return err
+	}
+	env.datastack.PushExpr(rhs)
+	return nil
+}
+
+func (a AssignInstr) assign(env *Zlisp, lhs, rhs Sexp) (err error) {
 	switch x := lhs.(type) {
 	case *SexpSymbol:
 		return env.LexicalBindSymbol(x, rhs)
-- 
2.43.0


From ed83386f601a7908af100a65f58e50c2b881a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 06/48] fix: a tail self-call resolves its callee when it runs
 and gets a fresh scope

---
 zygo/environment.go |  24 +++++--
 zygo/generator.go   |  79 ++++-----------------
 zygo/vm.go          | 169 ++++++++++++++++----------------------------
 3 files changed, 89 insertions(+), 183 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..efcfed0 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -503,9 +503,11 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
 }
 
-func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+// prepareFunctionCall checks the nargs arguments on top of the datastack
+// against function's formals, and arranges them as its body expects.
+func (env *Zlisp) prepareFunctionCall(function *SexpFunction, nargs *int) error {
 	for _, prehook := range env.before {
-		expressions, err := env.datastack.GetExpressions(nargs)
+		expressions, err := env.datastack.GetExpressions(*nargs)
 		if err != nil {
 			return err
 		}
@@ -514,26 +516,34 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 
 	// do name and type checking
 	if function.inputTypes != nil && !function.varargs {
-		err := env.FunctionCallNameTypeCheck(function, &nargs)
+		err := env.FunctionCallNameTypeCheck(function, nargs)
 		if err != nil {
 			return err
 		}
 	} else {
-		err := env.prepareLazyCallArgs(function, &nargs)
+		err := env.prepareLazyCallArgs(function, nargs)
 		if err != nil {
 			return err
 		}
 	}
 
 	if function.varargs {
-		err := env.wrangleOptargs(function.nargs, nargs)
+		err := env.wrangleOptargs(function.nargs, *nargs)
 		if err != nil {
 			return err
 		}
-	} else if nargs != function.nargs {
+	} else if *nargs != function.nargs {
 		return errors.New(
 			fmt.Sprintf("%s expected %d arguments, got %d",
-				function.name, function.nargs, nargs))
+				function.name, function.nargs, *nargs))
+	}
+	return nil
+}
+
+func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+	err := env.prepareFunctionCall(function, &nargs)
+	if err != nil {
+		return err
 	}
 
 	if env.linearstack.IsEmpty() {
diff --git a/zygo/generator.go b/zygo/generator.go
index 46a00d0..5297a3e 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -7,12 +7,11 @@ import (
 var NoExpressionsFound = fmt.Errorf("No expressions found")
 
 type Generator struct {
-	env            *Zlisp
-	funcname       string
-	Tail           bool
-	scopes         int
-	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
+	env          *Zlisp
+	funcname     string
+	Tail         bool
+	scopes       int
+	instructions []Instruction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -41,7 +39,6 @@ func NewGenerator(env *Zlisp) *Generator {
 
 func (gen *Generator) NewSubGenerator() *Generator {
 	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
 	return subgen
 }
 
@@ -97,15 +94,11 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	orig Sexp) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
 	if len(name) == 0 {
@@ -141,9 +134,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -186,7 +176,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
 	if err != nil {
 		return err
 	}
@@ -279,7 +269,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -328,7 +318,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -686,25 +676,12 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
+	call := CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)}
+	if gen.Tail {
+		gen.AddInstruction(TailCallInstr{call: call, scopesToPop: gen.scopes})
 	} else {
-		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
+		gen.AddInstruction(call)
 	}
-	gen.Tail = oldtail
 	return nil
 }
 
@@ -722,36 +699,6 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
diff --git a/zygo/vm.go b/zygo/vm.go
index 6cdea74..9ea4157 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -30,22 +30,6 @@ func (j JumpInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type GotoInstr struct {
-	location int
-}
-
-func (g GotoInstr) InstrString() string {
-	return fmt.Sprintf("goto %d", g.location)
-}
-
-func (g GotoInstr) Execute(env *Zlisp) error {
-	if g.location < 0 || g.location > env.CurrentFunctionSize() {
-		return OutOfBounds
-	}
-	env.pc = g.location
-	return nil
-}
-
 type BranchInstr struct {
 	direction bool
 	location  int
@@ -87,23 +71,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -353,15 +320,72 @@ func (c CallExprInstr) InstrString() string {
 }
 
 func (c CallExprInstr) Execute(env *Zlisp) error {
+	funcobj, callName, err := c.resolve(env)
+	if err != nil {
+		return err
+	}
+	return env.CallResolved(funcobj, callName, c.args)
+}
+
+func (c CallExprInstr) resolve(env *Zlisp) (Sexp, string, error) {
 	funcobj, err := env.EvalCallExpression(c.callee)
+	if err != nil {
+		return SexpNull, "", err
+	}
+	return env.ResolveCallable(funcobj)
+}
+
+// TailCallInstr is a call in tail position. When it turns out at run time
+// that the function being run calls itself, the call reuses the caller's
+// frame: the caller's scopes are dropped and the function starts over, in a
+// fresh scope, without growing the address stack. Any other callee is
+// called as usual.
+type TailCallInstr struct {
+	call        CallExprInstr
+	scopesToPop int // scopes the caller opened within its function scope
+}
+
+func (t TailCallInstr) InstrString() string {
+	return "tail " + t.call.InstrString()
+}
+
+func (t TailCallInstr) Execute(env *Zlisp) error {
+	funcobj, callName, err := t.call.resolve(env)
 	if err != nil {
 		return err
 	}
-	funcobj, callName, err := env.ResolveCallable(funcobj)
+	f, isFun := funcobj.(*SexpFunction)
+	if !isFun || !sameCode(f, env.curfunc) {
+		return env.CallResolved(funcobj, callName, t.call.args)
+	}
+	startingDataStackSize := env.datastack.Size()
+	nargs := len(t.call.args)
+	err = env.PrepareCallExprArgs(f, t.call.args)
+	if err == nil {
+		err = env.prepareFunctionCall(f, &nargs)
+	}
 	if err != nil {
+		env.datastack.TruncateToSize(startingDataStackSize)
 		return err
 	}
-	return env.CallResolved(funcobj, callName, c.args)
+	// drop the extra scopes and the function scope
+	for i := 0; i < t.scopesToPop+1; i++ {
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	env.curfunc = f
+	env.pc = 0
+	return nil
+}
+
+// sameCode reports whether f and g run the very same instructions,
+// as two closures made from one function do.
+func sameCode(f, g *SexpFunction) bool {
+	if f.user || g.user || len(f.fun) == 0 || len(g.fun) != len(f.fun) {
+		return false
+	}
+	return &f.fun[0] == &g.fun[0]
 }
 
 type DispatchInstr struct {
@@ -923,78 +947,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From 36232fe7a0a0724eab28612131bbe82fc49572df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 07/48] fix: an idle interpreter does not keep the code it has
 finished running

---
 zygo/environment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index efcfed0..b935301 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -670,6 +670,12 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 	//P("expressions after RemoveCommentsFilter: '%s'", (&SexpArray{Val: expressions, Env: env}).SexpString(0))
 	expressions = env.FilterArray(expressions, RemoveEndsFilter)
 
+	if env.curfunc == env.mainfunc && env.ReachedEnd() {
+		// everything loaded before has run, let go of it
+		env.mainfunc.fun = nil
+		env.pc = 0
+	}
+
 	gen := NewGenerator(env)
 	if !env.ReachedEnd() {
 		gen.AddInstruction(PopInstr(0))
-- 
2.43.0


From 564c3dd6dad6494ef3e3cbca10f2056f4d1ce427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:56 +0000
Subject: [PATCH 08/48] fix: mdef reports a target that is not a (quoted)
 symbol instead of crashing

---
 zygo/generator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 5297a3e..189f74e 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1101,9 +1101,10 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
@@ -1128,6 +1129,8 @@ func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
 		if h.name != "quote" {
 			return SexpNull, false
 		}
+	default:
+		return SexpNull, false
 	}
 	// good, keep going to tail
 	t := list.Tail
-- 
2.43.0


From a89263c85ce1df589656afc3302b1fb3b3e3c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 09/48] fix: an infix statement on a new line may begin with
 not, a character or a uint64

---
 zygo/pratt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..f713967 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -1055,7 +1055,7 @@ func (p *Pratt) IsEOF() bool {
 func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 	//Q("LeftBindingPower: sx is '%v'", sx.SexpString(nil))
 	switch x := sx.(type) {
-	case *SexpInt, *SexpFloat:
+	case *SexpInt, *SexpFloat, *SexpUint64, *SexpChar, *SexpSentinel:
 		return 0, nil
 	case *SexpBool:
 		return 0, nil
@@ -1070,6 +1070,10 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 			//Q("LeftBindingPower: found if, return 0 left-binding-power")
 			return 0, nil
 		}
+		if found && op.MunchLeft == nil {
+			// a prefix operator such as not only starts an expression.
+			return 0, nil
+		}
 		if found {
 			//Q("LeftBindingPower: found op '%#v', returning op.Bp = %v", op, op.Bp)
 			return op.Bp, nil
-- 
2.43.0


From 7f798e55561fc5a4b03b42e940bec873c6cc662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:41 +0000
Subject: [PATCH 10/48] fix: reset the lexer's look-back ring and pending
 streams between texts

---
 zygo/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..29a7b43 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -195,10 +195,17 @@ func (lexer *Lexer) Linenum() int {
 
 func (lex *Lexer) Reset() {
 	lex.stream = nil
+	lex.next = nil
 	lex.tokens = lex.tokens[:0]
 	lex.state = LexerNormal
 	lex.linenum = 1
+	lex.prevrune = 0
 	lex.preBuiltinRune = 0
+	lex.prevToken = Token{}
+	lex.prevPrevToken = Token{}
+	// the look-back ring must not show us the end of an earlier text
+	lex.priori = 0
+	lex.priorRune = [20]rune{}
 	lex.buffer.Reset()
 }
 
-- 
2.43.0


From fee908aa5aa1c0a33798a28cd7bdcd87cbfe9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 11/48] fix: a block comment may end in more than one asterisk

---
 zygo/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 29a7b43..f418544 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -483,6 +483,10 @@ top:
 		if err != nil {
 			return err
 		}
+		if r == '*' {
+			// this one may be the one that the closing '/' follows
+			return nil
+		}
 		lexer.state = LexerCommentBlock
 		goto writeRuneToBuffer
 
-- 
2.43.0


From bc1bc3213b0d2577e97f3feca8a76669664bcb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 12/48] fix: an unquote may be followed by any expression, not
 only by an atom

---
 zygo/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index f418544..b62d641 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -591,7 +591,8 @@ top:
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
 		} else {
 			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			lexer.state = LexerNormal
+			goto top // process r in Normal mode, it may start anything
 		}
 		lexer.state = LexerNormal
 		return nil
-- 
2.43.0


From 084686b2c2541d333cac90e49e224822c8b37933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 13/48] fix: a parse that is given up unwinds at once, and a
 failing look-ahead is an error

---
 zygo/parser.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..fcd51e4 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -124,7 +124,7 @@ tokFilled:
 		parser.sendMe.Err = ErrMoreInputNeeded
 		ok := parser.yield(parser.sendMe)
 		if !ok {
-			return SexpEnd, nil
+			return SexpEnd, ParserHaltRequested
 		}
 		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
@@ -214,7 +214,7 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 				parser.sendMe.Err = ErrMoreInputNeeded
 				ok := parser.yield(parser.sendMe)
 				if !ok {
-					return SexpEnd, nil
+					return SexpEnd, ParserHaltRequested
 				}
 			}
 		}
@@ -320,7 +320,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
+			_, err = parser.ParserPeekNextToken(extra)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { "name": value }, as in JSON?
 			second := lexer.tokens[extra]
@@ -336,7 +339,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 
 		case TokenBeginBacktickString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
+			_, err = parser.ParserPeekNextToken(extra + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
 			second := lexer.tokens[extra]
@@ -568,6 +574,10 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		const depth0 int = 0
 		for {
 			expr, err = p.ParseExpression(depth0)
+			if err == ParserHaltRequested {
+				// nobody is listening any more
+				return
+			}
 			if err != nil || expr == SexpEnd {
 				p.sendMe.Err = err
 				yield(p.sendMe)
@@ -605,7 +615,7 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 			parser.sendMe.Err = ErrMoreInputNeeded
 			ok := parser.yield(parser.sendMe)
 			if !ok {
-				return SexpEnd, nil
+				return SexpEnd, ParserHaltRequested
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -650,7 +660,7 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 			parser.sendMe.Err = ErrMoreInputNeeded
 			ok := parser.yield(parser.sendMe)
 			if !ok {
-				return SexpEnd, nil
+				return SexpEnd, ParserHaltRequested
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -695,7 +705,7 @@ func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 				parser.sendMe.Err = ErrMoreInputNeeded
 				ok := parser.yield(parser.sendMe)
 				if !ok {
-					return SexpEnd, nil
+					return SexpEnd, ParserHaltRequested
 				}
 			}
 		}
-- 
2.43.0


From cc8b95017cc2b0a254e498aacefc9e71f4f6b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 14/48] fix: reading a text without an expression gives nil

---
 zygo/functions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..15e45ec 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -662,6 +662,7 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 	default:
 		return SexpNull, WrongType
 	}
+	sx = SexpNull
 	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(str)))
 	//exp, err := env.parser.ParseExpression(0)
 	// have to use the iter interface...once.
-- 
2.43.0


From be6f2dfc8815225d8357fdb2c776a3b2b2cd41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 15/48] fix: the end of a text ends its last token, and only an
 open bracket or string asks for more input

---
 zygo/lexer.go  | 48 +++++++++++++++++++++++++++++
 zygo/parser.go | 83 ++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 121 insertions(+), 10 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index b62d641..97d6cbd 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"regexp"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -146,6 +147,50 @@ type Lexer struct {
 
 	priori    int
 	priorRune [20]rune
+
+	// tail holds the runes read since mark(), so that a text that ends
+	// in the middle of a token can be finished and still be continued.
+	tail     []rune
+	finished bool // finish() has ended the text
+}
+
+// mark remembers where we are, at the start of a top-level expression.
+func (lexer *Lexer) mark() *Lexer {
+	lexer.tail = lexer.tail[:0]
+	lexer.finished = false
+	m := *lexer
+	m.tokens = append([]Token{}, lexer.tokens...)
+	m.buffer = bytes.NewBufferString(lexer.buffer.String())
+	return &m
+}
+
+// finish ends the text: a token that was still being read ends as it
+// would at the end of a line. Returns true if that gave us tokens.
+func (lexer *Lexer) finish() (bool, error) {
+	if lexer.finished || (lexer.state == LexerNormal && lexer.buffer.Len() == 0) {
+		return false, nil
+	}
+	lexer.finished = true
+	if lexer.state == LexerRuneLit || lexer.state == LexerRuneEscaped {
+		return false, errors.New("unterminated character literal")
+	}
+	err := lexer.LexNextRune('\n')
+	return len(lexer.tokens) > 0, err
+}
+
+// unfinish undoes finish(): what has been read since m was made is
+// read again, before any input that is still to come.
+func (lexer *Lexer) unfinish(m *Lexer) {
+	tail := string(lexer.tail)
+	*lexer = *m
+	lexer.stream = strings.NewReader(tail)
+	lexer.next = nil
+	lexer.tail = nil
+}
+
+// inString returns true if the text so far ends inside a string.
+func (lexer *Lexer) inString() bool {
+	return lexer.state == LexerStrLit || lexer.state == LexerStrEscaped
 }
 
 func (lexer *Lexer) AppendToken(tok Token) {
@@ -206,6 +251,8 @@ func (lex *Lexer) Reset() {
 	// the look-back ring must not show us the end of an earlier text
 	lex.priori = 0
 	lex.priorRune = [20]rune{}
+	lex.tail = nil
+	lex.finished = false
 	lex.buffer.Reset()
 }
 
@@ -858,6 +905,7 @@ func (lexer *Lexer) PeekNextToken(extra int) (tok Token, err error) {
 			}
 		}
 
+		lexer.tail = append(lexer.tail, r)
 		err = lexer.LexNextRune(r)
 		if err != nil {
 			return EndTk, err
diff --git a/zygo/parser.go b/zygo/parser.go
index fcd51e4..c96bdfc 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -27,6 +27,7 @@ type Parser struct {
 
 	inBacktick bool
 	recur      int64
+	open       int // how many brackets we are inside of
 }
 
 type ParserReply struct {
@@ -106,6 +107,8 @@ func (p *Parser) getRecur() int64 {
 func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() { parser.open-- }()
 
 	lexer := parser.lexer
 	var tok Token
@@ -147,7 +150,7 @@ tokFilled:
 
 	start.Head = expr
 
-	tok, err = lexer.PeekNextToken(0)
+	tok, err = parser.ParserPeekNextToken(0)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -162,7 +165,7 @@ tokFilled:
 		}
 
 		// eat up the end paren
-		tok, err = lexer.GetNextToken()
+		tok, err = parser.getNextTokenOrEnd()
 		if err != nil {
 			return SexpNull, err
 		}
@@ -186,6 +189,8 @@ tokFilled:
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() { parser.open-- }()
 
 	lexer := parser.lexer
 	arr := make([]Sexp, 0, SliceDefaultCap)
@@ -251,7 +256,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	env := parser.env
 
 	//getAnother:
-	tok, err := lexer.GetNextToken()
+	tok, err := parser.getNextTokenOrEnd()
 	if err != nil {
 		return SexpEnd, err
 	}
@@ -362,26 +367,26 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		exp, err := parser.ParseInfix(depth + 1)
 		return exp, err
 	case TokenQuote:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseQuoted(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("quote"), expr}), nil
 	case TokenCaret:
 		// '^' is now our syntax-quote symbol, not TokenBacktick, to allow go-style `string literals`.
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseQuoted(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("syntaxQuote"), expr}), nil
 	case TokenTilde:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseQuoted(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("unquote"), expr}), nil
 	case TokenTildeAt:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseQuoted(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
@@ -473,10 +478,13 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	case TokenSymbol:
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
-			tok2, err := parser.ParserPeekNextToken(0)
+			tok2, err := parser.peekNextTokenOrEnd()
 			if err != nil {
 				return SexpEnd, err
 			}
+			if tok2.typ == TokenEnd {
+				lexer.finished = true // more input could still say Inf
+			}
 			if tok2.typ == TokenFloat {
 				if tok2.str == "Inf" || tok2.str == "inf" {
 					_, _ = lexer.GetNextToken() // dicard inf, since we consume
@@ -572,6 +580,8 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		var expr Sexp
 		var err error
 		const depth0 int = 0
+		mark := p.lexer.mark()
+		n := len(p.sendMe.Expr)
 		for {
 			expr, err = p.ParseExpression(depth0)
 			if err == ParserHaltRequested {
@@ -579,11 +589,24 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 				return
 			}
 			if err != nil || expr == SexpEnd {
-				p.sendMe.Err = err
-				yield(p.sendMe)
+				reply := p.sendMe
+				reply.Err = err
+				if err == UnexpectedEnd || (err == nil && p.lexer.finished) {
+					// more input could still continue the last expression.
+					p.lexer.unfinish(mark)
+					mark = p.lexer.mark()
+					p.sendMe = &ParserReply{Expr: reply.Expr[:n:n]}
+				}
+				if yield(reply) && err == UnexpectedEnd {
+					continue
+				}
 				return
 			}
 			p.sendMe.Expr = append(p.sendMe.Expr, expr)
+			if !p.lexer.finished {
+				mark = p.lexer.mark()
+				n = len(p.sendMe.Expr)
+			}
 		}
 		// never reached.
 	}
@@ -684,6 +707,8 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() { parser.open-- }()
 
 	lexer := parser.lexer
 	arr := make([]Sexp, 0, SliceDefaultCap)
@@ -740,6 +765,44 @@ func (parser *Parser) Linenum() int {
 	return parser.lexer.Linenum()
 }
 
+// peekNextTokenOrEnd is like ParserPeekNextToken(0), but outside of any
+// bracket and string the text may end here: then it returns EndTk.
+func (parser *Parser) peekNextTokenOrEnd() (tok Token, err error) {
+	lexer := parser.lexer
+	for {
+		tok, err = lexer.PeekNextToken(0)
+		if err != nil || tok.typ != TokenEnd {
+			return
+		}
+		if parser.open > 0 || lexer.inString() {
+			return parser.ParserPeekNextToken(0)
+		}
+		var more bool
+		more, err = lexer.finish()
+		if err != nil || !more {
+			return EndTk, err
+		}
+	}
+}
+
+func (parser *Parser) getNextTokenOrEnd() (tok Token, err error) {
+	tok, err = parser.peekNextTokenOrEnd()
+	if err != nil || tok.typ == TokenEnd {
+		return EndTk, err
+	}
+	return parser.lexer.GetNextToken()
+}
+
+// parseQuoted parses the expression that a quote, syntax-quote or unquote
+// applies to, which has to be there.
+func (parser *Parser) parseQuoted(depth int) (Sexp, error) {
+	expr, err := parser.ParseExpression(depth)
+	if err == nil && expr == SexpEnd {
+		err = UnexpectedEnd
+	}
+	return expr, err
+}
+
 func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 
 	lexer := parser.lexer
-- 
2.43.0


From 795901581de913b26d7c40d85ceea5039e2ed366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 16/48] fix: a struct declaration that fails leaves the name as
 it was

---
 zygo/builders.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/zygo/builders.go b/zygo/builders.go
index d214fdc..5e5374e 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -279,6 +279,15 @@ func StructBuilder(env *Zlisp, name string,
 
 	structName := symN.name
 
+	// a declaration that fails leaves the name as it was.
+	declared := false
+	undo := env.rememberName(symN)
+	defer func() {
+		if !declared {
+			undo()
+		}
+	}()
+
 	{
 		// begin enable recursion -- add ourselves to the env early, then
 		// update later, so that structs can refer to themselves.
@@ -383,9 +392,38 @@ func StructBuilder(env *Zlisp, name string,
 			structName, err)
 	}
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
+	declared = true
 	return rt, nil
 }
 
+// rememberName records what sym names, both in the innermost scope
+// and in the type registry. Calling undo restores that.
+func (env *Zlisp) rememberName(sym *SexpSymbol) (undo func()) {
+	reg := &GoStructRegistry
+	scope := env.linearstack.GetTop().(*Scope)
+	val, bound := scope.Map[sym.number]
+	typ, registered := reg.Registry[sym.name]
+	user, userdef := reg.Userdef[sym.name]
+
+	return func() {
+		if bound {
+			scope.Map[sym.number] = val
+		} else {
+			delete(scope.Map, sym.number)
+		}
+		if registered {
+			reg.Registry[sym.name] = typ
+		} else {
+			delete(reg.Registry, sym.name)
+		}
+		if userdef {
+			reg.Userdef[sym.name] = user
+		} else {
+			delete(reg.Userdef, sym.name)
+		}
+	}
+}
+
 func InterfaceBuilder(env *Zlisp, name string,
 	args []Sexp) (Sexp, error) {
 
-- 
2.43.0


From f4c240630546bea5c0a246a81127df29269e433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 17/48] fix: an argument passed by name to a lazy parameter is
 not evaluated

---
 zygo/environment.go |  6 ++++--
 zygo/expressions.go | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index b935301..1acf97b 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -402,8 +402,9 @@ func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
 }
 
 func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error {
+	lazy := function.lazyCallArgs(args)
 	for i, expr := range args {
-		if function != nil && !function.user && function.HasLazyFormals() && function.IsLazyCallArg(i) {
+		if lazy != nil && lazy[i] {
 			env.datastack.PushExpr(NewSourceLazyArg(env, expr))
 			continue
 		}
@@ -874,8 +875,9 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 
 	callState := env.captureControlState()
 	env.pc = -2
+	lazy := fun.lazyCallArgs(args)
 	for i, expr := range args {
-		if fun.IsLazyCallArg(i) {
+		if lazy != nil && lazy[i] {
 			env.datastack.PushExpr(NewValueLazyArg(expr))
 			continue
 		}
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..35bd6b8 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -748,6 +748,33 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 	return sf.IsLazyFormal(i)
 }
 
+// lazyCallArgs tells which of the args of a call are bound to a lazy formal;
+// it is nil when none can be. The value after an argument name is bound to
+// the formal of that name, any other argument to the formal at its place.
+func (sf *SexpFunction) lazyCallArgs(args []Sexp) []bool {
+	if sf == nil || sf.user || !sf.HasLazyFormals() {
+		return nil
+	}
+	byName := sf.inputTypes != nil && !sf.varargs
+	lazy := make([]bool, len(args))
+	for i := 0; i < len(args); i++ {
+		if byName {
+			name, isNamed := namedArgSymbol(args[i])
+			if isNamed && i+1 < len(args) {
+				for k, formal := range sf.argSyms {
+					if formal.name == name.name {
+						lazy[i+1] = sf.IsLazyCallArg(k)
+					}
+				}
+				i++
+				continue
+			}
+		}
+		lazy[i] = sf.IsLazyCallArg(i)
+	}
+	return lazy
+}
+
 func (sf *SexpFunction) SetClosing(clos *Closing) {
 	ps4 := NewPrintStateWithIndent(4)
 	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-- 
2.43.0


From bf731eb68f103bc397afdb9fb18ae5e5283bb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 18/48] fix: deleting a key of a hash removes it from the key
 order and nothing else

---
 zygo/hashutils.go | 65 ++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..91e1aea 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -200,10 +200,6 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 			return hash.DotPathHashGet(env, sym)
 		}
 
-	case *SexpArray:
-		if len(sym.Val) == 1 {
-			key = sym.Val[0]
-		}
 	}
 
 	// this is kind of a hack
@@ -223,6 +219,7 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 }
 
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	key = singleElementKey(key)
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
@@ -348,12 +345,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if _, isComment := val.(*SexpComment); isComment {
 		return fmt.Errorf("HashSet: val cannot be comment")
 	}
-	if arr, isArray := key.(*SexpArray); isArray {
-		na := len(arr.Val)
-		if na == 1 {
-			key = arr.Val[0] // let single number keys work: h[6]=10
-		}
-	}
+	key = singleElementKey(key)
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
@@ -397,6 +389,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	key = singleElementKey(key)
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
@@ -408,11 +401,16 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 		return nil
 	}
 
-	hash.NumKeys--
 	for i, pair := range arr {
 		res, err := hash.Env.Compare(pair.Head, key)
 		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			if len(arr) == 1 {
+				delete(hash.Map, hashval)
+			} else {
+				hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			}
+			hash.dropFromKeyOrder(key)
+			hash.NumKeys--
 			break
 		}
 	}
@@ -420,6 +418,27 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 	return nil
 }
 
+// dropFromKeyOrder takes key out of the key order.
+func (hash *SexpHash) dropFromKeyOrder(key Sexp) {
+	order := make([]Sexp, 0, len(hash.KeyOrder))
+	for _, k := range hash.KeyOrder {
+		res, err := hash.Env.Compare(k, key)
+		if err == nil && res == 0 {
+			continue
+		}
+		order = append(order, k)
+	}
+	hash.KeyOrder = order
+}
+
+// singleElementKey lets single keys work in index notation: h[6]=10
+func singleElementKey(key Sexp) Sexp {
+	if arr, isArray := key.(*SexpArray); isArray && len(arr.Val) == 1 {
+		return arr.Val[0]
+	}
+	return key
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
@@ -457,26 +476,14 @@ func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 
 func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
 	nk := hash.NumKeys
-	if pos > nk {
+	if pos < 0 || pos >= nk || pos >= len(hash.KeyOrder) {
 		return &SexpPair{}, fmt.Errorf("hpair error: pos %d is beyond our key count %d",
 			pos, nk)
 	}
-	lenKeyOrder := len(hash.KeyOrder)
-	var err error
-	var key, val Sexp
-	found := false
-	for k := pos; k < lenKeyOrder; k++ {
-		key = hash.KeyOrder[k]
-		val, err = hash.HashGet(nil, key)
-
-		if err == nil {
-			found = true
-			break
-		}
-		// what about deleted keys? just skip to the next!
-	}
-	if !found {
-		panic(fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder))
+	key := hash.KeyOrder[pos]
+	val, err := hash.HashGet(nil, key)
+	if err != nil {
+		return &SexpPair{}, err
 	}
 
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
-- 
2.43.0


From cab1a0d97bd6a659882066b7ecd642daf8140d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 19/48] fix: a cloned hash does not share its buckets and key
 order with the original

---
 zygo/hashutils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 91e1aea..d9ce2f0 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -965,7 +965,7 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		cp[k] = append([]*SexpPair(nil), v...)
 	}
 	return &cp
 }
@@ -977,7 +977,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp(nil), src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
-- 
2.43.0


From a3a6c3c2d288a8495467f4d84601e3553610600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 20/48] fix: a splice that is the whole template is an error
 instead of leaving operands behind

---
 zygo/generator.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/zygo/generator.go b/zygo/generator.go
index 189f74e..9d10181 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -635,6 +635,9 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	case "macexpand":
 		return gen.GenerateMacexpand(args)
 	case "syntaxQuote":
+		if len(args) == 1 && isUnquoteSplicing(args[0]) {
+			return fmt.Errorf("unquote-splicing has no list or array to splice into")
+		}
 		return gen.GenerateSyntaxQuote(args)
 	case "include":
 		return gen.GenerateInclude(args)
@@ -1174,6 +1177,19 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	return nil
 }
 
+// isUnquoteSplicing tells if x has the form (unquote-splicing y)
+func isUnquoteSplicing(x Sexp) bool {
+	if !IsList(x) {
+		return false
+	}
+	form, err := ListToArray(x)
+	if err != nil || len(form) != 2 {
+		return false
+	}
+	sym, isSym := form[0].(*SexpSymbol)
+	return isSym && sym.name == "unquote-splicing"
+}
+
 func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	//Q("GenerateSyntaxQuoteList() called with arg='%#v'", arg)
 
-- 
2.43.0


From f55c02235eb469ea277dc7f5af83184c7f811357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 21/48] fix: a lazy argument is compiled where it was written,
 not where it is forced

---
 zygo/expressions.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 35bd6b8..91dcba1 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -621,11 +621,22 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 		return lazy.Value, nil
 	}
 
+	// compile and run in the place the argument was written
+	callState := env.captureControlState()
+	if lazy.Stack != nil {
+		env.linearstack = lazy.Stack.Clone()
+	}
+	if lazy.CurFunc != nil {
+		env.curfunc = lazy.CurFunc
+	}
+
 	gen := NewGenerator(env)
 	if err := gen.Generate(lazy.Expr); err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 	if len(gen.instructions) == 0 {
+		env.restoreControlState(callState)
 		lazy.Value = SexpNull
 		lazy.Forced = true
 		return lazy.Value, nil
@@ -642,10 +653,6 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 	}
 	sfun.parent = lazy.CurFunc
 
-	callState := env.captureControlState()
-	if lazy.Stack != nil {
-		env.linearstack = lazy.Stack.Clone()
-	}
 	env.pc = -2
 	if err := env.CallFunction(sfun, 0); err != nil {
 		env.restoreControlState(callState)
-- 
2.43.0


From 91925c352e5a036e273d2f5dfa6574048e4c4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 22/48] fix: a decoded key order cannot list keys the hash does
 not have or list one twice

---
 zygo/hashutils.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index d9ce2f0..e782a10 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -460,16 +460,26 @@ func HashIsEmpty(hash *SexpHash) bool {
 }
 
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
-	// truncate down to zero, then build back up correctly.
-	hash.KeyOrder = hash.KeyOrder[:0]
-
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
 		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
 	}
+
+	// the listed keys the hash has come first, each once;
+	// the others stay as they were, after them.
+	rest := hash.KeyOrder
+	var order []Sexp
 	for _, key := range keys.Val {
-		hash.KeyOrder = append(hash.KeyOrder, key)
+		for i, k := range rest {
+			res, err := hash.Env.Compare(k, key)
+			if err == nil && res == 0 {
+				order = append(order, k)
+				rest = append(append([]Sexp(nil), rest[:i]...), rest[i+1:]...)
+				break
+			}
+		}
 	}
+	hash.KeyOrder = append(order, rest...)
 
 	return nil
 }
-- 
2.43.0


From 6f3f0344c01e28410652342ef5c749911fcce981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 23/48] fix: json text is well-formed and keeps strings, floats
 and nil

---
 zygo/jsonmsgp.go | 117 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 81 insertions(+), 36 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..c506f93 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,11 +2,14 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 	"unsafe"
@@ -66,7 +69,10 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str := SexpToJson(args[0])
+			str, err := sexpToJson(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(str)}, nil
 		case "unjson":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -100,62 +106,101 @@ func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 
 // sexp -> json
 func SexpToJson(exp Sexp) string {
+	str, err := sexpToJson(exp)
+	panicOn(err)
+	return str
+}
+
+func sexpToJson(exp Sexp) (string, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
 		return e.jsonHashHelper()
 	case *SexpArray:
 		return e.jsonArrayHelper()
 	case *SexpSymbol:
-		return `"` + e.name + `"`
-	default:
-		return exp.SexpString(nil)
+		return jsonQuote(e.name)
+	case *SexpStr:
+		return jsonQuote(e.S)
+	case *SexpBool, *SexpInt:
+		return exp.SexpString(nil), nil
+	case *SexpUint64:
+		return strconv.FormatUint(e.Val, 10), nil
+	case *SexpFloat:
+		return jsonFloat(e.Val)
+	case *SexpSentinel:
+		if e == SexpNull {
+			return "null", nil
+		}
 	}
+	// json has nothing for the rest, but text
+	return jsonQuote(exp.SexpString(nil))
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
-	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
+func jsonQuote(s string) (string, error) {
+	by, err := json.Marshal(s)
+	return string(by), err
+}
 
-	ko := []string{}
-	n := len(hash.KeyOrder)
-	if n == 0 {
-		return str[:len(str)-2] + "}"
+func jsonFloat(f float64) (string, error) {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return "", fmt.Errorf("json cannot represent the number %v", f)
+	}
+	str := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(str, ".e") {
+		str += ".0" // to come back as a float
+	}
+	return str, nil
+}
+
+// jsonKey gives the member name that stands for a key
+func jsonKey(key Sexp) (string, error) {
+	if s, isStr := key.(*SexpStr); isStr {
+		return jsonQuote(s.S)
+	}
+	return jsonQuote(key.SexpString(nil))
+}
+
+func (hash *SexpHash) jsonHashHelper() (string, error) {
+	typeName, err := jsonQuote(hash.TypeName)
+	if err != nil {
+		return "", err
+	}
+	str := `{"Atype":` + typeName
+	if len(hash.KeyOrder) == 0 {
+		return str + "}", nil
 	}
 
+	ko := []string{}
 	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
+		keyst, err := jsonKey(key)
+		if err != nil {
+			return "", err
+		}
 		ko = append(ko, keyst)
 		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
-			panic(err)
+		if err != nil {
+			return "", err
 		}
+		valst, err := sexpToJson(val)
+		if err != nil {
+			return "", err
+		}
+		str += ", " + keyst + ":" + valst
 	}
 
-	str += `"zKeyOrder":[`
-	for _, key := range ko {
-		str += `"` + key + `", `
-	}
-	if n > 0 {
-		str = str[:len(str)-2]
-	}
-	str += "]}"
-
-	//VPrintf("\n\n final ToJson() str = '%s'\n", str)
-	return str
+	return str + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
 }
 
-func (arr *SexpArray) jsonArrayHelper() string {
-	if len(arr.Val) == 0 {
-		return "[]"
-	}
-
-	str := "[" + SexpToJson(arr.Val[0])
-	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+func (arr *SexpArray) jsonArrayHelper() (string, error) {
+	elems := []string{}
+	for _, sexp := range arr.Val {
+		str, err := sexpToJson(sexp)
+		if err != nil {
+			return "", err
+		}
+		elems = append(elems, str)
 	}
-	return str + "]"
+	return "[" + strings.Join(elems, ", ") + "]", nil
 }
 
 type msgpackHelper struct {
-- 
2.43.0


From 7b8e1460f96424673fa6d7fc7bd74a93b4870bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 24/48] fix: decoding does not swallow the error of building
 the record

---
 zygo/jsonmsgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index c506f93..4ec79a8 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -385,11 +385,11 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		panicOn(err)
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
 			panicOn(err)
 		}
-		panicOn(err)
 		return hash
 
 	case []byte:
-- 
2.43.0


From 087bb588fb0602350153daf3c2e569954f5b6932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 25/48] fix: malformed json is an error, not a panic

---
 zygo/jsonmsgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 4ec79a8..e914fd3 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -257,7 +257,7 @@ func JsonToGo(json []byte) (interface{}, error) {
 	decoder := codec.NewDecoderBytes(json, &msgpHelper.jh)
 	err := decoder.Decode(&iface)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	//VPrintf("\n decoded type : %T\n", iface)
 	//VPrintf("\n decoded value: %#v\n", iface)
-- 
2.43.0


From a537e80764cbad46a978323945ce641941cffa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 26/48] fix: string keys of a printed hash are quoted with
 their escapes

---
 zygo/hashutils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e782a10..94f4e0c 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -918,7 +919,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				str += indInner + strconv.Quote(s.S) + ":"
 			case *SexpSymbol:
 				if asJSON {
 					str += indInner + `"` + s.name + `":`
-- 
2.43.0


From 249f805a66e1ca34c1d2722ca26fe11d26639d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 27/48] fix: json2 yields json for records, nil, numbers and
 all strings

---
 zygo/functions.go |  7 ++++---
 zygo/jsonmsgp.go  | 40 ++++++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 15e45ec..7e3dd14 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1351,9 +1351,10 @@ func SimpleJSONStringFunction(env *Zlisp, name string, args []Sexp) (Sexp, error
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
-	ps := NewPrintState()
-	ps.PrintJSON = true
-	s := args[0].SexpString(ps)
+	s, err := sexpToJson(args[0], false)
+	if err != nil {
+		return SexpNull, err
+	}
 	return &SexpStr{S: s}, nil
 }
 
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index e914fd3..9db003d 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -69,7 +69,7 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str, err := sexpToJson(args[0])
+			str, err := sexpToJson(args[0], true)
 			if err != nil {
 				return SexpNull, err
 			}
@@ -106,17 +106,18 @@ func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 
 // sexp -> json
 func SexpToJson(exp Sexp) string {
-	str, err := sexpToJson(exp)
+	str, err := sexpToJson(exp, true)
 	panicOn(err)
 	return str
 }
 
-func sexpToJson(exp Sexp) (string, error) {
+// sexpToJson includes the record type names and key orders if meta is set
+func sexpToJson(exp Sexp, meta bool) (string, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
-		return e.jsonHashHelper()
+		return e.jsonHashHelper(meta)
 	case *SexpArray:
-		return e.jsonArrayHelper()
+		return e.jsonArrayHelper(meta)
 	case *SexpSymbol:
 		return jsonQuote(e.name)
 	case *SexpStr:
@@ -160,14 +161,14 @@ func jsonKey(key Sexp) (string, error) {
 	return jsonQuote(key.SexpString(nil))
 }
 
-func (hash *SexpHash) jsonHashHelper() (string, error) {
-	typeName, err := jsonQuote(hash.TypeName)
-	if err != nil {
-		return "", err
-	}
-	str := `{"Atype":` + typeName
-	if len(hash.KeyOrder) == 0 {
-		return str + "}", nil
+func (hash *SexpHash) jsonHashHelper(meta bool) (string, error) {
+	members := []string{}
+	if meta {
+		typeName, err := jsonQuote(hash.TypeName)
+		if err != nil {
+			return "", err
+		}
+		members = append(members, `"Atype":`+typeName)
 	}
 
 	ko := []string{}
@@ -181,20 +182,23 @@ func (hash *SexpHash) jsonHashHelper() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		valst, err := sexpToJson(val)
+		valst, err := sexpToJson(val, meta)
 		if err != nil {
 			return "", err
 		}
-		str += ", " + keyst + ":" + valst
+		members = append(members, keyst+":"+valst)
+	}
+	if meta && len(ko) > 0 {
+		members = append(members, `"zKeyOrder":[`+strings.Join(ko, ", ")+"]")
 	}
 
-	return str + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
+	return "{" + strings.Join(members, ", ") + "}", nil
 }
 
-func (arr *SexpArray) jsonArrayHelper() (string, error) {
+func (arr *SexpArray) jsonArrayHelper(meta bool) (string, error) {
 	elems := []string{}
 	for _, sexp := range arr.Val {
-		str, err := sexpToJson(sexp)
+		str, err := sexpToJson(sexp, meta)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From c2b04eccba68f96f2869467765e24e7aa8d3f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 28/48] fix: a dot path that changes between hash and package
 goes on with the rest of the path

After i steps the remaining path is dotpaths[i+1:], not dotpaths[1:]:
p.q.G.k with packages p, q and a hash G was looked up as p.q.G.G.k.
---
 zygo/hashutils.go | 2 +-
 zygo/stack.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 94f4e0c..44f352f 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -861,7 +861,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..314fc35 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -272,7 +272,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From 200143f8efa9ae1ebc957c32eb234823dfd7fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 29/48] fix: bind macro parameters to the forms written, also
 when they are dot paths

A macro parameter given h.a was bound to the value of h.a at expansion
time, so {h.a += 1} expanded to (set 1 (+ 1 1)), and with a local h
expansion failed.
---
 zygo/func.go      |  2 +-
 zygo/generator.go | 19 ++++++++++---------
 zygo/vm.go        | 12 +++++++++---
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/zygo/func.go b/zygo/func.go
index 9f684cd..d019657 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -177,7 +177,7 @@ func FuncBuilder(env *Zlisp, name string,
 		DumpFunction(ZlispFunction(gen.instructions), -1)
 	}
 	for i := len(argsyms) - 1; i >= 0; i-- {
-		gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
+		gen.AddInstruction(PopStackPutEnvInstr{sym: argsyms[i]})
 	}
 	err = gen.GenerateBegin(body)
 	if err != nil {
diff --git a/zygo/generator.go b/zygo/generator.go
index 9d10181..ee0e31d 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -94,7 +94,8 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp) (*SexpFunction, error) {
+	orig Sexp,
+	isMacro bool) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
@@ -140,7 +141,7 @@ func buildSexpFun(
 		DumpFunction(ZlispFunction(gen.instructions), -1)
 	}
 	for i := len(argsyms) - 1; i >= 0; i-- {
-		gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
+		gen.AddInstruction(PopStackPutEnvInstr{sym: argsyms[i], asIs: isMacro})
 	}
 	err := gen.GenerateBegin(funcbody)
 	if err != nil {
@@ -176,7 +177,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, false)
 	if err != nil {
 		return err
 	}
@@ -213,7 +214,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 		switch opname {
 		case "def":
-			instr = PopStackPutEnvInstr{lhs}
+			instr = PopStackPutEnvInstr{sym: lhs}
 		case "set":
 			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
@@ -269,7 +270,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, false)
 	if err != nil {
 		return err
 	}
@@ -280,7 +281,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 	}
 
 	gen.AddInstruction(CreateClosureInstr{sfun})
-	gen.AddInstruction(PopStackPutEnvInstr{sym})
+	gen.AddInstruction(PopStackPutEnvInstr{sym: sym})
 	gen.AddInstruction(PushInstr{SexpNull})
 
 	return nil
@@ -318,7 +319,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, true)
 	if err != nil {
 		return err
 	}
@@ -511,7 +512,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 			if err != nil {
 				return err
 			}
-			gen.AddInstruction(PopStackPutEnvInstr{lstatements[i]})
+			gen.AddInstruction(PopStackPutEnvInstr{sym: lstatements[i]})
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
@@ -521,7 +522,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 			}
 		}
 		for i := len(lstatements) - 1; i >= 0; i-- {
-			gen.AddInstruction(PopStackPutEnvInstr{lstatements[i]})
+			gen.AddInstruction(PopStackPutEnvInstr{sym: lstatements[i]})
 		}
 	}
 	err := gen.GenerateBegin(args[1:])
diff --git a/zygo/vm.go b/zygo/vm.go
index 9ea4157..94accca 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -134,6 +134,10 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 
 type PopStackPutEnvInstr struct {
 	sym *SexpSymbol
+
+	// asIs binds the operand itself: a macro's
+	// parameters are bound to forms, not to values.
+	asIs bool
 }
 
 func (p PopStackPutEnvInstr) InstrString() string {
@@ -145,9 +149,11 @@ func (p PopStackPutEnvInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
-	expr, err = env.RValue(expr)
-	if err != nil {
-		return err
+	if !p.asIs {
+		expr, err = env.RValue(expr)
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return env.LexicalBindSymbol(p.sym, expr)
-- 
2.43.0


From cb117d4521b822d30186cd1461a671ea14d7dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 30/48] fix: read a dot path where it is written

The symbol itself was passed on and resolved later by whoever used it, in
that place's scope: (let [z h] (f z.a)) and (let [z h] z.a) failed or
yielded the symbol, and (cond p.a ...) did not look at the value.
---
 zygo/environment.go | 7 +++++++
 zygo/expressions.go | 6 ++++++
 zygo/vm.go          | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index 1acf97b..9058d93 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -412,6 +412,13 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 		if err != nil {
 			return err
 		}
+		if sym, isSym := expr.(*SexpSymbol); isSym && sym.isDotPath() && function != nil && !function.user {
+			// the path starts at a variable in scope here, not in the callee
+			val, err = env.RValue(val)
+			if err != nil {
+				return err
+			}
+		}
 		env.datastack.PushExpr(val)
 	}
 	return nil
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 91dcba1..2314fab 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -532,6 +532,12 @@ type SexpSymbol struct {
 	sigil     string
 }
 
+// isDotPath is true of a.b.c, and false of the selector .b.c,
+// which does not start at a variable.
+func (sym *SexpSymbol) isDotPath() bool {
+	return sym.isDot && !strings.HasPrefix(sym.name, ".")
+}
+
 func (sym *SexpSymbol) RHS(env *Zlisp) (Sexp, error) {
 	if sym.isDot && env != nil {
 		return dotGetSetHelper(env, sym.name, nil)
diff --git a/zygo/vm.go b/zygo/vm.go
index 94accca..42307d4 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -127,6 +127,13 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	if g.sym.isDotPath() {
+		// the path starts at a variable in scope here
+		expr, err = env.RValue(expr)
+		if err != nil {
+			return err
+		}
+	}
 	env.datastack.PushExpr(expr)
 	env.pc++
 	return nil
-- 
2.43.0


From 61c4e93aec413b749a765b6afc774d6d4b0110b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 31/48] fix: a generated symbol is one that did not exist
 before

GenSymbol returned the existing symbol when its name had been interned.
---
 zygo/environment.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 9058d93..5152e4d 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -266,8 +266,12 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 }
 
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
-	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for n := env.nextsymbol; ; n++ {
+		symname := prefix + strconv.Itoa(n)
+		if _, exists := env.symtable[symname]; !exists {
+			return env.MakeSymbol(symname)
+		}
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From bf4a8bcb8a49f26d3d8312ade1c65ed5ab748749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 32/48] fix: names looked up by a builtin include the variables
 its caller has captured

While a builtin ran, lookups used the builtin as the current function, so
(+ h.k 0) and (eval (quote x)) in a closure did not find captured h or x.
---
 zygo/environment.go | 22 +++++++++++++++++++---
 zygo/functions.go   |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 5152e4d..367ee3a 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -1031,6 +1031,20 @@ func (env *Zlisp) ShowGlobalStack() error {
 	return err
 }
 
+// codeFunc returns the function whose code is being run: while
+// a builtin is running, that is the function which called it.
+func (env *Zlisp) codeFunc() *SexpFunction {
+	curfunc := env.curfunc
+	for i := 0; curfunc.user; i++ {
+		elem, err := env.addrstack.Get(i)
+		if err != nil {
+			break
+		}
+		curfunc = elem.(Address).function
+	}
+	return curfunc
+}
+
 func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
 
 	// DotSymbols, named-argument labels, and question sigils evaluate to themselves.
@@ -1050,11 +1064,13 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 		break
 	}
 
+	curfunc := env.codeFunc()
+
 	// check the parent function lexical captured scopes, if parent available.
-	if env.curfunc.parent != nil {
+	if curfunc.parent != nil {
 		//P("checking non-nil parent...")
 		//exp, err, whichScope := env.curfunc.parent.ClosingLookupSymbol(sym, setVal)
-		exp, err, whichScope := env.curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
+		exp, err, whichScope := curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
 		switch err {
 		case nil:
 			//P("LookupSymbolUntilFunction('%s') found in curfunc.parent.ClosingLookupSymbol() scope '%s'\n", sym.name, whichScope.Name)
@@ -1067,7 +1083,7 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 
 		//fmt.Printf(" *** env.curfunc has closure of: %s\n", ClosureToString(env.curfunc, env))
 		//exp, err, scope = env.curfunc.ClosingLookupSymbol(sym, setVal)
-		exp, err, scope = env.curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
+		exp, err, scope = curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
 		switch err {
 		case nil:
 			//P("LexicalLookupSymbol('%s') found in env.curfunc.ClosingLookupSymbolUnfilFunc(1, false) in scope '%s'\n", sym.name, scope.Name)
diff --git a/zygo/functions.go b/zygo/functions.go
index 7e3dd14..98d3667 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -718,6 +718,7 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	newfunc := ZlispFunction(gen.instructions)
 	orig := &SexpArray{Val: args}
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
+	sfun.parent = env.codeFunc()
 
 	err = env.CallFunction(sfun, 0)
 	if err != nil {
-- 
2.43.0


From 254ea976c90479e8b7b6bd80bc42217865bfb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 33/48] fix: a struct accepted fields under keys that are no
 symbols

---
 zygo/hashutils.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 44f352f..db6e9d7 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -244,6 +244,15 @@ func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sex
 	return defaultval, nil
 }
 
+// declaredAs returns the struct declaration that the fields of h must
+// follow, or nil if there is none.
+func (h *SexpHash) declaredAs() *RecordDefn {
+	if h.TypeName == "hash" || h.TypeName == "field" || h.GoStructFactory == nil {
+		return nil
+	}
+	return h.GoStructFactory.UserStructDefn
+}
+
 var KeyNotSymbol = fmt.Errorf("key is not a symbol")
 
 func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
@@ -353,6 +362,9 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 		if err != KeyNotSymbol {
 			return err
 		}
+		if defn := hash.declaredAs(); defn != nil {
+			return fmt.Errorf("%s has no field '%s'", defn.Name, key.SexpString(nil))
+		}
 	}
 
 	hashval, err := HashExpression(nil, key)
-- 
2.43.0


From 15a1a7e50703434a1461c3de87f772fa7a2c055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 34/48] fix: elements of slices and records of an earlier
 declaration of a struct were not type checked

---
 zygo/arrayutils.go  | 70 +++++++++++++++++++++++++++++++++++++++++++--
 zygo/builders.go    |  3 ++
 zygo/expressions.go |  4 +++
 zygo/functions.go   | 33 +++++++++++++++++++--
 zygo/gotypereg.go   | 38 ++++++++++++++++++++++--
 zygo/hashutils.go   | 57 ++++++++++++++++++++++--------------
 6 files changed, 175 insertions(+), 30 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..a4f029c 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -25,7 +25,7 @@ func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("ConcatArray called with nil arr")
 	}
 	var res SexpArray
-	res.Val = arr.Val
+	res.Val = arr.Val[:len(arr.Val):len(arr.Val)]
 	for i, x := range rest {
 		switch t := x.(type) {
 		case *SexpArray:
@@ -38,6 +38,69 @@ func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 	return &res, nil
 }
 
+// fits says whether val may be an element of a slice of elemType;
+// nil and the empty slice always may.
+func (elemType *RegisteredType) fits(val Sexp) bool {
+	if elemType == nil || val == SexpNull {
+		return true
+	}
+	if arr, isArr := val.(*SexpArray); isArr && elemType.ElemType != nil {
+		return arr.holds(elemType.ElemType)
+	}
+	if _, isType := val.(*RegisteredType); isType {
+		return false
+	}
+	return elemType.same(val.Type())
+}
+
+// holds says whether arr is a slice of elemType.
+func (arr *SexpArray) holds(elemType *RegisteredType) bool {
+	for _, x := range arr.Val {
+		if !elemType.fits(x) {
+			return false
+		}
+	}
+	return true
+}
+
+// keepElemType makes writes to the elements of arr keep to elemType.
+func (arr *SexpArray) keepElemType(elemType *RegisteredType) {
+	if elemType == nil {
+		return
+	}
+	arr.elemType = elemType
+	for _, x := range arr.Val {
+		if inner, isArr := x.(*SexpArray); isArr {
+			inner.keepElemType(elemType.ElemType)
+		}
+	}
+}
+
+// setElem is arr.Val[i] = val, for an i within bounds.
+func (arr *SexpArray) setElem(i int64, val Sexp) error {
+	if !arr.elemType.fits(val) {
+		return fmt.Errorf("cannot assign '%v' to an element of a slice of %v",
+			val.SexpString(nil), arr.elemType.SexpString(nil))
+	}
+	if inner, isArr := val.(*SexpArray); isArr && arr.elemType != nil {
+		inner.keepElemType(arr.elemType.ElemType)
+	}
+	arr.Val[i] = val
+	return nil
+}
+
+// describe gives the type and value of arr for an error message.
+func (arr *SexpArray) describe() string {
+	kind := "[]"
+	if len(arr.Val) > 0 {
+		ty := arr.Val[0].Type()
+		if ty != nil && arr.holds(ty) {
+			kind = "([]" + ty.RegisteredName + ")"
+		}
+	}
+	return fmt.Sprintf("%v '%v'", kind, arr.SexpString(nil))
+}
+
 // (arrayidx ar [0 1])
 func ArrayIndexFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	//Q("in ArrayIndexFunction, args = '%#v'", args)
@@ -249,6 +312,8 @@ func (x *SexpArraySelector) RHS(env *Zlisp) (Sexp, error) {
 			Val: x.Container.Val[start:end],
 			Env: env,
 			Typ: x.Container.Typ,
+
+			elemType: x.Container.elemType,
 		}, nil
 	}
 
@@ -304,8 +369,7 @@ func (x *SexpArraySelector) AssignToSelection(env *Zlisp, rhs Sexp) error {
 	if err != nil {
 		return err
 	}
-	x.Container.Val[x.Select.Val[0].(*SexpInt).Val] = rhs
-	return nil
+	return x.Container.setElem(x.Select.Val[0].(*SexpInt).Val, rhs)
 }
 
 func (env *Zlisp) NewSexpArray(arr []Sexp) *SexpArray {
diff --git a/zygo/builders.go b/zygo/builders.go
index 5e5374e..63a424f 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -288,6 +288,7 @@ func StructBuilder(env *Zlisp, name string,
 		}
 	}()
 
+	var early *RegisteredType
 	{
 		// begin enable recursion -- add ourselves to the env early, then
 		// update later, so that structs can refer to themselves.
@@ -297,6 +298,7 @@ func StructBuilder(env *Zlisp, name string,
 			return udsR, nil
 		})
 		rtR.UserStructDefn = udsR
+		early = rtR
 		rtR.DisplayAs = structName
 		GoStructRegistry.RegisterUserdef(rtR, false, structName)
 
@@ -392,6 +394,7 @@ func StructBuilder(env *Zlisp, name string,
 			structName, err)
 	}
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
+	early.declared = rt
 	declared = true
 	return rt, nil
 }
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 2314fab..7643ece 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -259,6 +259,10 @@ type SexpArray struct {
 	Infix               bool
 
 	Env *Zlisp
+
+	// once the array is the value of a slice field of a struct,
+	// the declared type of its elements; otherwise nil.
+	elemType *RegisteredType
 }
 
 func (r *SexpArray) Type() *RegisteredType {
diff --git a/zygo/functions.go b/zygo/functions.go
index 98d3667..7c820a2 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -295,7 +295,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			if i < 0 || i >= len(arr.Val) {
 				return SexpNull, fmt.Errorf("Array index out of bounds")
 			}
-			arr.Val[i] = args[2]
+			return SexpNull, arr.setElem(int64(i), args[2])
 		}
 		return SexpNull, nil
 	}
@@ -604,11 +604,11 @@ func AppendFunction(name string) ZlispUserFunction {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: append(t.Val, args[1]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], args[1]), Env: env}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: append(t.Val, sl.Val...), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], sl.Val...), Env: env}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
@@ -1731,6 +1731,28 @@ func AddressOfFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	return NewSexpPointer(args[0]), nil
 }
 
+// canHold reports an error if the value that ptr points to may not be
+// replaced by val.
+func (ptr *SexpPointer) canHold(val Sexp) error {
+	switch target := ptr.Target.(type) {
+	case *SexpArray:
+		arr, isArr := val.(*SexpArray)
+		if isArr && target.elemType != nil && !arr.holds(target.elemType) {
+			return fmt.Errorf("cannot assign %v to a slice of %v", arr.describe(),
+				target.elemType.SexpString(nil))
+		}
+		if isArr {
+			arr.keepElemType(target.elemType)
+		}
+	case *SexpPointer:
+		if !target.Type().same(val.Type()) {
+			return fmt.Errorf("cannot assign type '%v' to type '%v'",
+				val.Type().RegisteredName, target.Type().RegisteredName)
+		}
+	}
+	return nil
+}
+
 func DerefFunction(name string) ZlispUserFunction {
 	return func(env *Zlisp, _ string, args []Sexp) (result Sexp, err error) {
 		result = SexpNull
@@ -1787,8 +1809,13 @@ func DerefFunction(name string) ZlispUserFunction {
 					// handle below
 				//case *SexpReflect:
 				// handle here or below?
+				case *SexpSymbol:
+					return SexpNull, fmt.Errorf("%s: a symbol cannot be changed", name)
 				default:
 					//P("we have a reflection capable type match!")
+					if err := ptr.canHold(args[1]); err != nil {
+						return SexpNull, err
+					}
 					ptr.ReflectTarget.Elem().Set(rhs.Elem())
 					return
 				}
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..51c13f7 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -195,6 +195,38 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+
+	// for a slice type, the type of its elements.
+	ElemType *RegisteredType
+
+	// for a pointer type, the type of what it points to.
+	pointsTo *RegisteredType
+
+	// for the type that a struct declaration binds its name to
+	// while the fields are evaluated, the type that was declared.
+	declared *RegisteredType
+}
+
+// same says whether p and q are one type. Two declarations of a
+// struct make two types, although they have the same name.
+func (p *RegisteredType) same(q *RegisteredType) bool {
+	for p != nil && p.declared != nil {
+		p = p.declared
+	}
+	for q != nil && q.declared != nil {
+		q = q.declared
+	}
+	switch {
+	case p == q:
+		return true
+	case p == nil || q == nil:
+		return false
+	case p.ElemType != nil && q.ElemType != nil:
+		return p.ElemType.same(q.ElemType)
+	case p.pointsTo != nil && q.pointsTo != nil:
+		return p.pointsTo.same(q.pointsTo)
+	}
+	return false
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
@@ -427,7 +459,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 	Q("pointedToType = %#v", pointedToType)
 	ptrName := "*" + pointedToType.RegisteredName
 	ptrRt := gsr.Lookup(ptrName)
-	if ptrRt != nil {
+	if ptrRt != nil && ptrRt.pointsTo.same(pointedToType) {
 		Q("type named '%v' already registered, reusing the pointer type", ptrName)
 	} else {
 		Q("registering new pointer type '%v'", ptrName)
@@ -437,6 +469,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
 		ptrRt.RegisteredName = ptrName
+		ptrRt.pointsTo = pointedToType
 		gsr.RegisterUserdef(ptrRt, false, ptrName)
 	}
 	return ptrRt
@@ -446,7 +479,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 	//sliceName := "sliceOf" + rt.RegisteredName
 	sliceName := "[]" + rt.RegisteredName
 	sliceRt := gsr.Lookup(sliceName)
-	if sliceRt != nil {
+	if sliceRt != nil && sliceRt.ElemType.same(rt) {
 		Q("type named '%v' already registered, re-using the type", sliceName)
 	} else {
 		Q("registering new slice type '%v'", sliceName)
@@ -456,6 +489,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		})
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.RegisteredName = sliceName
+		sliceRt.ElemType = rt
 		gsr.RegisterUserdef(sliceRt, false, sliceName)
 	}
 	return sliceRt
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index db6e9d7..b92b1b4 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -253,6 +253,21 @@ func (h *SexpHash) declaredAs() *RecordDefn {
 	return h.GoStructFactory.UserStructDefn
 }
 
+// declaredElemType returns the type that the elements of the slice
+// field called key must have, or nil if there is no such declaration.
+func (h *SexpHash) declaredElemType(key Sexp) *RegisteredType {
+	sym, isSym := key.(*SexpSymbol)
+	defn := h.declaredAs()
+	if !isSym || defn == nil {
+		return nil
+	}
+	fieldType := defn.FieldType[sym.name]
+	if fieldType == nil {
+		return nil
+	}
+	return fieldType.ElemType
+}
+
 var KeyNotSymbol = fmt.Errorf("key is not a symbol")
 
 func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
@@ -278,27 +293,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 	if p.UserStructDefn == nil {
 		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
 
-		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
-
-		// was it found? If so, use it!
-		if rt != nil && rt.UserStructDefn != nil {
-			if rt.UserStructDefn.FieldType != nil {
-				//Q("")
-				//Q("we have a type for hash.TypeName = '%s', using it by "+
-				//	"replacing the hash.GoStructFactory with rt", h.TypeName)
-				//Q("")
-				//Q("old: h.GoStructFactory = '%#v'", h.GoStructFactory)
-				//Q("")
-				//Q("new: rt = '%#v'", rt)
-				//Q("new rt.UserStructDefn.FieldType = '%#v'", rt.UserStructDefn.FieldType)
-				//p.UserStructDefn = rt.UserStructDefn
-				h.GoStructFactory = rt
-				p = h.GoStructFactory
-			}
-		} else {
-			return nil
-		}
+		return nil
 	}
 
 	// type-check record updates here, if we are a record with a
@@ -310,6 +305,17 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		if !ok {
 			return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, k)
 		}
+		if _, isType := val.(*RegisteredType); isType {
+			return fmt.Errorf("field %v.%v is %v, cannot assign a type",
+				p.UserStructDefn.Name, k, declaredTyp.SexpString(nil))
+		}
+		if arr, isArr := val.(*SexpArray); isArr && declaredTyp.ElemType != nil {
+			if !arr.holds(declaredTyp.ElemType) {
+				return fmt.Errorf("field %v.%v is %v, cannot assign %v",
+					p.UserStructDefn.Name, k, declaredTyp.SexpString(nil), arr.describe())
+			}
+			return nil
+		}
 		obsTyp := val.Type()
 		if obsTyp == nil {
 			// allow certain types to be nil, e.g. [] and nil itself
@@ -327,7 +333,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 
 		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
 		//Q("declaredTyp is %T / val = %#v", declaredTyp, declaredTyp)
-		if obsTyp != declaredTyp {
+		if !declaredTyp.same(obsTyp) {
 			if obsTyp.RegisteredName == "[]" {
 				if strings.HasPrefix(declaredTyp.RegisteredName, "[]") {
 					// okay to assign empty slice to typed slice
@@ -366,6 +372,9 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 			return fmt.Errorf("%s has no field '%s'", defn.Name, key.SexpString(nil))
 		}
 	}
+	if arr, isArr := val.(*SexpArray); isArr {
+		arr.keepElemType(hash.declaredElemType(key))
+	}
 
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
@@ -965,6 +974,10 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
+	if r.declaredAs() != nil {
+		// the definition in force when r was made.
+		return r.GoStructFactory
+	}
 	return GoStructRegistry.Registry[r.TypeName]
 }
 
-- 
2.43.0


From 10715bd92d5992eb4e9ab25ab0ac40d9e9808b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 35/48] fix: integers above the int64 range and uint64 fields
 did not survive json and msgpack

---
 zygo/jsonmsgp.go | 54 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 9db003d..4f76a24 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -225,12 +225,10 @@ func (m *msgpackHelper) init() {
 	//does this make a differenece? m.mh.AddExt(reflect.TypeOf(time.Time{}), 1, timeEncExt, timeDecExt)
 	m.mh.RawToString = true
 	m.mh.WriteExt = true
-	m.mh.SignedInteger = true
 	m.mh.Canonical = true // sort maps before writing them
 
 	// JSON
 	m.jh.MapType = reflect.TypeOf(map[string]interface{}(nil))
-	m.jh.SignedInteger = true
 	m.jh.Canonical = true // sort maps before writing them
 
 	m.initialized = true
@@ -265,7 +263,7 @@ func JsonToGo(json []byte) (interface{}, error) {
 	}
 	//VPrintf("\n decoded type : %T\n", iface)
 	//VPrintf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return signedIntegers(iface), nil
 }
 
 func GoToMsgpack(iface interface{}) ([]byte, error) {
@@ -314,7 +312,27 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 
 	//fmt.Printf("\n decoded type : %T\n", iface)
 	//fmt.Printf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return signedIntegers(iface), nil
+}
+
+// signedIntegers makes an int64 of every uint64 in iface that is in
+// the range of int64.
+func signedIntegers(iface interface{}) interface{} {
+	switch val := iface.(type) {
+	case uint64:
+		if val <= math.MaxInt64 {
+			return int64(val)
+		}
+	case []interface{}:
+		for i := range val {
+			val[i] = signedIntegers(val[i])
+		}
+	case map[string]interface{}:
+		for k := range val {
+			val[k] = signedIntegers(val[k])
+		}
+	}
+	return iface
 }
 
 // convert iface, which will typically be map[string]interface{},
@@ -346,6 +364,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		//VPrintf("depth %d found int64 case: val = %#v\n", depth, val)
 		return &SexpInt{Val: val}
 
+	case uint64:
+		return &SexpUint64{Val: val}
+
 	case float64:
 		//VPrintf("depth %d found float64 case: val = %#v\n", depth, val)
 		return &SexpFloat{Val: val}
@@ -388,6 +409,12 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 				pairs = append(pairs, ele)
 			}
 		}
+		if rt := GoStructRegistry.Lookup(typeName); rt != nil && rt.UserStructDefn != nil {
+			for i := 0; i+1 < len(pairs); i += 2 {
+				field := pairs[i].(*SexpSymbol).name
+				pairs[i+1] = unsignedIfDeclared(pairs[i+1], rt.UserStructDefn.FieldType[field])
+			}
+		}
 		hash, err := MakeHash(pairs, typeName, env)
 		panicOn(err)
 		if foundzKeyOrder {
@@ -428,6 +455,25 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 	return s
 }
 
+// unsignedIfDeclared makes val a uint64 again if declared says that
+// it was one; both kinds of integer are encoded alike.
+func unsignedIfDeclared(val Sexp, declared *RegisteredType) Sexp {
+	if declared == nil {
+		return val
+	}
+	switch x := val.(type) {
+	case *SexpInt:
+		if x.Val >= 0 && declared.RegisteredName == "uint64" {
+			return &SexpUint64{Val: uint64(x.Val)}
+		}
+	case *SexpArray:
+		for i := range x.Val {
+			x.Val[i] = unsignedIfDeclared(x.Val[i], declared.ElemType)
+		}
+	}
+	return val
+}
+
 //msgp:ignore mapsorter KiSlice
 
 type mapsorter struct {
-- 
2.43.0


From 54710f664eab6594e33c97ea3e2b635afeb1c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 36/48] fix: a whole float above 2^53 was printed as an integer

---
 zygo/expressions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 7643ece..8ddfe70 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -506,7 +507,8 @@ func (i *SexpUint64) SexpString(ps *PrintState) string {
 }
 
 func (f *SexpFloat) SexpString(ps *PrintState) string {
-	if f.Scientific {
+	if f.Scientific || math.Abs(f.Val) > 1<<53 {
+		// the digits of a whole number would be read as an integer
 		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
 	}
 	return strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
-- 
2.43.0


From 4cd3c5221d29b1260fdfc2c9b5e8a1a82942abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 37/48] fix: a label named like a macro was taken for the macro

---
 zygo/environment.go | 2 +-
 zygo/vm.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 367ee3a..1fc86c2 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -349,7 +349,7 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 	}
 	if sym, isSym := expr.(*SexpSymbol); isSym {
 		macxpr, isMacro := env.macros[sym.number]
-		if isMacro {
+		if isMacro && !sym.colonTail {
 			if macxpr.orig != nil {
 				return SexpNull, fmt.Errorf("'%s' is a macro, with definition: %s\n", sym.name, macxpr.orig.SexpString(nil))
 			}
diff --git a/zygo/vm.go b/zygo/vm.go
index 42307d4..d9e4cf4 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -115,7 +115,7 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 	//defer VPrintf("leaving EnvToStackInstr env.pc =%v\n", env.pc)
 
 	macxpr, isMacro := env.macros[g.sym.number]
-	if isMacro {
+	if isMacro && !g.sym.colonTail {
 		if macxpr.orig != nil {
 			return fmt.Errorf("'%s' is a macro, with definition: %s\n", g.sym.name, macxpr.orig.SexpString(nil))
 		}
-- 
2.43.0


From 239fa2116a3f14a36f45782a21fef51c7b9c0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 38/48] fix: nil in data was read as a symbol

---
 zygo/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/parser.go b/zygo/parser.go
index c96bdfc..59eaaf2 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -498,6 +498,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 				}
 			}
 		}
+		if tok.str == "nil" {
+			return SexpNull, nil
+		}
 		return env.MakeSymbol(tok.str), nil
 	case TokenSymbolColon:
 		sym := env.MakeSymbol(tok.str)
-- 
2.43.0


From c94117720762a86397716c4a16453905bc8ff458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 39/48] fix: escapes written by the printer, and characters
 beyond ASCII, were not read back

---
 zygo/lexer.go  | 72 ++++++++++++++++++++++++++++++++++++++------------
 zygo/parser.go |  4 ++-
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 97d6cbd..3e23c43 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -141,6 +141,7 @@ type Lexer struct {
 	prevToken      Token
 	prevPrevToken  Token
 	preBuiltinRune rune
+	escape         string // so much of an escape sequence as we have seen
 	stream         io.RuneScanner
 	next           []io.RuneScanner
 	linenum        int
@@ -246,6 +247,7 @@ func (lex *Lexer) Reset() {
 	lex.linenum = 1
 	lex.prevrune = 0
 	lex.preBuiltinRune = 0
+	lex.escape = ""
 	lex.prevToken = Token{}
 	lex.prevPrevToken = Token{}
 	// the look-back ring must not show us the end of an earlier text
@@ -331,6 +333,12 @@ func EscapeChar(char rune) (rune, error) {
 		return '\a', nil
 	case 't':
 		return '\t', nil
+	case 'b':
+		return '\b', nil
+	case 'f':
+		return '\f', nil
+	case 'v':
+		return '\v', nil
 	case '\\':
 		return '\\', nil
 	case '"':
@@ -343,16 +351,50 @@ func EscapeChar(char rune) (rune, error) {
 	return ' ', errors.New("invalid escape sequence")
 }
 
+// lexEscape takes the next rune of an escape sequence, after its
+// backslash, and returns true if that was the last.
+func (lexer *Lexer) lexEscape(r rune) (bool, error) {
+	lexer.escape += string(r)
+	digits := 0
+	switch lexer.escape[0] {
+	case 'x':
+		digits = 2
+	case 'u':
+		digits = 4
+	case 'U':
+		digits = 8
+	default:
+		lexer.escape = ""
+		char, err := EscapeChar(r)
+		if err != nil {
+			return false, err
+		}
+		lexer.buffer.WriteRune(char)
+		return true, nil
+	}
+	if len(lexer.escape) <= digits {
+		return false, nil
+	}
+	kind, code := lexer.escape[0], lexer.escape[1:]
+	lexer.escape = ""
+	val, err := strconv.ParseUint(code, 16, 32)
+	if err != nil || (kind != 'x' && !utf8.ValidRune(rune(val))) {
+		return false, errors.New("invalid escape sequence")
+	}
+	if kind == 'x' && lexer.state == LexerStrEscaped {
+		lexer.buffer.WriteByte(byte(val))
+	} else {
+		lexer.buffer.WriteRune(rune(val))
+	}
+	return true, nil
+}
+
 func DecodeChar(atom string) (string, error) {
 	runes := StringToRunes(atom)
 	n := len(runes)
 	runes = runes[:n-1]
 	runes = runes[1:]
-	if len(runes) == 2 {
-		char, err := EscapeChar(runes[1])
-		return string(char), err
-	}
-
+	// escapes have been replaced already
 	if len(runes) == 1 {
 		return string(runes[0]), nil
 	}
@@ -601,13 +643,11 @@ top:
 		return nil
 
 	case LexerStrEscaped:
-		char, err := EscapeChar(r)
-		if err != nil {
-			return err
+		done, err := lexer.lexEscape(r)
+		if done {
+			lexer.state = LexerStrLit
 		}
-		lexer.buffer.WriteRune(char)
-		lexer.state = LexerStrLit
-		return nil
+		return err
 
 	case LexerRuneLit:
 		if r == '\\' {
@@ -625,13 +665,11 @@ top:
 		return nil
 
 	case LexerRuneEscaped:
-		char, err := EscapeChar(r)
-		if err != nil {
-			return err
+		done, err := lexer.lexEscape(r)
+		if done {
+			lexer.state = LexerRuneLit
 		}
-		lexer.buffer.WriteRune(char)
-		lexer.state = LexerRuneLit
-		return nil
+		return err
 
 	case LexerUnquote:
 		if r == '@' {
diff --git a/zygo/parser.go b/zygo/parser.go
index 59eaaf2..f77ce62 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 var NaN float64
@@ -448,7 +449,8 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		char, _ := utf8.DecodeRuneInString(tok.str)
+		return &SexpChar{Val: char}, nil
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
-- 
2.43.0


From 3690c8e0fd61d4d49d1e83660d961083137cec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 40/48] fix: -.5 was not read as a number

---
 zygo/lexer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 3e23c43..fd5e2fa 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -129,6 +129,7 @@ const (
 	LexerBuiltinOperator
 	LexerRuneLit
 	LexerRuneEscaped
+	LexerMinusDot // the start of -.5, or an operator and a dot symbol
 )
 
 type Lexer struct {
@@ -737,6 +738,9 @@ top:
 					return err
 				}
 				return nil
+			} else if r == '.' {
+				lexer.state = LexerMinusDot
+				return nil
 			} else {
 				//Q("atom was not matched by FloatRegex: '%s'", atom)
 			}
@@ -758,6 +762,16 @@ top:
 		lexer.AppendToken(lexer.Token(TokenSymbol, first))
 		goto top // still have to parse r in normal
 
+	case LexerMinusDot:
+		lexer.state = LexerNormal
+		if '0' <= r && r <= '9' {
+			lexer.buffer.WriteString("-.")
+			goto top
+		}
+		lexer.AppendToken(lexer.Token(TokenSymbol, "-"))
+		lexer.buffer.WriteRune('.')
+		goto top
+
 	case LexerNormal:
 		switch r {
 		case '+':
-- 
2.43.0


From f9b9e43e130409a0e5dcf0a1ba28964a011808d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 41/48] fix: sandboxed interpreters could run shell commands
 and read files (sys, import, include)

---
 zygo/builders.go    | 7 ++++---
 zygo/environment.go | 9 ++++++++-
 zygo/generator.go   | 3 +++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 63a424f..7cb0fd3 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -29,7 +29,10 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.ImportMinimalBuilder()
 	env.AddBuilder("infixExpand", InfixBuilder)
 	env.AddBuilder("infix", InfixBuilder)
-	env.AddBuilder("sys", SystemBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("sys", SystemBuilder)
+		env.AddBuilder("import", ImportPackageBuilder)
+	}
 	env.AddBuilder("struct", StructBuilder)
 	env.AddBuilder("func", FuncBuilder)
 	env.AddBuilder("method", FuncBuilder)
@@ -40,8 +43,6 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.AddBuilder("expectError", ExpectErrorBuilder)
 	//	env.AddBuilder("&", AddressOfBuilder)
 
-	env.AddBuilder("import", ImportPackageBuilder)
-
 	env.AddFunction("sliceOf", SliceOfFunction)
 	env.AddFunction("ptr", PointerToFunction)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 1fc86c2..76b12f8 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -49,6 +49,9 @@ type Zlisp struct {
 
 	booter Booter
 
+	// no access to the outside world, see NewZlispSandbox
+	sandboxed bool
+
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 }
@@ -89,7 +92,9 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -175,6 +180,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 	return dupenv
 }
 
@@ -207,6 +213,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 
 	return dupenv
 }
diff --git a/zygo/generator.go b/zygo/generator.go
index ee0e31d..b00eff4 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -553,6 +553,9 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateInclude(args []Sexp) error {
+	if gen.env.sandboxed {
+		return fmt.Errorf("include: not available in a sandbox")
+	}
 	if len(args) < 1 {
 		return WrongNargs
 	}
-- 
2.43.0


From d464d4cf5967969d3a76e1e77de97071a45410eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 42/48] fix: types declared by scripts were visible to every
 other interpreter of the process

---
 zygo/builders.go    | 24 ++++++++-----
 zygo/environment.go |  5 +++
 zygo/expressions.go | 14 ++++++--
 zygo/functions.go   |  4 +--
 zygo/gotypereg.go   | 86 +++++++++++++++++++++++++++++++++++----------
 zygo/hashutils.go   | 10 +++---
 zygo/jsonmsgp.go    | 10 +++---
 7 files changed, 113 insertions(+), 40 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 7cb0fd3..19f417b 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -64,6 +64,9 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+
+	// the type that this defines.
+	typ *RegisteredType
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -86,6 +89,9 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 }
 
 func (p *RecordDefn) Type() *RegisteredType {
+	if p.typ != nil {
+		return p.typ
+	}
 	rt := GoStructRegistry.Registry[p.Name]
 	//Q("RecordDefn) Type() sees rt = %v", rt)
 	return rt
@@ -299,9 +305,10 @@ func StructBuilder(env *Zlisp, name string,
 			return udsR, nil
 		})
 		rtR.UserStructDefn = udsR
+		udsR.typ = rtR
 		early = rtR
 		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
+		env.types().declare(rtR, structName)
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
@@ -378,8 +385,9 @@ func StructBuilder(env *Zlisp, name string,
 		return uds, nil
 	})
 	rt.UserStructDefn = uds
+	uds.typ = rt
 	rt.DisplayAs = structName
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
+	env.types().declare(rt, structName)
 	//Q("good: registered new userdefined struct '%s'", structName)
 
 	// replace our recursive-reference-enabling symbol with the real one.
@@ -403,7 +411,7 @@ func StructBuilder(env *Zlisp, name string,
 // rememberName records what sym names, both in the innermost scope
 // and in the type registry. Calling undo restores that.
 func (env *Zlisp) rememberName(sym *SexpSymbol) (undo func()) {
-	reg := &GoStructRegistry
+	reg := env.types()
 	scope := env.linearstack.GetTop().(*Scope)
 	val, bound := scope.Map[sym.number]
 	typ, registered := reg.Registry[sym.name]
@@ -532,7 +540,7 @@ func SliceOfFunction(env *Zlisp, name string,
 
 	//Q("sliceOf arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
-	sliceRt := GoStructRegistry.GetOrCreateSliceType(rt)
+	sliceRt := env.types().GetOrCreateSliceType(rt)
 	//Q("in SliceOfFunction: returning sliceRt = '%#v'", sliceRt)
 	return sliceRt, nil
 }
@@ -583,7 +591,7 @@ func PointerToFunction(env *Zlisp, name string,
 
 	//Q("pointer-to arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
-	ptrRt := GoStructRegistry.GetOrCreatePointerType(rt)
+	ptrRt := env.types().GetOrCreatePointerType(rt)
 	return ptrRt, nil
 }
 
@@ -717,7 +725,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
 	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	env.types().declare(arrayRt, arrayName)
 	return arrayRt, nil
 }
 
@@ -784,9 +792,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/environment.go b/zygo/environment.go
index 76b12f8..fda6cb6 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -52,6 +52,9 @@ type Zlisp struct {
 	// no access to the outside world, see NewZlispSandbox
 	sandboxed bool
 
+	// the types that scripts have declared; use types() instead.
+	ownTypes *GoStructRegistryType
+
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 }
@@ -181,6 +184,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
 	dupenv.sandboxed = env.sandboxed
+	dupenv.ownTypes = env.types()
 	return dupenv
 }
 
@@ -214,6 +218,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
 	dupenv.sandboxed = env.sandboxed
+	dupenv.ownTypes = env.types()
 
 	return dupenv
 }
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 8ddfe70..ae946ef 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -37,6 +37,10 @@ type SexpPointer struct {
 }
 
 func NewSexpPointer(pointedTo Sexp) *SexpPointer {
+	return newSexpPointer(nil, pointedTo)
+}
+
+func newSexpPointer(env *Zlisp, pointedTo Sexp) *SexpPointer {
 	pointedToType := pointedTo.Type()
 
 	var reftarg reflect.Value
@@ -50,7 +54,7 @@ func NewSexpPointer(pointedTo Sexp) *SexpPointer {
 		reftarg = reflect.ValueOf(pointedTo)
 	}
 
-	ptrRt := GoStructRegistry.GetOrCreatePointerType(pointedToType)
+	ptrRt := env.types().GetOrCreatePointerType(pointedToType)
 	//Q("pointer type is ptrRt = '%#v'", ptrRt)
 	p := &SexpPointer{
 		ReflectTarget: reftarg,
@@ -137,9 +141,15 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+
+	// the declared type, if the value is that of a declared variable.
+	typ *RegisteredType
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.typ != nil {
+		return r.typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
@@ -272,7 +282,7 @@ func (r *SexpArray) Type() *RegisteredType {
 			// take type from first element
 			ty := r.Val[0].Type()
 			if ty != nil {
-				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
+				r.Typ = r.Env.types().GetOrCreateSliceType(ty)
 			}
 		} else {
 			// empty array
diff --git a/zygo/functions.go b/zygo/functions.go
index 7c820a2..642f24b 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1728,7 +1728,7 @@ func AddressOfFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
-	return NewSexpPointer(args[0]), nil
+	return newSexpPointer(env, args[0]), nil
 }
 
 // canHold reports an error if the value that ptr points to may not be
@@ -1779,7 +1779,7 @@ func DerefFunction(name string) ZlispUserFunction {
 		case *SexpPointer:
 			ptr = e
 		case *SexpReflect:
-			ptr = NewSexpPointer(e)
+			ptr = newSexpPointer(env, e)
 		default:
 			return SexpNull, fmt.Errorf("%s only operates on pointers (*SexpPointer); we saw %T instead", name, e)
 		}
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 51c13f7..a6c0b6e 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"time"
 )
 
@@ -40,6 +41,28 @@ type GoStructRegistryType struct {
 
 	// lazily added functions
 	LazyFunc map[string]ZlispUserFunction
+
+	// for the types one interpreter has declared, the registry
+	// that all interpreters share; otherwise nil.
+	shared *GoStructRegistryType
+}
+
+// types is the registry for what scripts declare while they run. Its types
+// hide those in GoStructRegistry, and no other interpreter sees them.
+func (env *Zlisp) types() *GoStructRegistryType {
+	if env != nil && env.ownTypes != nil {
+		return env.ownTypes
+	}
+	own := &GoStructRegistryType{
+		Registry: make(map[string]*RegisteredType),
+		Builtin:  make(map[string]*RegisteredType),
+		Userdef:  make(map[string]*RegisteredType),
+		shared:   &GoStructRegistry,
+	}
+	if env != nil {
+		env.ownTypes = own
+	}
+	return own
 }
 
 // consistently ordered list of all registered types (created at init time).
@@ -67,9 +90,6 @@ func (r *GoStructRegistryType) register(name string, e *RegisteredType, isUser b
 	if !e.initDone {
 		e.Init()
 	}
-	e.RegisteredName = name
-	e.Aliases[name] = true
-	e.Aliases[e.ReflectName] = true
 
 	_, found := r.Registry[name]
 	if !found {
@@ -79,6 +99,17 @@ func (r *GoStructRegistryType) register(name string, e *RegisteredType, isUser b
 	if !found2 {
 		ListRegisteredTypes = append(ListRegisteredTypes, e.ReflectName)
 	}
+	r.enter(name, e, isUser)
+}
+
+// enter is register for a type that is not to be listed in ListRegisteredTypes.
+func (r *GoStructRegistryType) enter(name string, e *RegisteredType, isUser bool) {
+	if !e.initDone {
+		e.Init()
+	}
+	e.RegisteredName = name
+	e.Aliases[name] = true
+	e.Aliases[e.ReflectName] = true
 
 	if isUser {
 		r.Userdef[name] = e
@@ -128,18 +159,31 @@ func (r *GoStructRegistryType) RegisterUserdef(
 			e0 = &rt
 		}
 		r.register(name, e0, true)
-		e0.IsUser = true
-		e0.hasShadowStruct = hasShadowStruct
+		e0.finishUserdef(name, hasShadowStruct)
+	}
+}
 
-		e0.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
-		if e0.DisplayAs == "" {
-			e0.DisplayAs = name
-		}
+func (e0 *RegisteredType) finishUserdef(name string, hasShadowStruct bool) {
+	e0.IsUser = true
+	e0.hasShadowStruct = hasShadowStruct
+
+	e0.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	if e0.DisplayAs == "" {
+		e0.DisplayAs = name
 	}
 }
 
+// declare enters a type that a script has declared.
+func (r *GoStructRegistryType) declare(e *RegisteredType, name string) {
+	r.enter(name, e, true)
+	e.finishUserdef(name, false)
+}
+
 func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
-	return r.Registry[name]
+	if e, ok := r.Registry[name]; ok || r.shared == nil {
+		return e
+	}
+	return r.shared.Registry[name]
 }
 
 // wait to AddFunction until EnvAvail()
@@ -429,13 +473,19 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
-		env.AddGlobal(e.RegisteredName, e)
-	}
-
-	for _, e := range GoStructRegistry.Userdef {
-		env.AddGlobal(e.RegisteredName, e)
+	addSorted := func(types map[string]*RegisteredType) {
+		names := make([]string, 0, len(types))
+		for name := range types {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			e := types[name]
+			env.AddGlobal(e.RegisteredName, e)
+		}
 	}
+	addSorted(GoStructRegistry.Builtin)
+	addSorted(GoStructRegistry.Userdef)
 }
 
 func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
@@ -470,7 +520,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
 		ptrRt.RegisteredName = ptrName
 		ptrRt.pointsTo = pointedToType
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		gsr.declare(ptrRt, ptrName)
 	}
 	return ptrRt
 }
@@ -490,7 +540,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.RegisteredName = sliceName
 		sliceRt.ElemType = rt
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		gsr.declare(sliceRt, sliceName)
 	}
 	return sliceRt
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b92b1b4..e27257a 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -93,7 +93,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
+	factory := env.types().Lookup(typename)
 	if factory == nil {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
@@ -142,8 +142,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	}
 
 	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
+	factoryShad := env.types().Lookup(typename)
+	if factoryShad != nil {
 		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
 		if factoryShad.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
@@ -166,7 +166,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		env.types().declare(factory, typename)
 	}
 
 	return &hash, nil
@@ -978,7 +978,7 @@ func (r *SexpHash) Type() *RegisteredType {
 		// the definition in force when r was made.
 		return r.GoStructFactory
 	}
-	return GoStructRegistry.Registry[r.TypeName]
+	return r.Env.types().Lookup(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 4f76a24..f4878e3 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -409,7 +409,7 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 				pairs = append(pairs, ele)
 			}
 		}
-		if rt := GoStructRegistry.Lookup(typeName); rt != nil && rt.UserStructDefn != nil {
+		if rt := env.types().Lookup(typeName); rt != nil && rt.UserStructDefn != nil {
 			for i := 0; i+1 < len(pairs); i += 2 {
 				field := pairs[i].(*SexpSymbol).name
 				pairs[i+1] = unsignedIfDeclared(pairs[i+1], rt.UserStructDefn.FieldType[field])
@@ -643,8 +643,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.types().Lookup(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -1002,8 +1002,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.types().Lookup(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
-- 
2.43.0


From 127fcc2d15a9fab75bcef9f685af75ed98bd6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 43/48] fix: error texts and printed scopes showed the
 addresses of objects

---
 zygo/bsave.go       |  4 ++--
 zygo/builders.go    |  2 +-
 zygo/environment.go | 29 +++++++++++++++++++++++------
 zygo/functions.go   | 10 +++++-----
 zygo/generator.go   |  6 +++---
 zygo/hashutils.go   |  6 +++---
 zygo/jsonmsgp.go    | 12 ++++++------
 zygo/pratt.go       |  8 ++++----
 zygo/rawutils.go    |  2 +-
 zygo/scopes.go      |  2 +-
 zygo/slurp.go       |  4 ++--
 zygo/source.go      |  2 +-
 zygo/stack.go       |  6 +++---
 zygo/system.go      |  6 +++---
 zygo/typeutils.go   |  2 +-
 zygo/vm.go          |  4 ++--
 16 files changed, 61 insertions(+), 44 deletions(-)

diff --git a/zygo/bsave.go b/zygo/bsave.go
index a50af2c..fbb1dd8 100644
--- a/zygo/bsave.go
+++ b/zygo/bsave.go
@@ -55,7 +55,7 @@ func WriteShadowGreenpackToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1])
+			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], shown(args[1]))
 		}
 
 		// don't overwrite existing file
@@ -111,7 +111,7 @@ func ReadGreenpackFromFileFunction(env *Zlisp, name string, args []Sexp) (Sexp,
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0])
+		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], shown(args[0]))
 	}
 
 	if !FileExists(string(fn)) {
diff --git a/zygo/builders.go b/zygo/builders.go
index 19f417b..e5e3f82 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -675,7 +675,7 @@ func baseConstruct(env *Zlisp, f *RegisteredType, nargs int) (Sexp, error) {
 		}
 		return mybool, nil
 	default:
-		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %#v/type=%T", arg, arg)
+		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %v/type=%T", shown(arg), arg)
 	}
 	//return SexpNull, fmt.Errorf("unhandled no-arg case in baseConstruct, v has type=%T", v)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index fda6cb6..7558805 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -524,7 +524,7 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	if funcobj == nil {
 		return fmt.Errorf("not a function on top of datastack: <nil>")
 	}
-	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("not a function on top of datastack: '%T/%v'", funcobj, shown(funcobj))
 }
 
 // prepareFunctionCall checks the nargs arguments on top of the datastack
@@ -603,6 +603,23 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// shown is the text of a value for use in a message; unlike %v and %#v
+// it never contains the address of an object.
+func shown(x Sexp) string {
+	if x == nil {
+		return "<nil>"
+	}
+	return x.SexpString(nil)
+}
+
+// shownElem is shown for an element of a stack.
+func shownElem(x StackElem) string {
+	if sx, ok := x.(Sexp); ok {
+		return shown(sx)
+	}
+	return fmt.Sprintf("%T", x)
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -727,7 +744,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	env.parser.NewInput(bufio.NewReader(in))
 	exp, err = env.parser.ParseTokens()
 	if err != nil {
-		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
+		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%v')\n", env.parser.Linenum(), err, err)
 	}
 
 	in.Close()
@@ -739,7 +756,7 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 	env.parser.ResetAddNewInput(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
+		return fmt.Errorf("Error on line %d: %v (LoadStream err='%v')\n", env.parser.Linenum(), err, err)
 	}
 	return env.LoadExpressions(expressions)
 }
@@ -842,7 +859,7 @@ func (env *Zlisp) DumpEnvironment() {
 	if !env.curfunc.user {
 		DumpFunction(env.curfunc.fun, env.pc)
 	}
-	fmt.Printf("DataStack (%p): (length %d)\n", env.datastack, env.datastack.Size())
+	fmt.Printf("DataStack: (length %d)\n", env.datastack.Size())
 	env.datastack.PrintStack()
 	fmt.Printf("Linear stack: (length %d)\n", env.linearstack.Size())
 	//env.linearstack.PrintScopeStack()
@@ -989,7 +1006,7 @@ func (env *Zlisp) showStackHelper(stack *Stack, name string) {
 	if n < 0 {
 		note = "(empty)"
 	}
-	fmt.Printf(" ========  env(%p).%s is %v deep: %s\n", env, name, n+1, note)
+	fmt.Printf(" ========  env.%s is %v deep: %s\n", name, n+1, note)
 	s := ""
 	for i := 0; i <= n; i++ {
 		ele, err := stack.Get(n - i)
@@ -1008,7 +1025,7 @@ func (env *Zlisp) showStackHelper(stack *Stack, name string) {
 			s, _ = x.Show(env, nil, label)
 		default:
 			panic(fmt.Errorf("unrecognized element on %s: %T/val=%v",
-				name, x, x))
+				name, x, shownElem(x)))
 		}
 		fmt.Println(s)
 	}
diff --git a/zygo/functions.go b/zygo/functions.go
index 642f24b..cb0a585 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -272,7 +272,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			case *SexpInt:
 				i = int(j.Val)
 			default:
-				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%#v'/type = %T", j, j)
+				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%v'/type = %T", shown(j), j)
 			}
 		}
 
@@ -931,7 +931,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpFunction:
 		fun = e
 	default:
-		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%#v'", e, e)
+		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%v'", e, shown(e))
 	}
 
 	switch e := args[1].(type) {
@@ -941,7 +941,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		x, err := MapList(env, fun, e)
 		return x, err
 	default:
-		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %#v", e, e)
+		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %v", e, shown(e))
 	}
 }
 
@@ -1306,8 +1306,8 @@ func threadingHelper(env *Zlisp, hash *SexpHash, args []Sexp) (Sexp, error) {
 		h, isHash := field.(*SexpHash)
 		if !isHash {
 			return SexpNull, fmt.Errorf("request for field '%s' was "+
-				"not on a hash or defmap; instead type %T with value '%#v'",
-				args[1].SexpString(nil), field, field)
+				"not on a hash or defmap; instead type %T with value '%v'",
+				args[1].SexpString(nil), field, shown(field))
 		}
 		return threadingHelper(env, h, args[1:])
 	}
diff --git a/zygo/generator.go b/zygo/generator.go
index b00eff4..d4b4e06 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -592,7 +592,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 			included = append(included, exps...)
 
 		default:
-			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
+			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, shown(item))
 		}
 
 		return nil
@@ -1363,7 +1363,7 @@ scanUpTheLoops:
 		}
 		loop, isLoop = lse.(*Loop)
 		if !isLoop {
-			panic(fmt.Errorf("unexpected type found on loopstack: type=%T  value='%#v'", lse, lse))
+			panic(fmt.Errorf("unexpected type found on loopstack: type=%T  value='%v'", lse, shownElem(lse)))
 		}
 		if !foundSym {
 			break scanUpTheLoops
@@ -1435,7 +1435,7 @@ scanUpTheLoops:
 		}
 		loop, isLoop = lse.(*Loop)
 		if !isLoop {
-			panic(fmt.Errorf("unexpected type found on loopstack: type=%T  value='%#v'", lse, lse))
+			panic(fmt.Errorf("unexpected type found on loopstack: type=%T  value='%v'", lse, shownElem(lse)))
 		}
 		if !foundSym {
 			break scanUpTheLoops
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e27257a..b8961df 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -484,7 +484,7 @@ func HashIsEmpty(hash *SexpHash) bool {
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
-		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
+		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%v'", keyOrd, shown(keyOrd))
 	}
 
 	// the listed keys the hash has come first, each once;
@@ -527,7 +527,7 @@ func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%#v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%v", args[0], shown(args[0]))
 	}
 	if h.NumMethod != -1 {
 		// use cached results
@@ -647,7 +647,7 @@ func GoFieldListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], shown(args[0]))
 	}
 
 	if !h.GoStructFactory.hasShadowStruct {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f4878e3..d2f571a 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -605,7 +605,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 	case *SexpBool:
 		return e.Val
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", e, shown(e))
 	}
 	return nil
 }
@@ -624,7 +624,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	case *SexpReflect:
 		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see SexpReflect '%[1]T'", asHash.Val.Interface())
 	default:
-		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%[1]T'/val=%#[1]v", arg)
+		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%T'/val=%v", arg, shown(arg))
 	case *SexpHash:
 		tn := asHash.TypeName
 		//vv("ToGo: SexpHash for tn='%s', shadowSet='%v'", tn, asHash.ShadowSet)
@@ -1073,8 +1073,8 @@ func SexpToGoStructs(
 				case *SexpSymbol:
 					recordKey = k.name
 				default:
-					fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
+					fmt.Printf(" skipping field '%v' which we don't know how to lookup.", shown(pair.Head))
+					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%v'", shown(pair.Head)))
 					continue
 				}
 				// We've got to match pair.Head to
@@ -1093,7 +1093,7 @@ func SexpToGoStructs(
 					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 					if !found {
 						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. src.JstonTagMap: '%#v'", recordKey, src.JsonTagMap))
+						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive.", recordKey))
 						continue
 					}
 				}
@@ -1150,7 +1150,7 @@ func SexpToGoStructs(
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", src, src)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", src, shown(src))
 	}
 	return target, nil
 }
diff --git a/zygo/pratt.go b/zygo/pratt.go
index f713967..169e84b 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -730,12 +730,12 @@ func InfixArgsToArray(name string, args []Sexp) (*SexpArray, bool, error) {
 				return nil, false, fmt.Errorf("infixExpand expects (infix []) as its argument; instead we saw '%T'", v.Tail)
 			}
 		}
-		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%v'", name, shown(args[0]))
 	case *SexpHash:
 		// an empty basic block {} that turned into an empty hash.
 		return nil, true, nil
 	default:
-		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%v'", name, shown(args[0]))
 	}
 	return arr, false, nil
 }
@@ -996,7 +996,7 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 			//Q("Expression sees an SexpPair")
 			// leaving curOp nil seems to work just fine here.
 		default:
-			panic(fmt.Errorf("how to handle cnode type = %#v", cnode))
+			panic(fmt.Errorf("how to handle cnode type = %T/%v", cnode, shown(cnode)))
 		}
 		//Q("curOp = %#v", curOp)
 
@@ -1109,7 +1109,7 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	}
 
-	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%#v", sx)
+	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%T/%v", sx, shown(sx))
 }
 
 func (p *Pratt) ShowCnodeStack() {
diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index 9adc714..5c1cea4 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -218,7 +218,7 @@ func MakeRaw(args []Sexp) (*SexpRaw, error) {
 			return e, nil
 		default:
 			return &SexpRaw{},
-				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, e)
+				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, shown(e))
 		}
 	}
 	return &SexpRaw{Val: raw}, nil
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..15da0db 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -312,7 +312,7 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/slurp.go b/zygo/slurp.go
index 322af1c..f4f2834 100644
--- a/zygo/slurp.go
+++ b/zygo/slurp.go
@@ -18,7 +18,7 @@ func SlurpfileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0])
+		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], shown(args[0]))
 	}
 
 	if !FileExists(string(fn)) {
@@ -75,7 +75,7 @@ func WriteToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1])
+			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], shown(args[1]))
 		}
 
 		if name == "write" || name == "writef" || name == "save" {
diff --git a/zygo/source.go b/zygo/source.go
index 21d4d4b..26da4a4 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -154,7 +154,7 @@ func (env *Zlisp) sourceItem(item Sexp) error {
 		}
 
 	default:
-		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item)
+		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, shown(item))
 	}
 
 	return nil
diff --git a/zygo/stack.go b/zygo/stack.go
index 314fc35..d9c523d 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -101,9 +101,9 @@ func (stack *Stack) Push(elem StackElem) {
 		stack.elements = append(stack.elements, elem)
 	case stack.tos > n-1:
 		// really irretreivably problematic
-		panic(fmt.Sprintf("stack %p is really messed up! starting size=%v > "+
+		panic(fmt.Sprintf("stack is really messed up! starting size=%v > "+
 			"len(stack.elements)=%v:\n here is stack: '%s'\n",
-			stack, stack.tos-1, n, stack.SexpString(nil)))
+			stack.tos-1, n, stack.SexpString(nil)))
 	default:
 		// INVAR stack.tos < n-1
 
@@ -161,7 +161,7 @@ func (stack *Stack) IsStackElem() {}
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return "already-saw Stack in Show", nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..defd4f1 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -45,7 +45,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	flat, err := flattenToWordsHelper(args)
 	if err != nil {
-		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
+		return SexpNull, fmt.Errorf("flatten on '%v' failed with error '%s'", shown(&SexpArray{Val: args}), err)
 	}
 	if len(flat) == 0 {
 		return SexpNull, WrongNargs
@@ -99,7 +99,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpPair:
 			carry, err := ListToArray(c)
 			if err != nil {
-				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
+				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%v'", err, c, shown(c))
 			}
 			moreWords, err := flattenToWordsHelper(carry)
 			if err != nil {
@@ -107,7 +107,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 			}
 			stringArgs = append(stringArgs, moreWords...)
 		default:
-			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%#v'", c, c)
+			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%v'", c, shown(c))
 		}
 	} // end i over args
 	// INVAR: stringArgs has our flattened list.
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..b3232ec 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -203,7 +203,7 @@ func TypeOf(expr Sexp) *SexpStr {
 	case *SexpDur:
 		v = "time.Duration"
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", e, shown(e))
 	}
 	return &SexpStr{S: v}
 }
diff --git a/zygo/vm.go b/zygo/vm.go
index d9e4cf4..d3ed51a 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -436,7 +436,7 @@ func (d DispatchInstr) Execute(env *Zlisp) error {
 		_, err := env.CallUserFunction(sxArrayOf, funcobj.SexpString(nil), d.nargs+1)
 		return err
 	}
-	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%v'", funcobj, shown(funcobj))
 }
 
 type ReturnInstr struct {
@@ -866,7 +866,7 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
 	top := cls.TopScope()
 	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
+	top.Show(env, ps8, "top of NewClosing")
 
 	env.datastack.PushExpr(myInvok)
 	return nil
-- 
2.43.0


From f74914d53e208f5ebec2d111fc91aa7ee1af2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 44/48] fix: results and printed text depended on the order Go
 walks its maps

---
 zygo/callgo.go      |  6 +++++-
 zygo/environment.go | 10 +++++++++-
 zygo/gotypereg.go   |  9 +++++++--
 zygo/hashutils.go   | 25 ++++++++++++++++++++++++-
 zygo/jsonmsgp.go    | 12 ++++++------
 zygo/scopes.go      | 10 +++++++---
 6 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index feea898..a056ff3 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -160,7 +160,11 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			default:
 				// go through the type registry
 				found := false
-				for hashName, factory := range GoStructRegistry.Registry {
+				for _, hashName := range ListRegisteredTypes {
+					factory := GoStructRegistry.Lookup(hashName)
+					if factory == nil {
+						continue
+					}
 					st, err := factory.Factory(env, nil)
 					if err != nil {
 						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
diff --git a/zygo/environment.go b/zygo/environment.go
index 7558805..7160c2c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
 )
 
@@ -126,7 +127,14 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// in a fixed order, so that symbols get the same numbers every time.
+	names := make([]string, 0, len(funcs))
+	for key := range funcs {
+		names = append(names, key)
+	}
+	sort.Strings(names)
+	for _, key := range names {
+		function := funcs[key]
 		sym := env.MakeSymbol(key)
 		env.builtins[sym.number] = MakeUserFunction(key, function)
 		env.AddFunction(key, function)
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index a6c0b6e..836e465 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -198,8 +198,13 @@ func (r *GoStructRegistryType) EnvAvail(env *Zlisp) {
 	if len(r.LazyFunc) == 0 {
 		return
 	}
-	for nm, fn := range r.LazyFunc {
-		env.AddFunction(nm, fn)
+	names := make([]string, 0, len(r.LazyFunc))
+	for nm := range r.LazyFunc {
+		names = append(names, nm)
+	}
+	sort.Strings(names)
+	for _, nm := range names {
+		env.AddFunction(nm, r.LazyFunc[nm])
 	}
 	// clear it out, all added.
 	r.LazyFunc = make(map[string]ZlispUserFunction)
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b8961df..31659a3 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -521,6 +521,25 @@ func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
 }
 
+// buckets is the entries of the hash in key order, as one bucket.
+func (hash *SexpHash) buckets() [][]*SexpPair {
+	all := make([]*SexpPair, 0, len(hash.KeyOrder))
+	for _, key := range hash.KeyOrder {
+		hashval, err := HashExpression(nil, singleElementKey(key))
+		if err != nil {
+			continue
+		}
+		for _, pair := range hash.Map[hashval] {
+			res, err := hash.Env.Compare(pair.Head, key)
+			if err == nil && res == 0 {
+				all = append(all, pair)
+				break
+			}
+		}
+	}
+	return [][]*SexpPair{all}
+}
+
 func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
@@ -727,7 +746,11 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 	// check for one of our registered structs
 
 	// go through the type registry upfront
-	for hashName, factory := range GoStructRegistry.Registry {
+	for _, hashName := range ListRegisteredTypes {
+		factory := GoStructRegistry.Lookup(hashName)
+		if factory == nil {
+			continue
+		}
 		//P("fillHashHelper is trying hashName='%s'", hashName)
 		st, err := factory.Factory(env, nil)
 		if err != nil {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index d2f571a..b4f9d6c 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -573,7 +573,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		}
 
 		m := make(map[string]interface{})
-		for _, arr := range e.Map {
+		for _, arr := range e.buckets() {
 			for _, pair := range arr {
 				key := SexpToGo(pair.Head, env, dedup)
 				val := SexpToGo(pair.Tail, env, dedup)
@@ -868,7 +868,7 @@ func SexpToGoStructs(
 			switch target.(type) {
 			case *map[string]string:
 				m := make(map[string]string)
-				for _, arr := range src.Map {
+				for _, arr := range src.buckets() {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -888,7 +888,7 @@ func SexpToGoStructs(
 
 			case *map[string]float64:
 				m := make(map[string]float64)
-				for _, arr := range src.Map {
+				for _, arr := range src.buckets() {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -913,7 +913,7 @@ func SexpToGoStructs(
 				//P("target is a map[int64]float64")
 
 				m := make(map[int64]float64)
-				for _, arr := range src.Map {
+				for _, arr := range src.buckets() {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -945,7 +945,7 @@ func SexpToGoStructs(
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.Map {
+					for _, arr := range src.buckets() {
 						for _, pair := range arr {
 							key := SexpToGo(pair.Head, env, dedup)
 							//val := SexpToGo(pair.Tail, env, dedup)
@@ -1064,7 +1064,7 @@ func SexpToGoStructs(
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
 		//maploop:
-		for _, arr := range src.Map {
+		for _, arr := range src.buckets() {
 			for _, pair := range arr {
 				recordKey = ""
 				switch k := pair.Head.(type) {
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 15da0db..741ebb2 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -285,6 +285,8 @@ func (scope *Scope) DeleteSymbolInScope(sym *SexpSymbol) error {
 type SymtabE struct {
 	Key string
 	Val string
+
+	number int
 }
 
 type SymtabSorter []*SymtabE
@@ -322,12 +324,14 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 		return
 	}
 	sortme := []*SymtabE{}
-	for symbolNumber, val := range scop.Map {
-		symbolName := env.revsymtable[symbolNumber]
-		sortme = append(sortme, &SymtabE{Key: symbolName, Val: val.SexpString(ps)})
+	for symbolNumber := range scop.Map {
+		sortme = append(sortme, &SymtabE{Key: env.revsymtable[symbolNumber], number: symbolNumber})
 	}
 	sort.Sort(SymtabSorter(sortme))
 	for i := range sortme {
+		// only now, as what one value prints can depend on
+		// what those before it have marked as seen in ps.
+		sortme[i].Val = scop.Map[sortme[i].number].SexpString(ps)
 		s += fmt.Sprintf("%s %s -> %s\n", rep4,
 			sortme[i].Key, sortme[i].Val)
 	}
-- 
2.43.0


From fc2a4ce6603e8164b7dea24c2e90045c3742f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 45/48] fix: stack traces and debug output in errors differed
 from run to run

---
 zygo/callgo.go      |  9 +++------
 zygo/environment.go | 25 ++++++++++++++++++++-----
 zygo/rawutils.go    |  4 ++--
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index a056ff3..111e198 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"fmt"
 	"reflect"
-	"runtime"
 )
 
 // call Go methods
@@ -18,15 +17,13 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	// protect against bad calls/bad reflection
 	var wasPanic bool
 	var recovered interface{}
-	tr := make([]byte, 16384)
-	trace := &tr
+	var trace string
 	sx, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				nbyte := runtime.Stack(*trace, false)
-				*trace = (*trace)[:nbyte]
+				trace = panicTrace()
 			}
 		}()
 
@@ -199,7 +196,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if wasPanic {
 		return SexpNull, fmt.Errorf("\n recovered from panic "+
 			"during CallGo. panic on = '%v'\n"+
-			"stack trace:\n%s\n", recovered, string(*trace))
+			"stack trace:\n%s\n", recovered, trace)
 	}
 	return sx, err
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 7160c2c..6f2de77 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -10,6 +10,7 @@ import (
 	"runtime"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 type PreHook func(*Zlisp, string, []Sexp)
@@ -620,6 +621,22 @@ func shown(x Sexp) string {
 	return x.SexpString(nil)
 }
 
+// panicTrace is the stack trace of a deferred function that recovered from a panic.
+// Unlike the one of runtime.Stack it does not contain what differs from run
+// to run, like the addresses of arguments or the number of the goroutine.
+func panicTrace() string {
+	pcs := make([]uintptr, 100)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
+	var s strings.Builder
+	for {
+		frame, more := frames.Next()
+		fmt.Fprintf(&s, "%s\n\t%s:%d\n", frame.Function, frame.File, frame.Line)
+		if !more {
+			return s.String()
+		}
+	}
+}
+
 // shownElem is shown for an element of a stack.
 func shownElem(x StackElem) string {
 	if sx, ok := x.(Sexp); ok {
@@ -656,15 +673,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = panicTrace()
 			}
 		}()
 
@@ -678,7 +693,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index 5c1cea4..0921dc6 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -180,11 +180,11 @@ func Raw64Builder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				case *SexpStr:
 					joined += extractRawHelper(tt.S)
 				default:
-					vv("don't know what to do with rhs of symbol %T/val=%v", rhs, rhs)
+					return SexpNull, fmt.Errorf("%s takes only strings; symbol %s holds %T/val=%v", name, t.name, rhs, shown(rhs))
 				}
 
 			default:
-				vv("don't know what to do with %T/val=%v", x, x)
+				return SexpNull, fmt.Errorf("%s takes only strings; we see %T/val=%v", name, x, shown(x))
 			}
 		}
 	}
-- 
2.43.0


From 7a42707739e78f48492a8b3a71428882a1d48b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 46/48] fix: demo structs registered by a script were visible
 to every other interpreter

---
 zygo/builders.go  |  6 ++---
 zygo/callgo.go    |  8 +++----
 zygo/functions.go |  2 +-
 zygo/gotypereg.go | 56 +++++++++++++++++++++++++++++++++++------------
 zygo/hashutils.go | 10 ++++-----
 zygo/pratt.go     | 14 +++++++-----
 6 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index e5e3f82..9b9156c 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -308,7 +308,7 @@ func StructBuilder(env *Zlisp, name string,
 		udsR.typ = rtR
 		early = rtR
 		rtR.DisplayAs = structName
-		env.types().declare(rtR, structName)
+		env.types().declare(rtR, false, structName)
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
@@ -387,7 +387,7 @@ func StructBuilder(env *Zlisp, name string,
 	rt.UserStructDefn = uds
 	uds.typ = rt
 	rt.DisplayAs = structName
-	env.types().declare(rt, structName)
+	env.types().declare(rt, false, structName)
 	//Q("good: registered new userdefined struct '%s'", structName)
 
 	// replace our recursive-reference-enabling symbol with the real one.
@@ -725,7 +725,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
 	arrayName := "arrayOf" + rt.RegisteredName
-	env.types().declare(arrayRt, arrayName)
+	env.types().declare(arrayRt, false, arrayName)
 	return arrayRt, nil
 }
 
diff --git a/zygo/callgo.go b/zygo/callgo.go
index 111e198..95206c1 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -157,11 +157,9 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			default:
 				// go through the type registry
 				found := false
-				for _, hashName := range ListRegisteredTypes {
-					factory := GoStructRegistry.Lookup(hashName)
-					if factory == nil {
-						continue
-					}
+				factories, names := env.types().withGoStruct()
+				for j, factory := range factories {
+					hashName := names[j]
 					st, err := factory.Factory(env, nil)
 					if err != nil {
 						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
diff --git a/zygo/functions.go b/zygo/functions.go
index cb0a585..e62c9e4 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1975,7 +1975,7 @@ func (env *Zlisp) SubstituteRHS(args []Sexp) ([]Sexp, error) {
 }
 
 func ScriptFacingRegisterDemoStructs(env *Zlisp, name string, args []Sexp) (Sexp, error) {
-	RegisterDemoStructs()
+	registerDemoStructs(env.types().declare)
 	return SexpNull, nil
 }
 
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 836e465..e295a7c 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -45,6 +45,9 @@ type GoStructRegistryType struct {
 	// for the types one interpreter has declared, the registry
 	// that all interpreters share; otherwise nil.
 	shared *GoStructRegistryType
+
+	// the names of those types, in the order of their declaration.
+	names []string
 }
 
 // types is the registry for what scripts declare while they run. Its types
@@ -174,9 +177,30 @@ func (e0 *RegisteredType) finishUserdef(name string, hasShadowStruct bool) {
 }
 
 // declare enters a type that a script has declared.
-func (r *GoStructRegistryType) declare(e *RegisteredType, name string) {
+func (r *GoStructRegistryType) declare(e *RegisteredType, hasShadowStruct bool, name string) {
+	if _, found := r.Registry[name]; !found {
+		r.names = append(r.names, name)
+	}
 	r.enter(name, e, true)
-	e.finishUserdef(name, false)
+	e.finishUserdef(name, hasShadowStruct)
+}
+
+// listed is the names of all types, in the order of their registration.
+func (r *GoStructRegistryType) listed() []string {
+	return append(append([]string(nil), ListRegisteredTypes...), r.names...)
+}
+
+// withGoStruct is the types that may stand for a Go struct, in the order of their registration.
+func (r *GoStructRegistryType) withGoStruct() (types []*RegisteredType, names []string) {
+	for i, name := range r.listed() {
+		e := r.Lookup(name)
+		if e == nil || (i >= len(ListRegisteredTypes) && !e.hasShadowStruct) {
+			continue
+		}
+		types = append(types, e)
+		names = append(names, name)
+	}
+	return
 }
 
 func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
@@ -469,7 +493,7 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if narg != 0 {
 		return SexpNull, WrongNargs
 	}
-	r := ListRegisteredTypes
+	r := env.types().listed()
 	s := make([]Sexp, len(r))
 	for i := range r {
 		s[i] = &SexpStr{S: r[i]}
@@ -525,7 +549,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
 		ptrRt.RegisteredName = ptrName
 		ptrRt.pointsTo = pointedToType
-		gsr.declare(ptrRt, ptrName)
+		gsr.declare(ptrRt, false, ptrName)
 	}
 	return ptrRt
 }
@@ -545,38 +569,42 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.RegisteredName = sliceName
 		sliceRt.ElemType = rt
-		gsr.declare(sliceRt, sliceName)
+		gsr.declare(sliceRt, false, sliceName)
 	}
 	return sliceRt
 }
 
 func RegisterDemoStructs() {
+	registerDemoStructs(func(e *RegisteredType, hasShadowStruct bool, name string) {
+		GoStructRegistry.RegisterUserdef(e, hasShadowStruct, name)
+	})
+}
 
-	gsr := &GoStructRegistry
+func registerDemoStructs(register func(e *RegisteredType, hasShadowStruct bool, name string)) {
 
 	// demo and user defined structs
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Event{}, nil
 	}}, true, "eventdemo")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Person{}, nil
 	}}, true, "persondemo")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Snoopy{}, nil
 	}}, true, "snoopy")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Hornet{}, nil
 	}}, true, "hornet")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Hellcat{}, nil
 	}}, true, "hellcat")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Weather{}, nil
 	}}, true, "weather")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Plane{}, nil
 	}}, true, "plane")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &SetOfPlanes{}, nil
 	}}, true, "setOfPlanes")
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 31659a3..95145fb 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -166,7 +166,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		env.types().declare(factory, typename)
+		env.types().declare(factory, false, typename)
 	}
 
 	return &hash, nil
@@ -746,11 +746,9 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 	// check for one of our registered structs
 
 	// go through the type registry upfront
-	for _, hashName := range ListRegisteredTypes {
-		factory := GoStructRegistry.Lookup(hashName)
-		if factory == nil {
-			continue
-		}
+	factories, names := env.types().withGoStruct()
+	for i, factory := range factories {
+		hashName := names[i]
 		//P("fillHashHelper is trying hashName='%s'", hashName)
 		st, err := factory.Factory(env, nil)
 		if err != nil {
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 169e84b..29335e4 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -611,6 +611,14 @@ func loopControlOpMunchRight(name string) RightMuncher {
 
 var arrayOp *InfixOp
 
+func init() {
+	// here and not above, as arrayOpMunchLeft uses arrayOp.
+	arrayOp = &InfixOp{
+		Bp:        80,
+		MunchLeft: arrayOpMunchLeft,
+	}
+}
+
 // InitInfixOps establishes the env.infixOps definitions
 // required for infix parsing using the Pratt parser.
 func (env *Zlisp) InitInfixOps() {
@@ -646,12 +654,6 @@ func (env *Zlisp) InitInfixOps() {
 	env.Infix("<", 40)
 	env.Infix("<=", 40)
 
-	// set the global arrayOp
-	arrayOp = &InfixOp{
-		Bp:        80,
-		MunchLeft: arrayOpMunchLeft,
-	}
-
 	dotOp := env.Infix(".", 80)
 	dotOp.MunchLeft = dotOpMunchLeft
 
-- 
2.43.0


From 5584760b4c398daca5fa643d55f4bd510562a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 47/48] fix: conversion errors and debug output showed Go
 values with their addresses

The key and value errors of SexpToGo print the expression instead of
what it was converted to; leftover debug printing is gone.
---
 zygo/comparisons.go |  5 -----
 zygo/jsonmsgp.go    | 22 +++++++++++-----------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index bf41b0a..21a227b 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -112,11 +112,6 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 		case *int64:
 			return orderInt(i.Val, *z), nil
 		}
-		P("compareInt(): ifa = %v/%T", ifa, ifa)
-		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
-		P("compareInt(): r.Elem().Interface() = %v/%T", r.Elem().Interface(), r.Elem().Interface())
-		P("compareInt(): r.Elem().Type() = %v/%T", r.Elem().Type(), r.Elem().Type())
-		P("compareInt(): r.Elem().Type().Name() = %v/%T", r.Elem().Type().Name(), r.Elem().Type().Name())
 	}
 	errmsg := fmt.Sprintf("err 92: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index b4f9d6c..2528f7b 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -445,9 +445,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		nm := fmt.Sprintf("%T", val)
 		rt := GoStructRegistry.Lookup(nm)
 		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
+			fmt.Printf("unknown type '%s' in type switch.\n", nm)
 		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
+			fmt.Printf("TODO: known struct '%s' in GoToSexp(). TODO: make a record for it.\n", nm)
 		}
 		return SexpNull
 	}
@@ -579,7 +579,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 				val := SexpToGo(pair.Tail, env, dedup)
 				keyString, isStringKey := key.(string)
 				if !isStringKey {
-					panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
+					panic(fmt.Errorf("key '%v' should have been a string, but was not.", shown(pair.Head)))
 				}
 				m[keyString] = val
 			}
@@ -874,11 +874,11 @@ func SexpToGoStructs(
 						val := SexpToGo(pair.Tail, env, dedup)
 						keys, isstr := key.(string)
 						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+							panic(fmt.Errorf("key '%v' should have been an string, but was not.", shown(pair.Head)))
 						}
 						vals, isstr := val.(string)
 						if !isstr {
-							panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
+							panic(fmt.Errorf("val '%v' should have been an string, but was not.", shown(pair.Tail)))
 						}
 						m[keys] = vals
 					}
@@ -894,7 +894,7 @@ func SexpToGoStructs(
 						val := SexpToGo(pair.Tail, env, dedup)
 						keys, isstr := key.(string)
 						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+							panic(fmt.Errorf("key '%v' should have been an string, but was not.", shown(pair.Head)))
 						}
 						switch x := val.(type) {
 						case float64:
@@ -902,7 +902,7 @@ func SexpToGoStructs(
 						case int64:
 							m[keys] = float64(x)
 						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
+							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", shown(pair.Tail)))
 						}
 					}
 				}
@@ -919,7 +919,7 @@ func SexpToGoStructs(
 						val := SexpToGo(pair.Tail, env, dedup)
 						keyint64, isint64Key := key.(int64)
 						if !isint64Key {
-							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
+							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", shown(pair.Head)))
 						}
 						switch x := val.(type) {
 						case float64:
@@ -927,7 +927,7 @@ func SexpToGoStructs(
 						case int64:
 							m[keyint64] = float64(x)
 						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
+							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", shown(pair.Tail)))
 						}
 					}
 				}
@@ -951,7 +951,7 @@ func SexpToGoStructs(
 							//val := SexpToGo(pair.Tail, env, dedup)
 							keys, isstr := key.(string)
 							if !isstr {
-								panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+								panic(fmt.Errorf("key '%v' should have been an string, but was not.", shown(pair.Head)))
 							}
 							//vv("keys = '%v'", keys)
 
@@ -972,7 +972,7 @@ func SexpToGoStructs(
 				}
 				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
 			}
-			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind))
+			panic(fmt.Sprintf("not done here yet, target has type = '%T'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
 			// but instead... what? just a map[string]interface{}
-- 
2.43.0


From 89bae439230aef5806b8c0031d3d808fc19cdac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 48/48] fix: printing a hash with a dot-symbol key panicked

A dot-symbol stored as a key was followed as a path when the hash was
printed, compared or encoded.
---
 zygo/builders.go  |  6 +++---
 zygo/generator.go |  2 +-
 zygo/hashutils.go | 47 +++++++++++++++++++++++++++++++++--------------
 zygo/jsonmsgp.go  |  2 +-
 4 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 9b9156c..7e5b6a6 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -164,7 +164,7 @@ func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.entry(key)
 		str := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -189,7 +189,7 @@ func (f *SexpField) AlignString(pad []int) string {
 	str := " (" + hash.TypeName + " "
 	spc := " "
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.entry(key)
 		r := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -229,7 +229,7 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 	str := " (" + hash.TypeName + " "
 
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.entry(key)
 		if err == nil {
 			switch s := key.(type) {
 			case *SexpStr:
diff --git a/zygo/generator.go b/zygo/generator.go
index d4b4e06..7b1c0e9 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1294,7 +1294,7 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 	for i := 0; i < n; i++ {
 		// must reverse order here to preserve order on rebuild
 		key := hash.KeyOrder[(n-i)-1]
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.entry(key)
 		if err != nil {
 			return err
 		}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 95145fb..c8bbaad 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -219,6 +219,31 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 	return val, nil
 }
 
+// sameKey tells if a and b are the same hash key. A dot-symbol
+// is a key itself; it does not stand for the value at its path.
+func sameKey(env *Zlisp, a Sexp, b Sexp) bool {
+	x, xIsSym := a.(*SexpSymbol)
+	y, yIsSym := b.(*SexpSymbol)
+	if xIsSym || yIsSym {
+		return xIsSym && yIsSym && x.number == y.number
+	}
+	res, err := env.Compare(a, b)
+	return err == nil && res == 0
+}
+
+// entry returns the value stored under one of the keys in KeyOrder.
+// Unlike in HashGet such a key is not a path to follow, even if it is a dot-symbol.
+func (hash *SexpHash) entry(key Sexp) (Sexp, error) {
+	val, err := hash.HashGetDefault(hash.Env, key, SexpEnd)
+	if err != nil {
+		return SexpNull, err
+	}
+	if val == SexpEnd {
+		return SexpNull, fmt.Errorf("%s has no field '%s' [err 1]", hash.TypeName, key.SexpString(nil))
+	}
+	return val, nil
+}
+
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
 	key = singleElementKey(key)
 	hashval, err := HashExpression(env, key)
@@ -236,8 +261,7 @@ func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sex
 	}
 
 	for _, pair := range arr {
-		res, err := env.Compare(pair.Head, key)
-		if err == nil && res == 0 {
+		if sameKey(env, pair.Head, key) {
 			return pair.Tail, nil
 		}
 	}
@@ -392,8 +416,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 
 	found := false
 	for i, pair := range arr {
-		res, err := hash.Env.Compare(pair.Head, key)
-		if err == nil && res == 0 {
+		if sameKey(hash.Env, pair.Head, key) {
 			arr[i] = Cons(key, val)
 			found = true
 		}
@@ -424,8 +447,7 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 	}
 
 	for i, pair := range arr {
-		res, err := hash.Env.Compare(pair.Head, key)
-		if err == nil && res == 0 {
+		if sameKey(hash.Env, pair.Head, key) {
 			if len(arr) == 1 {
 				delete(hash.Map, hashval)
 			} else {
@@ -444,8 +466,7 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 func (hash *SexpHash) dropFromKeyOrder(key Sexp) {
 	order := make([]Sexp, 0, len(hash.KeyOrder))
 	for _, k := range hash.KeyOrder {
-		res, err := hash.Env.Compare(k, key)
-		if err == nil && res == 0 {
+		if sameKey(hash.Env, k, key) {
 			continue
 		}
 		order = append(order, k)
@@ -493,8 +514,7 @@ func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 	var order []Sexp
 	for _, key := range keys.Val {
 		for i, k := range rest {
-			res, err := hash.Env.Compare(k, key)
-			if err == nil && res == 0 {
+			if sameKey(hash.Env, k, key) {
 				order = append(order, k)
 				rest = append(append([]Sexp(nil), rest[:i]...), rest[i+1:]...)
 				break
@@ -513,7 +533,7 @@ func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
 			pos, nk)
 	}
 	key := hash.KeyOrder[pos]
-	val, err := hash.HashGet(nil, key)
+	val, err := hash.entry(key)
 	if err != nil {
 		return &SexpPair{}, err
 	}
@@ -530,8 +550,7 @@ func (hash *SexpHash) buckets() [][]*SexpPair {
 			continue
 		}
 		for _, pair := range hash.Map[hashval] {
-			res, err := hash.Env.Compare(pair.Head, key)
-			if err == nil && res == 0 {
+			if sameKey(hash.Env, pair.Head, key) {
 				all = append(all, pair)
 				break
 			}
@@ -956,7 +975,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(hash.Env, key)
+		val, err := hash.entry(key)
 		if err == nil {
 			onKey++
 			switch s := key.(type) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 2528f7b..fce945d 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -178,7 +178,7 @@ func (hash *SexpHash) jsonHashHelper(meta bool) (string, error) {
 			return "", err
 		}
 		ko = append(ko, keyst)
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.entry(key)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0

