package main

func init() { checks["C02"] = checkC02; sharded["C02"] = true }

func newSchemaCtx(c *Ctx, fail bool, max int) *Schemas {
	f, err := NewFix(c.P, "NewZlisp")
	if err != nil {
		c.Undecided("fixture", "NewZlisp", err)
		return nil
	}
	return NewSchemas(c, f, fail, max)
}

const schemaExplain = " Method: abstract interpretation of the interpreter's own SSA (reader, generators, VM instructions, environment) over program schemata: language constructs whose leaves are holes. A value hole stands for any terminating sub-program yielding an arbitrary integer (its result is an opaque term), a predicate hole for any sub-program yielding an arbitrary boolean; every branch on a hole is explored both ways; the heap is abstract. One schema therefore covers every instantiation of its holes, and by induction over syntax nesting covers the construct. No zygomys code is executed and no solver is involved."

var schemaAssume = []string{
	"holes stand for sub-programs that obey the same specification (induction over program syntax)",
	"the Go semantics implemented by the abstract interpreter (checker/exec.go) and the summaries of standard-library calls (checker/stubs*.go)",
	"loops whose exit depends on a hole are followed up to the per-schema bound on hole evaluations",
}

func checkC02(c *Ctx) {
	c.Explain = "Every core special form, call form and nesting of two of them, plus break/continue from every context inside loops, compared with the reference form semantics (checker/ref.go): same sequence of hole evaluations (each hole exactly when and as often as the reference says), same value, error exactly when the reference errs." + schemaExplain
	c.Assume = schemaAssume
	c.Floor("form", 50)
	c.Floor("nested-form", 3000)
	c.Floor("loop-exit", 80)
	c.Floor("loop-scope", 80)
	s := newSchemaCtx(c, false, 10)
	if s == nil {
		return
	}
	for _, t := range coreForms {
		s.Check(c, "form", fill(t), aSem)
	}
	for _, t := range flatForms {
		s.Check(c, "form", fill(t), aSem)
	}
	for _, t := range nest2(coreForms, coreForms) {
		s.Check(c, "nested-form", fill(t), aSem)
	}
	for _, t := range loopSchemas(1) {
		s.Check(c, "loop-exit", fill(t), aSem)
	}
	for _, t := range loopScopeSchemas() {
		s.Check(c, "loop-scope", fill(t), aSem)
	}
	c.Stats["schemata"] = s.Runs
	c.Stats["paths"] = s.Paths
}
