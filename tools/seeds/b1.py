SEEDS.append(dict(id='C04-label-break-mark',property='C04',
 edits=[('zygo/vm.go','''		switch m := expr.(type) {
		case *SexpStackmark:
			if m.sym.number == s.sym.number {
				break toploop
			}
		}
	}
	env.pc++
	return nil
}

type DebugInstr''','''		if _, isMark := expr.(*SexpStackmark); isMark {
			break toploop
		}
	}
	env.pc++
	return nil
}

type DebugInstr''')],
 needs='a labelled break out of a loop nested in another loop',
 breaks="clearing a loop's operands stops at the first stack mark met, which is the inner loop's, so the outer loop's mark stays on the datastack",
 cases='''(for outer: [(def i 0) (< i 2) (set i (+ i 1))] (for [(def j 0) (< j 2) (set j (+ j 1))] (cond (== j 1) (break outer:) nil))) => nil
(for [(def i 0) (< i 2) (set i (+ i 1))] (cond (== i 1) (break) nil)) => nil'''))
SEEDS.append(dict(id='C09-and-arm-scopes',property='C09',
 edits=[('zygo/generator.go','''	subgen := gen.NewSubGenerator()
	subgen.scopes = gen.scopes
	subgen.Tail = gen.Tail
	subgen.funcname = gen.funcname
	err := subgen.Generate(args[size-1])
''','''	subgen := gen.NewSubGenerator()
	subgen.Tail = gen.Tail
	subgen.funcname = gen.funcname
	err := subgen.Generate(args[size-1])
''')],
 needs='a tail self-call as the last arm of and/or inside a let',
 breaks='the scopes around the and/or are not dropped by the tail call: the scope stack grows by one per iteration and is not back at rest afterwards',
 cases='''(defn f [n] (let [a n] (and (> a 0) (f (- a 1))))) ;; (f 5) ;; (f 0) => nil | false | false
(defn f [n] (and (> n 0) (f (- n 1)))) ;; (f 5) => nil | false'''))
SEEDS.append(dict(id='C07-float-uint64',property='C07',
 edits=[('zygo/numerictower.go','''	case *SexpInt:
		fb = &SexpFloat{Val: float64(tb.Val)}
	case *SexpUint64:
		fb = &SexpFloat{Val: float64(tb.Val)}
''','''	case *SexpInt:
		fb = &SexpFloat{Val: float64(tb.Val)}
	case *SexpUint64:
		fb = &SexpFloat{Val: float64(int64(tb.Val))}
''')],
 needs='float op uint64 with a uint64 of at least 2^63',
 breaks='the uint64 operand is read as a negative number',
 cases='''(> (+ 1.0 18446744073709551615ULL) 0.0) => true
(== 4.0 (+ 1.0 3ULL)) => true'''))
SEEDS.append(dict(id='C02-continue-cached',property='C02',
 edits=[('zygo/generator.go','''	len_body_code := len(subgenBody.instructions)

	// generate the init code
	subgenInit := gen.NewSubGenerator()
	subgenInit.Tail = false
	subgenInit.scopes = gen.scopes
''','''	len_body_code := len(subgenBody.instructions)

	// generate the init code
	subgenInit := gen.NewSubGenerator()
	subgenInit.Tail = false
'''),],
 needs='a (break outer:) inside the init clause of a loop nested in a let of another loop',
 breaks='a break out of an init clause does not leave the scopes between the loops, so later lookups see the wrong bindings',
 cases='''(begin (def i 7) (for outer: [(def i 0) (< i 2) (set i (+ i 1))] (for [(let [v 5] (break outer:)) true 0] 1)) i) => 7'''))
