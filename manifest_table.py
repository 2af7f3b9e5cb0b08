T["C07"]=("path-sensitive abstract interpretation of the comparison and arithmetic builtins over go/ssa, operands opaque, complete finite partition of orderings",
 "Decides comparison for every operand pair of the numeric kinds via the finite set of orderings and NaN cases; arithmetic by equality of the computed symbolic term with the specified Go operation. Literal parsing and printing are not part of it.")

T["C02"]=("abstract interpretation (go/ssa) of generators and VM over program schemata with opaque holes, compared path by path with a reference form semantics",
 "Decides every core form, every nesting of two core forms and loop exits from every context, for all values and effects of the sub-programs (induction over syntax). Loops are followed to a bounded number of hole evaluations; deeper nestings rest on the induction argument.")
T["C04"]=("abstract interpretation (go/ssa) with stack-height tracking over program schemata, plus an abstract heap-footprint growth analysis",
 "Stack heights and empty-input result decided on every path of every schema; growth by heap footprint of four successive abstract evaluations per text.")
T["C09"]=("abstract interpretation (go/ssa) with stack-height and call-depth tracking over tail-call schemata",
 "Every composition of tail contexts to depth 2 (3 thorough) around a self call, and self calls in every strict position; iteration count abstracted by the bound on hole evaluations.")
T["C03"]=("abstract interpretation (go/ssa) of closure creation, capture and variable access over program schemata, compared path by path with a lexical-scoping reference",
 "Every binding construct wrapped around every closure-making construct used at every use site (called, passed, returned, stored, tail call), depth 2, for all values and effects of the sub-programs; deeper nesting rests on the induction argument.")
T["C05"]=("abstract interpretation (go/ssa) with stack-height tracking over program schemata whose every hole may fail by error or by panic",
 "Every failure point of every core form and nesting of two, of mixed definition/failure programs and of several hundred ill-formed texts (reader, generator, macro, file and callback errors): rest state, intact definitions and the next evaluation are decided on every path. Texts are a finite list; deeper nestings rest on the induction argument.")
T["C06"]=("abstract interpretation (go/ssa) of the infix translation and evaluation over block schemata, judged by a layered-grammar reading of the precedence table",
 "Every ordered operator pair, every triple of level representatives and all operand decorations are decided structurally; values, effects and order with opaque operands; all ordered pairs of statement kinds with each separator. Longer chains rest on the induction the binding-power loop supports.")
T["C13"]=("abstract interpretation (go/ssa) of lexer and parser over texts cut at every position and over preceding histories, behaviours of whole and pieced delivery compared",
 "Several hundred texts covering every token kind, bracket, quote form and comment, each cut at every position (and in two), and after every kind of earlier text, failed or abandoned; verdict exact for those texts and cuts, the parser having no other source of state than the fields tracked. Longer texts rest on the lexer being a finite-mode machine.")
T["C16"]=("abstract interpretation (go/ssa) of compiler and VM over function bodies, argument expressions, call routes and call sites with lazy parameters, behaviours compared with a reference evaluator",
 "Every combination of about 25 bodies, 15 argument expressions and 30 call routes, with opaque host values and both outcomes of every condition, must give exactly the reference's values, host-call order and errors; multi-parameter, variadic, rebinding, recursive and failing cases separately. Nesting depth bounded by the generated texts; larger ones rest on the compiler being compositional.")
T["C14"]=("abstract interpretation (go/ssa) of the hash operations to a fixpoint over the reachable hash representations, observations compared with an ordered-map model",
 "For nine families of keys (symbols, integers, strings, characters, arrays, colliding codes, mixed, named types) the set of reachable representations of hashes over three keys (four thorough) and two values is computed completely and every observer agrees with the ordered-map model in each state, for operation histories of any length. More keys rest on buckets and key order being handled uniformly.")
T["C15"]=("abstract interpretation (go/ssa) of template compilation and macro expansion over generated templates, behaviours compared with the hand-substituted forms and a reference template evaluator",
 "Templates of every shape up to depth three (lists, arrays, hashes, nested unquotes and splices), every unquoted expression kind, and macros at every call site, must behave exactly as the substituted text for all values of the opaque sub-programs; macro bodies are a finite list. Larger templates rest on the compiler being compositional.")
T["C18"]=("abstract interpretation (go/ssa) of compiler, VM and dot-path resolution over every path through generated packages x spelling x way of naming the package, compared with a visibility model",
 "Six packages (members of every kind and case, nested packages and hashes to depth four) x 18 ways of naming the package from outside x every member path x reading, calling and assigning spellings; plus programs about code inside. Deeper nesting rests on path resolution being a loop over path elements.")
T["C19"]=("abstract interpretation (go/ssa) of symbol creation in the original interpreter, duplicates and clones, over interleavings with opaque and colliding names",
 "Interning and generation are checked for every order of creation over up to three interpreters sharing a table, with names opaque or adversarially equal to generated ones.")
T["C17"]=("abstract interpretation (go/ssa) of struct declaration, construction and every field-write route over generated field types and values, compared with a typing model; footprint of rejected writes",
 "Every declared field type x every value x every write route (constructor, hset, dot path, infix assignment, pointer, json/msgpack decoding) must be accepted or rejected as the model says and leave the instance as it was when rejected; field types and values are finite generated lists, values of a kind opaque.")
T["C11"]=("abstract interpretation (go/ssa) of the json/msgpack encoders and decoders over generated values with opaque scalars, the produced text read back structurally and judged against the value",
 "Every shape to depth three of records, hashes, arrays and scalars, opaque strings and numbers followed as atoms through the encoder and codec, and a list of adversarial strings and numbers folded exactly; the codec library's own code is modelled, not analysed.")
T["C12"]=("abstract interpretation (go/ssa) of the printer, lexer, parser and evaluator over a grammar of literal spellings and data values, judged against exact rational/rune semantics of the literals",
 "Every numeric, character and string literal spelling of a generated grammar (each notation, sign, underscore, suffix, magnitude boundary, escape, every rune class) must denote its exact value; every generated data value must read back and evaluate back as itself; opaque integers, floats and strings are followed as atoms through printer and reader.")
T["C08"]=("call-graph reachability (go/ssa) from every function bound in the abstractly interpreted sandbox and from every entry point for program text, with interprocedural conditional constant propagation over permission flags, to outside-world functions of the standard library",
 "All code of the module and of its third-party dependencies that can run on behalf of a script in the three sandbox configurations is followed (function values and interface calls over-approximated); the standard library is not followed but classified by a list of outside-world functions.")
T["C20"]=("effect and reachability analysis (go/ssa) of every loop over a Go map, every source of run-dependent values, every format operand and every package-level variable reachable from a script",
 "All code of the module that can run on behalf of a script is followed (function values and interface calls over-approximated). Map loops must be order-independent by an interprocedural effect analysis or be sorted afterwards; sorts are assumed to be total orders; third-party codecs are assumed canonical as configured (the configuration is checked by C11).")
T["C01"]=("abstract interpretation (go/ssa) of reader, compiler, VM, printer and builtins over generated malformed texts with opaque values, plus call-graph reachability of process-ending functions",
 "Every path of every text of the families: all token strings up to a length bound, every one-token mutant of each core form, ill-shaped special forms, REPL lines, builtins times ill-kinded operands; a panic, exit or endless interpreter loop on any path is reported. Longer texts rest on the reader and compiler being compositional; exhaustion of the Go stack or of memory is outside it.")
