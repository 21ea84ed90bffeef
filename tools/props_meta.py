# The table of properties: source of properties.jsonl and MANIFEST.json.
C = "ticc/src/compiler/"
A = "ticc/src/api/"
E = "ticc-eval/src/"
O = "ticc/src/codegen/opt/"
REF = "Reach is what the generator produces within the time budget (evidence counts programs, judgements and distinct shapes); the oracle is an independent implementation of the language rules in the harness, which is trusted. "

PROPS = [
dict(id="P01", title="Every query ends without crashing on any source text",
 statement="For every source text, valid or not, and every position in it, asking the compiler for diagnostics, highlighting, definitions, references, hover information or completions ends and does not panic or crash. This includes programs that import modules which are themselves broken, missing, unreadable or cyclic.",
 over=["inputs", "programs"], forall="all texts (well formed programs, damaged programs, token soup, arbitrary unicode and line ends) split in any way into modules, all byte positions on a character boundary, nesting within a bound",
 why="The tests compile a few hundred fixed files that are well formed or hold one error each; they ask queries at a handful of hand picked positions, and never on damaged text.",
 files=[C+"parser.rs", C+"resolve.rs", C+"typeck.rs", C+"kindck.rs", C+"matchck.rs", A+"completion.rs", A+"info.rs", A+"navigation.rs"],
 mech=[("error tolerant parser over one item at a time", C+"parser.rs parse_one_item"), ("missing syntax becomes error types", C+"resolve.rs"), ("type checker taints types of broken code", C+"typeck.rs TypeChecker")],
 technique="crash and hang monitor over damaged and generated sources, all queries at many positions, worker processes with stall detection",
 note="Panics, aborts, stack overflows and stalls of any query are violations. Nesting depth and text size are bounded by the generator; very deep nesting overflows the native stack and is left out."),
dict(id="P02", title="Highlighting covers exactly the tokens of the text, with the right classes",
 statement="For every source text the highlighting tokens come in text order, do not overlap, and are exactly the keywords, names, holes, numbers, strings, operators, punctuation and comments of the text at their exact positions; white space and invalid characters get none. In a valid program every name is classified by what it refers to: a value, constructor, type or type variable.",
 over=["inputs", "programs"], forall="all texts as in P01; for name classes all well formed programs",
 why="Tests compare the highlighting of a few snippets; nothing checks that arbitrary text, with broken items, comments and unicode, is covered exactly.",
 files=[C+"lexer.rs", C+"parser.rs", A+"tokens.rs", "ticc-syntax/src/lib.rs"],
 mech=[("lexer", C+"lexer.rs"), ("lossless syntax tree with trivia", C+"parser.rs and ticc-syntax"), ("token classes from resolved symbols", A+"tokens.rs convert_token")],
 technique="differential monitor: independent lexer and name resolver against the reported tokens",
 note=REF+"The class of a name is only judged in programs without errors."),
dict(id="P03", title="Answers do not depend on which queries came before",
 statement="Every query about a source text gives the same answer no matter which other queries were made on the same compiled unit before it, in which order, or how often.",
 over=["histories", "programs"], forall="all sequences of queries (of every kind, any position) on well formed and damaged programs; each answer compared with the answer of a fresh unit",
 why="Compilation is lazy and incremental, and tests make one query per fresh unit, so no history with two queries is ever seen.",
 files=["ticc/src/lib.rs", A+"navigation.rs", A+"info.rs", A+"completion.rs"],
 mech=[("incremental compilation up to an offset", "ticc/src/lib.rs compile_up_to"), ("queries compile what they need", A+"*.rs")],
 technique="history monitor: random query histories replayed against fresh units",
 note="Each query of a random history is compared with the same query on a fresh unit, and histories end with a repetition of their first queries."),
dict(id="P04", title="Answers are a function of the texts alone",
 statement="Compiling the same texts again (in the same process, in another one, on any number of threads at once, with finished modules shared between threads, with IR verification on or off, however long resolving a module takes) gives the same diagnostics, tokens, query answers, IR, values and output; threads that start using the standard modules at the same time all finish.",
 over=["schedules", "programs", "histories"], forall="all projects (valid, mutated, damaged), 4 to 8 threads with random delays, fresh processes",
 why="Tests compile each text once, on one thread; random hash seeds and schedules vary only between runs.",
 files=["ticc/src/builtin.rs", "ticc/src/lib.rs", C+"resolve.rs", "ticc/src/codegen/gen_core.rs", "ticc/src/codegen/opt.rs", "ticc/src/api/completion.rs"],
 mech=[("standard modules compiled lazily behind locks", "ticc/src/builtin.rs LazyModule"), ("symbols from a global counter", C+"ir.rs"), ("finished modules shared by reference", "ticc/src/lib.rs CompleteUnit")],
 technique="replicated execution monitor: all answers compared across repeats, racing threads and processes",
 note="Everything under test here is safe Rust, so data races are excluded by the compiler; what is watched is lock order, dependence on schedules and on random hash seeds."),
dict(id="P05", title="Go to definition and find references are exact",
 statement="In a valid program, go to definition on any use or definition of a name leads to its definition (for a name from another module: to the import that exposes it in this file, or nowhere), and find references lists exactly the uses of that entity in the file. Off names there is no answer. This respects shadowing, local scopes, type variables and the separate name spaces.",
 over=["programs", "inputs"], forall="all well typed multi module programs of the generator, all positions on and between names",
 why="Tests check single cursors in small snippets; scoping rules interact in ways (shadowing across kinds, type variables, reexposed names) that no snippet covers.",
 files=[A+"navigation.rs", "ticc/src/api.rs", C+"resolve.rs", "ticc/src/compiler.rs"],
 mech=[("scopes with parents", "ticc/src/compiler.rs Scope"), ("definitions and references recorded by name resolution", C+"resolve.rs"), ("lookup by position", "ticc/src/api.rs find_ref_at")],
 technique="differential monitor: independent name resolution against navigation answers at every name",
 note=REF+"Names used through a module name (m.x) are not judged as references of an exposed x."),
dict(id="P06", title="Hover shows the right type of every name and expression",
 statement="In a valid program, asking for information on a name gives the name and its declared or inferred type (for a type its kind), and on any other part of an expression the type of the smallest expression around the position.",
 over=["programs", "inputs"], forall="all well typed programs of the generator, all positions on names and in expressions",
 why="Tests hover over a few names of known type; inference over arbitrary programs is not sampled.",
 files=[A+"info.rs", "ticc/src/api.rs", C+"typeck.rs"],
 mech=[("types of all expressions from unification", C+"typeck.rs"), ("type printing", "ticc/src/api.rs TypePrinter"), ("smallest expression by position", A+"info.rs find_expr_at_pos")],
 technique="differential monitor: independent type inference and type printer against hover answers",
 note=REF+"Types that mention entities whose name is not available in the file are compared up to those parts."),
dict(id="P07", title="Completions are exactly the names in scope",
 statement="Completing at a name offers, sorted and without duplicates, exactly the names that would be accepted there: the values and constructors, types, constructors or modules visible at that place by the scoping rules, and after a module name exactly the fitting exports of that module.",
 over=["programs", "inputs"], forall="all well typed multi module programs of the generator, all name positions, complete and partial names",
 why="Tests complete at a few cursors in small snippets; scoping over nested lets, matches, lambdas, type variables and imports is not covered.",
 files=[A+"completion.rs", C+"resolve.rs", "ticc/src/compiler.rs"],
 mech=[("reparse with a temporary name", A+"completion.rs"), ("collect names from scopes and exports", A+"completion.rs Resolver")],
 technique="differential monitor: independent scoping model against completion lists",
 note=REF),
dict(id="P08", title="Every well typed program is accepted",
 statement="A program that follows the documented scoping, kind, type and match coverage rules compiles without any error diagnostic, however its definitions, annotations, modules and layout are arranged.",
 over=["programs"], forall="all programs built well typed by the generator: polymorphic, higher order, recursive data, folds, holes, several modules, all layouts",
 why="The tests hold a few dozen accepted programs; acceptance of all combinations of features cannot be listed.",
 files=[C+"typeck.rs", C+"resolve.rs", C+"kindck.rs", C+"matchck.rs", C+"parser/expr.rs"],
 mech=[("unification based inference", C+"typeck.rs"), ("scopes", C+"resolve.rs"), ("coverage", C+"matchck.rs")],
 technique="oracle by construction: generated well typed programs must compile without errors",
 note=REF),
dict(id="P09", title="Ill typed, ill scoped and ill kinded programs are rejected where they are wrong",
 statement="A program with a type, scope or kind error gets an error diagnostic, and the first definition of a module that has an error diagnostic is the first definition that breaks a rule.",
 over=["programs"], forall="all programs reached by one to three edits (of types, names, arguments, operators, constructors, scopes) from well typed programs",
 why="Each rejection test has one hand written error of one kind; whether every combination of context and error is noticed is open.",
 files=[C+"typeck.rs", C+"resolve.rs", C+"kindck.rs", C+"numck.rs"],
 mech=[("unification errors", C+"typeck.rs unify"), ("undefined names", C+"resolve.rs"), ("type argument counts", C+"kindck.rs"), ("number ranges", C+"numck.rs")],
 technique="differential monitor: mutated programs judged by an independent type checker",
 note=REF),
dict(id="P10", title="Match coverage is decided exactly",
 statement="A match is reported as incomplete exactly when some constructor of the matched type has no case, at that match, and a case is reported as unreachable exactly when its constructor was already covered. A match on a value that has no constructors (of a primitive, function or variable type) is rejected at that value, even when it has no cases. A complete match without repeated cases gets no complaint.",
 over=["programs"], forall="all programs with matches (also on folded values, across modules) after zero to three edits of cases or constructor lists",
 why="Tests have one match per error kind; nested matches, imported types and mixed edits are not covered.",
 files=[C+"matchck.rs"], mech=[("missing and repeated constructors", C+"matchck.rs check")],
 technique="differential monitor: independent coverage check against diagnostics, span by span",
 note=REF),
dict(id="P11", title="Unused warnings name exactly the unused definitions",
 statement="In a valid program a warning is given for exactly those names that are defined or imported in the file but neither used nor exported, do not start with an underscore and are not modules or type variables; a type also counts as used when one of its constructors is used.",
 over=["programs"], forall="all valid programs of the generator with unused items, locals, parameters, constructors and imports added on purpose",
 why="Tests look at single unused names; shadowing and use from nested scopes or other name spaces are not covered.",
 files=["ticc/src/lint/unused.rs", C+"resolve.rs"], mech=[("used symbols collected over all items", "ticc/src/lint/unused.rs")],
 technique="differential monitor: independent use analysis against warnings",
 note=REF+"An exposed type whose constructors are only used through the module name may or may not be reported."),
dict(id="P12", title="Only exported names cross module boundaries, and bad imports are reported",
 statement="A name of another module can be used exactly when that module exports it in the right name space and it is exposed or written with the module's name. Using or exposing anything else, and importing a missing, unreadable or cyclic module, is an error at that import or use; modules of the standard library cannot be replaced by user modules of the same name.",
 over=["programs", "configurations", "fault_sequences"], forall="all multi module programs after edits of exports, imports, qualified names; all resolver failures",
 why="Tests cover a few imports; the product of export kinds, name spaces and uses is not listed.",
 files=[C+"resolve.rs", "ticc/src/import.rs", "ticc/src/builtin.rs"],
 mech=[("export table per module", "ticc/src/import.rs collect_exports"), ("lookup by name space", "ticc/src/lib.rs find_export"), ("builtin modules first", C+"resolve.rs resolve_import_item")],
 technique="differential monitor: independent module model, mutated imports and exports, injected resolver faults",
 note=REF),
dict(id="P13", title="Accepted programs run: no crash, no ill typed IR, no endless run",
 statement="Whenever a program has no error diagnostic, generating code for it succeeds with checking of the intermediate code enabled, optimized or not, and running it on any interpreter ends with a value or a trap that names a hole of the program, never with a crash.",
 over=["programs", "configurations"], forall="all accepted programs: generated ones and accepted mutants; every interpreter; optimizer on and off",
 why="Tests run a few dozen programs; soundness is a statement about all accepted programs.",
 files=["ticc/src/codegen/gen_core.rs", "ticc-core/src/verify.rs", E+"lambda.rs", E+"treewalk.rs", E+"bytecode.rs"],
 mech=[("front end checks imply well typed IR", C+"typeck.rs"), ("IR verifier", "ticc-core/src/verify.rs"), ("total language: folds only", E+"bytecode.rs")],
 technique="crash, trap and IR verifier monitor over generated and mutated accepted programs",
 note="Resource use is bounded: programs whose reference run exceeds a step limit are not run."),
dict(id="P14", title="Programs compute what the language says",
 statement="Running a program gives for every exported value of its main module, in order, the value that the language semantics assigns (call by value, folds over recursive data, wrapping unsigned 64 bit integers, byte strings), or a trap when evaluation reaches a hole; the exported main (the last definition, if there are several) maps each input to the output the semantics assigns, and a program whose main is missing or not a string -> string function is refused.",
 over=["programs", "inputs"], forall="all accepted generated programs and inputs of main, on every interpreter, optimized and not",
 why="Tests compare a few dozen programs with hand written results.",
 files=["ticc/src/codegen/gen_core.rs", "ticc/src/interpreter.rs", E+"lambda.rs", E+"treewalk.rs", E+"bytecode.rs", E+"compile.rs"],
 mech=[("translation to IR", "ticc/src/codegen/gen_core.rs"), ("interpreters", E), ("value printing", "ticc/src/interpreter.rs")],
 technique="reference model monitor: independent definitional interpreter against every runner",
 note=REF),
dict(id="P15", title="All interpreters agree",
 statement="For every program and input all available interpreters give the same values and output, or all trap.",
 over=["programs", "configurations", "inputs"], forall="all accepted generated programs, all pairs of interpreters, optimizer on and off, inputs of main",
 why="Tests run the same few dozen programs per interpreter.",
 files=[E+"lambda.rs", E+"treewalk.rs", E+"bytecode.rs", E+"compile.rs", E+"heap.rs"],
 mech=[("three interpreters over one IR", E+"lib.rs")],
 technique="differential monitor between interpreters",
 note="Interpreters evaluate the function and the argument of a call in different orders, so which of several reachable holes is reported may differ; everything else has to be equal. The JIT only runs on Windows and is left out."),
dict(id="P16", title="Optimization preserves meaning and keeps the IR well typed",
 statement="Compiling a program with optimization gives a program that passes the IR verifier and has the same values, output and traps as without optimization.",
 over=["programs", "configurations", "inputs"], forall="all accepted generated programs and those shaped to trigger each optimization; inputs of main",
 why="Optimizer tests compare small IR snippets; interactions between passes over arbitrary code are not sampled.",
 files=["ticc/src/codegen/opt.rs", O+"inline.rs", O+"inline_simple.rs", O+"merge_match.rs", O+"move_match.rs", O+"reduce_apply.rs", O+"reduce_pi.rs", O+"saturate.rs", O+"dce.rs"],
 mech=[("optimization passes", O)],
 technique="translation checking at run time: optimized against unoptimized executions and the IR verifier",
 note="A trap may be removed or reported for another hole only where evaluation order allows it; see DESIGN.md."),
dict(id="P17", title="Texts are read as the grammar says",
 statement="A text that does not follow the grammar gets an error diagnostic at the first token that fits no program, and all definitions before it are judged as usual; a text that follows the grammar gets no complaint about syntax, and its operators, applications, matches and other forms are grouped as the grammar says (precedence, associativity, extent of bodies), which decides what the program means.",
 over=["inputs", "programs"], forall="all programs of the generator after edits of single tokens and brackets, shuffled tokens, damaged texts and arbitrary texts; each judged against an independent parser, and run if valid",
 why="Parser tests hold a few snippets with fixed output; grouping of arbitrary nestings of forms and the place of the first error in arbitrary damaged text are not sampled.",
 files=[C+"parser.rs", C+"parser/expr.rs", C+"parser/type_.rs", C+"parser/item.rs", C+"lexer.rs"],
 mech=[("recursive descent with precedence climbing", C+"parser/expr.rs"), ("recovery at item boundaries", C+"parser.rs")],
 technique="differential monitor: independent parser, checker and interpreter against diagnostics and results",
 note=REF),
dict(id="P18", title="Meaning does not depend on layout, names or order of independent parts",
 statement="Changing white space, comments, redundant parentheses, local names, adding unused definitions, naming subexpressions or moving definitions to another module does not change whether a valid program is accepted or what it computes.",
 over=["programs"], forall="all accepted generated programs and random compositions of meaning preserving edits",
 why="No test compares two versions of a program.",
 files=[C+"parser.rs", C+"resolve.rs", "ticc/src/codegen/gen_core.rs"],
 mech=[("trivia carries no meaning", C+"parser.rs"), ("symbols, not names, identify entities", C+"ir.rs")],
 technique="metamorphic monitor: meaning preserving edits, runs compared",
 note="Both versions run on the implementation, so this does not depend on the reference semantics."),
dict(id="P19", title="The emitted IR is the program that runs",
 statement="The text written by --emit-ir, optimized or not, reads back as exactly the program that the compiler runs: every binding, type, string (with any bytes), operator and grouping. Evaluating that text by the rules of the IR gives the values, output and traps of running the program.",
 over=["programs", "configurations", "inputs"], forall="all accepted generated programs, optimized and not, strings with any bytes, inputs of main",
 why="Tests compare the printed form of a few small programs with snapshots.",
 files=["ticc-core/src/pretty.rs", "ticc-core/src/ir.rs", "ticc/src/main.rs"],
 mech=[("printing with precedences", "ticc-core/src/pretty.rs"), ("names made unique by number", "ticc-core/src/pretty.rs")],
 hook="ticc::verif::with_core gives the IR in memory; without it only the meaning of the text is judged",
 technique="offline monitor: independent parser and interpreter of the emitted text, compared with the IR in memory and with executions",
 note="Layout of the text is not judged. The interpreter of the IR is independent of the three of the implementation."),
dict(id="P20", title="Standard library functions compute what they stand for",
 statement="Every exported function of the standard modules (lists, arrays, options, results, integers, strings) gives the result its name and type stand for on all arguments: empty and long lists, strings of any bytes and line ends, indexes out of range, integers up to 2^64 - 1, arrays of any size; in every composition, with functions passed or partially applied, in every interpreter, optimized or not.",
 over=["inputs", "programs", "configurations"], forall="all well typed compositions of standard functions on edge case arguments",
 why="Tests call each function on one or two small arguments.",
 files=["ticc/src/std/list.tic", "ticc/src/std/array.tic", "ticc/src/std/int.tic", "ticc/src/std/string.tic", "ticc/src/std/option.tic", "ticc/src/std/result.tic", "ticc/src/builtin.rs"],
 mech=[("standard modules in the language itself", "ticc/src/std"), ("intrinsics", "ticc/src/builtin.rs, ticc-eval/src")],
 technique="differential monitor: compositions of standard functions against native models",
 note="Left open: which of several equal elements a sort or maximum by a given order picks, what numbers too large are parsed as, ranges whose end is before their start, huge counts (which take that many steps)."),
dict(id="P21", title="Garbage collection never changes what a program computes",
 statement="Whenever the collector of the bytecode interpreter runs, everything the program can still reach keeps its value, memory is only reused once unreachable, and the result is that of a run without collections; the heap stays within a constant factor of the data in use.",
 over=["schedules", "programs", "inputs"], forall="all accepted generated programs with collections forced every n-th instruction and on allocation, growing and moving heaps, overwritten free space",
 why="The collector runs only when the heap is full; tests fill it at a handful of points, with few live roots.",
 files=["ticc-eval/src/heap.rs", "ticc-eval/src/bytecode.rs"],
 mech=[("copying collection with forwarding tags", "ticc-eval/src/heap.rs"), ("roots: stack, constants, booleans; reservation before popping operands", "ticc-eval/src/bytecode.rs")],
 hook="ticc_eval::verif forces and watches collections",
 technique="monitored execution: forced collections at every instruction, poisoned free space, reachable graph compared across each collection, results compared",
 note="Reads of freed objects are recognised by poison, tag checks and results. Memory errors proper are the subject of P33."),
dict(id="P22", title="Loops run in constant space",
 statement="In the bytecode interpreter, iterate and folds whose recursive calls are tail calls (once optimized) use a stack that does not grow with the number of steps, and memory in proportion to the data kept, not to the number of steps.",
 over=["programs", "inputs"], forall="all generated loops over numbers, records of up to 90 fields, strings, lists, own recursive types, nested loops; bodies with calls, matches, let, branches",
 why="Space is not observed by tests; loss of a tail call or of a collection shows only in long runs.",
 files=["ticc-eval/src/bytecode.rs", "ticc-eval/src/compile.rs", "ticc-eval/src/heap.rs", "ticc/src/codegen/opt.rs"],
 mech=[("tail call instructions", "ticc-eval/src/compile.rs"), ("iterate as an instruction loop", "ticc-eval/src/compile.rs"), ("collection when the heap is full", "ticc-eval/src/bytecode.rs")],
 hook="ticc_eval::verif reports stack heights; without it only bytes allocated are judged",
 technique="resource monitor: stack high-water mark and a counting allocator over runs with few and many steps",
 note="Tail calls of folds without optimization are not required. Factors are generous (2x plus 128 KiB)."),
dict(id="P23", title="Machine code computes what the interpreters compute",
 statement="For every program and input, the code that the just in time compiler generates gives the values, output and traps of the other interpreters, without touching memory that is not its own: every operation, literal, call, match, closure and string function, with collections of the heap and growth of the stack at any point.",
 over=["programs", "inputs", "schedules"], forall="all accepted generated programs (objects of up to 200 fields, long strings, deep recursion), optimized and not, inputs of main",
 why="The compiler only runs on 64 bit Windows; elsewhere its tests are passed by refusing to run.",
 files=["ticc-eval/src/jit.rs", "ticc-eval/src/compile.rs", "ticc-eval/src/heap.rs"],
 mech=[("templates of instructions for each operation", "ticc-eval/src/jit.rs assemble"), ("runtime functions called from generated code", "ticc-eval/src/jit.rs"), ("stack and heap that grow and move", "ticc-eval/src/jit.rs grow_stack, ExecState::gc")],
 technique="differential monitor in processes with guard pages around memory blocks and checked block sizes",
 note="The check runs a copy of the crate in which the calling convention that the generated code follows is named (win64 instead of C) and the test for Windows is taken out; nothing else is changed. What Windows itself does differently is not seen."),
dict(id="P24", title="Primitive operations are exact on all operands",
 statement="Arithmetic on unsigned 64 bit integers wraps (x / 0 = 0, x % 0 = x), comparisons, length, charAt, substring (clamped to the text, also when start + length overflows), concatenation, fromChar (low byte) and toString give the mathematically right result for all operands, the same whether operands are known to the optimizer or not, in every interpreter; strings are sequences of arbitrary bytes.",
 over=["inputs", "configurations"], forall="all operands, with a bias for powers of two and ten and their neighbours, out of range indexes, overflowing sums, all byte values; literal and hidden operands; inputs of main",
 why="Tests use a few small operands.",
 files=["ticc-eval/src/bytecode.rs", "ticc-eval/src/lambda.rs", "ticc-eval/src/treewalk.rs", "ticc-eval/src/heap.rs", "ticc-eval/src/compile.rs"],
 mech=[("operators in each interpreter", "ticc-eval/src"), ("unboxed 64 bit integers, bytes on the heap", "ticc-eval/src/heap.rs")],
 technique="differential monitor: results of operations against native arithmetic",
 note="Operators of one text run in all interpreters, optimized and not."),
dict(id="P25", title="The IR validator accepts only well typed IR",
 statement="A program that the validator of the IR accepts is well typed: every variable is in scope with the type it was bound with, applications, constructions, matches, folds and polymorphic definitions agree in type, constructors and fields belong to their types. IR with a fault is rejected.",
 over=["programs"], forall="all IR of accepted generated programs, optimized and not, after random edits of terms, types, binders and definitions",
 why="Validator tests hold a few faulty programs; it is otherwise only run on IR that is right.",
 files=["ticc-core/src/verify.rs", "ticc-core/src/ir.rs"],
 mech=[("type reconstruction", "ticc-core/src/verify.rs"), ("scopes of names and type variables", "ticc-core/src/verify.rs")],
 hook="ticc::verif::with_core gives the IR that is edited; without it only acceptance of right programs is judged",
 technique="mutation monitor: verdicts of the validator on edited IR against an independent checker",
 note="Only acceptance of faulty IR is a violation; P13 and P16 say that right IR is accepted. Scope of unused type arguments is not judged."),
dict(id="P26", title="The language server converts positions exactly",
 statement="Positions and ranges that the language server receives and sends are lines and UTF-16 columns of the text: every diagnostic, hover, definition, reference, completion and highlighting token is at, or about, exactly the place the compiler means, whatever characters (of one to four bytes), line ends and comments come before it. A column past the end of a line means the end of that line, a line past the end of the text means the end of the text, and a column inside a surrogate pair means the start of that character.",
 over=["inputs", "programs"], forall="all texts with characters of all sizes in strings, comments and elsewhere, both line ends, all positions including those out of range",
 why="The tests convert positions of one ASCII text with two lines.",
 files=["ticc-lsp/src/utils.rs", "ticc-lsp/src/semantic_tokens.rs", "ticc-lsp/src/diagnostics.rs", "ticc-lsp/src/hover.rs", "ticc-lsp/src/completions.rs", "ticc-lsp/src/find_references.rs", "ticc-lsp/src/go_to_definition.rs"],
 mech=[("line starts found on demand", "ticc-lsp/src/utils.rs LocationTranslator"), ("delta encoding of tokens", "ticc-lsp/src/semantic_tokens.rs")],
 technique="protocol monitor: messages of the real server process compared with the library through an independent conversion",
 note="The answers of the library itself are the subject of P02 and P05 to P12; here only their transport is judged. Columns between \\r and \\n are not judged."),
dict(id="P27", title="The language server answers every request once and stays alive",
 statement="Whatever a client does in terms of the protocol (opening, changing, closing files with any text, requests about any position, about files that are not open or do not exist, unknown requests and notifications), every request gets exactly one response (an error for an unknown method), the server keeps running, writes nothing but messages to its output, and ends with success after shutdown and exit or when its input ends.",
 over=["histories", "inputs"], forall="all histories of notifications and requests with well formed parameters over damaged and generated texts",
 why="The tests exchange a few messages in a fixed order about small files.",
 files=["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs"],
 mech=[("message loop and dispatch", "ticc-lsp/src/main.rs main_loop, Handlers"), ("handlers per method", "ticc-lsp/src/handlers.rs")],
 technique="protocol monitor: exactly-once responses and liveness over random histories against the real server process",
 note="Parameters that do not follow the protocol are left out: the protocol library the server uses panics on them."),
dict(id="P28", title="Published diagnostics always match the current texts of all files",
 statement="After any history of opening, changing and closing files, the diagnostics last published for every open file are exactly those of its current text, with the current texts of the modules it imports (the text in the editor where there is one, otherwise the file on disk; a missing, unreadable or cyclic import is reported as such), and a closed file has none.",
 over=["histories", "programs"], forall="all histories of opening, changing and closing files of generated multi module projects and their mutations, modules on disk, missing at first, or appearing later",
 why="One test edits a module once; no history over a graph of modules is sampled.",
 files=["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs", "ticc-lsp/src/diagnostics.rs"],
 mech=[("file versions and stale dependencies", "ticc-lsp/src/main.rs Compilation::refresh, FileSet"), ("module resolution per opened file", "ticc-lsp/src/main.rs CompilationModuleResolver")],
 technique="protocol monitor: after every step of random edit histories, published diagnostics compared with a model of the texts",
 note="The text of a closed file stays what the editor last sent, and files on disk do not change during a history. Files that take part in an import cycle of several files are not judged (how much of a module in a cycle is seen depends on where compilation starts)."),
dict(id="P29", title="Language server answers are about the current texts",
 statement="At any point of any history of edits, hover, definition, declaration, references, completion and highlighting answers for an open file are those of the compiler for the current texts of the file and of the modules it imports.",
 over=["histories", "programs"], forall="all histories as in P28 and requests at all places of open files",
 why="The tests make no request after an edit.",
 files=["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs", "ticc-lsp/src/completions.rs", "ticc-lsp/src/hover.rs", "ticc-lsp/src/semantic_tokens.rs"],
 mech=[("compilations refreshed after every edit", "ticc-lsp/src/handlers.rs on_file_update"), ("requests routed by file", "ticc-lsp/src/handlers.rs")],
 technique="protocol monitor: answers during random edit histories compared with the library on the current texts",
 note="As for P28."),
dict(id="P30", title="The command line keeps its contract on streams, files and exit codes",
 statement="For every program, flags and input, the compiler binary prints exactly the diagnostics of the library with their file, line and column on standard error; exits with 0 only if there were no errors and running (with --run) did not fail; writes exactly the result of --eval, --run or --emit-ir to standard output or to the file of -o (by default, IR next to the input), and nothing else anywhere; --check never runs or writes. Flags for runner, optimization, verification, stack and time do not change results. Missing inputs, unreadable files, unwritable outputs and bad flags are reported as errors (that name the file) with a nonzero code and no output.",
 over=["configurations", "inputs", "programs"], forall="all combinations of modes, flags, inputs and outputs over generated programs with and without errors, warnings and traps, and faults of the file system",
 why="Integration tests call the library; the binary is never run by the tests.",
 files=["ticc/src/main.rs", "ticc/src/interpreter.rs"],
 mech=[("modes and outputs", "ticc/src/main.rs main"), ("rendering of diagnostics", "ticc/src/main.rs print_diagnostics")],
 technique="process monitor: exit code, streams and file system snapshots of the real binary compared with the library",
 note="Results of evaluation themselves are the subject of other properties. The wording of operating system errors is not judged."),
dict(id="P31", title="Imports resolve to files relative to the importing file, once each",
 statement="The compiler binary resolves an import to the standard module of that name, or else to the file at that path relative to the importing file, no matter from where it is started. However paths are spelled (., .., links), a file is one module, so its types are the same everywhere. A cycle of imports is reported as an import cycle, a missing or unreadable file as such, both at the path of the import, and errors inside a module are reported with the file of that module.",
 over=["programs", "configurations"], forall="all generated projects laid out in directories with random spellings, extra imports, cycles, links, missing, broken and unreadable modules, and starting directories",
 why="The tests use an in-memory resolver; files and directories are never involved.",
 files=["ticc/src/main.rs", "ticc/src/builtin.rs"],
 mech=[("resolver with a chain of importing files", "ticc/src/main.rs ChildResolver"), ("cache of finished modules", "ticc/src/main.rs FileModuleResolver"), ("standard modules first", "ticc/src/builtin.rs")],
 technique="process monitor: diagnostics and results of the real binary compared with a model of module resolution",
 note="Module paths with special characters, and absolute ones, are left out."),
dict(id="P32", title="The formatter lays out tokens as requested and loses none",
 statement="For every sequence of tokens, line breaks and nested nodes, the formatter outputs exactly the tokens in order, one space between neighbours on a line unless one of them sticks to the other, a line break exactly where one is asked for (optional ones where the node or one inside of it is large) and never two in a row, and indents each line by the nesting of the nodes it belongs to.",
 over=["inputs"], forall="all sequences of builder calls, nodes up to nine deep, finished or not",
 why="The formatter has no tests of its own.",
 files=["formatter/src/lib.rs"],
 mech=[("builder of a tree of nodes", "formatter/src/lib.rs FormatBuilder"), ("tracking of indentation, spaces and line breaks", "formatter/src/lib.rs RawBuilder")],
 technique="differential monitor: text against a model that works out the layout from the sequence of calls",
 note="The nesting rule is that of the code: a line is indented as the innermost node that already had a token of its own, one deeper than the node around if that had a line break before."),
dict(id="P33", title="Running programs involves no undefined behaviour",
 statement="Evaluating any program in the bytecode interpreter, with collections at any point, only reads initialised memory and only touches memory that it owns, suitably aligned, through pointers that may be used for it.",
 over=["programs", "schedules"], forall="all IR of accepted generated programs, records of up to 200 fields, strings, closures, with collections forced at different instructions and the heap growing",
 why="An access that is undefined behaviour usually does what was meant in a test, and shows only with another compiler or layout.",
 files=["ticc-eval/src/heap.rs", "ticc-eval/src/bytecode.rs"],
 mech=[("objects of words and bytes in one block", "ticc-eval/src/heap.rs HeapBytes, bytes_to_words"), ("aligned storage", "ticc-eval/src/heap.rs AlignedBytes")],
 hook="ticc_eval::verif forces collections; without it they happen only when the heap is full",
 technique="undefined behaviour interpreter (Miri) over generated programs",
 note="Miri is about ten thousand times slower than the program, so runs are short. A third of them also follow the tree borrows model of aliasing. All other code is safe Rust, except for the JIT, which runs on Windows only."),
dict(id="P34", title="Every scope, kind and number error is reported at its place, and no other",
 statement="For every program that follows the grammar, in a module whose imports are fine, the compiler reports exactly these errors about names: each use of a variable, type, constructor or module that is not in scope, each name taken from a module that does not export it in that name space, each missing module, each constructor that its type already has, each type with a wrong number of arguments, and each bad number; each at the name, path or number in question, no matter how many there are and what other errors the definitions have.",
 over=["programs"], forall="all programs reached by one to eight edits of names, scopes, imports, exports and types from generated programs",
 why="Tests hold one or two such errors per file, of one kind; what happens after a first error, or next to other errors, is open.",
 files=[C+"resolve.rs", C+"kindck.rs", C+"numck.rs", "ticc/src/compiler.rs", "ticc/src/lib.rs"],
 mech=[("scopes with parents", "ticc/src/compiler.rs Scope"), ("errors recorded by name resolution", C+"resolve.rs"), ("argument counts of all named types", C+"kindck.rs report_type"), ("all number tokens", C+"numck.rs check_numbers")],
 technique="differential monitor: complete set of errors against an independent model of scopes, by place and rule",
 note=REF+"Only the first module with errors (and those before it) is judged. A missing export of a qualified name may be reported at the name or at the module name before it."),
dict(id="P35", title="An error stays in the definition that has it",
 statement="When definitions of a module are wrong in their values, or types in type definitions and annotations name nothing or take a wrong number of arguments, each of the definitions that is wrong by itself has an error, and every other definition has none, as long as it does not use a definition whose inferred type is open because of an error: uses of annotated definitions are checked against the annotation, and a type that is wrong fits everywhere.",
 over=["programs"], forall="all well typed generated programs in which the values of one to six definitions of a module are edited, or types in one to four type definitions and annotations are broken",
 why="Tests have one error per file, so neither errors that hide other errors nor errors that cause further ones are seen.",
 files=["ticc/src/lib.rs", C+"typeck.rs", C+"resolve.rs", C+"matchck.rs"],
 mech=[("definitions checked one by one", "ticc/src/lib.rs compile_item"), ("annotated types used for uses", C+"typeck.rs"), ("types of broken code fit everything", C+"typeck.rs Ty::Error")],
 technique="differential monitor: each edited definition judged by itself by an independent checker, compared with where errors are",
 note=REF+"Imports and names of definitions are left as they were, and values and types are not broken at once; syntax is always right."),
dict(id="P36", title="A syntax error says what was found and what fits there",
 statement="The first syntax error of an item is at the first token with which no program goes on (right behind the last token when the text ends too early), names the token found there, and lists what could come instead: every listed kind of token or construct fits there, and every kind of token that fits is listed itself or is part of a listed construct.",
 over=["inputs"], forall="all texts: programs with tokens removed, added, exchanged or cut off anywhere, and arbitrary token sequences; all 44 kinds of tokens tried at the place of the error",
 why="Tests check where a few dozen syntax errors are and never what they list as expected, and they have no error at the end of a text.",
 files=[C+"parser.rs", C+"lexer.rs", "ticc-syntax/src/lib.rs"],
 mech=[("expected tokens gathered until the next token is consumed", C+"parser.rs check/expected_tokens"), ("hints stand for the tokens they start with", C+"parser.rs ParseHint"), ("texts of tokens", "ticc-syntax/src/lib.rs TokenKind::to_str")],
 technique="differential monitor: an independent parser decides for every kind of token whether some program goes on with it, compared with the message",
 note=REF+"Only the first syntax error of a text is judged. A `rec` that is found where a type is expected outside of a constructor is reported as such and exempt from the list being complete."),
dict(id="P37", title="Text that follows does not change what is said about text before it",
 statement="Errors, highlighting, definitions, hover information and completions for a definition, and references to it from text before, stay the same when any text (definitions, even of the same names, other than imports, or broken text) is written after the definitions that follow it.",
 over=["inputs", "programs"], forall="all texts, valid or broken, with two different continuations each; twelve places per text",
 why="Tests look at complete files; none adds text to a file and compares the answers.",
 files=["ticc/src/lib.rs", C+"parser.rs", C+"resolve.rs", A+"navigation.rs", A+"info.rs", A+"completion.rs", A+"tokens.rs"],
 mech=[("items parsed and compiled one at a time", "ticc/src/lib.rs compile_item"), ("errors of the parser end with the item", C+"parser.rs skip_to_next_item"), ("scopes hold what is defined before", C+"resolve.rs")],
 technique="metamorphic monitor: all answers about a text compared between two continuations of it",
 note="Three short type definitions separate the two parts, because a syntax error skips to the next definition. Later imports are left out, as they give names to types and constructors of other modules everywhere in a file. Warnings are left out because later uses remove them."),
dict(id="P38", title="Unrelated text before a program only moves what is said about it",
 statement="When comments, white space, imports and definitions of names that are not used otherwise are written before a text, all errors, warnings, tokens and answers about places in it are the same, moved by the length of what was added.",
 over=["inputs", "programs"], forall="all texts, valid or broken, with one to four pieces of text before; twelve places per text",
 why="Tests never compare two files; a wrong origin of positions of an item shows only behind other items of particular lengths.",
 files=["ticc/src/lib.rs", "ticc-syntax/src/pos.rs", "ticc-syntax/src/lib.rs", C+"parser.rs", A+"navigation.rs", A+"info.rs"],
 mech=[("items have positions relative to the place where they start", "ticc/src/lib.rs, ticc-syntax/src/pos.rs from_origin"), ("node numbers start again for every item", C+"parser.rs")],
 technique="metamorphic monitor: all answers about a text compared with those about the same text behind other text",
 note="Names of the text before start with zz_ and are taken out of completions before these are compared."),
dict(id="P39", title="Syntax trees give back the text and parts they were built of",
 statement="For every sequence of nodes, tokens and pieces of trivia given to the syntax builder, the tree has exactly these parts in this order; their kinds, ids, texts and positions are those given; a node without its trivia reaches from its first to its last part that is not trivia; the walks over all nodes and parts see each once, in text order, parents first, and stop when told to.",
 over=["inputs", "histories"], forall="all sequences of builder calls (nesting to six levels, empty nodes, empty tokens), texts with characters of one to four bytes, all origins",
 why="There are no tests of the syntax trees by themselves; the parser only builds trees of certain forms.",
 files=["ticc-syntax/src/lib.rs", "ticc-syntax/src/cursor.rs", "ticc-syntax/src/pos.rs"],
 mech=[("spans with and without trivia computed when a node is finished", "ticc-syntax/src/lib.rs finish_node_internal"), ("texts from spans relative to the origin", "ticc-syntax/src/lib.rs span_source"), ("walks", "ticc-syntax/src/cursor.rs Descendants, DescendantElements")],
 technique="model based monitor: random builder histories, every cursor answer compared with a model",
 note="The model is a plain tree of ranges; text positions are small enough for 32 bits."),
dict(id="P40", title="Names and numbers in error messages are right",
 statement="What a complaint states is true: constructors named as not covered have no case and are all that have none together with the number of others; numbers of fields and type arguments, expected and found, are those of the definition and of the place; names that are called not exported, not a type, value or constructor, duplicate or unused are those at the place and are (or are not) exported as something else; a number called too large or invalid is; and the two types of a mismatch are different ones.",
 over=["programs"], forall="all generated programs with one to eight edits of matches, scopes, exports and types, split into modules",
 why="Tests have one or two instances of each message, with small numbers, in single files.",
 files=[C+"matchck.rs", C+"typeck.rs", C+"kindck.rs", C+"resolve.rs", C+"numck.rs", "ticc/src/lint/unused.rs", A+"errors.rs", "ticc/src/api.rs"],
 mech=[("messages with symbols, types and numbers, put into text on demand", A+"errors.rs format_message"), ("missing constructors listed", C+"matchck.rs check"), ("lookups in other name spaces", "ticc/src/lib.rs find_export")],
 technique="differential monitor: names and numbers in every message compared with those of an independent checker for the error at that place",
 note=REF+"Types of other modules that are not exposed are printed as ??? and not judged. Types of a mismatch are only compared when all names in them mean one thing in the file."),
dict(id="P41", title="Sizes of programs make no difference to what they mean",
 statement="A program with hundreds or thousands of constructors, fields, parameters, captured variables, locals, definitions, type parameters, imported names, modules, references, operands or cases, or with names, strings, comments, blank lines, numbers (with leading zeros) of any length up to more than 65536 bytes, or placed that far from the start of its file, is treated like a small one: it has exactly the errors and unused warnings that follow from the language rules, its names are found, completed and highlighted where they are, and it gives the right values in every interpreter, optimized or not.",
 over=["programs", "sizes"], forall="28 kinds of programs that are large in one way, sizes around 64, 128, 256, 512 and 1000 (to 5000 in the thorough tier) and lengths around 128, 256, 32768 and 65536 bytes (to 140 thousand)",
 why="Tests are small programs; a count or a place that does not fit in where it is kept, or an order that holds for short lists only, does not show in them.",
 files=[E+"compile.rs", E+"bytecode.rs", E+"heap.rs", E+"lambda.rs", E+"treewalk.rs", C+"lexer.rs", C+"parser.rs", C+"matchck.rs", C+"typeck.rs", C+"resolve.rs", "ticc/src/api/navigation.rs", "ticc-core/src/ir.rs", "ticc-syntax/src/pos.rs"],
 mech=[("counts and offsets in instructions", E+"compile.rs Op"), ("objects with more fields than bits in a header", E+"heap.rs alloc_object"), ("names looked up by id", "ticc-core/src/ir.rs Names"), ("positions in files", "ticc-syntax/src/pos.rs Pos")],
 technique="model based monitor: generated large programs whose values, diagnostics and places follow from how they were made, run by the real code",
 note="Depth of nesting is kept below what the native stack allows (1 GiB in the harness); sums of more than 5000 operands and the like are not tried."),
]

NOT_APPLICABLE = []
HOOK_COMMITS = ["746055c81694b07bc16eec257c9b7553539d72ba", "5d601f4d73a50a32e39e882b28b20a052e35ee95"]
NOTES = "Every check takes VERIF_SEED; a case number plus the seed determines a case. `bash run.sh replay <file>` reruns the case of a replay file."
