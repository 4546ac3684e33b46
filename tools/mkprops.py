#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
T="peg-macros/translate.rs"; ERR="peg-runtime/error.rs"; RT="peg-runtime/lib.rs"; STR="peg-runtime/str.rs"; SL="peg-runtime/slice.rs"
AN="peg-macros/analysis.rs"; TOK="peg-macros/tokens.rs"; GR="peg-macros/grammar.rs"; GRP="peg-macros/grammar.rustpeg"; BIN="peg-macros/bin.rs"; LIB="peg-macros/lib.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent and nested parses do not affect each other",
  "Any number of parses may be in progress at once, on different threads or nested inside one another's user code, with the same or different grammars and even the same input. Each returns exactly the value or error it returns when run alone, and runs the same user code on the same arguments in the same order, whatever the interleaving and whichever of the others fail or panic.",
  ["schedules","histories"],"every interleaving, at user-code and input-access granularity, of every set of parses, including re-entrant ones",
  "The tests run one parse at a time to completion; none starts a parse while another is in progress, so sharing of parser state between calls cannot show.",
  [T,ERR,RT],[("per-call ParseState and ErrorState created inside the exported function",T+" compile_rule_export, make_parse_state"),("ErrorState passed by &mut through every rule",ERR)],
  [("ParseState","memo tables of one pass",T+" make_parse_state"),("ErrorState","furthest failure, suppression depth, expected set of one call",ERR)],
  ["result of exported rule functions","calls into user code and input trait methods"])
p("C02","A parse abandoned by a panic leaves nothing behind",
  "If user code or the input panics at any point of a parse, that same panic reaches the caller of the rule function, and no further user code of that parse runs. Every later parse in the same thread or process, of the same or another grammar, behaves exactly as if the abandoned one had never been started.",
  ["crash_points","histories"],"every point at which user code or an input access can panic, in either pass, followed by any further parses",
  "No test lets user code panic and then parses again; there is one implicit crash point (none) out of as many as there are callbacks.",
  [T,ERR],[("all state is local to the call and dropped by unwinding",T+" compile_rule_export"),("suppression counter is a field of the per-call ErrorState",ERR)],
  [("ErrorState.suppress_fail","depth of quiet/lookahead, not restored on unwind",ERR)],["catch_unwind around exported functions"])
p("C03","Values made by user code are conserved",
  "Every value produced by an action, custom expression or conditional block is either part of the value the parse returns or has been dropped by the time the call returns or unwinds: nothing is leaked or kept for later. Once its result or error is dropped a call holds no memory of any kind. A value is copied only by memoising rules; a grammar without them never clones a user's value.",
  ["fault_sequences","crash_points","programs"],"every grammar, input, sequence of rejected alternatives and point of abandonment",
  "No test counts values; leaks and copies on rarely taken backtracking, retry and unwind paths are invisible to assertions on the result.",
  [T],[("ownership through nested matches and closures",T+" labeled_seq, compile_expr"),("memo clones",T+" compile_rule Cache::Simple/Recursive")],
  [("__repeat_value, __infix_result","partially built values",T+" compile_expr")],["Clone/Drop of user values"])
p("C04","A failed parse is retried exactly once and never turns into a wrong answer",
  "A parse that succeeds runs the grammar once. A parse that fails runs it exactly once more from a clean state, repeating the same user-code calls if user code and input answer as before, and returns an error located at the furthest failure of the first run whose expected set comes only from the second. If the environment changed in between, the call returns such an error or, when the second run matches, panics with the documented nondeterminism message; it never returns Ok and never blames nondeterminism when nothing changed.",
  ["histories","fault_sequences"],"every way in which user code and input can change their answers before, during and after the first pass",
  "Tests use only deterministic actions and fixed inputs, so the two passes always agree and the protocol between them is never exercised.",
  [T,ERR],[("two calls of the parse function with fresh ParseState",T+" compile_rule_export"),("reparse_for_error / reparsing_on_error",ERR)],
  [("max_err_pos","furthest failure of the first pass",ERR),("reparsing_on_error","second pass flag",ERR)],["Result of exported functions","order of user-code calls"])
p("C05","Matching follows PEG semantics whatever the environment answers",
  "For every grammar and every sequence of answers from user code (custom expressions, methods, conditional blocks, pattern guards) and from the input, the parser accepts, returns the value and runs user code in the order that PEG semantics prescribe: ordered choice with complete backtracking, greedy bounded and separated repetition, non-consuming lookahead, slices and positions of the matched range, rule arguments matched where the called rule uses them. A rejected alternative leaves no trace in the outcome.",
  ["programs","histories","fault_sequences"],"every grammar of the supported expression forms and every history of environment answers, including transient and permanent failures in the middle of a parse",
  "The run-pass tests check a few dozen fixed grammars on fixed strings; combinations of forms, used and unused results, and failures arising inside nested constructs are not sampled.",
  [T,RT],[("expression compilation",T+" compile_expr, compile_expr_continuation, labeled_seq, ordered_choice"),("repeat loop",T+" compile_expr Repeat"),("rule arguments as closures",T+" RuleExpr")],None,
  ["Result of exported functions","order and arguments of user-code calls"])
p("C06","Precedence expressions climb correctly even when operands fail",
  "A precedence!{} expression yields the tree given by the declared levels, associativities, and prefix, postfix, infix and atom forms, with span-capture positions covering exactly the operator expression. When an operator is present but its operand fails at any depth, the operator is not consumed, the operand parsed so far is kept, and the remaining alternatives are tried in order.",
  ["programs","histories","fault_sequences"],"every precedence table and every history of operand and operator failures",
  "Tests have six fixed tables on well-formed inputs; operand failures after an accepted operator, multi-token operators, and mixtures of prefix, postfix and span capture are hardly reached.",
  [T],[("__infix_parse, prefix_atom, level_code",T+" PrecedenceExpr")],[("__infix_result / repeat_pos","left operand so far",T)],["Result of exported functions"])
p("C07","A memoised rule is evaluated at most once per position per pass",
  "Within one pass a #[cache] rule runs its body at most once at each position, every use at that position sees that one outcome (success, value and end position, or failure) even if the environment would now answer differently, and nothing is remembered across passes or calls. With an environment that answers consistently, adding #[cache] changes neither acceptance nor the returned value.",
  ["histories","fault_sequences","programs"],"every grammar with memoised rules and every history of changing answers",
  "One test uses #[cache] on one input; it cannot tell a memo from a re-evaluation, nor see a stale or misplaced entry.",
  [T],[("memo lookup and insert keyed by position",T+" compile_rule Cache::Simple"),("fresh ParseState per pass",T+" compile_rule_export")],[("<rule>_cache","position -> outcome",T+" make_parse_state")],["user code inside memoised rules"])
p("C08","Left-recursive rules grow strictly and stop",
  "A #[cache_left_rec] rule at a position returns the last of a sequence of matches, each strictly longer than the one before and built from it, starting from failure; it stops at the first attempt that fails or does not grow and then yields the previous one. It therefore runs its body at most once more than the number of growths, for direct, hidden and mutual left recursion and whatever the environment answers.",
  ["histories","fault_sequences","programs"],"every left-recursive grammar and every history of answers, including ones that shrink or repeat a match",
  "One small sum grammar with four inputs; non-growing, failing and mutually recursive growth steps and changing answers are untested.",
  [T,AN],[("seed growing loop",T+" compile_rule Cache::Recursive")],[("<rule>_cache entry at the position","current seed",T)],["user code inside left-recursive rules"])
p("C09","A failed parse reports the furthest failure and what was expected there",
  "The error position is the furthest position at which any attempted terminal, expected!(), rejected conditional block or the end-of-input check failed outside quiet!{} and lookahead, or the start if there is none; the expected set is exactly the names reported by such failures at that position, and the error as text names that place and lists exactly that set. Failures that are transient, nested in or following quiet or lookahead blocks, or inside alternatives later abandoned are accounted the same way; a memoised answer is not a new attempt.",
  ["histories","fault_sequences","programs"],"every grammar and every placement of failures, including device and callback failures injected mid-parse",
  "errors.rs asserts six messages; nesting of suppression with backtracking, failing callbacks and retries is combinatorial.",
  [ERR,T],[("mark_failure / suppress_fail / into_parse_error",ERR),("suppression around lookahead and quiet",T+" PosAssertExpr, NegAssertExpr, QuietExpr")],
  [("max_err_pos","furthest unsuppressed failure",ERR),("expected","names at that position",ERR)],["ParseError.location, ParseError.expected"])
p("C10","The input is only asked about positions it issued",
  "The parser calls the input's methods only with the start position or a position the input or user code returned from a successful match in that call, asks for slices only from an earlier issued position to a later or equal one, and reports errors only at issued positions. This holds for inputs whose positions are not contiguous or zero-based, in both passes, and however the input and user code fail, truncate or grow in the meantime.",
  ["histories","fault_sequences","programs"],"every grammar and every input implementation: any position spacing, and reads that fail or whose end moves",
  "All test inputs use contiguous zero-based positions where pos+1 or 0 happen to be valid.",
  [T,RT,ERR],[("positions threaded through generated code",T+" compile_expr, compile_rule_export"),("initial error position",ERR+" ErrorState::new")],None,["every call of Parse, ParseElem, ParseLiteral, ParseSlice methods"])
p("C11","A streaming client recovers the same messages under any fragmentation",
  "A client that buffers a stream, parses one message from its front with a #[no_eof] rule, and reads on when the failure lies at the end of the buffered data recovers exactly the messages sent, once and in order, for any fragmentation, stalls and restarts from its last accepted message, over str, byte and token inputs. Damaged or cut streams give an error inside the delivered data with the right line, column and offset, and never a panic, a wrong message or a lost one before the damage.",
  ["fault_sequences","crash_points","schedules"],"every split of every stream into deliveries, every cut, every damaged element, and every restart point",
  "Tests parse complete inputs only; partial data, error-at-end-of-data detection and resumption are not tested at all.",
  [STR,SL,ERR,T],[("bounds checks in parse_elem and parse_string_literal",STR+", "+SL),("position_repr",STR),("no_eof",T+" compile_rule_export")],None,["results of #[no_eof] rules on growing buffers"])
p("C12","Tracing tells the truth and changes nothing",
  "With the trace feature on, every parse gives the same result, error or panic and runs the same user code as with it off. The trace on standard output records each rule attempt exactly once, with its true position, and closes it with its true outcome and end position, or with the memoised outcome it reused, in execution order, even when the output stream accepts only part of a write or is interrupted. If the stream refuses a line, the call unwinds, as println! does: it neither returns another answer nor one with lines of the trace missing, what was accepted is a prefix of the right trace, and later parses are unaffected.",
  ["histories","fault_sequences","programs"],"every grammar, history of environment answers, and pattern of short, interrupted and refused writes on standard output",
  "The trace test configuration only checks that results are still right; the trace text is never inspected.",
  [T],[("trace wrappers around rule bodies, cache hits and precedence levels",T+" compile_rule, PrecedenceExpr")],None,["standard output","Result of exported functions"])
p("C13","The standalone generator never reports success for output it lost",
  "If the rust-peg program exits successfully, every byte of the generated parser has been accepted by its output stream, in order and exactly once. Short and interrupted writes change nothing; if the stream refuses data at any point (full disk, broken pipe, I/O error) or memory runs out, the exit status is a failure and what was written is a prefix of the correct output.",
  ["fault_sequences","crash_points"],"every pattern of short, interrupted and failing writes and allocations, at every point of the output",
  "No test runs the program; CI's bootstrap check runs it once on a healthy file.",
  [BIN],[("unwrap on writes to stdout, and the final flush",BIN+" main")],[("stdout buffer","bytes accepted by write! but not yet by the stream",BIN)],["exit status","bytes accepted on fd 1"])
p("C14","Generated code depends only on the grammar text",
  "The same grammar text yields byte-for-byte the same generated code and diagnostics on every run: whatever the process's hash seeds, address layout, clock, environment, working directory and heap contents, whether the text comes from a file or standard input and however its delivery is fragmented.",
  ["configurations","schedules","fault_sequences"],"every value of the sources of nondeterminism the process can observe, for every grammar",
  "CI compares one grammar generated once; a dependence on hash-map order shows only in some runs and some grammars.",
  [T,AN,BIN,TOK],[("items and cache fields iterated in source order",T+" compile_grammar, make_parse_state"),("hash maps used for lookup only",AN+", "+T)],[("rules, rule_nullability, rules_from_args","hash-ordered tables",AN+", "+T)],["bytes on stdout, stderr and exit status of rust-peg"])
p("C15","A torn or unreadable grammar is never accepted",
  "If the grammar text is cut short before its closing brace, cannot be read completely, or is not valid UTF-8, the rust-peg program exits with failure and writes nothing to standard output. Fragmented and interrupted reads of complete text are invisible.",
  ["crash_points","fault_sequences"],"every cut point of every grammar and every pattern of short, interrupted and failing opens and reads",
  "No test feeds the program truncated text or failing reads.",
  [BIN,GR,TOK],[("read_to_string().unwrap(), tokenizer and meta-grammar errors exit before output",BIN+" main")],None,["exit status","bytes accepted on fd 1"])
p("C16","Every parse finishes in a bounded number of steps",
  "For a grammar the macro accepts whose loops and recursions consume input, every call returns after finitely many steps on a finite input, however user code and input fail or change during it; the number of input accesses and user-code calls stays within a constant factor of what PEG semantics require. The stack a call takes follows the nesting of rules and operands: a further turn of a repetition, left-associative operator or growth of a left-recursive rule takes none. With every rule memoised the number of rule evaluations is at most rules times positions per pass.",
  ["histories","fault_sequences","programs"],"every accepted grammar and every finite history of environment answers",
  "Tests would only notice a hang on their own fixed inputs.",
  [T],[("loops break on failure; second pass only once",T+" Repeat, compile_rule_export, PrecedenceExpr, Cache::Recursive")],None,["count of input accesses and user-code calls per parse"])
p("C17","Runs of the generator do not affect one another and leave nothing behind",
  "Any number of runs of the rust-peg program may happen in the same place (same directory, home, temporary directory, file names, process numbers), one after another or at once, and any of them may be killed, starved or refused at any point. A run that nothing happened to gives exactly the output, diagnostics and exit status it gives alone, a run that was stopped gives a prefix of its own output, and no run changes its grammar file or creates, changes or removes any other file.",
  ["schedules","crash_points","histories"],"every history of complete, killed and failing runs, and every interleaving of simultaneous runs at the calls that touch files",
  "No test runs the program at all, let alone twice in one place, at once, or after one that was killed half-way.",
  [BIN],[("reads one input, writes standard output, touches no other file",BIN+" main")],None,["standard output, standard error, exit status","directory tree around the runs"])
p("C18","The text of an error is delivered whole or its loss is reported",
  "Rendering a parse error or its expected set as text writes the place and the sorted list of expected names, the same text every time and in as many pieces as it likes. If the destination refuses, runs out of room or panics at any piece, what it holds is a prefix of that text, the failure (or panic) reaches the caller and no more pieces are offered; the error itself is unchanged and can be rendered again, also from inside a rendering of the same or another error.",
  ["fault_sequences","crash_points"],"every error of every failing parse and every piece at which the destination can refuse, fill up, panic or re-enter",
  "Tests render two fixed errors into a String, which never refuses.",
  [ERR],[("fmt::Display for ExpectedSet and ParseError, `?` after every piece",ERR)],None,["pieces written to a fmt::Write and the fmt::Result"])
p("C19","Expansions of several grammars in one compiler do not affect each other",
  "Any number of grammars may be expanded by one process, one after another or on several threads at once, with the same or different names, and some of them rejected. Each yields exactly the code or the diagnostics it yields when expanded alone in a fresh process, whatever the order, the interleaving and the hash seeds.",
  ["schedules","histories"],"every sequence and interleaving (at allocation granularity) of expansions, including stalled ones and rejected ones",
  "Each test grammar is expanded once, in one fixed order, by one thread of rustc, and only used afterwards; nothing compares an expansion with the same one in a fresh process.",
  [LIB,T,AN,TOK,GR],[("all tables are local to compile_grammar / check",T+" compile_grammar, "+AN+" check"),("FlatTokenStream made per call",LIB+" parser")],
  [("Context, GrammarAnalysis","per-grammar tables",T+", "+AN)],["token stream returned by the macro entry point"])
# --- not simulation targets
p("C20","Grammars with unguarded left recursion or nullable loops are rejected",
  "A grammar in which a rule can reach itself without consuming input, or repeat without bound an expression known to match nothing, is rejected at compile time, and a grammar without such a loop is never rejected for it.",
  ["programs"],"every grammar","The compile-fail tests contain a dozen fixed loops.",
  [AN],[("LeftRecursionVisitor, LoopNullabilityVisitor",AN)],None,["compile_error! output"])
p("C21","Names in user code never collide with generated names",
  "Identifiers, imports and types used in grammar actions resolve exactly as if the generated code's own local names did not exist.",
  ["programs"],"every choice of identifiers in user code","test-hygiene.rs tries one handful of names.",
  [T],[("Span::mixed_site hygiene",T)],None,["compilation of user grammars"])
p("C22","The grammar language is its own fixpoint",
  "Compiling the shipped meta-grammar with the shipped generator yields exactly the shipped meta-parser, so the documented grammar syntax is the one accepted.",
  ["programs"],"one program (the meta-grammar), and every grammar text for the syntax claim","Checked only by CI's bootstrap script, not by the tests.",
  [GR,GRP],[("bootstrap.sh","bootstrap.sh")],None,["grammar.rs"])
p("C23","Grammar mistakes are reported at the offending token",
  "An ill-formed grammar, wrong arity, unused result, duplicate rule or misuse of an attribute produces a compile error whose span is the token at fault, and never a panic of the macro.",
  ["programs"],"every ill-formed grammar","Eleven fixed compile-fail cases.",
  [T,LIB,TOK],[("report_error, report_error_expr",T)],None,["compiler diagnostics"])
p("C24","Results may borrow from the input for as long as the input lives",
  "Slices, references and lifetimes, generic and where-clause parameters declared on rules and grammars type-check exactly when the equivalent hand-written functions would.",
  ["programs"],"every type and lifetime signature","Fixed examples only.",
  [T],[("lifetime and type parameter threading",T+" compile_rule, rule_params_list")],None,["type checking of generated code"])
p("C25","The runtime works without the standard library",
  "Without the std feature the runtime offers the same input types and error reports using only core and alloc.",
  ["configurations"],"feature combinations","Tests always build with std.",
  ["peg-runtime/Cargo.toml",RT,ERR],[("cfg(feature = std)",RT)],None,["compilation"])
p("C26","Built-in inputs implement literals, elements and slices by content",
  "For str, byte and general slices, a literal matches exactly when the bytes at the position equal it, an element is the character or item at the position, and a slice is the content between two positions.",
  ["inputs"],"every content, position and literal","A few ASCII and two multi-byte strings.",
  [STR,SL],[("parse_elem, parse_string_literal, parse_slice",STR+", "+SL)],None,["ParseElem, ParseLiteral, ParseSlice implementations"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
