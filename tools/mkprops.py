#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "Channels deliver every value exactly once, in order, within capacity", """
 Values written to a channel are received exactly once, in the order in which the writes took effect, whatever mix of
 blocking and try operations is used and however many concurrent processes use the channel. A channel of size n never
 holds more than n unreceived values, and a blocking operation completes as soon as, and only when, it can take effect
 (on an unbuffered channel only by a writer handing its value to a reader). A try operation never blocks: it succeeds exactly when it can
 take effect at once and otherwise reports failure ((#f () #t) for a try-read, #f for a try-write) and leaves the channel unchanged.""",
 ["schedules", "histories"], "every interleaving of channel operations by any number of processes on channels of any size",
 "The Lisp tests run a handful of fixed single- or two-process scripts; they sample one interleaving and small buffers.",
 ["prim_channel.go"], [("MakeChannelImpl/ChannelWriteImpl/ChannelReadImpl/ChannelTry*Impl", "prim_channel.go")],
 [dict(name="Channel", meaning="the Go channel that holds unreceived values", where="prim_channel.go")],
 ["value returned by channel-write, channel-read, channel-try-write, channel-try-read (and the <- shortcuts)"])

prop("C02", "Closing a channel loses nothing and ends everything", """
 After close-channel, values already written are still received in order, and then every read and try-read answers at once that
 there is no more ((() #f) and (#t () #f)), also for readers that were already blocked. Writing or try-writing to a closed channel,
 closing it a second time, or being a writer blocked at the moment of closing, is an error that transfers no value and disturbs nothing else.
 Channel operations applied to something that is not a channel, and make-channel with a size that is not a non-negative integer, are errors.""",
 ["schedules", "histories"], "every history of operations before, at and after a close, by any number of processes",
 "Tests close a channel in two or three fixed scripts; blocked parties at the moment of closing are never exercised.",
 ["prim_channel.go"], [("CloseChannelImpl and the recover blocks of the write operations", "prim_channel.go")], None,
 ["results of channel operations after close-channel"])

prop("C03", "join yields a forked process's result exactly once, after it finished", """
 fork runs its function exactly once, concurrently, with the process object and the given arguments, and errors (running nothing) when the argument
 count does not fit. The first join on a process returns the function's value, only after the function has finished, and returns nil if the
 function ended in an error or a Go panic, which never disturbs other processes or the host; every further join is an error, whatever the
 interleaving of joiners. A join by code running inside the process itself returns nil at once and does not consume the result.""",
 ["schedules", "histories"], "every set of processes, joiners and completion orders",
 "The tests join two or three processes in fixed order; racing joiners, repeated forks of one function and failing bodies are not sampled.",
 ["prim_concurrency.go", "function.go"], [("ForkImpl/JoinImpl, Joined flag and ReturnValue channel", "prim_concurrency.go"), ("parentProcess binding", "function.go")],
 [dict(name="Process.Joined / ReturnValue", meaning="one-shot result hand-over", where="prim_concurrency.go")])

prop("C04", "Scheduled processes run at most once, never early, and never once abandoned", """
 A function given to schedule runs at most once and not before its delay has passed since scheduling (or since the last
 reset-timeout before it fired, which then starts the delay anew), and join then returns its value; a process abandoned before its delay has passed never runs, and joining it returns nil.
 A wake is remembered (at most one at a time) until a proc-sleep of that process consumes it: proc-sleep returns #t, early, exactly
 when it consumed a wake, and otherwise returns #f after the whole delay. abandon and reset-timeout of a process that was not scheduled are errors.""",
 ["schedules", "histories"], "every order of schedule, reset-timeout, abandon, wake, sleep, expiry and join",
 "Tests use a few fixed scripts; orders of abandon, reset, wake and join relative to expiry are not enumerated.",
 ["prim_concurrency.go"], [("ScheduleImpl select loop, AbandonImpl, ResetTimeoutImpl, WakeImpl, ProcSleepImpl", "prim_concurrency.go")])

prop("C05", "Atomics are linearizable 64-bit integers", """
 Every concurrent use of an atomic is equivalent to its operations taking effect one at a time, each between its call and its return:
 load returns the current value, store replaces it, add adds and returns the new value, swap replaces it and returns the old one,
 and compare-and-swap replaces it and returns #t exactly when the current value equals the expected one. An operation given a
 non-atomic or a non-integer is an error and changes nothing; distinct atomics are independent, and (atomic) starts at 0.""",
 ["schedules", "histories"], "every interleaving of atomic operations by any number of processes",
 "Tests run fixed sequential scripts and one counting race; no history is checked for linearizability.",
 ["prim_concurrency.go"], [("Atomic*Impl over sync/atomic", "prim_concurrency.go")])

prop("C06", "Lexical scoping: references, set! and define reach the right binding", """
 A variable reference yields the value of the innermost enclosing binding in the program text (nil if there is none), set! changes exactly that binding
 (an error, changing nothing, if there is none), and define creates or changes a binding only in the current scope.
 Every call, let, let*, letrec, named let and do creates fresh bindings, initialised in the scopes their definitions say, and a closure keeps using, and sharing,
 the very bindings that enclosed its creation, wherever and however often it is called.""",
 ["programs"], "every program built from these forms",
 "The tests check isolated forms; shadowing, sharing between closures and interleaved set!/define at several depths are unbounded.",
 ["symbol_table_frame.go", "function.go", "prim_special_forms.go", "prim_environment.go"],
 [("ValueOfWithFunctionSlotCheck/SetTo/BindLocallyTo", "symbol_table_frame.go"), ("internalApply/makeLocalBindings", "function.go"), ("LetCommon/namedLetImpl/DoImpl", "prim_special_forms.go")])

prop("C07", "Each subexpression is evaluated in the defined order, once, and only if due", """
 In an application the arguments are evaluated left to right, each exactly once, before the body runs, and not at all if their number does not fit the callee;
 and, or, if, cond, case, when, unless, do and named let evaluate exactly the subexpressions their definition selects, in order, and nothing else.
 begin, bodies, let forms, -> and => evaluate their parts in sequence and yield the defined value.""",
 ["programs"], "every program built from these forms, with effects and errors at any subexpression",
 "Tests compare final values; the order and multiplicity of effects in nested forms is never observed.",
 ["data.go", "primitive_function.go", "function.go", "prim_special_forms.go", "prim_relative_logical.go"],
 [("evalHelper/Apply", "data.go"), ("PrimitiveFunction.Apply", "primitive_function.go"), ("special forms", "prim_special_forms.go")])

prop("C08", "Macros and quasiquote build code exactly as written and run it in the caller's scope", """
 A macro call binds the macro's parameters to its unevaluated arguments (rest parameters to the remaining ones), evaluates the macro body in the macro's defining scope and then
 evaluates the resulting form exactly once in the caller's scope. A quasiquoted template yields its own structure with each level-1 unquote replaced by that
 expression's value and each level-1 unquote-splicing by the elements of that expression's list value, evaluated left to right; deeper quasiquote levels are preserved.
 quote yields its datum unevaluated, and expand yields the expansion without evaluating it. (Left open: an unquote nested inside an unquoted expression and outside any quasiquote of its own.)""",
 ["programs"], "every template and macro, nested to any depth",
 "A dozen fixed templates are tested; nesting, empty splices, splice positions and lists built at run time are not.",
 ["macro.go", "prim_macros.go", "data.go"], [("Macro.Expand/internalApply", "macro.go"), ("processQuasiquoted", "prim_macros.go"), ("Flatten", "data.go")])

prop("C09", "Errors abort, propagate and can be caught, and leave earlier effects exactly as they were", """
 An error raised by any subexpression aborts every enclosing form up to the nearest on-error, or to the host, and no further effect of the aborted forms happens, while effects made before it stay.
 on-error calls its error handler once with the message exactly when its first expression raised an error and yields the handler's value; otherwise it calls the optional
 second handler, if there is one, and else yields the expression's value. After an error the interpreter keeps working and all bindings have the values the completed effects gave them.""",
 ["programs"], "every program with an error at any point of its evaluation",
 "Tests raise errors in a few hand-picked places; each special form and primitive is a place where an error can be swallowed or overwritten.",
 ["data.go", "prim_system.go", "prim_special_forms.go", "prim_list_functions.go", "prim_mutators.go"], [("err propagation in every form", "data.go"), ("OnErrorImpl", "prim_system.go")])

prop("C10", "Builtins and protected constants cannot be rebound or mutated", """
 No sequence of operations in a program changes the value that a builtin's name (primitive, special form or predefined constant such as nil) has in the global environment:
 define, set!, defmacro, environment-assign!, environment-define and mutation through shared constants all either
 leave it untouched or report an error. User code may still bind the same name locally in its own scope, and that binding ends with that scope.""",
 ["programs", "histories"], "every operation sequence that tries to redefine, assign, unbind or mutate a builtin",
 "Tests try one define and one set!; every other writer of a binding or of a shared constant is untested.",
 ["symbol_table_frame.go", "binding.go", "prim_environment.go", "prim_mutators.go"], [("Binding.Protected checks", "symbol_table_frame.go"), ("EnvironmentAssignBangImpl", "prim_environment.go")])

prop("C11", "A restricted environment never regains the restricted primitives", """
 Once restrict-environment has been applied to an environment, evaluating a call to a restricted primitive (file ports, write-bytes, load, exec, debug and environment-escape operations) in that
 environment, or in any scope below it (a let, a function or macro body, a closure, a nested definition), is an error with no effect, however the primitive is reached (alias, apply, map, nested definition).
 No operation makes a restricted environment unrestricted, and environments that are not below a restricted one are unaffected. All unrestricted primitives work as before.""",
 ["programs", "histories"], "every program run in a restricted environment and every order of creation and restriction",
 "Three fixed calls are tested; the guarantee is about every call path and every later-created scope.",
 ["symbol_table_frame.go", "primitive_function.go", "prim_environment.go"], [("IsRestricted inheritance", "symbol_table_frame.go"), ("PrimitiveFunction.Apply restriction check", "primitive_function.go")])

prop("C12", "Frames resolve slots, inheritance, self and super as prototypes", """
 Reading a slot yields the frame's own value, else the value inherited through its parent slots (an error, or nil for get-slot-or-nil, if none has it); has-slot? says exactly whether reading would succeed.
 Writing or removing a slot changes only that frame's own slots, also when an ancestor has the slot; cloning gives an independent frame with the same slots.
 send runs the function found by that lookup with self bound to the receiver and slot names visible as variables (set! of an existing slot name updates the receiver), send-super starts the lookup at the parents of the frame in which the running function was found; parent cycles and diamonds are allowed and never loop.""",
 ["programs", "histories"], "every parent graph, slot placement and operation sequence",
 "Tests use fixed two- and three-frame hierarchies; graphs with cycles, diamonds, re-parenting and slot removal are unbounded.",
 ["frame.go", "prim_frame.go", "symbol_table_frame.go", "function.go"], [("FrameMap.HasSlot/Get/Set/Remove/Clone", "frame.go"), ("SendImpl/SendSuperImpl/ApplySlot*", "prim_frame.go")])

prop("C13", "Concurrent use of frames is linearizable and cannot deadlock", """
 When several processes read, write, test, remove and clone slots of frames that share parents (also cyclic parent graphs), every operation completes,
 a slot read never sees anything but a value some write gave it, and per slot the operations are equivalent to taking effect one at a time.
 Concurrent use never crashes the host.""",
 ["schedules"], "every interleaving of frame operations over every parent graph",
 "No test uses frames from two processes with writers present.",
 ["frame.go", "prim_frame.go", "data.go"], [("FrameMap.Mutex", "frame.go")])

prop("C14", "Bytearrays: ! operations change exactly the target, the others change nothing", """
 Bytearray operations return exactly the bytes their definition selects, and elements are always 0..255. replace-byte!, append-bytes! change exactly the addressed array (visible through every reference to it) and nothing else;
 replace-byte, append-bytes, extract-bytes, take/drop, copy and the list conversions return an array or list that shares no storage with their arguments, so later mutation of one is never visible in the other.
 Out-of-range indices, values outside 0..255 and wrongly typed arguments are errors that change nothing.""",
 ["histories", "inputs"], "every sequence of bytearray operations over every aliasing pattern",
 "Tests apply single operations to fresh literals; aliasing across sequences of operations is not exercised.",
 ["prim_bytearray.go", "data.go"], [("Replace/Append/Extract implementations and their copies", "prim_bytearray.go"), ("Copy", "data.go")])

prop("C15", "List mutators act on exactly one cell; all other list operations change no argument", """
 set-car!, set-cdr!, set-nth! and append! change exactly the addressed cell, visibly through every reference to it; an error in an argument or a wrong
 type changes nothing. Every other list operation (cons, append, reverse, map, sort, filter, sublist, flatten, remove, copy, take, drop, partition, ...) leaves all its arguments exactly as they were,
 and copy yields an equal structure that shares no mutable part with the original. The lists that reverse, map, filter, remove, flatten, sort, partition, sublist, take, list-head, union and intersection
 make share no cell with their arguments; cons, list-tail, drop, member-style searches and the last argument of cons* and append! share as documented.""",
 ["histories"], "every sequence of constructions, accesses and mutations over every sharing pattern",
 "Tests check results of single calls, hardly ever that the inputs are intact or that aliases agree.",
 ["prim_mutators.go", "prim_list_manipulation.go", "prim_list_access.go", "data.go"], [("SetCarImpl/SetCdrImpl/SetNthImpl/AppendBangImpl", "prim_mutators.go"), ("Append/Copy/Reverse", "data.go")])

prop("C16", "Alists behave as finite maps and list sets as finite sets", """
 acons adds or replaces exactly one key, dissoc removes exactly that key, assoc and rassoc find a pair with that key or value (by structural equality) or nil, pairlis and alist build the map of their pairs,
 and every key occurs at most once, for every sequence of operations (acons may reuse the alist it is given). union, intersection and complement of lists
 of lists without repeated elements contain exactly the elements the set operation defines, each once. A lookup in something that is not a list of pairs is an error.""",
 ["histories", "inputs"], "every sequence of alist operations and every pair of lists",
 "Tests use fixed two- or three-entry alists and sets.",
 ["prim_alist.go", "prim_list_set.go", "data.go"], [("Acons/Assoc/Dissoc", "data.go"), ("UnionImpl/IntersectionImpl/ComplementImpl", "prim_list_set.go")])

prop("C17", "First-class environments read and write exactly the scope they denote", """
 Evaluating an expression in an environment object sees and changes exactly that scope and its ancestors; environment-assign! changes the innermost existing binding (an error if unbound), environment-define binds only in that very
 environment, and bound?, assigned?, lookup, bound-names, bindings, reference-type and lookup-macro report exactly what evaluation there would find.
 make-top-level-environment makes a scope directly below global holding exactly the given bindings, find-top-level-environment returns the one last made under that name, procedure-environment is the scope a closure was created in.""",
 ["programs", "histories"], "every sequence of environment operations over every scope tree",
 "Each primitive is called once or twice in the tests, always on freshly made scopes.",
 ["prim_environment.go", "symbol_table_frame.go"], [("Environment*Impl", "prim_environment.go"), ("SymbolTableFrame", "symbol_table_frame.go")])

prop("C18", "Higher-order list functions call their function on each due element, once, in order", """
 map, for-each, any, every, filter, remove, find, find-tail, partition, reduce, fold-left, fold-right, delete/count-style functions and apply call the given function exactly on the elements (or element tuples) their definition prescribes,
 left to right (fold-right: right to left), once each, stopping where the definition stops, and return the defined value for every list length including empty and for lists of unequal length.
 An error raised by the function stops the iteration and is reported, and predicates that must answer a boolean are checked.""",
 ["programs", "inputs"], "every function, list length, number of lists and result pattern",
 "Tests compare results for fixed lists of length 3 to 5; call sequences, early stops and errors in the middle are not observed.",
 ["prim_list_functions.go", "prim_special_forms.go", "prim_list_manipulation.go"], [("MapImpl ... FoldRightImpl", "prim_list_functions.go"), ("ApplyImpl", "prim_special_forms.go")])

prop("C19", "Reading what was printed gives back an equal value", """
 The reader accepts exactly one datum at a time and yields the structure its text denotes, for integers (decimal, hex, binary), floats, strings with escapes, symbols, booleans, quote/quasiquote/unquote prefixes, nested and dotted lists, bytearrays and frames, with any
 whitespace and comments between tokens; unbalanced or misplaced brackets and literals out of range are errors, never silently accepted.
 For every value composed of these, reading its printed representation (and evaluating it where it is a frame) yields an equal value. (Left open: a surplus closing parenthesis at top level, a dot with nothing before it, infinities and NaN.)""",
 ["inputs"], "every token sequence and every printable value",
 "Tests parse and print a few dozen literals; combinations and round trips are not enumerated.",
 ["tokenizer.go", "parser.go", "data.go"], [("Tokenizer.readNextToken", "tokenizer.go"), ("parseExpression", "parser.go"), ("String", "data.go")])

prop("C20", "Equality is an equivalence that agrees with structure", """
 equality (eq?, eqv?, equal?, ==-free structural comparison) is reflexive, symmetric and transitive over all values, and holds exactly when two values have the same type
 and the same structure: numbers of the same type and value, same characters, equal elements in order (including a dotted tail), equal slots of frames, equal bytes, the same key/value map for alists, and identity for functions, environments and other objects. copy of a value is equal to it,
 and list functions that search or remove by value (memp-style member, remove, union, case, assoc) use this same equality. (NaN is left out.)""",
 ["inputs"], "every pair and triple of values",
 "Tests compare some twenty pairs.",
 ["data.go", "prim_relative_logical.go"], [("IsEqual", "data.go")])

prop("C21", "A symbol name denotes one symbol, and generated symbols are new", """
 Reading or interning the same name any number of times, from any process, yields the identical symbol object, and different names yield different symbols.
 Every symbol produced by gensym or gensym-naked, with any prefix and from any number of concurrent processes, differs in name from every other symbol generated before with that prefix.""",
 ["schedules", "histories"], "every interleaving of intern and gensym calls",
 "Tests call gensym twice in a row; concurrent interning is not tested.",
 ["symbol_table_frame.go", "prim_system.go"], [("Intern", "symbol_table_frame.go"), ("GensymImpl counters", "prim_system.go")])

prop("C22", "Ports: successive reads yield successive forms, writes append, independently per port", """
 Successive reads from an input port yield the successive data of the file, each exactly once and in order, then the eof object for ever, no matter how operations on other ports are interleaved.
 Data written to an output port appears in the file in the order written and reads back equal, an output port opened for append keeps what was there, and write-bytes writes exactly the given bytes.
 Operations on a closed or wrong-typed port, or opening a file that does not exist, are errors.""",
 ["histories"], "every interleaving of operations on any number of open ports",
 "Tests read and write one port at a time.",
 ["prim_io.go", "parser.go", "tokenizer.go"], [("ReadImpl/ParseObjectFromFileInEnv/NewTokenizerFromFile", "prim_io.go, parser.go, tokenizer.go")])

prop("C23", "Evaluating any expression yields a value or an error, never a host crash", """
 Any call of a non-interactive builtin with any number of arguments of any types returns to the host either a value or an error: it does not panic, and does not run forever on finite, acyclic arguments of reasonable size (requests for huge lists, channels or paddings, unbounded recursion, loops that never end and the interactive debugging operations aside).
 A call with a number of arguments the builtin does not accept is always an error that evaluates none of the arguments. Afterwards the interpreter is in working order and no builtin or constant has changed.""",
 ["inputs", "programs"], "every builtin with every argument tuple",
 "Tests call builtins with a few wrong-typed arguments each; most argument combinations are never tried.",
 ["primitive_function.go", "prim_math.go", "prim_string.go", "prim_mutators.go", "prim_list_access.go", "prim_frame.go", "prim_io.go"], [("PrimitiveFunction.Apply checks and each primitive's type checks", "primitive_function.go, prim_*.go")])

prop("C24", "Concurrent evaluation keeps local scopes private and shared scopes intact", """
 Processes that evaluate code concurrently never see each other's parameters or local bindings, and each process's own computation gives the result it would give alone.
 A shared variable always holds a value that some define or set! gave it, every completed assignment is visible to later reads ordered after it through a join or channel, and no concurrent use of shared scopes, functions or symbols
 (including environment listing primitives) crashes or hangs the host.""",
 ["schedules"], "every interleaving of evaluations in scopes that share ancestors",
 "The test-suite forks a few processes with no shared writers.",
 ["symbol_table_frame.go", "function.go", "prim_environment.go", "data.go"], [("SymbolTableFrame.Mutex", "symbol_table_frame.go"), ("fresh local environment per call", "function.go")])

prop("C25", "List accessors and rearrangers select exactly the defined positions", """
 For every list and index, car/cdr compositions, general-car-cdr, first..tenth, nth, list-ref, last-pair, list-head, list-tail, sublist, take, drop, length, reverse, append, flatten, flatten*, list-copy style functions, make-list, iota-like interval and
 sort return exactly the elements at the positions their definition names, in the defined order, and nil or an error (never a wrong element) outside the list.""",
 ["inputs"], "every list (length, nesting) and every index, in and out of range",
 "Tests use one list of fixed length per function, mostly in-range indices.",
 ["prim_list_access.go", "prim_list_manipulation.go", "list_access.go"], [("the accessors", "prim_list_access.go"), ("the manipulators", "prim_list_manipulation.go")])

prop("C26", "JSON conversion preserves structure both ways", """
 json->lisp and json->lisp-with-frames style conversion turn every JSON document into the corresponding lists, alists or frames, strings, numbers and booleans, and converting back yields an
 equivalent JSON document; lisp->json of convertible data parses back to equal data (symbols becoming strings, bytearrays lists of numbers, functions in slots being left out; null back to JSON is left open, as are numbers beyond 2^53 or float32 precision). Malformed JSON is an error.
 A Go value the host hands over (numbers of every kind, strings, booleans, pointers, slices, arrays, maps with string keys and structures) becomes the list, frame or atom its JSON encoding would become; the json tags of exported fields
 (name, -, omitempty, string) decide which slots there are and what they are called.""",
 ["inputs"], "every JSON document and every convertible value of a program or of the host", "Tests convert a dozen documents.",
 ["json_support.go", "json_frame_support.go"], [("JsonToLisp/LispToJson and the frame variants", "json_support.go, json_frame_support.go")])

prop("C27", "Integer and float arithmetic and comparison give the defined result and type", """
 Arithmetic and comparison primitives accept exactly numbers, give an integer when all operands are integers and a float when any is a float, evaluate over all
 operands in order, and report an error (never a wrong number) for a non-number operand at any position or a zero divisor. number->string and string->number convert decimal integers both ways.""",
 ["inputs"], "every operand list", "Tests sample fixed operands.",
 ["prim_math.go", "prim_relative_logical.go"], [("Add/Subtract/.../comparison implementations", "prim_math.go, prim_relative_logical.go")])

prop("C28", "String operations and format compute exactly the defined text", """
 Length, substring, searching, prefix and suffix tests, case conversion, trimming, splitting, joining and the string comparisons (with and without case) give the result defined by the character sequence for every
 string of ASCII characters, split and join are inverse to each other, comparisons are a total order, the operations ending in ! change exactly the string they are given wherever it is held and every other operation changes none.
 format replaces each substitution of its control string by the matching argument, padded on the side and to the width given for that substitution, and a wrong number of arguments, an unknown or incomplete
 substitution, an index outside the string or an argument that is not a string is an error.""",
 ["inputs"], "every string and control string", "Tests use a few fixed strings per operation; format is hardly tested.",
 ["prim_string.go", "prim_io.go"], [("prim_string.go primitives", "prim_string.go"), ("FormatImpl", "prim_io.go")])

prop("C29", "Evaluating a text or file evaluates its forms in order up to the first failure", """
 Evaluating a text, a file or a loaded file evaluates its forms one after another, each exactly once and each after the one before has finished, in the environment it was asked for (the global one if none), and yields the value of the last.
 The first form that is malformed, incomplete or fails to evaluate makes the whole an error: what the forms before it did stays done and nothing after it is evaluated, also when files load each other. Comments evaluate to nothing, and parsing alone evaluates nothing.""",
 ["inputs", "histories"], "every sequence of well-formed, malformed and failing forms, in every environment and through every entry point",
 "Tests evaluate texts with one or two correct forms; texts that fail in the middle are not tested.",
 ["parser.go", "prim_system.go", "tokenizer.go"], [("ParseAndEvalAllInEnvironment, ProcessFile, ParseAll", "parser.go"), ("LoadFileImpl", "prim_system.go")])

prop("C30", "Primitives a host registers are called exactly as their registration says", """
 A host-registered primitive runs exactly when it is called with a number of arguments its specification admits (an exact number, a range, a lower bound, anything, or alternatives of these); otherwise the call is an error that evaluates no argument and does not run it.
 A primitive is given the values of its arguments in order, evaluated once each from left to right, a special form the unevaluated forms, and either the environment of the caller; an argument that fails makes the call fail without running it,
 its result or error is the result of the call, and restricted ones never run in restricted environments. All this is so however it is called: by name, through a variable, a parameter, apply, map, or by the host.""",
 ["inputs", "histories"], "every specification, number of arguments and way of calling",
 "Tests register no primitives with ranges or alternatives and call the builtins by name only.",
 ["primitive_function.go", "symbol_table_frame.go", "eval.go"], [("MakePrimitiveFunction/parseNumArgs/checkArgumentCount, PrimitiveFunction.Apply", "primitive_function.go")])

prop("C31", "Streams: computed once, when asked for, and yielding what the same lists would", """
 The rest of a stream (and any promise) is not computed before it is asked for, is computed once however often and by whomever it is asked for afterwards, and is computed again only when computing it failed.
 What stream-cons, stream-map, stream-filter, add-streams, merge, scale-stream, stream-enumerate-interval, stream-ref and stream-for-each yield is what the same operations yield on lists, for finite and infinite streams,
 whatever was asked for before and through however many streams that share a rest. (Mapping over streams of different lengths, and scaling finite ones, is left open.)""",
 ["histories"], "every way of building streams on streams and every order of asking for their elements",
 "The stream library has no tests.",
 ["lisp/streams.lsp", "macro.go", "function.go"], [("memo-proc, delay, stream-cons and the stream operations", "lisp/streams.lsp")])

prop("C32", "The test library counts and reports every assertion reached, and only those", """
 A context evaluates its setup afresh before each clause, so that clauses do not see each other's changes to its variables. Every assertion that is reached, evaluated once, counts as exactly one pass or failure as its definition says;
 the first error outside an assertion about errors counts as one error and ends its clause but no other. Every failure and error is reported with the names of its context and clause and the text of the assertion.
 run-test starts from nothing and yields true exactly when there was neither a failure nor an error, loading a test file goes on counting, and an error in the setup or outside the clauses is an error of the whole.""",
 ["histories", "inputs"], "every sequence of contexts, clauses and assertions",
 "The library runs the tests but is not itself tested: a version that swallows failures would pass.",
 ["lisp/testing.lsp", "prim_special_forms.go", "prim_io.go"], [("context, it, assert-*, log-*, run-test", "lisp/testing.lsp")])

prop("C33", "A profile tells of exactly the calls that were made, nested as they were", """
 Profiling an expression yields its value or error and writes one entry and one exit record, of the same type, name and identity, for each call of a function, primitive or special form made while it is evaluated, and of nothing else,
 nested the way the calls are, also when calls fail, with times that do not go back. Calls of processes it runs have their own, complete pairs of records. load-profile reads the records back as the trees of the calls that ended, with the time each took; by-function reports for every function called how often and how long, print-tree the trees, latest call first, with the time spent in each call and within it.
 A file name that is not a string or cannot be opened is an error that evaluates nothing. (Profiling within profiling is left open.)""",
 ["inputs", "histories"], "every expression",
 "Profiling has no tests.",
 ["profiling.go", "function.go", "primitive_function.go", "prim_system.go", "lisp/profiling.lsp"], [("ProfileEnter/ProfileExit in internalApply and PrimitiveFunction.Apply", "function.go, primitive_function.go"), ("ProfileImpl", "prim_system.go"), ("load-profile, by-function, print-tree", "lisp/profiling.lsp")])

prop("C34", "A builtin given an argument of a wrong type reports an error and changes nothing", """
 A builtin function that requires an argument of a particular type (number, integer, string, symbol, list, function, frame, bytearray, channel, atomic, environment, port, process …), called directly or through apply with an argument
 of another type in any of those positions, ends in an ordinary golisp error: it does not yield a value, it does not bring the program down, the arguments are evaluated once each, from left to right, before it fails,
 and none of the other arguments (bytearrays, lists, frames, atomics, channels, environments, ports, files) is changed by the failing call. The same call with arguments of the right types yields a value.""",
 ["inputs"], "every builtin that restricts the type of an argument, every argument position, every other type",
 "Each of some 190 builtins has its own hand-written checks; tests try one or two wrong types for a few of them, never every type at every position.",
 ["prim_*.go", "primitive_function.go", "data.go"], [("the type checks at the head of each Impl function", "prim_*.go"), ("Primitive.Apply", "primitive_function.go")])

prop("C35", "A value keeps its type, its content and its identity wherever it is kept or passed", """
 The type predicates (atom?, list?, pair?, alist?, nil?, symbol?, string?, integer?, float?, number?, boolean?, function?, macro?, frame?, bytearray?, port?, environment?, eof-object? ...) classify every value by its type,
 and a value that is put into a variable, a slot, a list cell, an alist, an environment, a closure, a quasiquotation or a channel, or that is passed through a call, a macro, apply, eval, map, a process or a control form, comes back as the same value:
 of the same type and content, eq? to the original, and, where it can be changed, changed with it. Only nil and #f count as false.""",
 ["inputs", "histories"], "every kind of value, place and way of passing, and every history of them",
 "Tests put numbers and lists into each container once; what happens to a macro in a slot, nil in a channel or a port passed through apply is never tried.",
 ["prim_type_predicates.go", "data.go", "frame.go", "prim_channel.go", "symbol_table_frame.go", "function.go"], [("Is...Impl", "prim_type_predicates.go"), ("the storing primitives", "prim_*.go")])

prop("C36", "Functions of real numbers give the values that define them", """
 Each of sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp, exp2, expm1, log, log10, log1p, log2, logb, sqrt, cbrt, erf, erfc, gamma, j0, j1, y0 and y1, and each of the constants pi, e, phi, sqrt2, ln2 and so on,
 is the mathematical function or constant of its name, to single precision, for integer and float arguments alike; the result is a float. Outside the domain it is nan or an infinity, never a number; anything but one number is an error. The constants cannot be assigned.""",
 ["inputs"], "every argument", "Tests ask most of them at one or two points.",
 ["prim_math.go"], [("makeUnaryFloatFunction and its table", "prim_math.go"), ("the constants", "prim_math.go")])

prop("C37", "The console shows exactly what was written, and tracing exactly what was evaluated", """
 write-string, write, newline, format to #t, write-line and write-log put exactly their text on the console, in the order of the calls; what write-log writes also goes to every logger, and nothing else does; a failing call writes nothing. With lisp-trace on, every evaluation prints one line when it begins
 and one with its value when it ends, nested as the evaluations are (those that fail do not end), and programs give the same values as without it. lisp-trace, debug-trace and the set of functions debugged on entry are remembered as they were last set.""",
 ["inputs", "histories"], "every sequence of writes, every traced expression, every history of settings", "No test looks at the console.",
 ["prim_io.go", "prim_system.go", "prim_debug.go", "logging.go", "data.go"], [("logEval, logResult", "data.go"), ("WriteStringImpl, WriteImpl, NewlineImpl", "prim_io.go"), ("WriteLineImpl, WriteLogImpl", "prim_system.go"), ("LogPrintf", "logging.go"), ("RegisterDebugPrimitives", "prim_debug.go")])

prop("C38", "An interactive session answers each line in order, goes on after errors, and its debugger changes only what it is told to", """
 The golisp command loads the files it is given in order, each up to its first failure, which it reports, and then evaluates each line typed at its prompt in one scope, answers it with its value or its error, and goes on, whatever a line does, until (quit), :q or the end of the input.
 (debug), a function marked to be debugged on entry, :s, :u and, once asked for, an error stop an evaluation exactly where it is; the debugger's prompt evaluates lines in the scope of that place and changes to its variables last; evaluations started there can be stopped in turn; :c goes on as if nothing had happened,
 :r makes its value the value of the evaluation that was stopped and of nothing else; commands that only show something, that are incomplete or unknown change nothing.""",
 ["inputs", "histories"], "every sequence of files, lines and debugger commands, every nesting of stopped evaluations",
 "No test runs the command: the prompt and the debugger read the terminal.",
 ["main/golisp.go", "repl.go", "prim_debug.go", "data.go", "goreadline.go"], [("main", "main/golisp.go"), ("Repl", "repl.go"), ("DebugRepl", "prim_debug.go"), ("evalHelper", "data.go")])

prop("C39", "A function is what its definition says, whatever it is called and however it is called", """
 A function made by define, lambda or named-lambda takes exactly the calls its parameter list says (as many arguments as parameters, or at least as many with a rest parameter), binds its parameters to the arguments in order and the rest parameter to the list of the others, and refuses every other call before any argument is evaluated.
 This does not depend on the name or alias or place it is found through, nor on the way of the call: by name, as an expression in operator position, with apply, as a mapped function's callee, as a frame's slot, in another process, in evaluated data.
 definition-of yields the definition (name, parameters, rest parameter, body) the function was made by, and evaluating it elsewhere, also after writing and reading it, makes a function that does the same; anything but a function is refused.""",
 ["inputs", "histories"], "every shape of parameter list, body and way of defining; every number of arguments and way of calling; histories of definitions, aliases and redefinitions",
 "The tests call a few functions by name with the right number of arguments, and look at one or two definitions.",
 ["function.go", "prim_special_forms.go"], [("makeLocalBindings, computeRequiredArgumentCount", "function.go"), ("DefineImpl, LambdaImpl, NamedLambdaImpl, DefinitionOfImpl, ApplyImpl", "prim_special_forms.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
