prop("P01", title="No script text crashes, corrupts or leaks",
     statement="Executing any script text, valid or not, returns one of the documented error codes or success: it never crashes, "
               "never reads or writes memory it does not own, never fails an internal assertion, and never recurses or runs on without "
               "bound while parsing. Afterwards the instance can still run scripts, and destroying it releases every block it allocated. "
               "Raw pointers and FFI are excluded: they give scripts access to raw memory by design.",
     over=["inputs", "programs", "histories"],
     qtext="every byte string as script text, alone or after other (failing) scripts on the same instance, with collections at any instruction",
     why="The tests run a few hundred well-formed scripts and a handful of malformed ones; the input space is all texts, and a parser or "
         "interpreter slip shows only on a particular nesting, truncation, escape or ill-typed operation.",
     files=["src/mjs_tok.c", "src/mjs_parser.c", "src/mjs_exec.c", "src/mjs_string.c", "src/mjs_gc.c"],
     mech=[("parser recursion limit and error propagation", "src/mjs_parser.c"), ("tokenizer bounds", "src/mjs_tok.c:pnext"),
           ("stack restoration after an error", "src/mjs_exec.c:mjs_execute")],
     technique="grammar-based and mutation fuzzing under ASan/UBSan with leak accounting and an instance-still-works oracle",
     note="random search over script texts: token soup, loosely grammatical programs, mutated valid programs, deep nesting, escapes, raw bytes",
     hook="step limit and collection points",
     rule="the text has at least 8 tokens and either ran at least 10 instructions or was rejected with an error",
     assumptions=["Scripts do not use raw pointers: FFI, mkstr, s2o, getMJS are removed and native functions (which are raw pointers) appear in "
                  "call position only", "Scripts that run longer than the step limit are stopped; built-ins that walk a huge sparse array may take long",
                  "Out-of-memory conditions are not injected"],
     configs=[("asan", 5), ("aggr", 2), ("off0", 1)], quick=25, thorough=1500, libs=["lang.cc"])

prop("P02", title="Expressions evaluate as ES6 prescribes",
     statement="Every expression of the supported subset evaluates to the value ES6 prescribes: operator precedence and associativity, "
               "left-to-right evaluation, short-circuiting, the conditional operator, assignment and compound assignment (which yield the assigned value), "
               "pre/post increment, arithmetic, bitwise, comparison, string concatenation, typeof and property access. Mixing types in arithmetic "
               "(or using ==) is an error rather than a conversion, and every side effect happens exactly once and in order.",
     over=["programs", "inputs"],
     qtext="every expression tree over numbers, strings, booleans, null, undefined, objects and arrays, with side effects at any node",
     why="The tests fix some dozens of expressions; precedence, evaluation order and stack discipline errors show only in particular nestings of operators.",
     files=["src/mjs_parser.c", "src/mjs_exec.c", "src/mjs_tok.c"],
     mech=[("expression parser (precedence levels)", "src/mjs_parser.c"), ("operator evaluation", "src/mjs_exec.c:exec_expr/do_op")],
     technique="model-based testing: random expression programs against a reference interpreter",
     note="random expression trees up to depth 5 compared with a reference interpreter: value, order of side effects, error code, variables afterwards",
     rule="the reference interpreter executed at least 30 steps and logged at least one value",
     assumptions=_LANG, configs=[("asan", 3), ("o3", 1)], quick=20, thorough=1200, libs=["lang.cc"])

prop("P03", title="Control flow executes exactly the prescribed statements",
     statement="if/else, while, for, for..in, blocks, break, continue and return, nested in any way, execute exactly the statements ES6 prescribes, in order and "
               "the prescribed number of times. Block-scoped variables are visible exactly within their block, and leaving a loop or block early "
               "never disturbs the enclosing code.",
     over=["programs"],
     qtext="every nesting of loops, branches and blocks with early exits at any point, in functions and at top level, with bodies of any size",
     why="Tests cover single loops and a few nestings; jump offsets, scope and stack unwinding errors need a particular combination of nesting, early exit and body size.",
     files=["src/mjs_parser.c", "src/mjs_bcode.c", "src/mjs_exec.c"],
     mech=[("loop and branch code generation", "src/mjs_parser.c:parse_for/parse_while/parse_if"), ("offset insertion", "src/mjs_bcode.c:mjs_bcode_insert_offset"),
           ("break/continue/scope unwinding", "src/mjs_exec.c:OP_BREAK/OP_CONTINUE")],
     technique="model-based testing: random control-flow programs against a reference interpreter",
     note="random programs with up to five levels of nested control flow compared with a reference interpreter: full trace, result, variables",
     rule="the reference interpreter executed at least 20 steps and logged at least one value",
     assumptions=_LANG, configs=[("asan", 3), ("o3", 1)], quick=20, thorough=1200, libs=["lang.cc"])

prop("P04", title="Function calls bind arguments, this and results as ES6 prescribes",
     statement="Calling a function binds each parameter to its argument (undefined when missing, surplus ignored), this to the object the function was "
               "selected from (undefined for plain calls, the given value for apply), and yields the returned value or undefined. Local variables are private to "
               "the call, also under recursion, and this and the locals of the caller are back as they were afterwards, however calls are nested in arguments or return values.",
     over=["programs", "histories"],
     qtext="every arrangement of function declarations, function values, methods, apply, recursion and nested calls with any number of arguments",
     why="Tests call small functions in a few ways; frame handling errors need particular nestings (a method call in the argument of another, apply of a native function, recursion with locals).",
     files=["src/mjs_exec.c", "src/mjs_parser.c", "src/mjs_core.c"],
     mech=[("call frames", "src/mjs_exec.c:call_stack_push_frame/call_stack_restore_frame"), ("apply", "src/mjs_exec.c:mjs_apply"),
           ("argument binding", "src/mjs_exec.c:OP_SET_ARG, src/mjs_core.c:mjs_arg")],
     technique="model-based testing: random call structures against a reference interpreter",
     note="random programs of function values, methods, apply and recursion compared with a reference interpreter: trace of this/arguments, results, variables",
     rule="the reference interpreter executed at least 20 steps and logged at least one value",
     assumptions=_LANG, configs=[("asan", 3), ("o3", 1)], quick=20, thorough=1200, libs=["lang.cc"])

prop("P05", title="Garbage collection is invisible",
     statement="Collecting garbage at any point of any script, partial or full, automatic or requested by the script or by the embedder (also inside a native function), "
               "changes nothing observable: same trace, results, errors and global state as without collections. Values the embedder has registered as owned "
               "stay intact and usable until they are released, whatever is collected or compacted in between.",
     over=["programs", "histories", "schedules"],
     qtext="every script, every choice of collection points among the executed instructions, every history of owned values",
     why="Tests collect at a few fixed points; a value missing from the root set shows only when a collection hits the short window in which nothing else refers to it.",
     files=["src/mjs_gc.c", "src/mjs_exec.c", "src/mjs_string.c", "src/mjs_core.c"],
     mech=[("root marking", "src/mjs_gc.c:mjs_gc"), ("string compaction", "src/mjs_gc.c:gc_compact_strings"), ("owned values", "src/mjs_core.c:mjs_own")],
     technique="metamorphic testing: the same random program with and without collections at random instructions; stateful model for owned values",
     note="each random program runs once without and up to three times with collections at random instructions (also at every one); owned-value histories against a model",
     hook="collection at chosen instructions",
     rule="the program ran at least 30 instructions with at least 3 collections, or the history has at least 10 operations and one collection",
     assumptions=["Native functions keep no unowned values across a collection", "Scripts do not use raw pointers"],
     configs=[("asan", 3), ("aggr", 1)], quick=25, thorough=1500, libs=["lang.cc"])

prop("P06", title="Garbage is reclaimed; repeated work needs no more memory",
     statement="Calling the same function, running the same loop body, or parsing the same invalid script again and again does not increase memory use once a full collection "
               "has run, whether the work succeeds or fails. A long-running loop that only produces garbage needs no more memory at its peak the more rounds it makes, without explicit collections.",
     over=["programs", "histories"],
     qtext="every function body and loop body of the supported subset that keeps nothing reachable, any number of repetitions",
     why="Tests check a few memory figures; a leaked stack slot, cell or string per call of a particular construct is invisible in a single run.",
     files=["src/mjs_gc.c", "src/mjs_exec.c", "src/mjs_parser.c", "src/mjs_string.c"],
     mech=[("sweep and arenas", "src/mjs_gc.c"), ("automatic collection triggers", "src/mjs_gc.c:gc_arena_is_gc_needed, gc_strings_is_gc_needed")],
     technique="property-based testing: memory after N, 2N, 3N repetitions of random work compared",
     note="random function bodies are repeated and the allocated bytes compared; linear growth in two successive intervals is a violation",
     rule="the repeated work executes at least 20 instructions (or the invalid script has more than 20 bytes)",
     assumptions=["The work itself keeps nothing reachable", "Growth below 4 bytes per repetition is not seen"],
     configs=[("asan", 1), ("o3", 3)], quick=25, thorough=1200, libs=["lang.cc"])

prop("P07", title="A failing script stops cleanly and leaves the instance usable",
     statement="A script that fails stops at the failing operation with the matching error code (syntax, reference, type, internal, not implemented) and a message; "
               "everything it did before remains, nothing after it happens, and a script with a syntax error has no effect at all. Afterwards the same instance runs further scripts and "
               "calls with the same results as if the failure had not happened, with variables, this and loops intact.",
     over=["programs", "histories", "fault_sequences"],
     qtext="every sequence of scripts with an ill-typed or undefined operation at any depth of calls, loops and expressions, or a syntax error at the end",
     why="Tests check error codes of single statements at top level; state that is not restored shows only when an error strikes inside particular nestings and another script follows.",
     files=["src/mjs_exec.c", "src/mjs_core.c", "src/mjs_parser.c"],
     mech=[("stack restoration", "src/mjs_exec.c:mjs_execute"), ("error setting", "src/mjs_core.c:mjs_set_errorf")],
     technique="stateful model-based testing: sequences of failing and correct scripts against a reference interpreter",
     note="histories of one to four random scripts on one instance with injected errors; code, trace, globals and a probe script compared with the model",
     rule="the history contains an error and the reference interpreter executed at least 30 steps",
     assumptions=_LANG, configs=[("asan", 3), ("o3", 1)], quick=20, thorough=1200, libs=["lang.cc"])

prop("P08", title="Objects are faithful maps with prototype lookup",
     statement="An object behaves as a finite map from byte-string names (any length, any bytes, empty included) to values, whichever way it is accessed: "
               "C API (mjs_set/get/del/next, by name or by value, also names in foreign strings), dot and bracket access, literals, for..in. A property holds the last value set until it is deleted, "
               "names that differ in any byte are different properties, iteration yields each property exactly once, and a name not found on the object is looked up along "
               "its prototype chain (mjs_get_v_proto, scripts), which also terminates on cyclic chains. Accessing a non-object fails and changes nothing.",
     over=["histories", "inputs"],
     qtext="every history of property operations on a graph of objects, with any names and values, and collections in between",
     why="Tests set and read a few short names; comparison, deletion and lookup errors need particular name lengths, shared prefixes, embedded NULs, list positions or prototype shapes.",
     files=["src/mjs_object.c", "src/mjs_exec.c", "src/mjs_conversion.c"],
     mech=[("property lookup", "src/mjs_object.c:mjs_get_own_property"), ("insertion and deletion", "src/mjs_object.c:mjs_set_internal, mjs_del"),
           ("iteration", "src/mjs_object.c:mjs_next"), ("prototype chain", "src/mjs_object.c:mjs_get_v_proto")],
     technique="stateful model-based testing against a map model",
     note="histories of up to 45 operations on up to 7 objects, compared with a model after each few operations",
     rule="the history has at least 8 operations",
     assumptions=["Iteration order is not judged", "The name 'apply' is a built-in of every value and is excluded", "Fractional number keys use the engine's number format (6 digits)"],
     configs=[("asan", 3), ("aggr", 1)], quick=20, thorough=900)

prop("P09", title="Arrays behave as sequences",
     statement="Array elements, length, push, splice, literals and indexed access agree with a sequence: length is one more than the largest index in use, push appends all its arguments in order and "
               "returns the new length, splice removes, inserts and returns exactly the elements ES6 prescribes for every combination of start, count (negative, missing, out of range) and new items, "
               "and no other element or array changes. Names that are not canonical indices never count as elements. The C functions (mjs_array_push/get/set/del/length) agree with what scripts see.",
     over=["histories", "inputs"],
     qtext="every history of array operations from scripts and C with any arguments, element types and collections in between",
     why="Tests splice a few fixed arrays; off-by-one and overlap errors in moving elements need particular relations of start, count and number of new items.",
     files=["src/mjs_array.c", "src/mjs_exec.c", "src/mjs_string.c"],
     mech=[("splice", "src/mjs_array.c:mjs_array_splice, move_item"), ("length", "src/mjs_array.c:mjs_array_length"), ("index recognition", "src/mjs_string.c:cstr_to_ulong")],
     technique="stateful model-based testing against a sequence model",
     note="histories of up to 40 operations on up to 6 arrays that may contain each other, compared with a model",
     rule="the history has at least 8 operations and at least one splice",
     assumptions=["splice is applied to arrays without holes", "Indices and counts are integers in the int32 range", "length is not assigned to"],
     configs=[("asan", 3), ("aggr", 1)], quick=20, thorough=900)

prop("P10", title="Strings are exact immutable byte strings",
     statement="Every string operation yields exactly the bytes of the byte-string model, for strings of any length and content (NULs and bytes above 127 included) and any origin (literal with escapes, C copy, "
               "foreign memory, result of an operation): concatenation, slice, indexOf, at/charCodeAt, indexing, length, ===/!==, truth value, typeof, chr, mjs_get_string, mjs_get_cstring, mjs_strcmp. "
               "Creating, moving or collecting other strings never changes a live one, and owned strings are NUL-terminated.",
     over=["histories", "inputs"],
     qtext="every history of string operations on a pool of live strings with any bytes and lengths, with collections at any instruction",
     why="Tests use a few short ASCII strings; representation boundaries (4/5/6 bytes, varint lengths 127/128 and 16383/16384), buffer reallocation while the source lies in the buffer, and NUL bytes are not covered.",
     files=["src/mjs_string.c", "src/mjs_exec.c", "src/mjs_gc.c", "src/common/mg_str.c", "src/common/cs_varint.c"],
     mech=[("representation", "src/mjs_string.c:mjs_mk_string, mjs_get_string"), ("embedding", "src/mjs_string.c:embed_string"), ("escapes", "src/mjs_string.c:unescape"),
           ("compaction", "src/mjs_gc.c:gc_compact_strings")],
     technique="stateful model-based testing against byte strings",
     note="histories of up to 40 operations on a pool of 8 strings compared with std::string; collections between and inside operations",
     hook="collection at chosen instructions",
     rule="the history has at least 6 operations",
     assumptions=["Ordering comparisons of strings are not judged", "Escapes are those of ES6 with code points up to 0xff", "at() with a negative index is not judged", "Indices are integers in the int32 range"],
     configs=[("asan", 3), ("aggr", 1)], quick=20, thorough=900)

prop("P11", title="JSON.stringify yields JSON text that denotes the value",
     statement="For every value made of null, booleans, numbers, strings of any bytes, arrays and objects in any nesting, JSON.stringify and mjs_json_stringify return text that is JSON and denotes exactly that "
               "value: same structure, same names and strings byte for byte (all escapes right), integers exact, other numbers to the six decimals mJS prints, each member once. Members without a JSON form (undefined, "
               "functions, native pointers) are left out of objects and are null in arrays, as are NaN and infinity; a reference to an enclosing object appears as [Circular] while shared objects are printed in full. "
               "The result does not depend on the size of the buffer offered, nothing is written outside it, the value is unchanged, JSON.parse gives the value back, and a value nested too deeply is "
               "refused without affecting later calls.",
     over=["inputs"],
     qtext="every finite value graph (also shared and circular) with any strings and numbers, any buffer size, and collections at any instruction",
     why="Tests print a few fixed objects; escaping, buffer growth and length accounting errors need particular bytes, nesting, sharing and buffer sizes.",
     files=["src/mjs_json.c", "src/mjs_conversion.c", "src/common/str_util.c"],
     mech=[("printing", "src/mjs_json.c:to_json_or_debug"), ("escaping", "src/mjs_json.c:snquote"), ("buffer growth", "src/mjs_json.c:mjs_json_stringify")],
     technique="property-based testing: random value graphs, the text parsed by an independent JSON parser and compared; round trip through JSON.parse",
     note="random value graphs with sharing and cycles, built in random order; depths up to 700",
     hook="collection at chosen instructions",
     rule="the value has at least two containers",
     assumptions=["Order of members is not judged", "Strings that are not UTF-8 are printed byte for byte and need not be accepted by JSON.parse", "Up to 500 nested containers must be printed; beyond that an error is allowed"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)

prop("P12", title="JSON.parse yields the value the text denotes and rejects what is not JSON",
     statement="JSON.parse (and mjs_json_parse) accepts every JSON text in any layout and yields exactly the value it denotes: every number correctly rounded, every string byte for byte with all escapes, "
               "all array elements in order, all members with their names unescaped, the last of duplicate names. Text that is not JSON even with the leniencies of the parser (unquoted names, missing or "
               "trailing commas, hexadecimal and zero-led numbers), in particular truncated text and text followed by anything but white space, is refused with an error. Parsing never reads outside the text, leaks nothing, and "
               "leaves existing values alone; after a failure the instance parses as before.",
     over=["inputs", "histories"],
     qtext="every sequence of parses of valid, mutated, truncated and arbitrary texts, from scripts and C, with collections at any instruction",
     why="Tests parse a handful of documents; particular truncation points, escapes, key lengths, nesting depths and duplicates are not covered.",
     files=["src/mjs_json.c", "src/frozen/frozen.c"],
     mech=[("tree building", "src/mjs_json.c:frozen_cb"), ("grammar", "src/frozen/frozen.c:json_doit"), ("unescaping", "src/frozen/frozen.c:json_unescape")],
     technique="property-based testing with grammar-based and mutated texts against an independent JSON parser",
     note="histories of up to 6 parses: generated texts with random layout, mutants, token soup, nesting up to 30000; values compared with an independent parser, acceptance with an independent acceptor",
     hook="collection at chosen instructions",
     rule="at least one text was judged, and one was rejected or denotes an array or object",
     assumptions=["Escapes above \\u00ff are not judged (mJS strings are bytes)", "Texts with strings that are not UTF-8 are judged only when accepted", "Up to 500 nested containers must be accepted; beyond that an error is allowed",
                  "Which of the leniencies are accepted is not judged"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)

prop("P13", title="Calls between C and scripts are exact in both directions",
     statement="A call made from C (mjs_call, mjs_apply, mjs_exec) or from a script (plain, method, apply) to a script function or a C function, in any nesting of the two, "
               "runs the callee exactly once with exactly the given this and arguments (mjs_nargs, mjs_arg, mjs_get_this; missing ones undefined) and hands its result, or the code of its error, to the caller. "
               "A nested call changes nothing for the calling function: its this, arguments, variables, loops and owned values are as before, also when the callee failed and the C caller cleared the error. "
               "An error not cleared by a C function stops every script on the way to it. A call that succeeds reports no error, whatever failed before.",
     over=["histories", "programs", "fault_sequences"],
     qtext="every tree of calls alternating between C and scripts with any arguments and this values, errors raised anywhere, and collections at any instruction",
     why="Tests make a handful of calls one or two levels deep; wrong restoration of frames, stacks or error state shows only for particular nestings of C and script calls, loops and errors.",
     files=["src/mjs_exec.c", "src/mjs_core.c"],
     mech=[("calls from C", "src/mjs_exec.c:mjs_apply, mjs_call"), ("frames", "src/mjs_exec.c:call_stack_push_frame, call_stack_restore_frame"), ("arguments", "src/mjs_core.c:mjs_arg, mjs_nargs, mjs_return")],
     technique="model-based testing: random call trees executed by real C and script functions that check what they receive against the tree",
     note="up to three call trees of up to 25 calls per instance, six levels deep, up to 60 arguments",
     hook="collection at chosen instructions",
     rule="at least three calls, at least one nested",
     assumptions=["C functions follow the API: values used across calls are owned, and nothing is called after mjs_return"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)

prop("P14", title="FFI calls pass exact arguments and results or fail",
     statement="A function imported with ffi('...') and called from a script or from C either calls exactly the named C function once, with every argument converted exactly to its declared C type "
               "(int, bool, double, float, char *, void *, struct mg_str *) at its position, and yields exactly the C result as a script value, or raises an error and calls nothing. It never fails for signatures the FFI "
               "supports (up to 6 word-sized arguments, or up to 3 with doubles or with floats) and matching arguments, whatever the layout of the signature text and however long ago it was imported; wrong numbers or "
               "types of arguments, unknown functions and malformed signatures are always errors.",
     over=["inputs", "histories"],
     qtext="every history of imports and calls with any signature text, argument values and return values, with collections at any instruction",
     why="Tests call a few dozen fixed signatures; the trampoline has a separate branch for each pattern of argument and result types, and silent misconversion needs particular combinations and values.",
     files=["src/mjs_ffi.c", "src/ffi/ffi.c", "src/mjs_exec.c", "src/mjs_gc.c"],
     mech=[("signature parser", "src/mjs_ffi.c:mjs_parse_ffi_signature"), ("conversion", "src/mjs_ffi.c:mjs_ffi_call2"), ("trampoline", "src/ffi/ffi.c:ffi_call")],
     technique="property-based testing: random signatures resolved to recording receivers that see all argument registers",
     note="histories of up to 25 imports and calls over all seven types; receivers compare every argument register with the expected conversion",
     hook="collection at chosen instructions",
     rule="the history has at least three calls",
     assumptions=["x86-64 System V calling convention: integer and floating-point arguments arrive in registers in order", "Non-numbers passed for double or float are not judged", "Strings passed as char * have no NUL byte and are owned by mJS"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)

prop("P15", title="FFI callbacks reach the script function with exact values",
     statement="A script function handed to a C function as a callback (with a userdata value) can be called by C any number of times, during the call and at any later time, until ffi_cb_free(function, userdata). "
               "Each call runs exactly that function once with the arguments C passed, converted exactly from the declared types of that callback, and the original userdata value in its place, and returns the "
               "function's int or bool result to C (0 after an error). This holds for every position of userdata, for several callbacks registered with the same function, userdata or both through different signatures, for callbacks that "
               "collect garbage, allocate or call further C functions with callbacks, and string arguments of the C function stay intact during callbacks. ffi_cb_free returns 1 exactly for a registered pair.",
     over=["histories", "inputs"],
     qtext="every history of registrations, immediate, nested and later callback calls, releases and collections with any signatures and values",
     why="Tests use one callback at a time right after registration with small positive values; sharing of registrations, later calls after collections and negative or garbage-extended registers are not covered.",
     files=["src/mjs_ffi.c", "src/mjs_gc.c", "src/mjs_exec.c"],
     mech=[("callback entry", "src/mjs_ffi.c:ffi_cb_impl_generic"), ("registration", "src/mjs_ffi.c:mjs_ffi_call2, ffi_get_matching, mjs_ffi_cb_free"), ("roots", "src/mjs_gc.c:gc_mark_ffi_cbargs_list")],
     technique="stateful model-based testing with C functions that call back as the generated history says",
     note="histories of up to 22 operations; every callback checks function, this, arguments and userdata, every C function its result and strings",
     hook="collection at chosen instructions",
     rule="at least three callbacks ran",
     assumptions=["x86-64 System V calling convention; upper register bits of int and bool arguments are arbitrary", "A callback is not released while it runs", "C does nothing further after a callback failed"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)

prop("P16", title="Values keep type and content; numbers are exact in and out",
     statement="Every value has exactly one type, the same for every C predicate, mjs_typeof and typeof, and keeps its content: every double (any NaN included, whatever its bits) stays that number through mjs_mk_number, variables, "
               "properties, calls and mjs_get_double; pointers, booleans, null and undefined likewise. Number literals (decimal, fraction, exponent, hexadecimal) denote the correctly rounded double anywhere in an expression; "
               "+, -, *, /, unary minus and comparisons are exactly those of IEEE doubles; truth values are those of ES6 in if, loops, !, && and ||. The text of a value (print, mjs_sprintf, mjs_fprintf, property names, JSON) shows integers "
               "exactly and other numbers to six decimals, and mjs_sprintf never writes outside a buffer of any size and always terminates it.",
     over=["inputs"],
     qtext="every double bit pattern, every number literal, every pointer and string, every buffer size",
     why="Tests use a few dozen small numbers; NaN patterns that look like boxed values, integers beyond 2^31 or 2^53, exponents and buffer sizes at the limit are not covered.",
     files=["src/mjs_primitive.c", "src/mjs_tok.c", "src/mjs_parser.c", "src/mjs_exec.c", "src/mjs_util.c", "src/mjs_conversion.c", "src/frozen/frozen.c"],
     mech=[("boxing", "src/mjs_primitive.c:mjs_mk_number, mjs_is_number, mjs_get_double"), ("literals", "src/mjs_tok.c:getnum, src/mjs_parser.c:parse_literal"), ("text", "src/mjs_util.c:mjs_jprintf, mjs_sprintf"), ("truth", "src/mjs_conversion.c:mjs_to_boolean_v")],
     technique="property-based testing against IEEE double arithmetic, strtod and direct predicates",
     note="up to 8 checks per instance over random bit patterns, values near powers of two, generated literals and all value types",
     hook="collection at chosen instructions",
     rule="at least two values were judged",
     assumptions=["The sign of zero and division by zero are not judged", "The text of NaN and infinity is not judged", "mjs_get_int is judged for integers from -2^31 to 2^32-1"],
     configs=[("asan", 3), ("o3", 1)], quick=12, thorough=600)

prop("P17", title="Layout, size and loading route do not change a program's meaning",
     statement="A program behaves the same, in trace, result, error code and global state, however it is laid out (white space, line breaks, comments between any two tokens), however much code surrounds or fills it (statements without effect, "
               "long literals, so that every jump and function may lie any distance away), in however many pieces its top-level statements are executed, whatever was executed in the instance before, and whichever way it is loaded: mjs_exec, "
               "mjs_exec_file, load(), a freshly generated or an already existing precompiled .jsc file.",
     over=["programs"],
     qtext="every program, every layout and padding of it, every way of loading it",
     why="Tests run short scripts in one layout; bytecode offsets change their encoded size at 128 and 16384 bytes, so a wrong offset or line map shows only for programs of particular sizes.",
     files=["src/mjs_parser.c", "src/mjs_bcode.c", "src/mjs_tok.c", "src/mjs_exec.c", "src/common/cs_varint.c", "src/common/mbuf.c"],
     mech=[("offset insertion", "src/mjs_bcode.c:mjs_bcode_insert_offset"), ("tokenizer", "src/mjs_tok.c:skip_spaces_and_comments, pnext"), ("code parts", "src/mjs_bcode.c:mjs_bcode_part_get_by_offset"), (".jsc", "src/mjs_exec.c:mjs_exec_internal")],
     technique="metamorphic testing: generated programs against their own rearranged, padded, split and differently loaded variants",
     note="programs of five generators, up to three variants each, on builds that reserve 0, 1 and 4 bytes for jump offsets",
     hook=None,
     rule="the program logs at least twice or leaves global values",
     assumptions=["Programs that run for more than 400000 instructions are skipped", "Error messages (which name lines) are not compared"],
     configs=[("asan", 4), ("off0", 2), ("off4", 2)], quick=20, thorough=1200, libs=["lang.cc"])

prop("P18", title="Scripts in files run once, in their namespace, whatever .jsc files do",
     statement="load(file) evaluates the file in the current namespace and yields its value; loading it again there does nothing once it was evaluated successfully, but evaluates it again after a failure. load(file, obj) evaluates it every time, with obj as its "
               "namespace: variables and functions it declares become properties of obj, others are found in obj first and then outside. mjs_exec_file always reads and evaluates the file. A missing, unreadable or invalid file, or one that fails, stops the loading "
               "script with the matching error code and leaves the namespaces as they were when it failed. Precompiled .jsc files, new, up to date, stale, damaged, unwritable, truncated by a full disk or rewritten while in use by this or another instance, "
               "make no difference, and no file stays open or mapped.",
     over=["histories", "fault_sequences"],
     qtext="every history of loads (nested, failing, into namespaces, from C, in functions), file changes and removals, calls of functions from files, with write faults",
     why="Tests load two fixed files with no faults; namespaces, repeated and failing loads and .jsc files interact only in longer histories.",
     files=["src/mjs_builtin.c", "src/mjs_exec.c", "src/common/cs_file.c", "src/mjs_bcode.c", "src/mjs_core.c"],
     mech=[("load", "src/mjs_builtin.c:mjs_load"), ("files and .jsc", "src/mjs_exec.c:mjs_exec_file, mjs_exec_internal"), ("reading and mapping", "src/common/cs_file.c:cs_read_file, cs_mmap_file")],
     technique="stateful model-based testing of histories of file operations with injected write faults",
     note="histories of up to 15 operations over four files, two namespaces and up to two instances; file size limits, directories or junk in place of .jsc files",
     hook="collection at chosen instructions",
     rule="at least three operations were judged, two of them loads",
     assumptions=["Evaluating a file again whose text has changed since is not judged (other than by mjs_exec_file)", "load(file) inside a function declares its variables in that function; only load(file, obj) is generated there",
                  "Files do not load each other in a cycle"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)

prop("P19", title="Errors name the place where they happened",
     statement="When a script fails, the stack trace lists every call that was active in that failure exactly once, innermost first, each with the name of its file and the number of the line being executed there, whether calls go directly, through apply, "
               "load(), methods or C functions, and whatever the size of the code, the blocks around the place and what else (comments, blank lines, line breaks in strings and literals, handled errors) precedes it. The same holds for the frames "
               "that mjs_get_offset_by_call_frame_num, mjs_get_lineno_by_offset and mjs_get_bcode_filename_by_offset give to a C function. A parse error names the line of the offending token. Neither shows anything of an earlier, finished failure.",
     over=["programs", "histories"],
     qtext="every program, position of the failure in it, call route and nesting, every earlier failure",
     why="Tests check one trace of a tiny script; line maps go wrong with the size of the code in between (jump offsets of two or three bytes), at the end of the text and after particular tokens.",
     files=["src/mjs_bcode.c", "src/mjs_tok.c", "src/mjs_util.c", "src/mjs_core.c", "src/mjs_exec.c", "src/mjs_parser.c"],
     mech=[("line map", "src/mjs_bcode.c:add_lineno_map_item, shift_lineno_map; src/mjs_util.c:mjs_get_lineno_by_offset"), ("trace", "src/mjs_core.c:mjs_gen_stack_trace, mjs_print_error"), ("parse errors", "src/mjs_parser.c:SYNTAX_ERROR")],
     technique="property-based testing: generated programs with a failure or probe planted at a known line and call chain",
     note="call chains of up to 5 frames over up to three files, nested blocks and functions, code up to several times 16 KB, on builds that reserve 0, 1 and 4 bytes for jump offsets",
     hook="collection at chosen instructions",
     rule="at least two frames, or a parse error beyond line 2",
     assumptions=["Each failing or calling statement is on one line and ends with a semicolon or brace there (function literals called in place may be any line of theirs)", "The header of a for loop is on one line"],
     configs=[("asan", 4), ("off0", 2), ("off4", 2)], quick=15, thorough=900)

prop("P24", title="What is not a program is rejected before anything runs",
     statement="A text that is not a program (a bracket missing, added or of the wrong kind, text cut off inside brackets, an illegal character, a statement or expression with a missing or misplaced part, a construct that mJS does not have, such as var, new, "
               "try, switch or destructuring) is rejected with a syntax error by mjs_exec, mjs_exec_file and load(), wherever in the text the mistake is. Nothing of it has run, no global changes, the result is undefined, and the instance "
               "then runs valid scripts exactly like a fresh one.",
     over=["programs"],
     qtext="every program, every single mistake of the listed kinds at every place in it",
     why="Tests have a few malformed one-liners; that every construct of the parser checks each of its tokens can only be seen by making every mistake in every construct.",
     files=["src/mjs_parser.c", "src/mjs_tok.c", "src/mjs_exec.c", "src/mjs_bcode.c"],
     mech=[("grammar", "src/mjs_parser.c:parse_statement_list, parse_block, parse_function, parse_for, parse_while, parse_expr"), ("dropping code", "src/mjs_parser.c:mjs_parse")],
     technique="mutation-based property testing: generated valid programs made invalid by construction, and a fresh instance as the reference for recovery",
     note="programs of four generators; deletion, insertion and replacement of every kind of bracket, truncation, illegal characters and 50 malformed statements at any place, in any layout",
     hook=None,
     rule="the program has at least 20 tokens",
     assumptions=["Missing semicolons, unterminated strings and comments, misplaced break, continue and return, and assignment to non-variables are not judged"],
     configs=[("asan", 3), ("off0", 1)], quick=15, thorough=900, libs=["lang.cc"])

prop("P20", title="Raw memory access reads and writes exactly the bytes named",
     statement="Pointer arithmetic (P + n, n + P, P - n, P - Q, ===) is exact, P[i] reads and P[i] = v writes exactly the byte at P + i and refuses values that are not bytes; mkstr yields exactly the bytes named, as a copy or as a view; mjs_mem_get_* and "
               "mjs_mem_set_* read and write integers of 1 to 4 bytes of either byte order, doubles and pointers exactly; a DataView reads and writes them likewise and fails without touching memory whenever an access would leave its bounds; "
               "mjs_struct_to_obj and s2o give every member of a C struct (nested, through pointers, NULL, custom) its exact value, also when memory is collected meanwhile; File.write, append, read, rename and remove of lib/api_file.js keep every byte "
               "and end also when the disk is full; the functions of lib/api_math.js are those of the C library.",
     over=["inputs", "histories"],
     qtext="every buffer, offset, size, byte order, value, struct descriptor and content, histories of accesses, files and faults",
     why="Tests read and write a few fixed positions and one struct; signs, byte orders, bounds, NULL members, collections during conversion and write errors are not covered.",
     files=["src/mjs_dataview.c", "src/mjs_object.c", "src/mjs_exec.c", "src/mjs_string.c", "lib/api_dataview.js", "lib/api_file.js", "lib/api_math.js"],
     mech=[("memory", "src/mjs_dataview.c:mjs_mem_get_uint, mjs_mem_set_uint; src/mjs_exec.c:do_op, getprop_builtin_foreign, exec_expr"), ("views", "lib/api_dataview.js"), ("structs", "src/mjs_object.c:mjs_struct_to_obj"), ("mkstr", "src/mjs_string.c:mjs_mkstr")],
     technique="stateful model-based testing against a byte-array model (memory), generated struct descriptors, a model of the file system and the C library",
     note="histories of up to 25 accesses over buffers of up to 64 bytes that are compared whole after each; struct descriptors of up to 8 members nested up to 3 deep; file histories of up to 10 operations with a size limit as the fault",
     hook="collection at chosen instructions",
     rule="at least three accesses, two struct members or two file operations were judged",
     assumptions=["Little-endian x86-64", "Accesses through plain pointers stay inside memory that exists", "mkstr is not given negative lengths", "What File.write leaves behind on a full disk is not judged"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)
prop("P21", title="The JSON library reads, prints, scans and edits JSON exactly",
     statement="json_walk reports exactly the values of a JSON text with their types, names, paths and texts, in order, consumes exactly the value, calls a text that is cut short incomplete and never reads outside of it; json_printf, json_asprintf, "
               "json_fprintf and json_printf_array print every conversion (%B %Q %.*Q %V %H %M and those of printf) exactly, return the full length and never write beyond the buffer, which they terminate; json_escape and json_unescape are inverse, "
               "also in place, and report invalid and incomplete escapes; json_scanf finds every value that is asked for wherever its key stands, converts it exactly, leaves absent ones alone and counts the found ones; json_next_key, json_next_elem "
               "and json_scanf_array_elem yield exactly the entries of the object or array named; json_setf changes exactly the value named (replace, delete, add, push) and yields JSON; json_prettify and json_prettify_file keep the document, "
               "and the file as it was if it is malformed; nothing is leaked.",
     over=["inputs"],
     qtext="every JSON text (nesting, whitespace, escapes, UTF-8, unquoted keys, hex numbers), damaged text, format, argument list, buffer size, path and edit",
     why="A handful of documents and formats cannot cover positions where text ends, nested formats, keys that are prefixes of each other, edits at either end of containers and buffer sizes.",
     files=["src/frozen/frozen.c", "src/frozen/frozen.h"],
     mech=[("parser", "src/frozen/frozen.c:json_walk, json_parse_value"), ("printer", "src/frozen/frozen.c:json_vprintf, json_escape, json_printer_buf"), ("scanner", "src/frozen/frozen.c:json_vscanf, json_scanf_cb, json_unescape"), ("editing", "src/frozen/frozen.c:json_vsetf, json_next, json_prettify")],
     technique="property-based testing against models: generated documents with their event streams, formats with their output, scan formats with shuffled documents, edits of a document tree, exact-size buffers under the address sanitizer",
     note="documents nested up to 5 deep and texts up to some kilobytes; formats of up to 8 conversions, with arguments passed as the x86-64 ABI passes them",
     hook="",
     rule="the document has at least three events or nodes, the format prints more than ten bytes or at least two values are found",
     assumptions=["x86-64 SysV calling convention", "Paths of up to 255 bytes; keys free of . [ ] where paths address them", "What json_setf returns when it adds something is not judged", "%Q of something that is not a string is not judged"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=900)
prop("P22", title="The utility layer keeps bytes, lengths and formats exact",
     statement="The layer everything else is built on does what its headers say. An mbuf holds exactly the bytes that every history of append, insert, remove, resize, trim, clear and move leaves, with size >= len; a variable-length integer "
               "decodes to what was encoded, in cs_varint_llen bytes, and a truncated one is refused; mg_str comparisons (also without regard to case), searches, stripping and copying agree with the C string functions and never read beyond the slice; "
               "c_snprintf and mg_avprintf print and return what snprintf does for the conversions they support, and never write beyond the buffer, which they terminate; comma lists yield exactly their entries; mg_match_prefix returns only lengths "
               "that match the pattern; log filters by level and file pass exactly the lines they name; cs_read_file and cs_mmap_file yield exactly the file; cs_timegm is the inverse of gmtime. Nothing is leaked.",
     over=["inputs", "histories"],
     qtext="every history of buffer operations, 64-bit number, byte string, format with arguments and buffer size, list, pattern, log filter and file content",
     why="The repository has no tests of this layer; scripts exercise it at a few sizes only, and an error at a growth step, a length of two bytes or a value beyond 2^63 shows far away, if at all.",
     files=["src/common/mbuf.c", "src/common/cs_varint.c", "src/common/mg_str.c", "src/common/str_util.c", "src/common/cs_file.c", "src/common/cs_dbg.c", "src/common/cs_time.c"],
     mech=[("buffers", "src/common/mbuf.c:mbuf_insert, mbuf_resize, mbuf_remove"), ("integers", "src/common/cs_varint.c"), ("slices", "src/common/mg_str.c"), ("formatting", "src/common/str_util.c:c_vsnprintf, mg_avprintf"), ("logs", "src/common/cs_dbg.c:cs_log_print_prefix")],
     technique="stateful model-based testing (buffers) and differential testing against libc and reference functions, on exact-size buffers under the address sanitizer",
     note="histories of up to 30 operations on buffers of up to some 100 kB; formats of up to 6 conversions, with arguments passed as the x86-64 ABI passes them",
     hook="",
     rule="the history moves bytes, the string has two bytes or more, the format has two arguments, the list two entries, or the pattern matches",
     assumptions=["x86-64 SysV calling convention", "The data inserted into an mbuf is not part of it", "Precisions of 0 are ignored by c_snprintf, as its source says, and other flags than 0 are not supported", "Where a * of a pattern could stand for nothing at the end of the string, no match is accepted too"],
     configs=[("asan", 3), ("o3", 1)], quick=15, thorough=900, libs=["lang.cc"])
prop("P23", title="Instances are isolated from each other",
     statement="What an instance computes, reports and calls back depends only on what is done with it: other instances that are created, run, collected, fail or are destroyed before, after, interleaved with, nested inside (from a native function "
               "or a callback of the running one) or in other threads change neither its results nor its output, errors, traces, callbacks, resolver, owned values or memory; each instance's foreign functions and callbacks act on that instance; "
               "threads that each use their own instance do not race.",
     over=["inputs", "schedules"],
     qtext="every set of two to four operation histories and every interleaving, nesting or parallel execution of them",
     why="Tests use one instance at a time; state kept in a global or static variable shows only when two instances are alive, or running, together.",
     files=["src/mjs_core.c", "src/mjs_exec.c", "src/mjs_ffi.c", "src/mjs_gc.c", "src/mjs_parser.c", "src/mjs_tok.c", "src/mjs_json.c"],
     mech=[("instance state", "src/mjs_core.h:struct mjs; src/mjs_core.c:mjs_create, mjs_destroy"), ("execution", "src/mjs_exec.c:mjs_execute"), ("callbacks", "src/mjs_ffi.c:mjs_ffi_call2, ffi_cb_impl_generic"), ("errors", "src/mjs_core.c:mjs_prepend_errorf, mjs_print_error")],
     technique="schedule generation: histories of several instances run alone (the oracle) and then interleaved, nested and in threads, under the address and the thread sanitizer",
     note="2 to 4 instances with up to 7 operations each, nesting up to 4 deep, threads under the thread sanitizer's happens-before analysis",
     hook="collection at chosen instructions",
     rule="threads ran, or the execution switched between instances at least four times",
     assumptions=["One instance is used by one thread at a time", "The native functions of the harness are thread-safe"],
     configs=[("asan", 1), ("tsan", 1), ("aggr", 1)], quick=15, thorough=900, libs=["lang.cc"])
prop("P25", title="The command line tool runs what it is given in order; logging changes nothing",
     statement="The mjs tool executes its -e texts, -f files and remaining files in the order given, in one instance, stops at the first that fails (a text that is no program runs not at all, a missing file is a failure), "
               "prints exactly what the scripts print followed by the last value or by a report that names the error and its place, refuses unknown flags with a failure status, writes .jsc files only under -j and releases all memory. "
               "Log levels, log filters, mjs_dump and the disassembler observe without effect: whatever is logged, a program's results, side effects and errors are the same; every instruction executed is one the disassembly lists, at its place; and a log filter passes exactly the messages its first matching entry allows.",
     over=["inputs", "programs"],
     qtext="every sequence of command line arguments and script texts; every program under every log level, filter and dump point; every filter and message source",
     why="No test runs the tool, and none runs with logging on; the disassembler and the dumps walk all byte code and all stacks at any moment of any program.",
     files=["src/mjs_main.c", "src/mjs_util.c", "src/mjs_exec.c", "src/common/cs_dbg.c"],
     mech=[("argument handling", "src/mjs_main.c:main"), ("dumps and disassembly", "src/mjs_util.c:mjs_dump, mjs_disasm_single"), ("log filter", "src/common/cs_dbg.c:cs_log_print_prefix")],
     technique="model-based testing of generated command lines (forked runs against an output model), metamorphic testing (a program with and without observation) and a reference filter",
     note="command lines of up to 9 items; programs up to 3000 instructions run twice; filters of up to 4 entries",
     hook="dump points at chosen instructions, step limit",
     rule="the command line has three arguments and something was printed; or the program logs twice and something was written to the log; or three messages met a filter",
     assumptions=["The exit status after a failed script is not judged", "File names in a report are those given to the tool"],
     configs=[("asan", 3), ("aggr", 1)], quick=15, thorough=600, libs=["lang.cc"])

prop("P26", title="Error codes and messages say what was reported",
     statement="After any execution the error code and mjs_strerror are exactly what the failing script or C functions reported, through any nesting of script functions, C functions that call back, texts run by C functions, apply and load(): die(text) gives that text, "
               "mjs_set_errorf replaces code and text, mjs_prepend_errorf puts its text in front and keeps the first code, MJS_OK forgets the error and the script goes on, and an error without a text is named after its code. Errors of the engine name what they are about (the variable, the file). "
               "Each execution starts without an error, a C function sees the outcome of exactly the execution it started, and mjs_print_error prints that message after the stack trace it was asked for, whatever the length and content of the texts.",
     over=["programs", "histories"],
     qtext="every nesting of executions, every sequence of error operations of C functions in them, every text and code",
     why="Tests look at one or two fixed messages; messages are built up across nested executions by functions that free and reallocate them, so order, length and nesting decide.",
     files=["src/mjs_core.c", "src/mjs_exec.c", "src/mjs_builtin.c", "src/common/mg_str.c", "src/common/str_util.c"],
     mech=[("error state", "src/mjs_core.c:mjs_set_errorf, mjs_prepend_errorf, mjs_strerror, mjs_print_error, mjs_die"), ("propagation", "src/mjs_exec.c:mjs_execute, mjs_apply, mjs_exec_internal"), ("load", "src/mjs_builtin.c:mjs_load")],
     technique="model-based testing: generated nested executions with error operations, against a model of the error state",
     note="up to 5 executions per instance, nested up to 6 deep, texts up to 6000 bytes",
     hook="collection at chosen instructions",
     rule="at least one execution failed and five statements were generated",
     assumptions=["Format strings of C functions use %s and %.*s; other conversions are P22's", "Texts of the engine's own errors are judged by the names they contain"],
     configs=[("asan", 4), ("aggr", 1)], quick=15, thorough=600)
