#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["value or error returned by evaluating an expression through the public Eval/Apply entry points"],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], hook_needed=None)))

prop("P01", "No built-in call can crash, corrupt or hang the host program",
 "Calling any built-in function or special form with any number of arguments of any kinds, including malformed (but not circular) lists, ill-formed pieces of program, empty values and extreme numbers, ends in a value or an ordinary error. It never panics the embedding Go program, never reads or writes memory of the wrong type, and never fails to terminate (requests for sizes beyond available memory, loops and recursions the program itself asks for, and the deliberate exit, debugger, sleep, blocking and panic functions aside).",
 ["inputs"], "every built-in function, every argument count it accepts and the neighbouring ones, every combination of argument kinds, every integer, float bit pattern and short string inside them",
 "The tests call each built-in with a handful of well-formed arguments; the crash inputs are particular kinds and extreme values in particular positions.",
 ["primitive_function.go", "data.go", "prim_*.go"],
 [("argument count check", "primitive_function.go"), ("per-argument kind checks", "prim_*.go"), ("kind-tagged values", "data.go")])

prop("P02", "Integer arithmetic is exact on the full 64-bit range",
 "Addition, subtraction and multiplication of integers fold left to right modulo 2^64; division and remainder truncate toward zero and report an error for a zero divisor; minimum, maximum, absolute value, sign, parity, successor, predecessor and integer power give the exact integer. Number ranges list exactly the integers from start to end by the step, and a step in the wrong direction is an error.",
 ["inputs"], "all 64-bit integer operands, any argument count",
 "Tests use small numbers; results that pass through a 32-bit float or wrap differently only differ for large operands.",
 ["prim_math.go", "data.go"], [("integer folds", "prim_math.go"), ("boxed int64", "data.go")])

prop("P03", "Float arithmetic is single precision, contagious, and rejects non-numbers",
 "If any operand of an arithmetic function is a float, every operand is converted to a single-precision float and the operation folds left to right in single precision, with a float result; otherwise the result is an integer. A non-number in any operand position makes the call an error, whatever the other operands are. Conversions between float and bit pattern, and between integer and float, agree with IEEE single precision.",
 ["inputs"], "all float bit patterns, all integers, all mixes and positions",
 "Tests sample a few float values; positions and special values (NaN, infinities, signed zero, huge integers) are not covered.",
 ["prim_math.go", "data.go"], [("float detection over all arguments", "prim_math.go"), ("numeric accessors", "data.go")])

prop("P04", "Numeric comparisons order integers exactly and agree with each other",
 "The four order comparisons on two integers are the exact integer order for all values; if either operand is a float both are compared as single-precision floats. Exactly one of less, equal, greater holds for integers, the not-strict forms are the negations of the strict ones, and a non-number operand in either position is an error.",
 ["inputs"], "all pairs of numbers",
 "Tests compare small integers; precision loss shows only above 2^24.",
 ["prim_relative_logical.go"], [("order comparisons", "prim_relative_logical.go")])

prop("P05", "Bitwise operations and shifts act on the 64-bit pattern",
 "Bitwise and/or combine all 64 bits of the operands, complement flips exactly the low 32 bits and undoes itself, a left shift multiplies modulo 2^64 and a right shift moves zeros in from the top, with counts of 64 or more giving zero. Non-integer operands are errors.",
 ["inputs"], "all pairs of 64-bit integers",
 "Tests use small literals; sign handling and large shift counts are not reached.",
 ["prim_binary.go"], [("bit operations", "prim_binary.go")])

prop("P06", "Variables follow lexical scope and closures capture their environment",
 "Outside frame methods, a name refers to the innermost enclosing binding at the place the code was written: function parameters and let-bound names shadow outer ones, assignment changes the nearest existing binding and nothing else, and a definition inside a body is local to it. A closure keeps seeing and updating the variables of the environment it was created in after that environment's caller has returned, independently for each creation. Protected names (constants such as built-in values) can be neither assigned nor redefined at their level.",
 ["programs", "inputs"], "nestings of functions, lets, definitions and assignments with arbitrary values",
 "Tests check a few nestings with constant values.",
 ["symbol_table_frame.go", "function.go", "prim_special_forms.go", "prim_mutators.go"],
 [("binding lookup through parent frames", "symbol_table_frame.go"), ("function application environment", "function.go"), ("protected bindings", "symbol_table_frame.go")])

prop("P07", "Restricted environments cannot reach restricted operations",
 "In an environment that has been marked restricted, and in every environment nested inside it, each restricted operation (file, process, debugger, top-level evaluation and environment escape) reports an error and has no effect, whether it is called directly, through an alias, through built-in higher-order functions, through a closure created there, or through code evaluated there. Functions defined outside a restricted environment keep the authority of the place they were defined in. The same operations are permitted where no enclosing environment is restricted, and restriction is never undone by nesting.",
 ["programs", "configurations"], "every restricted operation, every way of reaching it, any nesting depth up to the bound",
 "Tests restrict one environment and call a few operations directly.",
 ["symbol_table_frame.go", "primitive_function.go", "prim_environment.go"],
 [("restricted flag inherited by nested frames", "symbol_table_frame.go"), ("restricted check at application", "primitive_function.go")])

prop("P08", "Equality is a structural equivalence",
 "Equality of values is reflexive, symmetric and transitive; two lists are equal exactly when they have the same shape and equal elements including any dotted tail, association lists and frames when they have the same keys with equal values, byte arrays and strings when they have the same contents. The inequality function is its negation, and values of different kinds are not equal. (Not-a-number, cyclic structures, and comparisons of an association list with a plain list of pairs are left out.)",
 ["inputs"], "all pairs and triples of values up to the stated size",
 "Tests compare a few literals; symmetry and transitivity are over pairs and triples of all values.",
 ["data.go", "prim_relative_logical.go"], [("structural comparison", "data.go")])

prop("P09", "A copy equals its original and shares no mutable structure with it",
 "Copying an acyclic value gives a value equal to the original, with elements in the same order. After that, changing either one in place (list cells, frame slots, byte arrays) is never visible through the other, at any depth.",
 ["inputs", "histories"], "all values up to the stated size, any mutation afterwards",
 "Tests copy one list.",
 ["data.go", "prim_list_manipulation.go", "prim_frame.go"], [("deep copy", "data.go")])

prop("P10", "List access and construction agree with finite sequences",
 "Positional access, length, head/tail slices, sublist, take/drop, last pair, reverse, append, list construction and flattening return exactly the elements that the same operation on a finite sequence gives, in order. Positions or counts outside the list, and non-list arguments where a list is required, are reported as errors or as the empty value as documented, never as wrong elements.",
 ["inputs"], "all lists up to the stated length with arbitrary elements, all indices",
 "Tests use a few literal lists and in-range indices.",
 ["prim_list_access.go", "prim_list_manipulation.go", "data.go", "list_access.go"], [("list walkers", "prim_list_access.go, prim_list_manipulation.go")])

prop("P11", "Non-mutating list functions leave their arguments unchanged",
 "No list function other than the ones whose name ends in an exclamation mark changes any list passed to it, nor any structure reachable from it; its result may be used and mutated freely at its own top-level cells without changing the arguments, except where the result is documented to be a tail of an argument. The mutating ones change exactly the cell they name.",
 ["inputs", "histories"], "all argument lists up to the stated size",
 "Tests look at results, not at the arguments afterwards.",
 ["data.go", "prim_list_manipulation.go", "prim_list_functions.go", "prim_mutators.go"], [("fresh cells for results", "data.go, prim_list_*.go")])

prop("P12", "Higher-order list functions apply the function to the right elements in order",
 "Map, for-each, any, every, filter, remove, partition, find, find-tail, member search and the left and right folds and reductions call the given function exactly on the elements the definition requires, in order, each with the right arguments, and combine the results as defined. An error returned by the function stops the traversal at once and becomes the result of the call. With several lists the traversal ends with the shortest one.",
 ["inputs", "programs"], "all lists up to the stated length with arbitrary elements, arbitrary function results, an error at any element",
 "Tests use one or two literal lists and never an error in the middle.",
 ["prim_list_functions.go", "prim_list_manipulation.go"], [("traversal loops", "prim_list_functions.go")])

prop("P13", "Set functions on lists implement set algebra",
 "The union of lists contains every element (up to equality) of every argument once, in order of first appearance. The intersection and the complement contain exactly the elements of the first list that are in all, respectively none, of the others, in the order of the first list. Non-list arguments are errors.",
 ["inputs"], "all lists up to the stated length with arbitrary integer elements, up to three arguments",
 "Tests use literal lists without systematic overlap and duplicates.",
 ["prim_list_set.go"], [("set construction from lists", "prim_list_set.go")])

prop("P14", "Association lists behave as key-value maps",
 "After adding a key, looking it up finds the new value and every other key is unaffected; removing a key removes every pair with it and nothing else; lookup by value finds the first pair with that value; building from key and value lists pairs them positionally. Only adding a key that is already there changes the given list (that pair's value is replaced in place); otherwise the argument lists are unchanged. Arguments that are not association lists are errors.",
 ["inputs", "histories"], "all association lists up to the stated size, arbitrary keys and values, sequences of operations",
 "Tests use constant keys.",
 ["prim_alist.go", "data.go"], [("association list operations", "data.go, prim_alist.go")])

prop("P15", "Byte array operations read and write exactly the addressed bytes",
 "Building, extracting, replacing, appending, taking and dropping bytes give exactly the bytes of the same operation on a byte sequence; only the in-place forms change their argument, and the others leave every argument unchanged and return independent storage. Element values outside 0..255, indices or ranges outside the array, and wrong kinds are errors that change nothing.",
 ["inputs"], "all byte contents and all integer indices and values, arrays up to the stated size",
 "Tests use literal arrays and a few out-of-range values.",
 ["prim_bytearray.go"], [("bounds and range checks", "prim_bytearray.go")])

prop("P16", "String functions compute the documented text",
 "Length, substring, splitting, joining, trimming, case change, prefix, suffix and containment tests and the (case-insensitive) ordering comparisons return exactly what the definition gives for any text; splitting and joining with the same separator are inverse; ranges outside the string are errors. Functions without an exclamation mark leave their arguments unchanged.",
 ["inputs"], "all strings up to the stated length, all indices",
 "Tests use a few literals.",
 ["prim_string.go"], [("string primitives", "prim_string.go")])

prop("P17", "Frames: slot lookup follows parents, writes stay local",
 "Reading a slot finds the frame's own slot if it has one and otherwise the slot of its parents, nearest first, transitively (any one of them where several direct parents provide it), and a missing slot is an error (or nil for the tolerant form); existence tests agree with reading. Setting or removing a slot affects only the frame itself, never a parent or another frame, and a clone has the same slots but setting or removing slots in either does not affect the other.",
 ["inputs", "histories"], "all frame graphs up to the stated size, sequences of operations with arbitrary values",
 "Tests use a few fixed frames.",
 ["frame.go", "prim_frame.go", "data.go"], [("parent slots and lookup", "frame.go"), ("slot shortcuts", "data.go")])

prop("P18", "Message sends run the right method with the right self",
 "Sending a message runs the method found by slot lookup with the original receiver as self, so that names inside the method body refer first to the method's own parameters and local names, then to the receiver's slots, then to the enclosing lexical scope; a super send runs the next method above the one that is running, still with the receiver as self. Arguments are evaluated once in the caller's environment, and a missing or non-function slot is an error.",
 ["inputs", "programs"], "receiver/parent configurations up to depth three, arbitrary slot values and arguments",
 "Tests use fixed objects.",
 ["prim_frame.go", "function.go", "symbol_table_frame.go"], [("local frame environment for methods", "function.go"), ("message dispatch", "prim_frame.go")])

prop("P19", "The reader accepts or rejects any text without failing",
 "Reading any text free of NUL characters, including truncated or malformed input, ends with a value, an end-of-input indication or an error; it never crashes and never loops. Integer literals denote exactly the written number, comments and whitespace never change the value read, and quote shorthand reads as the spelled-out form.",
 ["inputs"], "all texts up to the stated length over the full byte range",
 "Tests read well-formed samples.",
 ["tokenizer.go", "parser.go"], [("tokenizer state machine", "tokenizer.go"), ("recursive descent parser", "parser.go")])

prop("P20", "Printing a value and reading it back gives an equal value",
 "For values made of integers, finite floats, booleans, strings without NUL characters, readable symbols, proper and dotted lists (other than a list whose only element is the symbol quote) and byte arrays, the printed form read back is a value equal to the original; the printed form of a frame of such data evaluates to an equal frame. Number-to-text and text-to-number conversion in the supported bases are inverse on integers.",
 ["inputs"], "all such values up to the stated size, all strings up to the stated length",
 "Tests print a few literals.",
 ["data.go", "tokenizer.go", "parser.go", "prim_math.go"], [("printer", "data.go"), ("string escapes", "tokenizer.go")])

prop("P21", "Macros and quasiquotation substitute exactly what was written",
 "A quasiquoted template evaluates to the template with each unquoted expression replaced by its value and each spliced expression by the elements of its list, in place and in order, everything else unchanged; nothing is evaluated more than once and the template itself is never changed. A macro call binds the unevaluated argument forms to the macro's parameters, and evaluates the resulting expansion in the caller's environment.",
 ["programs", "inputs"], "templates up to the stated depth with arbitrary values and spliced lists of any length up to the bound",
 "Tests check a few templates with constants.",
 ["prim_macros.go", "macro.go"], [("template walk", "prim_macros.go"), ("macro application", "macro.go")])

prop("P22", "Special forms evaluate exactly the required subexpressions, in order",
 "Conditionals, boolean connectives, case selection, sequencing, binding forms, loops and the chaining forms evaluate exactly the subexpressions their definition requires, each once, in order, and return the defined value. Subexpressions that are not selected are never evaluated.",
 ["programs", "inputs"], "each form with every combination of truth values and matching positions up to the stated number of clauses",
 "Tests check values for fixed conditions, not which subexpressions ran.",
 ["prim_special_forms.go", "prim_relative_logical.go", "data.go"], [("special form implementations", "prim_special_forms.go")])

prop("P23", "Errors abort evaluation and are never swallowed",
 "When evaluating a subexpression reports an error, the enclosing form stops there, evaluates nothing further and reports the error, for every built-in form and function position; the state changes made before the error remain and no others happen. Only the error-handling form stops this: its handler runs exactly once, with the message, and only if an error happened, and an optional final clause behaves as defined.",
 ["programs", "fault_sequences"], "an error at any subexpression position of every form",
 "Tests raise errors at a few top-level positions only.",
 ["data.go", "prim_special_forms.go", "prim_system.go", "function.go", "primitive_function.go"], [("error returns checked after each evaluation", "data.go, prim_special_forms.go"), ("error handler form", "prim_system.go")])

prop("P24", "JSON conversion round-trips data",
 "Converting a frame made of strings, booleans, 64-bit integers up to 2^53 in magnitude, single-precision floats, lists and nested frames to JSON text and back gives an equal value; whole floats come back as integers of the same value. Converting JSON text to Lisp data and back preserves every object key, array element, number (to single precision), boolean and string, with null becoming nil. json->lisp gives an empty frame for malformed JSON without failing. A Go structure becomes a frame of its exported fields under the names and options of their json tags.",
 ["inputs"], "all such trees up to the stated size",
 "Tests convert a few literals.",
 ["json_frame_support.go", "json_support.go"], [("tree conversion", "json_frame_support.go")])

prop("P25", "Concurrent programs see atomic operations, ordered channels and no data races",
 "Atomic cells updated by several processes lose no update and compare-and-swap succeeds for exactly one of several competing processes; channels deliver every value written exactly once, in order per writer, block or fail according to their capacity, and report closing; joining a process returns its final value after all its effects. Interpreter-internal shared structures (the symbol table, environments, frames, functions) stay consistent and free of data races under concurrent use, and no interleaving of these operations deadlocks a program that cannot deadlock by its own logic.",
 ["schedules"], "all interleavings with up to the stated number of processes, operations and preemptions",
 "Tests run one schedule chosen by the Go runtime.",
 ["prim_concurrency.go", "prim_channel.go", "symbol_table_frame.go", "frame.go"], [("atomic operations", "prim_concurrency.go"), ("Go channels", "prim_channel.go"), ("mutex-protected tables", "symbol_table_frame.go, frame.go")])

prop("P26", "Scheduled processes run once after their delay unless abandoned",
 "A scheduled process runs its body exactly once, not before its delay has passed, unless it is abandoned before then, in which case it never runs; resetting the timeout restarts the delay. A sleeping process resumes when its time has passed or when it is woken, and reports which.",
 ["schedules", "histories"], "all interleavings of the timer with wake, abandon and reset up to the stated bound",
 "Tests rely on real sleeping and one schedule.",
 ["prim_concurrency.go"], [("timer and wake/abandon channels", "prim_concurrency.go")])

prop("P27", "Sorting returns an ordered permutation",
 "Sorting a list by a strict order returns a list with exactly the same elements, in which no element precedes one that the order puts before it, and leaves the argument unchanged. An error from the comparison function is reported.",
 ["inputs"], "all lists up to the stated length with arbitrary integers",
 "Tests sort a few literal lists.",
 ["prim_list_manipulation.go"], [("sort", "prim_list_manipulation.go")])

prop("P28", "Formatted output expands directives exactly",
 "Formatting to a string copies ordinary text unchanged and replaces each directive by the documented rendering of the next argument, consuming arguments left to right; too few or too many arguments and unknown or incomplete directives are errors. Padding and repetition honour their parameters and the padding modifier.",
 ["inputs"], "all control strings up to the stated length over text and directives, arbitrary arguments",
 "Tests use a few control strings.",
 ["prim_io.go"], [("directive interpreter", "prim_io.go")])

prop("P29", "Environment operations act on exactly the named environment",
 "Looking up, testing, assigning and defining a name through an environment value agree with evaluating the name in that environment: definitions go into that environment itself, assignments change the nearest enclosing binding, lookups of unbound or unassigned names are errors, and other environments are unaffected. Evaluating an expression in an environment sees exactly its bindings.",
 ["programs", "inputs", "histories"], "chains of environments up to the stated depth, arbitrary values and operation sequences",
 "Tests use fixed environments.",
 ["prim_environment.go", "symbol_table_frame.go"], [("environment primitives", "prim_environment.go")])

prop("P30", "Calls bind exactly the arguments their parameter list declares",
 "Calling a user-defined function with fixed and rest parameters binds each required parameter to the argument in its position and the rest parameter to the list of the remaining ones; too few or, without a rest parameter, too many arguments are an error and the body does not run. Arguments are evaluated exactly once, left to right, before the body, and applying a function to an argument list is the same as calling it with those arguments.",
 ["programs", "inputs"], "parameter lists of up to the stated size with every argument count",
 "Tests call a few functions with matching counts.",
 ["function.go", "data.go", "primitive_function.go"], [("parameter binding", "function.go"), ("argument count specification", "primitive_function.go")])

prop("P31", "Symbols with the same name are the same symbol; generated ones are fresh",
 "Any two ways of obtaining a symbol with a given name (reading, interning text, quoting) give equal symbols, and different names give unequal symbols. Generated symbols are different from each other and from every symbol obtained before.",
 ["inputs", "histories"], "all names up to the stated length, sequences of generation and interning",
 "Tests intern a few names.",
 ["symbol_table_frame.go", "prim_system.go", "data.go"], [("symbol table", "symbol_table_frame.go"), ("generated symbol counters", "prim_system.go")])

prop("P32", "Type predicates classify every value, and always the same way",
 "Each type predicate (atom, list, pair, association list, nil, symbol, string, integer, float, number, boolean, function, macro, frame, byte array, port, environment, end-of-file object, and the negated nil tests) answers true for exactly the values of the kind it names, whatever their contents, and a boolean false for all others. The answer does not depend on how the value is reached: directly, through apply or map, or after being stored in and fetched from a list, slot, variable, association list or channel. Any other number of arguments is an error.",
 ["inputs"], "one value of every kind with arbitrary contents, every predicate, every way of storing the value",
 "Tests check a few literals per predicate; the table of predicates against kinds has hundreds of cells and every kind has infinitely many contents.",
 ["prim_type_predicates.go", "data.go"], [("type predicates", "prim_type_predicates.go"), ("kind tags", "data.go")])

prop("P33", "Ports write exactly what they are given and read values back in order",
 "A file opened for output holds exactly the texts, printed values, formatted texts and bytes written to its port, in order, after the previous contents when it was opened to append and alone otherwise; without a port the text goes to standard output. Reading from an input port gives the values written in the file one after the other and then the end-of-file object, every time, independently of any other port that is being read or written. Wrong kinds of arguments, closed ports, ports of the wrong direction and missing files are errors that write nothing. Listing a directory gives exactly the matching names.",
 ["inputs", "histories"], "sequences of port operations up to the stated length with arbitrary texts, bytes and values",
 "No test opens a port.",
 ["prim_io.go", "parser.go", "tokenizer.go"], [("port primitives", "prim_io.go"), ("text read ahead by the tokenizer of a file", "tokenizer.go")],
 observe=["contents of the files, values and errors returned by port functions"])

prop("P34", "Program text runs expression by expression up to the first error",
 "Running program text or a file, through the load function or any of the embedding entry points, reads and evaluates its top-level expressions one after the other, each exactly once, later ones seeing the definitions of earlier ones, and gives the value of the last; false and empty values do not end the run. The first error in evaluating or reading an expression ends it: the expressions before have been evaluated, nothing after, and the error is reported. Text without expressions gives nil, and parsing alone evaluates nothing.",
 ["programs", "inputs"], "program texts of up to the stated number of expressions of various kinds, arbitrary short texts between expressions",
 "Tests load well-formed files.",
 ["parser.go", "prim_system.go"], [("evaluate-all loops", "parser.go"), ("load", "prim_system.go")],
 observe=["value or error of ParseAndEvalAll, ParseAndEval, ParseAll, Parse, ProcessFile and load", "calls made by the program"])

prop("P35", "Tracing, profiling and timing do not change what a program does",
 "With evaluation tracing or debug tracing switched on, and inside the profile and time forms, a program makes the same calls, has the same value (time: a number of milliseconds) and fails in the same cases as without, and the settings are as before afterwards. A profile written to a file can be read back, and holds properly nested enter and exit records, one pair with its own number for every call of a function, primitive or special form, also when the program fails. The set of functions to stop at keeps exactly the functions added and not removed.",
 ["programs", "inputs"], "the listed programs with arbitrary values, every diagnostic and nesting of profile forms",
 "Tests never turn diagnostics on.",
 ["profiling.go", "prim_system.go", "prim_debug.go", "data.go", "function.go", "primitive_function.go"],
 [("profile records at function entry and exit", "profiling.go, function.go, primitive_function.go"), ("evaluation tracing", "data.go"), ("profile and time forms", "prim_system.go")],
 observe=["value, error and calls of the program", "contents of the profile file"])

NA = {}

LEVEL_NOTE = ("Bounded symbolic execution of the real Go code (SSA form regenerated from the current tree on each run); z3 (cvc5 as "
 "second opinion) decides every branch and assertion for all values within the bounds stated per harness in the evidence; counterexamples are "
 "replayed on the natively compiled code before being reported. Trusts the SSA translator, the solver, and the listed standard-library models.")

def main():
    have = set()
    for f in glob.glob(os.path.join(here, "harness", "*.go")):
        for m in re.finditer(r"^func VH_(P\d+)_", open(f).read(), re.M):
            have.add(m.group(1))
    with open(os.path.join(here, "properties.jsonl"), "w") as o:
        for p in P:
            o.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in have and i not in NA:
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                evidence_file=f"evidence/{i}.json", technique="bounded symbolic execution of the Go SSA with SMT (z3/cvc5), native replay",
                level="model_checking", level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: harnesses are added to the package through a build overlay. See DESIGN.md.")
    json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties;", len(checks), "checks;", len(na), "not applicable")

main()
