#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, title
    P.append((
        {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
        },
        technique, note))


EV = "prexel/src/evaluator.rs"
CTX = "prexel/src/context.rs"
TOK = "prexel/src/tokenizer.rs"
SPL = "prexel/src/utils/splitter.rs"
OPS = "prexel/src/ops/mod.rs"
CHK = "prexel/src/ops/checked.rs"
UNC = "prexel/src/ops/unchecked.rs"

prop("C01", "A well-formed expression has the value its operators' rules give it",
     "A well-formed expression evaluates to the value of the tree its context's rules give it: operators of a higher precedence bind tighter, those of equal precedence associate as declared, a prefix operator binds tighter than any binary one and a postfix one tighter still, groups and function calls come first, and a call gets all its arguments in order. This holds for any table of operators, functions, variables and constants a context is given.",
     ["inputs", "configurations"],
     "every context (names, precedences, associativities, notations), the library's or an implementation of the trait by a user, and every well-formed expression over it, with any spacing",
     "The tests evaluate some dozens of fixed expressions over the built-in contexts; precedence, associativity, unary notation, nesting and calls interact, so most combinations of 4 and more operators are never read.",
     [EV, TOK, CTX], [("shunting-yard conversion", EV + ": infix_to_rpn"), ("stack evaluation", EV + ": rpn_eval"), ("unary or binary decision", TOK + ": tokenize")],
     "property-based testing: generated contexts and expressions with symbolic values, against a precedence-climbing reference model",
     "Random search: up to 10 operators per chain, 4 levels of nesting, calls of mostly up to 4 and now and then up to 18 arguments; and, with hashes as values, expressions of up to some hundred thousand tokens, levels of nesting or arguments. Trusts the reference evaluator of the harness. Several postfix operators on one operand are unspecified and not generated.")

prop("C02", "A malformed expression is an error, never a value",
     "Evaluating an expression that is not well-formed gives an error and not a value: missing or surplus operands, operators, commas or arguments' separators, unclosed, unopened or crossed groups, empty groups that are not the arguments of a call, unknown names, and empty text. An expression is never silently cut, completed or reordered to make sense of it.",
     ["inputs", "configurations"],
     "every context and every sequence of tokens, known or unknown, with any spacing",
     "The tests have a handful of malformed expressions; the sequences of tokens that are wrong in some way are unbounded, and a stack evaluator accepts many of them by accident.",
     [EV, TOK], [("placement of tokens", EV + ": infix_to_rpn"), ("operand counts", EV + ": rpn_eval")],
     "property-based testing: generated and mutated token sequences, against a reference recogniser and evaluator",
     "Random search: sequences up to some 60 tokens, dense for those up to 9 tokens of a 12-token alphabet, and an edit or two of expressions of thousands of tokens. What is unspecified (see C01) is only required not to panic.")

prop("C03", "Evaluation of any text ends in a value or an error, never in a panic",
     "Evaluating any text with any of the library's contexts (checked integers of every width, checked and unchecked floats, decimals, complex, binary) returns a value or an error: no text, number, argument count or extreme variable value makes it panic or run without end, and a long text does not take a time out of proportion with its length. The exception is an unchecked context of an integer type, whose operators are documented to overflow.",
     ["inputs", "configurations"],
     "every text, every context the library provides, with and without implicit multiplication and custom calls, and extreme values of variables",
     "Panics hide at boundary values (the minimum of a type, powers and factorials out of range, non-finite floats, the limits of the decimal type) and in token sequences no test has.",
     [EV, TOK, CTX, OPS, CHK, "prexel/src/decimal/decimal_ext.rs", "prexel/src/complex/mod.rs", "prexel/src/binary/mod.rs"],
     [("checked arithmetic", CHK), ("decimal functions", "prexel/src/decimal/decimal_ext.rs"), ("error results", "prexel/src/error.rs")],
     "fuzzing: grammar-based, fragment-based and character-level generation over all contexts, with panics caught and overflow checks on",
     "Random search over 28 contexts, in a build with overflow and debug assertions. A case that computes for more than 120 s (1000 times the slowest that ends) is reported as running without end, and so is one of a text of up to some 20 thousand characters that takes 12 s of processor time (100 times the slowest).")

prop("C04", "Splitting a text loses, adds and reorders nothing",
     "The pieces a splitter gives for a text are the text, in order: with whitespace kept they concatenate to exactly the text, with whitespace removed to the text without it, and each piece is the one the first rule that takes its character defines (a number with a decimal point at most, an identifier, operators, or a single character). Tokens given by the tokenizer carry those pieces: numbers, names and operators in the order of the text.",
     ["inputs", "configurations"],
     "every text, including non-ASCII and control characters, and every set and order of splitting rules, those of users included",
     "The tests split a dozen texts; a splitter with lookahead can lose or merge characters at any combination of neighbouring classes.",
     [SPL, TOK, "prexel/src/utils/extensions/str_ext.rs"], [("rules and outcomes", SPL), ("numeric, identifier and operator rules", TOK)],
     "fuzzing: generated texts and splitting rules, against a reference splitter and the round-trip of concatenation",
     "Random search over texts of up to 60 characters, and of up to some 20 thousand that repeat shorter ones. A leading point without digits and an underscore directly after an operator are split by rules not documented and excluded from the comparison of pieces, not from the round-trip.")

prop("C05", "Whitespace, redundant groups and letter case do not change a value",
     "Two spellings of an expression have the same result: other whitespace between tokens (whether or not the splitter keeps it), parentheses around any operand or operation as it is already read, another of the grouping symbols, and another letter case of functions, operators and constants (not of variables, which are case-sensitive) change neither the value nor whether it is an error.",
     ["inputs", "configurations"],
     "every expression and every such rewriting of it",
     "It is a relation between pairs of inputs; the tests check single spellings.",
     [EV, TOK, CTX, "prexel/src/utils/ignore_case_str.rs", "prexel/src/utils/ignore_case_string.rs"],
     [("case-insensitive names", "prexel/src/utils/ignore_case_str.rs"), ("splitting", SPL), ("groups", EV + ": infix_to_rpn")],
     "property-based testing: metamorphic relations between rewritings of generated expressions",
     "Random search; rewritings compose, also over texts of thousands of tokens. ASCII letters only for the case of names.")

prop("C06", "Reverse polish notation is faithful, and its evaluation accepts nothing else",
     "Converting the tokens of a well-formed expression gives a valid reverse polish notation with the operands in their order, whose value on an independent stack machine is that of the expression, and evaluating text, tokens or that notation agree. A token sequence that is not well-formed is rejected by the conversion or by the evaluation, and evaluating any sequence of tokens as reverse polish gives exactly the value of a stack machine or an error.",
     ["inputs", "configurations"],
     "every context, every token sequence, well-formed or not, given directly without text",
     "Token sequences no tokenizer produces reach the public conversion and evaluation functions; the tests cover a few well-formed ones.",
     [EV], [("conversion", EV + ": infix_to_rpn"), ("evaluation", EV + ": rpn_eval, eval_tokens")],
     "property-based testing: generated token sequences, against an independent stack machine and the reference evaluator",
     "Random search: sequences up to some 60 tokens, and of thousands of tokens. With custom calls on, the conversion may leave a function name without arguments for the evaluation to reject.")

DEC = "prexel/src/decimal/decimal_ext.rs"
CPX = "prexel/src/complex/mod.rs"
BIN = "prexel/src/binary/mod.rs"

prop("C07", "Checked integer arithmetic is exact or an error",
     "In a checked integer context each expression has its exact mathematical value or is an error: a result, or an operand on the way, that the type cannot hold is an error (never a wrapped, saturated or rounded value), and a division or remainder by zero is a division by zero. Division truncates toward zero and the remainder has the sign of the dividend. Negation, powers, sum, product, avg, min, max, abs, signum and the roundings follow the same rule, on every width from 8 to 128 bits, and so do the checked operations of the types by themselves, of the unsigned ones too.",
     ["inputs", "configurations"],
     "every expression and every operands of every signed integer type, most of all those at and around the limits of the type and of the floats' precision (2^53)",
     "The tests use small operands of few types; wrap-around, the minimum of a type, and losses above 2^53 only show at boundary operands.",
     [OPS, CHK, "prexel/src/num.rs"], [("checked operators", CHK), ("powers and functions", OPS)],
     "property-based testing: generated expressions and boundary operands, against arbitrary-precision integers",
     "Random search over i8 to i128 and isize (the operations by themselves also over u8 to u128 and usize). A base of -1 with an exponent below -2^53 or above 2^64 is not claimed. A sqrt is only checked on perfect squares. Calls have up to 65 thousand arguments.")

prop("C08", "Checked and unchecked contexts agree wherever both have a result",
     "Wherever a checked context gives a value, the unchecked context of the same type gives the same value for the same expression; the checked one only adds errors, where the exact result does not exist or does not fit.",
     ["inputs", "configurations"],
     "every expression over the operators and functions both contexts have, for integers and floats",
     "It relates two implementations of each operator and function; no test compares them.",
     [CHK, UNC, OPS], [("checked operators", CHK), ("unchecked operators", UNC)],
     "property-based testing: differential between the two contexts on generated expressions",
     "Random search. Integers are compared where the checked result exists; floats bit for bit. Calls have up to 65 thousand arguments.")

prop("C09", "Float operators and functions compute what their names say",
     "In the float contexts (f32 and f64, checked and unchecked) the operators give the IEEE result, and every function the value of the mathematical function of its name: trigonometric functions of angles in degrees, inverse ones giving degrees, logarithms, roots, roundings, hyperbolic functions and their inverses, sums, products, averages, extremes and conversions of angles. Outside of its domain a function is an error (for sqrt, ln and exp also NaN or infinite), and never a finite value.",
     ["inputs", "configurations"],
     "every argument of every function: at and around the limits of its domain, multiples of 90 degrees, tiny and huge numbers, of both signs",
     "The tests call each function with one or two arguments; signs, quadrants, reciprocal functions and domain limits differ at others.",
     [OPS, CHK, UNC], [("float functions", OPS), ("domain errors", OPS + ": forward_func_impl")],
     "property-based testing: generated arguments, against the mathematical library and the operators of the machine",
     "Random search. The tolerance is that of the documented snapping to integers (1e-10) for functions, none for operators. tan at odd multiples of 90 and acot at 0 are not compared, nor ill-conditioned arguments next to the limit of a domain.")

prop("C10", "Decimal arithmetic is exact, or rounded in the last place, or an error",
     "In the decimal context +, -, *, /, mod, integer powers and the functions floor, ceil, truncate, round, max, min, sum, avg and product give the exact result if the type has it (0.1 + 0.2 is 0.3), else the result rounded to the type's last digits, or an overflow if it is too large, never a panic or a wrong digit; dividing by zero is a division by zero. Numbers in the text are read exactly.",
     ["inputs"],
     "every pair of decimals of any scale and mantissa, and expressions of them",
     "The tests use a few short decimals; scale alignment, rounding and overflow depend on mantissa and scale.",
     ["prexel/src/decimal/mod.rs", DEC, CHK], [("decimal context", "prexel/src/decimal/mod.rs"), ("decimal powers", DEC)],
     "property-based testing: generated decimals and expressions, against exact rationals",
     "Random search. Powers may lose further digits in proportion to the exponent. A remainder is compared if both operands fit the type at the larger scale: beyond it the decimal library (a dependency) is wrong.")

prop("C11", "Decimal functions compute what their names say",
     "In the decimal context every transcendental function (roots, exp, logarithms, trigonometric in degrees, hyperbolic, their inverses and reciprocals, angle conversions, and powers with a fraction) gives the mathematical value of its name to at least some 11 digits for every argument in its domain, and an error, not a panic or a value, outside of it. The functions as methods of the type do the same, with angles in radians.",
     ["inputs"],
     "every argument in and outside of the domain of each function",
     "The tests check each function at one or two arguments; they are series and iterations written here, which converge, reduce their arguments and overflow differently all over the domain.",
     [DEC, "prexel/src/decimal/mod.rs"], [("series and iterations", DEC), ("functions of the context", "prexel/src/decimal/mod.rs")],
     "property-based testing: generated arguments, against the mathematical library of floats",
     "Random search. Relative tolerance about 1e-11, for roots the last digits of the type; exponentials are compared where the result fits, angles are reduced exactly.")

prop("C17", "Implicit multiplication means exactly the product of adjacent factors",
     "With implicit multiplication on, factors side by side (a number before a name, group or call; a group or call before another factor) are multiplied, binding tighter than the operators to their left, and everything else keeps its meaning; with it off the same text is an error, and expressions without adjacent factors have the same result either way.",
     ["inputs", "configurations"],
     "every expression with any number of adjacent factors, and malformed variants of them",
     "The tests have about ten fixed products; adjacency combines with unary operators, calls, groups and divisions.",
     [EV, CTX, OPS], [("implied multiplication", EV + ": infix_to_rpn"), ("configuration", CTX + ": Config")],
     "property-based testing: generated products over exact rationals, against a reference evaluator; differential with the feature off",
     "Random search. Mixing an implied product with a power directly to its right is unspecified and not compared.")

prop("C12", "Complex operators and functions compute what their names say",
     "In the complex context every operator, power and function (roots, exp, logarithms, trigonometric, hyperbolic, their inverses and reciprocals, sums, products, averages) gives the mathematical value of its name for complex arguments, on the principal branch; on a branch cut the value of either side may be given. Expressions of complex numbers have the value of their tree, and remainders are those of the quotient truncated in both parts.",
     ["inputs", "configurations"],
     "every complex argument in f32 and f64, on and off the axes, and expressions of them",
     "The tests evaluate a few points, mostly one per function; quadrants, branch cuts, axes and zeros each take other paths.",
     [CPX], [("complex functions", CPX)],
     "property-based testing: generated complex arguments and expressions, against the complex functions of the C library",
     "Random search; relative tolerance 1e-9 (f32: 1e-3). Arguments next to a pole or so large that the function overflows are not compared. A power of a base on the cut may take either side. Trusts glibc's complex functions.")

prop("C13", "Binary numbers compute bit by bit and read back as displayed",
     "In the binary context every operator (and its named alias) gives the bit by bit result on 128-bit two's complement numbers, with shifts outside of 0 to 127 bits being an error, and expressions follow the declared precedences. A binary literal has the value of its digits, an invalid one is an error, and a displayed number parses back to itself.",
     ["inputs"],
     "every pair of 128-bit numbers, expressions of them, and every text of digits",
     "The tests use a few small positive operands; sign bits, shift amounts and mixed operators stay untested.",
     [BIN, SPL], [("binary operators", BIN), ("binary literals", SPL + ": binary_number_splitter")],
     "property-based testing: generated operands, expressions and texts, against a bit by bit reference and the display/parse round-trip",
     "Random search.")

prop("C14", "A context holds exactly what was added to it",
     "A context resolves a name to exactly what was last added or set under it: constants, functions and operators by name in any letter case, variables by exact name, symbols by character. Adding a name that is already taken by a conflicting item, or an invalid one, is rejected and leaves the context as it was; a clone is independent of its original.",
     ["histories", "configurations"],
     "every history of additions, assignments, look-ups, failed additions and clones",
     "The tests add one item and read it back; conflicts between kinds of items, aliases and clones only show in sequences.",
     [CTX], [("additions and look-ups", CTX + ": DefaultContext")],
     "stateful property-based testing: generated histories of operations on several contexts, against a model",
     "Random search: histories of up to 24 operations on up to 4 contexts. Invalid names are rejected in builds with debug assertions (the harness's) only.")

prop("C15", "Case-insensitive strings are one equivalence with consistent hashes",
     "Case-insensitive strings are equal exactly if they are the same but for letter case, whether owned or borrowed and in either order of comparison; equal ones have equal hashes, so that maps find an entry under every spelling of its key, and they keep and display their original text.",
     ["inputs"],
     "every pair and triple of strings, ASCII or not",
     "The tests compare a few ASCII pairs; laws of equality and hashing are relations over all pairs and triples.",
     ["prexel/src/utils/ignore_case_str.rs", "prexel/src/utils/ignore_case_string.rs"],
     [("equality and hashing", "prexel/src/utils/ignore_case_str.rs"), ("owned strings", "prexel/src/utils/ignore_case_string.rs")],
     "property-based testing: algebraic laws on generated strings and maps keyed by them",
     "Random search.")

prop("C16", "Evaluating is repeatable and leaves no trace",
     "Evaluating an expression depends only on the context at that moment: repeating it gives the same result whatever was evaluated in between, successes or errors, and it changes no variable or item of the context; a change of a variable takes effect in the very next evaluation. An evaluator used for a long history agrees with a fresh one with the same context.",
     ["histories"],
     "every history of evaluations and changes of variables, failing evaluations included",
     "The tests use a fresh evaluator for each expression.",
     [EV, CTX], [("evaluation", EV), ("variables", CTX)],
     "stateful property-based testing: generated histories, differential against a fresh evaluator",
     "Random search. The random function is excluded.")

prop("C19", "Functions take exactly their number of arguments; random stays in range",
     "Every function of every context accepts exactly the numbers of arguments it is documented to take, and with any other number the evaluation is an error that says so. random() lies between 0 and 1, random(max) between 0 and max and random(min, max) between min and max, spread over all of the range, and bounds in the wrong order are an error.",
     ["inputs", "configurations"],
     "every function of every context with 0 to 9 arguments, and every pair of bounds",
     "The tests call most functions with one count only, and random a few times with fixed bounds.",
     [OPS, CHK, UNC, CPX, DEC], [("argument counts", OPS), ("random", OPS + ": RandFunction")],
     "property-based testing: generated calls against the documented counts; generated bounds with range and spread checks",
     "Random search over the functions of nine contexts, with up to 65 thousand arguments.")

prop("C20", "Wrapper numbers made by the macros behave as their field",
     "A number type made by the library's macros from a struct with one numeric field has exactly the arithmetic, comparisons, conversions, display and parsing of that field, and a context of it gives every expression the result the context of the field's type gives.",
     ["inputs", "programs"],
     "every pair of operands and every expression, for wrappers of integers and floats, with unnamed and named fields",
     "The tests add two small numbers with one wrapper.",
     ["prexel/src/numeric_traits/mod.rs", "prexel/src/num.rs"], [("generated operators", "prexel/src/numeric_traits/mod.rs")],
     "property-based testing: differential between wrapper and field type on generated operands and expressions",
     "Random search over four wrappers. Conversions beyond 64 bits are not compared.")

prop("C23", "A factorial is the product of the integers up to its operand",
     "In the float and decimal contexts n! is the product of the integers from 1 to n, 1 for 0, and for an operand that is no integer the gamma function of n + 1. Negative operands are an error, and what the type cannot hold is an error or infinite, never another value.",
     ["inputs"],
     "every operand of the floats and decimals, integers or not, small, large or next to an integer",
     "The tests take factorials of a few small integers.",
     [OPS, DEC, CHK, UNC, "prexel/src/utils/gamma.rs"], [("float factorial", "prexel/src/utils/gamma.rs"), ("decimal factorial", DEC)],
     "property-based testing: generated operands, against exact products and the gamma function",
     "Random search. Integer factorials belong to C07.")


prop("C21", "The eval command and its REPL give what the library gives",
     "The eval command, run once on an expression or as a REPL, prints for every expression the value the library's context of the chosen number type gives it, or the library's error, in every line of a session. Variables, context changes, assignments, results of earlier lines and the history of commands behave in each line as the lines before it left them, and a rejected line changes nothing; the listings name exactly what the context has.",
     ["inputs", "histories", "configurations"],
     "every expression, number type and flag of the command line, and every session of lines",
     "No test runs the command or its REPL; it is a second path from text to value with state of its own.",
     ["eval/src/main.rs", "eval/src/eval_expr.rs", "eval/src/list.rs", "eval/src/repl/mod.rs", "eval/src/repl/repl.rs", "eval/src/collections/carray.rs"],
     [("one-shot evaluation", "eval/src/eval_expr.rs"), ("listings", "eval/src/list.rs"), ("sessions", "eval/src/repl/mod.rs, eval/src/repl/repl.rs"), ("history", "eval/src/collections/carray.rs")],
     "stateful property-based testing: generated command lines and sessions fed to the built program, differential against the library",
     "Random search; some thousand runs of the program.")


SRV = "prexel-server/src/"
prop("C22", "The server answers each request with the library's result for that request",
     "The server answers every evaluation request, in order and whatever other clients ask at the same time, with the value or the error the library gives for its expression, number type and variables: as one JSON object with exactly one of result and error, or as plain text if only the result is asked for and there is one. A body that is no such request is a bad request with an error naming the field at fault, and the lists of operators, functions and constants are those of the context of the type asked for.",
     ["inputs", "histories", "schedules"],
     "every request body, type, set of variables and query, and every interleaving of clients' requests",
     "The server has no tests at all; requests, types and variables are read by code of its own.",
     [SRV + "endpoints/mod.rs", SRV + "services/evaluator.rs", SRV + "services/info.rs", SRV + "models/mod.rs", SRV + "main.rs"],
     [("endpoints", SRV + "endpoints/mod.rs"), ("evaluation", SRV + "services/evaluator.rs"), ("lists", SRV + "services/info.rs")],
     "property-based testing: generated requests of concurrent clients to the built server, differential against the library version it is made with",
     "Random search: some 100 thousand requests. The server is made with the published version 0.1.9 of the library, whose own defects other properties are about: requests on which that version panics are not sent.")

prop("C24", "A client of the server gets 100 requests a minute, and takes none from others",
     "A client (the address a request comes from) may make 100 requests in a minute, each answered with the number that remains; further ones within that minute are refused with a status of too many requests, whatever they ask for and whatever their headers claim, and after the minute it has 100 again. The requests of one client never count for another.",
     ["histories", "schedules"],
     "every history of requests, good or bad, of any number of clients over time",
     "The server has no tests at all, and the guarantee is about long histories of several clients and about time.",
     [SRV + "main.rs", SRV + "middlewares/rate_limiter.rs"],
     [("limits", SRV + "main.rs: get_rate_limit_middleware"), ("identity of a client", SRV + "middlewares/rate_limiter.rs")],
     "stateful property-based testing: generated histories of several clients of the built server, against a count of each one's requests",
     "Random search over clients with one connection each: the server tells addresses with their ports apart, so that a new connection is a new client, and each of its workers counts for itself.")

prop("C25", "Cargo features and the build profile change no result",
     "Every combination of the library's cargo features (docs, linked-hashmap, and the number types decimal, complex and binary) compiles, and a feature only adds: what the contexts of the types it has contain, and the results, tokens, errors and reactions to changes of a context of every history of evaluations, are the same with any combination. A release build, without assertions and overflow checks, gives the same results as a debug one.",
     ["inputs", "histories", "configurations"],
     "every combination of features, both build profiles, every number type of theirs and every history of valid changes and evaluations of a context",
     "The tests are built with one set of features and one profile; code under other sets (macros with and without docs, other maps) is never compiled, and arithmetic that wraps in a release build is never run.",
     ["prexel/Cargo.toml", OPS, CTX, "prexel/src/binary/mod.rs", DEC, "prexel/src/complex/mod.rs", "prexel/src/lib.rs"],
     [("docs feature", OPS + ": cfg(feature = \"docs\")"), ("maps of a context", CTX + ": Map"), ("features", "prexel/Cargo.toml")],
     "property-based testing: generated calls, expressions and histories, differential between 14 builds of the library and the one of the harness",
     "Random search over 14 of the 32 combinations: all with none or all number types and with docs or linked-hashmap, and docs with each type. Random functions, names that are not valid (debug builds alone reject them), unchecked integers (documented to overflow) and descriptions of functions are not compared.")

prop("C26", "Each operation runs once, in order, and the first error is the result",
     "Evaluating a well-formed expression runs each of its operators and functions exactly once, on the values of its own operands, after they are computed and from left to right. The first one that fails ends the evaluation, nothing is run after it, and its error reaches the caller as it is: its kind, its text and the error within it. This holds for text and for tokens, each time they are evaluated, and if the operations evaluate expressions themselves.",
     ["inputs", "histories", "configurations"],
     "every context of user-defined operators and functions, every well-formed expression over it, and every place, kind and content of a failure",
     "The tests' functions have no effects and mostly cannot fail; the order and number of the calls, and what becomes of an error in the middle of an expression, are not looked at.",
     [EV, "prexel/src/error.rs", CTX], [("stack evaluation", EV + ": rpn_eval"), ("errors", "prexel/src/error.rs")],
     "property-based testing with fault injection: generated contexts whose operations record their calls, expressions and faults, against the history of a reference evaluator",
     "Random search: expressions as those of C01, one fault in each. Of malformed expressions nothing is claimed here.")

prop("C27", "A value, its displayed text and a name that holds it are interchangeable",
     "A value of any number type that is displayed and written in an expression is read as the same value, to the last bit, and so is one held by a variable or a constant, whatever the variable held before. An expression with names in it has the value, or fails, exactly as it does with each name replaced by the text of what it holds in a group.",
     ["inputs", "configurations"],
     "every value of the integer, float, decimal, complex and binary types, every name for it, and every expression over names in the library's contexts, with and without implicit multiplication",
     "The tests set a few small numbers as variables; signs, digits at the limits of a type, and names next to operators, in calls and in groups are not compared with the numbers themselves.",
     [TOK, EV, CTX, "prexel/src/complex/mod.rs", BIN], [("numbers and names", TOK + ": tokenize"), ("variables and constants", CTX), ("looking values up", EV + ": rpn_eval")],
     "property-based testing: display/read round-trips over generated bit patterns, and the metamorphic relation of substitution in generated expressions",
     "Random search. The minimum of an integer type and negative binary numbers have no text that reads as them, a complex zero with a sign loses it as a sum of its parts, and non-finite values are names' only; a name directly after a function or before a number is no call or product, which a group there may be.")


prop("C28", "Tokens, errors, configurations and the public helpers keep to what they say",
     "A token answers yes to exactly the question about its own kind, shows its content, and equals (and is ordered as equal to) only tokens of the same kind and content; an error keeps the kind and the message or cause it was made with, shows that message or else its kind's own text, and equals another exactly if their kinds are equal. Each setting of a configuration changes that setting alone, the two symbols of a group lead to each other and no other character is one, a name is valid exactly if it is not empty and has neither whitespace nor control characters, and precedences are ordered as their numbers. The helpers to compare and recase strings, to sort (stably) the items of an iterator, to ask what an option contains and to approximate a number to an integer within a distance do that for every input.",
     ["inputs", "configurations"],
     "every token, kind of error, message and cause, sequence of settings, character and name, and every text, list, option and number given to a helper",
     "The helpers' tests have two or three examples each and the tokens, errors and configurations hardly any; the laws of equality and order, stable sorting, text that is not ASCII and distances at the limit are for all inputs.",
     ["prexel/src/token.rs", "prexel/src/error.rs", CTX, "prexel/src/utils/extensions/str_ext.rs", "prexel/src/utils/extensions/iterator_ext.rs", "prexel/src/utils/extensions/option_ext.rs", "prexel/src/utils/approx.rs", "prexel/src/function.rs"],
     [("questions and text of tokens", "prexel/src/token.rs"), ("kinds and messages", "prexel/src/error.rs"), ("settings, symbols and names", CTX + ": Config, Grouping, validate"), ("helpers", "prexel/src/utils/extensions")],
     "property-based testing: generated tokens, errors, settings, texts and lists, against records of how they were made and independent definitions",
     "Random search. Whether a configuration without a pair of symbols accepts them is not decided (the library accepts all three pairs), and letters outside of ASCII are left as they are by the helpers that recase.")


def write():
    P.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} --tier quick",
            "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
            "technique": t, "level": "exploration", "level_note": n,
        } for p, t, n in P],
        "not_applicable": [],
        "notes": "All checks are sub-commands of one harness crate (harness/), see DESIGN.md. findings.txt lists the defects found and repaired. MANIFEST.json and properties.jsonl are written by tools/spec.py.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


write()
