#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)

p("C01", "Infix-to-RPN conversion yields the expression's tree, at any size and nesting",
  "For every well-formed expression - operands, prefix and postfix unary operators, binary operators of any registered precedence and associativity, grouping symbols, function calls with any number of arguments including none, and (when enabled) juxtaposition as multiplication - the conversion succeeds and produces exactly the postfix form of the tree determined by precedence, associativity and grouping, each call preceded by its true argument count. A prefix operator binds tighter than every binary operator; when implicit multiplication is disabled no operator is ever inserted.",
  ["inputs","configurations"], "every expression tree of every size and depth, every context (operator tables, precedences, associativities) and every configuration",
  "Tests convert about forty hand-picked token lists; the quantifier is over all trees and operator tables, and the defects live in combinations (pending prefix operators, nested calls, equal precedence chains).",
  ["prexel/src/evaluator.rs"],
  [m("infix_to_rpn loop","prexel/src/evaluator.rs shunting_yard::infix_to_rpn"),m("push_binary_function","prexel/src/evaluator.rs"),m("push_grouping_close / push_comma / push_number / push_unary_function","prexel/src/evaluator.rs")],
  ["evaluator::infix_to_rpn","Evaluator::eval_tokens"],
  [dict(name="output / operators / arg_count",meaning="emitted postfix tokens; pending operators; one open-call argument counter per pending function",where="shunting_yard::infix_to_rpn")])

p("C02", "Conversion never accepts unbalanced grouping and never leaks structure tokens",
  "For every token sequence whatsoever, conversion to RPN either returns an error or returns only operands, operators, functions and argument counts, with every operand of the input exactly once and in source order; it never panics. A sequence whose grouping symbols are unbalanced, crossed or mismatched, in which a group that is not a call's argument list is empty, or whose commas stand outside a function's own argument list or beside an empty argument, is always rejected.",
  ["inputs","configurations"], "every finite token sequence, well formed or not, and every context",
  "Malformed input space is unbounded; tests try a handful of malformed strings, all through the tokenizer.",
  ["prexel/src/evaluator.rs"],
  [m("push_grouping_close matching","prexel/src/evaluator.rs"),m("check_comma_position","prexel/src/evaluator.rs"),m("final drain of the operator stack","prexel/src/evaluator.rs infix_to_rpn")],
  ["evaluator::infix_to_rpn"])

p("C03", "Evaluation is exact postfix application with no silent defaults",
  "Evaluating a converted expression applies each operator and function of the context to exactly its own operands in source order and returns the single remaining value. An unknown name, a missing operand, a call with fewer values than its argument count, an error returned by a context function, or more than one value left always yields an error - never a panic, a dropped argument or a partial result.",
  ["inputs","configurations"], "every token sequence and every context whose functions terminate without panicking",
  "Tests evaluate fixed strings with built-in functions; whether an operand is lost or a missing argument is ignored depends on stack depth and on the mix of calls.",
  ["prexel/src/evaluator.rs"],
  [m("rpn_eval stack machine","prexel/src/evaluator.rs rpn_eval")],
  ["Evaluator::eval_tokens","evaluator::rpn_eval"])

p("C04", "Splitting a text loses no character and takes maximal runs",
  "For every string, the default splitters return non-empty pieces that, concatenated, are the input with whitespace removed (and nothing else removed). Identifiers, numbers (digits with at most one decimal point), binary literals and operator runs are each taken as long as possible, and every other character becomes a piece of its own.",
  ["inputs","configurations"], "every Unicode string, for the default and the binary splitter",
  "Tests split a few ASCII strings; lost or duplicated characters depend on what follows the end of a run.",
  ["prexel/src/utils/splitter.rs","prexel/src/binary/mod.rs"],
  [m("DefaultSplitter::split_into_tokens rule loop","prexel/src/utils/splitter.rs"),m("SplitNumeric/SplitIdentifier/SplitOperator/SplitWithOperators/SkipWhitespace/SplitBinary::split","prexel/src/utils/splitter.rs")],
  ["DefaultSplitter::split_into_tokens","binary_number_splitter"])

p("C05", "Tokenizing classifies every piece by one fixed rule and never panics",
  "For every string and every context, tokenizing returns tokens or an error and never panics. Each piece becomes, in this order of preference, a number, variable, constant, function, operator, comma, grouping symbol or unknown token, in source order and with its exact text; an operator piece is unary exactly when its registered notation and its neighbours make it so (a prefix operator follows nothing, an opening symbol, a comma or another operator that is not postfix; a postfix operator follows an operand or a closing symbol).",
  ["inputs","configurations"], "every string (any Unicode), every context and every number type",
  "Tests tokenize ASCII expressions over a few contexts; multi-byte neighbours and mixed unary/binary operators are not reached.",
  ["prexel/src/tokenizer.rs"],
  [m("Tokenizer::tokenize classification chain","prexel/src/tokenizer.rs"),m("is_unary","prexel/src/tokenizer.rs"),m("StrExt/OptionStrExt helpers","prexel/src/utils/extensions")],
  ["Tokenizer::tokenize"])

p("C06", "Case-insensitive names: equality, order and hash agree for all strings",
  "For any two names, the case-insensitive string types say equal exactly when their character sequences, each character lower-cased on its own, are equal, their ordering is the lexicographic order of those sequences, and equal names always hash equally. Hence a constant, function or operator registered under one spelling is found under every spelling equal to it ignoring case.",
  ["inputs"], "every pair of Unicode strings",
  "Tests compare a few ASCII spellings; the law is about all pairs, and non-ASCII names are explicitly supported.",
  ["prexel/src/utils/ignore_case_str.rs","prexel/src/utils/ignore_case_string.rs"],
  [m("PartialEq/Ord/Hash for IgnoreCaseStr and IgnoreCaseString","prexel/src/utils"),m("eq_ignore_case","prexel/src/utils/ignore_case_str.rs")],
  ["DefaultContext::get_constant","IgnoreCaseStr","IgnoreCaseString"])

p("C07", "Context registration adds exactly one name, or fails and changes nothing",
  "Registering a constant, variable, function or operator in a default context either succeeds, after which exactly that name (and the function's aliases) resolves to it and every other name resolves as before, or returns an error and leaves every lookup unchanged. Duplicate function or operator names are rejected, no name is ever both variable and constant ignoring case, and setting a variable returns its previous value.",
  ["histories","inputs"], "every sequence of registrations and every name",
  "Tests register a few fixed names; the law is about all names after any history, including the frame (nothing else changes).",
  ["prexel/src/context.rs"],
  [m("add_function_as / add_unary_function_as / add_binary_function_as","prexel/src/context.rs"),m("add_constant / set_variable","prexel/src/context.rs"),m("get_* / is_*","prexel/src/context.rs")],
  ["DefaultContext","Context"])

p("C08", "Checked integer arithmetic is exact or an error, for every operand",
  "In the checked context over any primitive integer type, +, -, *, /, mod, unary minus, abs and factorial return the exact mathematical result (division truncating toward zero) whenever it is representable. Otherwise - overflow, division by zero, the remainder of an overflowing division, factorial of a negative - they return an error; they never wrap around and never panic.",
  ["inputs"], "every pair of values of every primitive integer type",
  "Tests sample small values and one overflow each; the guarantee is about the full domains, in particular the extremes.",
  ["prexel/src/ops/checked.rs","prexel/src/num.rs","prexel/src/ops/mod.rs"],
  [m("Checked* trait forwarding","prexel/src/num.rs"),m("AddOperator..AbsFunction::call","prexel/src/ops/checked.rs"),m("Factorial::call","prexel/src/ops")],
  ["DefaultContext::new_checked","BinaryFunction::call","UnaryFunction::call"])

p("C09", "Variadic functions fold every argument exactly once, at any arity",
  "Sum, product and average combine every argument exactly once in order, max and min (two or more arguments) return an argument that no other argument exceeds or undercuts, and each rejects an argument count it does not support. For checked integers and decimals every intermediate overflow is reported as an error; in the checked and decimal contexts no argument list makes any of them panic.",
  ["inputs"], "every argument list of every length, for every number type with a total order and checked arithmetic",
  "Tests pass three or four arguments; lost, repeated or mis-ordered elements and long lists are not sampled.",
  ["prexel/src/ops/checked.rs","prexel/src/ops/unchecked.rs","prexel/src/ops/mod.rs","prexel/src/decimal/mod.rs"],
  [m("SumFunction/ProdFunction/AvgFunction::call","prexel/src/ops/checked.rs, prexel/src/ops/unchecked.rs"),m("MaxFunction/MinFunction::call","prexel/src/ops/mod.rs")],
  ["Function::call"])

p("C10", "Binary-number operators are total and bit-exact, and literals round-trip",
  "Every operator of the binary context (not, and, or, xor, the six comparisons, both shifts) returns its exact 128-bit two's-complement result, or an error for a shift amount outside 0..=127, and never panics. Comparison results are exactly 1 or 0, and the printed digits of a non-negative value, prefixed with b, parse back to the same value. A literal of b and binary digits, or of decimal digits, reads as exactly the number its digits stand for, and is an error when that lies outside the 128-bit range.",
  ["inputs"], "every pair of 128-bit values",
  "Tests use values of a few bits; shifts by unusual amounts and negative values are not sampled.",
  ["prexel/src/binary/mod.rs"],
  [m("binary::math::*::call","prexel/src/binary/mod.rs"),m("Binary FromStr/Display","prexel/src/binary/mod.rs")],
  ["DefaultContext::new_binary"])

p("C11", "Derived numeric newtypes compute what their field computes",
  "For a single-field number type whose numeric traits are generated by the crate's macros, every generated operation (add, sub, mul, div, rem, neg, their checked forms, zero/one tests, conversions, parsing) gives the field type's own result, wrapped. Checked forms report None exactly when the field's checked operation does.",
  ["inputs"], "every operand pair of the field type, for both the checked and the unchecked macro",
  "No test calls most of the generated operations, so a swapped operator goes unnoticed.",
  ["prexel/src/numeric_traits/mod.rs"],
  [m("impl_checked_num_traits_with_field / impl_unchecked_num_traits_with_field","prexel/src/numeric_traits/mod.rs")],
  ["macro-generated trait impls"])

p("C12", "Decimal powers are exact-or-error and never panic",
  "In the decimal context, raising to an integer power gives the repeated product (up to the decimal type's own rounding) whenever that is representable without overflow, 1 for exponent 0 and the reciprocal's power for a negative exponent. Anything not representable or undefined (zero to a negative power, exponents beyond range, overflow) is an error; no base and exponent make it panic.",
  ["inputs"], "every pair of decimal values",
  "Tests sample five powers; the overflow boundary, zero bases and huge exponents are not reached.",
  ["prexel/src/decimal/decimal_ext.rs","prexel/src/decimal/mod.rs"],
  [m("checked_powi / checked_powd","prexel/src/decimal/decimal_ext.rs"),m("PowOperator::call","prexel/src/decimal/mod.rs")],
  ["DefaultContext::new_decimal"])

p("C13", "Built-in functions reject every wrong argument count with an error",
  "Every built-in function of the float, integer, decimal and complex contexts accepts exactly its documented argument counts (log one or two, atan one or two in the float and decimal contexts, random zero to two, max and min at least two, sum, product and avg at least one, all others exactly one). Every other count yields an invalid-argument-count error rather than a panic or a value.",
  ["inputs","configurations"], "every argument list length, every argument values, every built-in function of every context",
  "Tests call each function with its right count only.",
  ["prexel/src/ops/mod.rs","prexel/src/ops/checked.rs","prexel/src/ops/unchecked.rs","prexel/src/decimal/mod.rs","prexel/src/complex/mod.rs"],
  [m("args.len() guards in Function::call","prexel/src/ops, prexel/src/decimal/mod.rs, prexel/src/complex/mod.rs")],
  ["Function::call"])

p("C14", "REPL history keeps exactly the most recent entries, in order",
  "After any sequence of operations the bounded history holds at most its capacity, and pushing always leaves the newest entries in insertion order: only the oldest is evicted, and only when full. No operation (other than slice-like `[]` indexing out of range) panics for any capacity that can be allocated, including zero, and index-based removal or lookup outside the range returns nothing.",
  ["histories","configurations"], "every operation sequence and every capacity",
  "No test covers it; eviction needs more pushes than the capacity.",
  ["eval/src/collections/carray.rs"],
  [m("CircularArray::push/pop/remove/get","eval/src/collections/carray.rs")],
  ["CircularArray"], [dict(name="data/cap",meaning="entries oldest first; maximum number of entries",where="CircularArray")])

p("C15", "Grouping symbols form one consistent bijection of open and close",
  "For every character, the grouping tables agree: a character is an opener, a closer or neither, never both; the closer of an opener has that opener, and lookups for any character outside the three pairs return nothing.",
  ["inputs"], "every Unicode character",
  "Tests query four characters.",
  ["prexel/src/context.rs"],
  [m("Grouping::{new,symbols,open,close,is_open,is_close,open_for,close_for}","prexel/src/context.rs"),m("Config::{get_group_symbol,get_group_open_for,get_group_close_for,is_group_open,is_group_close}","prexel/src/context.rs")],
  ["Config","Grouping"])

p("C16", "A served evaluation reports exactly one of result and error",
  "For every evaluation outcome the server's response carries the outcome's text unchanged, as a result if and only if the evaluation succeeded and as an error if and only if it failed, never both and never neither. The number type requested (decimal when omitted) is the one evaluated.",
  ["inputs"], "every evaluation outcome and every request",
  "No test covers the server crate.",
  ["prexel-server/src/models/mod.rs","prexel-server/src/services/evaluator.rs"],
  [m("From<EvalResult> for EvaluatedExpression","prexel-server/src/models/mod.rs"),m("eval_expression dispatch","prexel-server/src/services/evaluator.rs")],
  ["EvaluatedExpression","eval_expression"])

p("C17", "Floating-point functions are accurate to their documented precision",
  "Transcendental functions (trigonometric, hyperbolic, logarithms, gamma) of the float, decimal and complex contexts return values within the documented tolerance of the mathematical result over their whole domain.",
  ["inputs"], "every float/decimal/complex argument in the domain",
  "Tests compare a few points.",
  ["prexel/src/ops/mod.rs","prexel/src/utils/gamma.rs","prexel/src/decimal/decimal_ext.rs","prexel/src/complex/mod.rs"],
  [m("forwarding macros and series","prexel/src/ops/mod.rs, prexel/src/decimal/decimal_ext.rs")],
  ["Function::call"])

p("C18", "Concurrent server requests never affect each other",
  "Requests evaluated concurrently return what each would return alone, and a client is limited by its own identifier only.",
  ["schedules"], "every interleaving of requests",
  "No test runs the server.",
  ["prexel-server/src/main.rs","prexel-server/src/middlewares/rate_limiter.rs"],
  [m("per-request context construction; actix-ratelimit","prexel-server/src")],
  ["HTTP endpoints"])

p("C19", "Trigonometric functions keep their defining relations in every context",
  "In the float, integer and decimal contexts sin, cos and tan take degrees and asin, acos and atan return degrees (complex: radians). In every context csc, sec, cot, csch, sech and coth are the reciprocals of sin, cos, tan, sinh, cosh and tanh, and acsc, asec, acot, acsch, asech and acoth of x are asin, acos, atan, asinh, acosh and atanh of 1/x. In the float, integer and decimal contexts a circular function or its inverse with no finite value there is an error, never an infinity or NaN.",
  ["inputs","configurations"], "every argument of every trigonometric function of the float, integer, decimal and complex contexts",
  "Tests compare a few points of some functions of one context; the decimal and complex function tables are not tested at all.",
  ["prexel/src/ops/mod.rs","prexel/src/decimal/mod.rs","prexel/src/complex/mod.rs"],
  [m("math_ops/trig_ops forwarding macros","prexel/src/ops/mod.rs"),m("impl_*_trig macros","prexel/src/decimal/mod.rs"),m("forward_impl_func* macros","prexel/src/complex/mod.rs")],
  ["Function::call"])

p("C20", "The decimal context is total: every operation gives a value or an error",
  "Every operator and every function of the decimal context (powers, factorial, roots, logarithms, exponential, trigonometric and hyperbolic functions and their inverses, conversions, aggregates) returns a value or an error for every decimal argument. None of them panics on overflow, division by zero or a domain error.",
  ["inputs"], "every decimal argument of every operator and function of the decimal context",
  "Tests call each function on a few small arguments; the decimal type's operators panic on overflow and division by zero, which only extreme arguments reach.",
  ["prexel/src/decimal/decimal_ext.rs","prexel/src/decimal/mod.rs"],
  [m("DecimalExt methods, gamma","prexel/src/decimal/decimal_ext.rs"),m("decimal operators and functions","prexel/src/decimal/mod.rs")],
  ["DefaultContext::new_decimal"])

p("C21", "Every evaluation ends",
  "For every text, every configuration and every built-in context (float, integer, decimal, complex, binary), splitting, tokenizing, converting and evaluating come to an end: no loop and no recursion of the library goes on without bound, whatever the operands, including infinite, huge and fractional ones, so one expression can never hang its evaluator.",
  ["inputs"], "every text and every argument of every operator and function of the built-in contexts",
  "Tests run a few short expressions; a loop that converges, counts down or consumes characters for those can go on forever for another operand.",
  ["prexel/src/evaluator.rs","prexel/src/tokenizer.rs","prexel/src/utils/splitter.rs","prexel/src/ops/mod.rs","prexel/src/ops/checked.rs","prexel/src/decimal/decimal_ext.rs","prexel/src/utils/gamma.rs"],
  [m("the loops of split_into_tokens, tokenize, infix_to_rpn, rpn_eval","prexel/src/utils/splitter.rs, tokenizer.rs, evaluator.rs"),m("factorial, gamma","prexel/src/ops/mod.rs, ops/checked.rs, utils/gamma.rs"),m("series and iterations of DecimalExt","prexel/src/decimal/decimal_ext.rs")],
  ["Evaluator::eval"])

p("C22", "A session evaluates each line as the library does and keeps its state",
  "In the command line app, each entered line (spaces around it aside) is `exit`, which ends the session, or an assignment `name = number` (an equals sign that is no part of ==, !=, <= or >=), which sets exactly that variable or reports an error and changes nothing, or an expression, which the library evaluates in the session's number type with implicit multiplication and the variables so far, its value printed and kept as `$result`, or its error printed and no variable changed. Whatever keys are pressed, nothing panics, the edited line is the typed text less what was erased, and Up and Down show the entered lines in order, blank lines and immediate repeats left out and the oldest dropped beyond the history size. The eval command prints the library's value for the requested type or an error, and the listing commands print every constant, operator and function of the type's context once.",
  ["inputs","histories"], "every sequence of key events and every history of lines, for all five number types and every history size",
  "The app has hardly any tests: assignments, the history's position and size and the persistence of variables depend on the whole history of keys.",
  ["eval/src/main.rs","eval/src/eval_expr.rs","eval/src/repl/mod.rs","eval/src/repl/repl.rs","eval/src/collections/carray.rs","eval/src/list.rs"],
  [m("eval_loop, run_repl, repl_tokenizer","eval/src/repl/mod.rs"),m("Repl::run, ReplBuilder","eval/src/repl/repl.rs"),m("CircularArray","eval/src/collections/carray.rs"),m("EvalExpr::eval, eval_*","eval/src/eval_expr.rs"),m("EvalType::from_str","eval/src/main.rs"),m("list","eval/src/list.rs")],
  ["repl and eval commands of the eval app"])

p("C23", "Arithmetic expressions follow the usual order of operations",
  "In the contexts for floats, integers (checked and unchecked), decimals and complex numbers, an expression of numbers, names, calls, parentheses, signs, `+ - * / mod ^` and (where the context has it) `!`, with neighbouring operators written apart, has the value arithmetic gives it: parentheses and calls first, then `!`, then signs, each applied to the operand right after it (so -2^2 is (-2)^2), then powers from right to left, then `*`, `/` and `mod` from left to right, then `+` and `-` from left to right. It is an error exactly when one of these steps is. Left out: `!` directly after a signed number or name, and implicit multiplication.",
  ["inputs","configurations"], "every arithmetic expression, for every arithmetic context and configuration",
  "Tests evaluate a few short expressions in the float context; the grouping of three or more operators of different levels depends on the tables of every context and on the whole expression.",
  ["prexel/src/context.rs","prexel/src/function.rs","prexel/src/ops/checked.rs","prexel/src/ops/unchecked.rs","prexel/src/ops/mod.rs","prexel/src/decimal/mod.rs","prexel/src/complex/mod.rs","prexel/src/evaluator.rs"],
  [m("with_config_checked, with_config_unchecked, with_config_decimal, with_config_complex","prexel/src/context.rs"),m("Precedence::LOW/MEDIUM/HIGH","prexel/src/function.rs"),m("precedence, associativity and notation of every operator","prexel/src/ops"),m("shunting_yard","prexel/src/evaluator.rs")],
  ["Evaluator::eval"])

p("C24", "Every built-in name means its own operation, in any letter case",
  "In each built-in context (checked and unchecked over floats and integers, decimal, complex, binary) and for every configuration, each documented function, operator, operator alias and constant resolves, in any letter case, to its own operation or value, and no other name resolves: none is missing, shadowed or bound to another operation. The functions sqrt, cbrt, exp, ln, log (base 10, or the given base), floor, ceil, truncate, round, sign, to_radians and to_degrees apply the number library's function of that name to their argument (a float may first be taken for the integer within 1e-10 or so of it), random stays within its bounds, PI and E are the mathematical constants and i the imaginary unit.",
  ["inputs","configurations"], "every name in every spelling, every argument, every built-in context and configuration",
  "Tests call a few names in the float context; a missing registration, a second function under one name or a swapped elementary function in another context goes unnoticed.",
  ["prexel/src/context.rs","prexel/src/decimal/mod.rs","prexel/src/complex/mod.rs","prexel/src/binary/mod.rs","prexel/src/ops/mod.rs","prexel/src/ops/checked.rs","prexel/src/ops/unchecked.rs"],
  [m("with_config_checked, with_config_unchecked, with_config_decimal, with_config_complex, with_config_binary","prexel/src/context.rs, decimal/mod.rs, complex/mod.rs, binary/mod.rs"),m("name and aliases of every operator and function","prexel/src/ops, decimal, complex, binary"),m("Function::call of the elementary functions","prexel/src/ops/mod.rs, decimal/mod.rs, complex/mod.rs")],
  ["Context::get_function, get_unary_function, get_binary_function, get_constant", "Evaluator::eval"])

p("C25", "The server lists exactly the names its evaluation knows",
  "For each number type the server's listing of functions, of operators and of constants has exactly one entry for each name that an evaluation of that type in the server knows (an operator has one entry as a binary and one as a unary operator where it is both) and no other entry. An entry carries the description and the aliases of the operator or function that an evaluation of the name applies, and a constant the value that evaluating it gives. A listing asked for no type, or for a text that is no type, lists the decimal names.",
  ["inputs","configurations"], "every number type and each of the three listings, whatever the tables of the context hold",
  "There is no test of the listings; one built from another context than the evaluation's, or one that drops an entry, shows only when the two are compared name by name.",
  ["prexel-server/src/services/info.rs","prexel-server/src/endpoints/mod.rs","prexel/src/context.rs"],
  [m("get_functions, get_operators, get_constants","prexel-server/src/services/info.rs"),m("functions, operators, constants (the endpoints)","prexel-server/src/endpoints/mod.rs")],
  ["GET /functions, /operators, /constants of prexel-server"])

p("C26", "Float and complex operators give the number type's own result",
  "In the checked and the unchecked contexts over floats, + - * and the signs give the float type's own result for their operands in the order written (including infinities and NaN), / and mod the float's quotient and remainder, and an error exactly when the divisor is zero; ^ is the power computed in 64-bit floats, over floats and over integers, and an error when the number type cannot hold it; abs, in the checked contexts, gives the value or its negation. The factorial of a negative value is an error, of a whole number n the product of n, n - 1, .. down to 1 in the float's own arithmetic, and of a fraction the gamma function of the value plus one. Over complex numbers + - * / and the signs give the complex number's own result, / by zero is an error, and ^ is the number library's complex power, where zero to a power with positive real part is zero and to the power zero is one. In the unchecked contexts over integers + - * / mod and the signs are exact wherever the result is representable, and / and mod by zero are errors.",
  ["inputs","configurations"], "every operand value, among them infinities, NaN, signed zeros and subnormals, in both kinds of context",
  "Tests compute a few sums in floats; an operand swapped, a zero test with a tolerance, a remainder of another sign or a power by another route shows only for particular operands.",
  ["prexel/src/ops/checked.rs","prexel/src/ops/unchecked.rs","prexel/src/ops/mod.rs","prexel/src/num.rs","prexel/src/complex/mod.rs"],
  [m("BinaryFunction::call and UnaryFunction::call of every operator, Function::call of abs","prexel/src/ops/checked.rs, prexel/src/ops/unchecked.rs, prexel/src/ops/mod.rs"),m("checked_add, checked_sub, checked_mul, checked_div, checked_rem, checked_neg for f32 and f64","prexel/src/num.rs"),m("PowOperator::call","prexel/src/complex/mod.rs")],
  ["Context::get_binary_function, get_unary_function, get_function", "Evaluator::eval"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
