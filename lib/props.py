"""What decides each property."""
_EV = ["N::clone returns an equal value (explicit precondition clone_ok of every evaluator contract)",
       "the derived Clone/PartialEq/PartialOrd of Token, Precedence, Associativity, Notation act field by field",
       "a Context implementation obeys the contract stated on trait Context (DefaultContext: C07); context functions are determined by their arguments",
       "error message text is dropped (format! replaced by an opaque string); error kinds are kept",
       "slice.iter().enumerate().peekable() is replaced by a verified iterator with the same behaviour"]
PROPS = {
    "C01": dict(units=["evaluator"], relevant=r"^(?!rpn::|facade::|c03::|theorem_c03|theorem_c02|c02::|lemma_p_c03|lemma_arg_ok)", peers=["C02", "C03"], assumptions=_EV,
                bounded="all trees of at most 4 nodes, random trees up to a few thousand nodes, deep one-sided trees; four configurations, 11 binary and 6 unary operators"),
    "C02": dict(units=["evaluator"], relevant=r"^(?!rpn::|facade::|c03::|theorem_c03|theorem_c01|c01::|lemma_p_c03)", peers=["C01", "C03"], assumptions=_EV,
                bounded="all token sequences of length at most 5 over 11 tokens in two configurations, random sequences and mutated trees"),
    "C03": dict(units=["evaluator"], relevant=r"^(rpn::|facade::|c03::|theorem_c03|lemma_p_c03|lemma_eval_step)", peers=["C01", "C02"], assumptions=_EV,
                bounded="as C01 and C02, evaluated over symbolic numbers"),
}

_N_EV = "Verus discharges every obligation of the evaluator text extracted from /repo on each run: the real functions refine an abstract conversion machine and the property is a theorem about that machine, for all inputs. Trusted: the contract of Context implementations (C07), derives, std specs listed in the evidence. A bounded search on the real crate runs beside it."
for _p, _t in (("C01", "the postfix form of the tree is a theorem over the contracts"), ("C02", "acceptance conditions are a theorem over the contracts"), ("C03", "rpn_eval and the Evaluator facade refine postfix application; theorem to the tree's value")):
    PROPS[_p].update(technique="contract-based deductive verification (Verus) of the functions extracted from evaluator.rs: " + _t, note=_N_EV)
NOT_APPLICABLE = {p: "check under construction" for p in ["C%02d" % i for i in range(4, 21)]}
NOT_APPLICABLE["C17"] = "No deductive verifier here has a theory of transcendental functions: std's sin/ln/.. are external, f64 arithmetic is uninterpreted in Verus, and the documented tolerance is about real-number error, so no contract within reach states or decides it."
NOT_APPLICABLE["C18"] = "The interleavings live in actix/tokio runtimes and the actix-ratelimit crate; the per-request code shares no state, so there is no function in /repo whose contract would express isolation, and the dependencies are outside the verifier's reach."
PROPS["C14"] = dict(units=["carray"], features="eval", technique="contract-based deductive verification (Verus) of every method of CircularArray, with a data-structure invariant; the history law is a lemma over push's contract",
    note="Every method (Index, IndexMut, Deref, DerefMut, IntoIterator included) is extracted from carray.rs and proved against a sequence model, for all capacities and histories. Trusted: vstd's specifications of Vec and slices. Excluded: capacities too large to allocate; `[]` indexing out of range panics as slices do.",
    assumptions=["vstd's specifications of Vec, slices and their iterators", "derived Clone/PartialEq of CircularArray act field by field", "Vec::with_capacity succeeds (capacities beyond addressable memory are outside the property)"],
    bounded="all operation sequences of length at most 6 over six operations (clones included) for capacities 0 to 3, random sequences; elements u64, u8, String and ()", peers=[], ms=3000)
PROPS["C15"] = dict(units=["grouping"], technique="contract-based deductive verification (Verus) of every grouping function; the bijection is a lemma over their contracts",
    note="Every Grouping and Config lookup function is extracted and proved equal to the table for all characters; the bijection law is a lemma over the table. Trusted: Option::flatten. The companion search runs over all 0x110000 code points.",
    assumptions=["Option::flatten behaves as documented", "Option::map/map_or are inlined as match"], bounded="all code points (complete)", peers=[], ms=20000, ms_thorough=60000)
PROPS["C04"] = dict(units=["splitter"], peers=[], ms=8000, technique="contract-based deductive verification (Verus) of every split rule and of split_into_tokens; losslessness and maximality are theorems over their contracts",
    note="All rules (identifier, number, operator, operator set, binary literal, whitespace), the splitter loop and the builders are extracted and proved; theorem_c04 composes them for the default and the binary splitter and every text. Trusted: Peekable<Chars> is the sequence of characters, HashSet<char>, boxing a rule as dyn SplitRule keeps its behaviour.",
    assumptions=["Peekable<Chars> yields the characters of the text in order", "char::is_whitespace/is_ascii_digit as specified by vstd / Unicode White_Space", "HashSet<char> behaves as a set; HashSet::from(array) holds the array's elements", "unsizing Box<F> to Box<dyn SplitRule> keeps the rule's behaviour", "`for rule in &self.rules` is rewritten to an index loop, `next_if` to peek/test/next"],
    bounded="every code point in small contexts, all texts of length at most 5 over nine character classes with eight splitters, random texts")
PROPS["C05"] = dict(units=["tokenizer"], relevant=r"is_unary|[Tt]okeniz|single_char|contains_str|theorem_c05|Context::is_", peers=["C04"], ms=8000, technique="contract-based deductive verification (Verus) of tokenize and is_unary, function by function, on top of the splitter contracts",
    note="tokenize is proved to return exactly the classification s_toks of the pieces, for every piece sequence and every context; is_unary is proved equal to the rule, and the property's sentence about operators is a lemma. Trusted: the number type's from_str is determined by the text, the context's lookups (C07), a handful of str methods.",
    assumptions=_EV[2:4] + ["N::from_str is determined by the text", "str::trim/len/chars().count()/next()/last(), str equality and String::push_str behave as documented", "the blanket impl StrExt for S: Borrow<&str> is verified at S = &str"],
    bounded="all triples over 50 pieces in two contexts with names registered under several kinds, random texts and piece sequences in seven contexts")
PROPS["C06"] = dict(units=["icase"], peers=[], ms=8000, technique="contract-based deductive verification (Verus) of partial_cmp_by, eq_ignore_case and every comparison/hash method of both types; agreement is a theorem over their contracts",
    note="All comparison, equality and hash methods are extracted and proved equal to one spec function of the lower-cased character sequences; theorem_c06 shows a total order, equality = order Equal, and equal names feeding identical characters to any hasher. char::to_lowercase is uninterpreted, so the proof holds whatever Unicode version std has. The search uses every character that has case.",
    assumptions=["str::chars yields the characters in order", "char::to_lowercase is determined by the character; ToLowercase::partial_cmp is lexicographic (Iterator::partial_cmp)", "char::hash feeds the character to the hasher; flat_map(char::to_lowercase) concatenates the lower-cased characters", "partial_cmp_by is verified at I = O = Chars with a shared (Fn) closure", "trait methods are verified as inherent methods of the same text; std derives lt/le/gt/ge/max/min/ne from them"],
    bounded="all pairs of 43 short names, every character with case against its other spellings, random pairs; lookups in a real context")
PROPS["C07"] = dict(units=["context"], relevant=r"DefaultContext|Config::with|Config::new|check_token_name|theorem_c07|v_any|v_check", peers=["C06"], ms=8000, technique="contract-based deductive verification (Verus) of every DefaultContext method: each registration's contract states the exact new maps, the frame and the error case; the lookups are proved to implement the Context contract the evaluator relies on",
    note="All DefaultContext methods (constructors without built-ins, registrations, lookups, accessors), Config builders and check_token_name are extracted and proved; every history is covered because each step's contract gives the whole new state. Trusted: HashMap/LinkedHashMap is a finite map keyed by the key's equality (C06), unsizing to Rc<dyn Function>.",
    assumptions=["ritelinked::LinkedHashMap / std HashMap behave as a finite map keyed by key equality (coherent with Hash: C06)", "unsizing Rc<F> to Rc<dyn Function> keeps the function's behaviour", "str::trim/chars().any with char::is_whitespace/is_control as documented", "cfg(debug_assertions) is modelled as an unknown boolean: both builds are covered", "the bulk constructors with_config_checked/with_config_unchecked/new_decimal/new_complex/new_binary are compositions of verified calls and are run by the search, not proved"],
    bounded="all pairs of 78 operations, random histories of up to 60 operations over 32 names, compared with a reference model after every step")
_NUM = ["num_traits' Zero/One/FromPrimitive/ToPrimitive implementations for the primitive integers are the mathematical ones", "core's checked_neg is exact or None (assume_specification); the other checked_* functions as specified by vstd"]
PROPS["C08"] = dict(units=["checked"], relevant=r"^(?!.*(Sum|Prod|Avg|Max|Min)Function|theorem_c09|fold1|unchecked::|lemma_fold)", peers=["C09"], ms=15000, technique="contract-based deductive verification (Verus) of the checked operators and of the Checked* implementations of all twelve primitive integer types, extracted after macro expansion; factorial with a loop invariant and termination measure",
    note="Every operator is proved exact-or-error for every value of every primitive integer type; the Checked* impls are extracted from the macro-expanded crate. Trusted: vstd/core specifications of checked_*, num_traits for the integers. Bounded companion: every pair of i8 and u8 values, boundary and random values of the other types, called directly and through an evaluator.",
    assumptions=_NUM + ["N::clone returns an equal value and PartialOrd is the integers' order (proved for the twelve integer types)", "error message text is dropped; error kinds are kept"],
    bounded="all pairs of i8 and u8 values, pairs of some 300 boundary values of the other ten types, random values; each called directly and through an Evaluator")
PROPS["C09"] = dict(units=["checked"], relevant=r"(Sum|Prod|Avg|Max|Min)Function|theorem_c09|fold1|unchecked::|lemma_fold|int_types", peers=["C08"], ms=12000, technique="contract-based deductive verification (Verus) of Sum, Prod, Avg (checked and unchecked), Max and Min with loop invariants; exactness over the integers is a theorem over their contracts",
    note="sum/product/avg are proved to be the left fold of the operator over every argument once, for argument lists of any length; for integers the fold is the exact sum/product or some partial result is out of range. max/min return an argument no other exceeds/undercuts, for any transitive order. Bounded companion runs every context with up to 300 arguments.",
    assumptions=_NUM + ["N::clone returns an equal value", "PartialOrd is transitive (std's documented law) and equal values compare alike", "in the unchecked operators the number type's + * / return (a panic or wrap of the type itself is outside the property)"],
    bounded="all i8 lists of at most three of ten values, every length up to 300 with constant arguments, random lists of every integer type, f64, Decimal and Complex<f64>")
PROPS["C13"] = dict(units=["funcs", "checked"], relevant=r"Function.*::(call|v_call)|Function::|count_err|try_to_float", peers=["C19", "C09"], ms=12000, technique="contract-based deductive verification (Verus) of every built-in Function::call of the float, integer, decimal and complex contexts, extracted after macro expansion: the contract is an invalid-argument-count error exactly for the unsupported counts",
    note="All 127 function bodies (macro-generated ones from the expanded crate) are under contract, for argument lists of any length and any values. Trusted: the library's elementary functions return. Which name leads to which body is proved in C24.",
    assumptions=["f64, Decimal and Complex methods are symbols: they return and their value is determined by their arguments", "num_traits conversions report None or a value", "error message text is dropped; error kinds are kept", "in random() the arithmetic on the result is opaque"],
    bounded="every function name of every context with 0 to 12, 20, 64, 255 and 300 arguments in eight value patterns, random lists; also through an Evaluator")
PROPS["C19"] = dict(units=["funcs"], relevant=r"Function.*::|try_to_float", peers=["C13"], ms=12000, technique="contract-based deductive verification (Verus) of every trigonometric Function::call, extracted after macro expansion: the contract states the exact composition (degrees, reciprocal, of the reciprocal) over the library's functions as symbols",
    note="Every trigonometric function of the float/integer, decimal and complex contexts is proved to apply the stated composition for every argument, and the circular ones to reject non-finite values. The elementary functions are uninterpreted symbols (their accuracy is C17). A bounded search compares every context with an independent oracle.",
    assumptions=["f64, DecimalExt and Complex methods are functions of their arguments (f64::sin is the sine, and so on)", "approx() rounds to the nearby integer; it may be applied before and after the function", "num_traits conversions are determined by their argument", "the names are proved (fn name), the registration lists in C24"],
    bounded="41 arguments of all 24 functions in five contexts, all pairs for atan, random arguments up to 1e6")
PROPS["C10"] = dict(units=["binary"], peers=[], ms=8000, technique="contract-based deductive verification (Verus) of every operator of the binary context, of Display and of FromStr; the round trip is a theorem over their contracts",
    note="All twelve operators are proved bit-exact (or an error for a shift amount outside 0..=127) for every pair of 128-bit values; the round trip of printed digits is a theorem over Display's and FromStr's contracts, with the digits of a number defined recursively. Trusted: i128's own operators and checked shifts, {:b} and from_str_radix as documented.",
    assumptions=["i128::checked_shl/checked_shr are None exactly for amounts of 128 and more, and otherwise the shift", "{:b} writes the binary digits of a non-negative value; i128::from_str_radix(s, 2) reads them (documented core behaviour)", "str::strip_prefix as documented", "the derived comparisons of Binary are not used by the operators", "`Binary` as a function value is replaced by a verified constructor function"],
    bounded="every operator on all pairs of 84 boundary values, every shift amount 0 to 199, random pairs; called by every name directly and through an Evaluator; literals of boundary and random values")
PROPS["C16"] = dict(units=["server"], peers=[], ms=8000, harness="harness_server", technique="contract-based deductive verification (Verus) of the server's conversion of outcomes, of all five evaluation services, of their dispatch and of the eval endpoint's body",
    note="From<EvalResult>, with_error, the five eval_*_expression functions, eval_expression and the endpoint are extracted from the server crate: the response carries exactly the outcome, and the outcome is the evaluator library's for the requested number type with every variable set. The library (crates.io prexel for this crate), serde_json and actix are symbols. A bounded search calls the real endpoint in process.",
    assumptions=["the evaluator library's constructors, set_variable, eval and number parsing are functions of their arguments, one per number type (the server uses the crates.io release of prexel)", "HashMap iteration visits every entry once, in some order", "to_string() and format!(\"{}\") give a text determined by the value", "serde_json/serde_path_to_error read a request determined by the body; HttpResponse::json/body carry what they are given; the derived Serialize writes the two fields", "the async endpoint is verified as a sequential function (it awaits nothing); the only_result query parameter is a symbol"],
    bounded="46 expressions in six type settings with 13 variable sets, random expressions; directly and through the endpoint with and without only_result")
PROPS["C11"] = dict(units=["newtypes"], features="newtypes", peers=[], ms=8000, technique="contract-based deductive verification (Verus) of the code the four macros generate, expanded by the compiler for four newtypes, with the field type's operations as symbols: one contract per generated operation",
    note="Every generated function of all four macros is under contract with an arbitrary field type, so a newtype over any field type computes the field's own result, wrapped; None exactly when the field's checked operation is None. Only From<field> and the integer literals 0 and 1 are trusted. A bounded search compares real newtypes over i8, i16, i32, i64, i128 and f64 with their field.",
    assumptions=["the expansion does not depend on the field type (the macros insert the type and field name only)", "the newtype's own From<field type> wraps the value", "zero and one are built from the literals 0 and 1 through From, as the macro's documentation requires", "num_traits' default methods (to_i128, to_f32, ..) are not generated code and are outside the property", "the field's fmt is the one method resolution picks (Debug's fmt inside impl Debug): compared by the search, a symbol in the proof"],
    bounded="all pairs of i8 values as time permits, pairs of boundary values of i16/i32/i64/i128, 17 f64 values pairwise, 20 texts, random pairs")
_DEC = ["rust_decimal's operators: +, -, * and / panic only on overflow of the 96-bit range (or a zero divisor), checked_* are None exactly then, an exact result is returned exactly, other results are within a stated error of the real one (contracts tested on 1,000,000 random pairs with tools/dectest, no deviation)",
        "rust_decimal's round, floor, ceil, trunc, fract, abs, is_zero, is_sign_*, to_i64, from_usize, from_f64, to_f64 as documented; the literals of dec!() and the constants of decimal::consts are evaluated from their text",
        "error message text is dropped; error kinds are kept", "machine integers are checked for overflow; f64 square roots used as a first estimate are uninterpreted"]
PROPS["C12"] = dict(units=["decimal"], relevant=r"checked_powi|checked_powd|PowOperator|lemma_ipow|lemma_step|lemma_over|lemma_bits|lemma_qu|checked_inv|is_integer|checked_ln|checked_exp|::inv$", peers=["C20"], ms=12000,
    technique="contract-based deductive verification (Verus) of checked_powi, checked_powd and PowOperator::call extracted from decimal_ext.rs: a loop invariant ties the squaring loop to the repeated product, machine overflow and every panicking Decimal operator are obligations",
    note="For every base and exponent: exponent 0 is one; a power whose exact value fits is exactly the repeated product; an out-of-range power, an exponent beyond i64 and zero to a negative power are errors; no Decimal operator can panic. Trusted: rust_decimal's operators by contract. How far rounded (inexact) powers may be from the real value is checked by the bounded search only.",
    assumptions=_DEC, bounded="132 values against 200 exponents and against each other, the overflow boundary of every exponent 2 to 96 at five scales, random pairs: value compared with the exact power or within 1e-7 of it, directly and through an Evaluator")
PROPS["C20"] = dict(units=["decimal", "checked", "funcs"], relevant=r"^(?!.*(lemma_ipow|lemma_over|lemma_fold|fold1))", relevant_in={"checked": r"(Max|Min)Function|UnaryPlus", "funcs": r"\bRandFunction|try_to_float"}, peers=["C12", "C09", "C13", "C24"], ms=15000,
    technique="contract-based deductive verification (Verus) of every DecimalExt method, gamma and every operator and function of the decimal context: each panicking Decimal operator's no-overflow precondition is an obligation, discharged from magnitude invariants on the series loops",
    note="All of decimal_ext.rs and all operators and functions of the decimal context (the shared max, min, random and unary plus included) are verified free of overflow, division by zero, failed unwrap and arithmetic overflow for every argument; which operations the context has is proved in C24. Trusted: rust_decimal's operators by contract, the random number generator.",
    assumptions=_DEC + ["in random() the f64 arithmetic is opaque (it cannot panic)"],
    bounded="every operator and function of the context on 132 values, every binary operator and two-argument function on all their pairs, random values of all magnitudes and scales")
PROPS["C09"]["units"] = ["checked", "decimal"]
PROPS["C09"]["peers"] = ["C08", "C20"]
PROPS["C09"]["assumptions"] = PROPS["C09"]["assumptions"] + _DEC[:2]
for _p in ("C12", "C20"): NOT_APPLICABLE.pop(_p)
for _p in ("C10", "C11", "C16", "C13", "C19"): NOT_APPLICABLE.pop(_p)
for _p in ("C04", "C05", "C06", "C07", "C08", "C09", "C14", "C15"): NOT_APPLICABLE.pop(_p)
PROPS["C21"] = dict(units=["splitter", "tokenizer", "evaluator", "checked", "fact", "decimal", "context", "icase"], kinds=r"decreases|terminat", peers=[], ms=15000,
    technique="contract-based deductive verification (Verus): a termination measure on every loop and recursion of the splitter, the tokenizer, the conversion, the evaluation, the registrations and lookups, and of every operator and function that loops (factorial, gamma, decimal series and iterations)",
    note="Every loop and every recursive function on the path of an evaluation carries a measure that Verus proves to decrease, for all inputs; the float factorial is proved over an abstract number type obeying three laws of float multiplication and subtraction. The remaining functions have no loop. Bounded companion: every operator and function of eight contexts on special and random arguments and random texts, under a watchdog.",
    assumptions=_EV[:1] + ["library functions called (std, num_traits, num-complex, rust_decimal) end", "a user's own functions, number types and contexts end", "float laws: for a, b >= 1 the product is at least a, and for b >= 2 it has a larger exponent or is the infinity it was; a - 1 >= 1 only for a >= 2; 1 - x is not below 0.5 for x below 0.5 (tried on random and special f32 and f64 values by tools/flttest)", "the unchecked context over machine integers is left out: its operators may panic or wrap on overflow", "an end is proved, not a number of steps; the watchdog of the search allows 8 s"],
    bounded="46 special arguments of every function and unary operator of eight contexts, random arguments, random texts; each under a watchdog of 8 s")
PROPS["C22"] = dict(units=["repl", "list", "main"], peers=[], ms=12000, harness="harness_repl", relevant_in={"list": r".", "main": r"."},
    relevant=r"from_str|eval_(decimal|float|integer|complex|binary|loop)|EvalExpr|is_assignment|repl_line|theorem_c22|SplitRepl|repl_tokenizer|repl_rules|acts_ops|v_rule_ops|v_repl_splitter|CircularArray|pushed_views|Repl|run_repl|v_config_init",
    technique="contract-based deductive verification (Verus) of the app's own code: the handler of a line, the line editor and its history, the session's tokenizer, context and set-up, the eval command, the reading of the type",
    note="The handler closure of a line is proved equal to its specification (exit, assignment, expression), Repl::run is proved to be the fold of a model of the line editor over any sequence of key events, with the ring buffer of kept lines under contract and every index in range, and the set-up of each of the five sessions and of the eval command is proved. The listing command is proved to print one line per name of the asked type's own context. The library's evaluation and set_variable stand here by their contracts (C01 to C08). Companion: the real app run with a scripted keyboard on fixed and random sessions, and all fifteen listing commands.",
    assumptions=["crossterm delivers some sequence of key events, and writing to the terminal has no other effect", "the evaluator's result is determined by its context, its variables, its splitting and the text (C01, C03, C05)", "set_variable as proved for C07; `$result` is a name no fresh context has taken (run for all five types)", "str::trim, split, String push, pop, drain by their std documentation", "Repl::run calls the handler it is given with the line and acts on its answer; the handler's answer is determined by the lines so far", "clap maps the command line to the commands", "format! texts and colours are left out", "the listing's colour writer adds the Display text to the terminal; iterating a HashMap visits each entry once; iterator chains are rewritten as the loops they stand for"],
    bounded="listing commands: all fifteen are run. Sessions: fixed and random key sequences of the real app, 3 ms each")
PROPS["C23"] = dict(units=["order", "evaluator"], relevant=r"order::|ops::|ctx_|lemma_lo|lemma_names|Precedence|theorem_c01|theorem_c03|binary_function|unary_function", peers=["C01", "C07"], ms=8000,
    technique="contract-based deductive verification (Verus) of the operators' name, precedence, associativity and notation and of the four context constructors; the order of operations is a theorem over the evaluator's contracts",
    note="The constructors are extracted and proved to build an operator table in which powers rank over products over sums with the usual directions (and to register every operator without a clash of names); theorem_c23 shows that under such a table the tree of arithmetic is the one conversion and evaluation use, for expressions of any size. Function and constant registrations are dropped from the constructors (by their own contracts they leave the operator tables alone: C07). Trusted: lower-casing and classes of ASCII characters. Companion: a recursive-descent reference on systematic and random texts in seven contexts.",
    assumptions=_EV[:3] + ["char::to_lowercase of ASCII characters; visible ASCII characters are neither white space nor control characters", "unsizing an operator to Rc<dyn ..> keeps its precedence, associativity and notation", "an operator's `call` is a symbol here (C08, C09, C12, C20)", "no arithmetic operator declares aliases (proved in C24)", "function and constant registrations succeed (proved in C24)"],
    bounded="all sequences of three operators over five operand patterns, all pairs with signs, parentheses and factorials, random expressions; twelve contexts")
PROPS["C24"] = dict(units=["names", "funcs"], relevant=r"ctx_|ops::|math::|lemma_|k_|theorem_c24|ax_names|(Floor|Ceil|Truncate|Round|Sqrt|Cbrt|Exp|Ln|Log|Sign|ToRadians|ToDegrees|Rand)Function", peers=["C13", "C19", "C07"], ms=10000,
    technique="contract-based deductive verification (Verus) of the ten constructors of the five built-in contexts, with every registration in them: the postcondition is the exact table from names to operations; what the elementary functions compute is their own contract",
    note="Each constructor is extracted whole and proved to return a context whose function, operator and constant tables hold exactly the listed names, each bound to its own struct (the struct's name and aliases functions are extracted too), with no registration failing; theorem_c24 turns this into the lookups an expression makes, in any letter case. The calls of the elementary functions are proved to apply the number library's function of that name. Companion: every name in four spellings against an independent oracle.",
    assumptions=["char::to_lowercase of ASCII characters; visible ASCII characters are neither white space nor control characters", "unsizing a function to Rc<dyn ..> keeps what it computes", "the number type represents PI and E (its from_f64 gives a value for them): a precondition of the generic constructors", "what the operators and the folds compute is C08, C09, C10, C12 and C20, the trigonometric functions C19", "a struct of the names unit is the struct of the same path in the funcs unit", "f64, DecimalExt and Complex methods are functions of their arguments (f64::floor is the floor, and so on)", "glob imports of the constructors' modules are restated"],
    bounded="all names in four spellings with 34 argument lists in thirteen contexts, random arguments; the exact name tables; each f64 call also as an expression")
PROPS["C25"] = dict(units=["info"], peers=[], ms=8000, harness="harness_server",
    technique="contract-based deductive verification (Verus) of the server's three listing services and the three endpoints that choose their context: the postcondition is the listing, entry by entry, of the context that evaluation of the asked type uses",
    note="get_functions, get_operators and get_constants are proved to give one entry per entry of the context's own table, with its name, aliases, description or value; each endpoint is proved to answer 200 with the listing of the context of the asked type - the same kind of context C16 proves the evaluation uses. Companion: the three endpoints asked for nine type texts against the tables of the library the server uses and evaluations of the listed constants.",
    assumptions=["the context kinds are symbols: new_checked, new_decimal, new_complex and new_binary hold the same names as the with_config constructors that evaluation uses (proved for this repository's library in C24; the server links the published prexel of the cargo cache)", "iterating a HashMap visits each of its entries once, in some order", "iter().map(..).chain(..).collect() is rewritten as the loops it stands for, by its definition", "to_string is determined by the value; description and aliases by the function", "actix and serde are symbols: the type parameter of the request, the builder of a response, an async function run as a sequential one", "route attributes are left out (the search asks the real paths)"],
    bounded="the three listings for nine texts of the type parameter, complete")
PROPS["C26"] = dict(units=["float"], peers=["C24"], ms=10000,
    technique="contract-based deductive verification (Verus) of every operator of the checked and unchecked contexts, of the float implementations of the checked operations after macro expansion, and of the complex power, with the number type's own operations as symbols",
    note="Each operator's call is proved, for an arbitrary number type, to apply the type's own operation to its operands in order and to be an error exactly where stated; the float types' checked operations are proved to be the float operation, None exactly for a zero divisor; both factorial loops carry an invariant that ties them to the descending product. Trusted: the machine's float operations, powf, powc and gamma as symbols. Companion: special and random values of f64, f32, i64 and complex numbers, bit by bit, directly and through an Evaluator.",
    assumptions=["f64 and f32 + - * / %, negation, comparison and is_zero, f64::powf, Complex::powc and the conversions to and from f64 are functions of their arguments", "the operator traits of the standard library give what their specifications say; N::clone gives an equal value", "gamma is a symbol (that it ends is C21; its values are compared to nine digits by the search, bounded)", "which context registers which operator is C24", "that a float factorial ends is C21"],
    bounded="32 special values pairwise for every operator of seven contexts, random bit patterns and small decimals")
