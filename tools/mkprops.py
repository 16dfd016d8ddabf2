#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: edit here, run, commit both."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Parsing reads a formula the way ordinary mathematics does",
 "For every well-formed formula, the parsed expression denotes the value given by the documented grammar: power is right-associative and binds tighter than unary minus, then multiplication and division (left-associative, implicit multiplication included), then addition and subtraction; `**` equals `^`, `pi` and `e` are constants, declared names and functions stay whole (also at the front of a longer run of letters), and adjacent operands multiply. Whitespace never changes the meaning, and a numeric literal (integer, decimal or scientific) denotes the nearest double.",
 ["inputs"],"every formula string of the documented grammar, in every spelling (explicit or implicit product, redundant parentheses, spacing), with any declared symbols",
 "The tests parse a few hundred fixed strings; precedence, implicit multiplication and number lexing interact combinatorially and the defect needs a particular adjacency.",
 ["src/parser/lexer.rs","src/parser/implicit_mul.rs","src/parser/pratt.rs","src/parser/mod.rs","src/parser/tokens.rs"],
 [("two-pass lexer","src/parser/lexer.rs"),("implicit multiplication insertion","src/parser/implicit_mul.rs"),("Pratt binding powers","src/parser/pratt.rs")],
 ["parse()","evaluate_str()","Expr::evaluate"])
p("C02","Any input string gives a result or an error, never a crash",
 "For every Unicode string and every set of declared names, parsing, differentiating and simplifying it returns either a result or an error value: it never panics, aborts, overflows the stack or fails to return. A syntax error that carries a position points inside the input, and malformed input (unknown character, missing operand, wrong number of arguments, leftover tokens) is reported as an error rather than silently dropped.",
 ["inputs"],"every string up to several kilobytes: random bytes, token soup, mutated valid formulas, deep nesting",
 "Tests name some two dozen malformed inputs; absence of panics quantifies over all strings.",
 ["src/parser/lexer.rs","src/parser/pratt.rs","src/parser/mod.rs","src/core/error.rs","src/lib.rs"],
 [("parenthesis balancing and validation","src/parser/lexer.rs"),("error enum with spans","src/core/error.rs")],
 ["parse()","diff()","simplify()"])
p("C03","Printing an expression and parsing it back preserves its meaning",
 "The text of any expression, parsed again with the same declared names, denotes the same function of its variables, whether the expression came from parsing, from the operator API, from differentiation or from simplification. No term, factor, sign, exponent or parenthesis is lost in printing.",
 ["inputs","programs"],"every expression built by any sequence of API operations, over all signs, nesting shapes and polynomial forms",
 "Display tests compare a few literal strings; parenthesisation and sign folding depend on the combination of parent, child and sign.",
 ["src/core/display.rs","src/core/poly.rs","src/parser/pratt.rs"],
 [("precedence-aware parenthesisation","src/core/display.rs"),("polynomial printing","src/core/poly.rs")],
 ["Display for Expr","diff()/simplify() string results"])
p("C04","LaTeX and Unicode renderings denote the expression they render",
 "For any expression, reading the LaTeX output with standard LaTeX mathematics conventions, or the Unicode output with superscripts and the middle dot read back as power and product, gives the same function as the expression itself. No term, factor, sign, exponent or grouping is lost, and LaTeX braces are balanced. A variable named after a Greek letter (pi, alpha, ..., omega, varphi) is rendered as that letter.",
 ["inputs","programs"],"every expression over elementary functions, sums, products, quotients, powers and polynomials",
 "Existing tests check that a few substrings occur in the output.",
 ["src/core/display.rs","src/core/poly.rs"],
 [("LaTeX formatter","src/core/display.rs"),("Unicode formatter","src/core/display.rs")],
 ["Expr::to_latex","Expr::to_unicode"])
p("C05","Building expressions with operators computes the right function",
 "Whatever sequence of additions, subtractions, negations, products, quotients, powers, function applications and sums/products of lists builds an expression, on symbols, numbers, expressions or references in either operand position, it evaluates to what the same operations give on numbers. Automatic merging of like terms, polynomial packing and flattening change only the form.",
 ["programs","inputs"],"every program over the operator API and every assignment of values at which the operations are defined",
 "Unit tests build small fixed expressions; merging into packed polynomials depends on history (which operands merged first).",
 ["src/core/expr/constructors.rs","src/core/poly.rs","src/core/symbol/operators.rs","src/core/symbol/math_methods.rs"],
 [("sum/product flattening","src/core/expr/constructors.rs"),("polynomial merge arithmetic","src/core/poly.rs"),("operator overloads","src/core/symbol/operators.rs")],
 ["Expr::evaluate","ExprView"])
p("C06","Expression equality, hashing and canonical order are consistent",
 "Equality is an equivalence relation that implies equal hashes and equal values at every point, and summing or multiplying the same list of operands in any order, and swapping the operands of an addition or multiplication, gives equal expressions with identical text (up to rounding of merged coefficients). Expressions that compare equal can stand in for each other in hash maps and sets.",
 ["inputs","programs"],"every pair and triple of generated expressions and every permutation of operands",
 "Tests check a few equal pairs; a hash or order defect needs a specific pair.",
 ["src/core/expr/hash.rs","src/core/expr/ordering.rs","src/core/expr/mod.rs","src/core/poly.rs"],
 [("structural hash","src/core/expr/hash.rs"),("canonical ordering","src/core/expr/ordering.rs")],
 ["PartialEq/Hash for Expr","Display"])
p("C07","Evaluation substitutes exactly, fully or in stages",
 "Evaluating an expression at numeric values of all its variables gives its mathematical value, within floating-point error. Binding the variables in any number of stages and any order gives the same value as binding them at once; an unbound variable stays in the result as a symbol and only variables of the original expression occur there.",
 ["inputs","programs"],"every expression over the registered elementary functions, every point of its domain and every partition of its variables into stages",
 "Tests evaluate a few hundred fixed points and rarely bind partially.",
 ["src/core/expr/evaluate.rs","src/functions/definitions.rs","src/api/helpers.rs"],
 [("tree evaluation","src/core/expr/evaluate.rs"),("function registry","src/functions/definitions.rs")],
 ["Expr::evaluate","evaluate_str"])
p("C08","Symbolic derivatives equal the true derivative",
 "For any expression of differentiable built-in functions, the symbolic partial derivative evaluated at any interior point of the domain equals the limit of difference quotients there, whatever the nesting of sums, products, quotients, powers and functions, and whether or not the result is simplified. The derivative with respect to an absent or fixed symbol is zero.",
 ["inputs","programs"],"every expression over the differentiable built-ins and every point where it is smooth",
 "Tests check textbook derivatives; chain, product and power rules combine without bound and have size-dependent fast paths.",
 ["src/diff/engine.rs","src/functions/definitions.rs","src/api/builder.rs"],
 [("derivative rules by node kind","src/diff/engine.rs"),("function derivative table","src/functions/definitions.rs")],
 ["diff()","Diff::diff_str","Diff::differentiate","Expr::derive"])
p("C09","Gradient, Jacobian, Hessian and repeated derivatives agree with each other",
 "Each gradient entry, Jacobian entry and Hessian entry denotes the corresponding first or second partial derivative, in row and column order of the inputs; the Hessian is symmetric and an order-n derivative equals n successive first derivatives. Text-based and expression-based forms agree.",
 ["inputs","programs"],"every list of expressions and variables (including absent and repeated ones) and every order",
 "Tests cover two or three polynomials.",
 ["src/api/helpers.rs","src/api/builder.rs","src/diff/engine.rs"],
 [("vector calculus helpers","src/api/helpers.rs"),("order handling","src/api/builder.rs")],
 ["gradient","jacobian","hessian","*_str"])
p("C10","Domain-safe simplification preserves the value everywhere",
 "With domain-safe mode on, the simplified expression has the same value as the original at every real point where the original is defined and finite, for every composition of the built-in functions, negative and zero arguments included. Nothing is dropped, merged or cancelled incorrectly.",
 ["inputs","programs"],"every expression over the built-in functions and every real assignment at which it is defined",
 "Tests check around 150 rules on their intended shapes; unsound rule interactions need particular shapes and signs.",
 ["src/simplification/engine.rs","src/simplification/helpers.rs","src/simplification/rules/mod.rs","src/simplification/rules/algebraic/factoring.rs","src/simplification/rules/algebraic/powers.rs","src/simplification/rules/trigonometric/identities.rs","src/simplification/rules/hyperbolic/identities.rs"],
 [("rule engine","src/simplification/engine.rs"),("domain-altering rule filter","src/simplification/rules/mod.rs")],
 ["Simplify::domain_safe(true)"])
p("C11","Default simplification preserves the value on the positive domain",
 "Default simplification gives an expression with the same value as the original wherever the original is defined, all variables are positive, every base, factor, divisor, exponent and argument under a root, logarithm or non-integer power is positive, and inverse trigonometric functions meet trigonometric ones only on the principal branch. This holds for text input, expression input and through differentiation.",
 ["inputs","programs"],"every expression over the built-in functions and every such point",
 "As for domain-safe simplification: rules interact without bound and tests sample their intended shapes.",
 ["src/simplification/engine.rs","src/simplification/rules/algebraic/fractions.rs","src/simplification/rules/algebraic/combination.rs","src/simplification/rules/exponential/mod.rs","src/simplification/rules/root/mod.rs","src/simplification/rules/trigonometric/angles.rs","src/simplification/rules/numeric/mod.rs"],
 [("rule engine","src/simplification/engine.rs"),("rule set","src/simplification/rules/mod.rs")],
 ["simplify()","Simplify::simplify","Expr::simplified"])
p("C12","Simplification terminates, stays small and gives a reproducible answer",
 "Simplifying any expression returns promptly, never grows it out of proportion, introduces no new variable, and gives the same text every time the same text is simplified, whatever was parsed, differentiated or simplified before in that process or on other threads. Simplifying an already simplified expression gives an expression of the same value.",
 ["inputs","histories","schedules"],"every expression, every preceding history of library calls and every thread",
 "Tests run each expression once in an arbitrary history; rewriting loops need particular shapes.",
 ["src/simplification/engine.rs","src/core/expr/ordering.rs","src/core/symbol/registry.rs"],
 [("iteration bound and cycle detection","src/simplification/engine.rs"),("memoisation","src/simplification/engine.rs")],
 ["simplify()","diff()"])
p("C13","Compiled evaluation agrees with symbolic evaluation",
 "For every expression that compiles, the compiled evaluator gives at every point the value the symbolic evaluator gives, within floating-point error, for any parameter order and any unused or repeated-subexpression structure; where the symbolic value is undefined the compiled one is not an ordinary finite number unless the function has a documented continuous limit there. Expressions with unbound names or unsupported functions give an error instead of an evaluator.",
 ["inputs","programs"],"every expression (constants, polynomials, shared subexpressions, every supported function, deep and wide shapes) and every point including zero, negatives and infinities",
 "Tests compile a few hundred expressions; peephole fusion, caching and stack layout depend on the instruction sequence.",
 ["src/evaluator/compiler.rs","src/evaluator/mod.rs","src/evaluator/execution.rs","src/evaluator/stack.rs"],
 [("bytecode compiler with CSE","src/evaluator/compiler.rs"),("peephole passes","src/evaluator/mod.rs"),("stack machine","src/evaluator/execution.rs")],
 ["CompiledEvaluator::compile","CompiledEvaluator::evaluate"])
p("C14","Batch evaluation equals point-by-point evaluation",
 "Batch evaluation of any expression over any columns gives, at every index, the value scalar evaluation gives at that row, for every batch length (including zero, non-multiples of the vector width and lengths crossing the parallel chunk size), in sequential, vectorised and parallel forms. Results never depend on neighbouring rows, chunking or the number of threads.",
 ["inputs","schedules","configurations"],"every expression, batch length, column contents (special values included) and thread count",
 "Tests use a few lengths and smooth inputs; lane mixing and remainder handling need special values in particular lanes.",
 ["src/evaluator/simd.rs","src/bindings/eval_f64.rs","src/evaluator/execution.rs"],
 [("SIMD interpreter","src/evaluator/simd.rs"),("parallel chunking","src/bindings/eval_f64.rs")],
 ["CompiledEvaluator::eval_batch","eval_batch_parallel","eval_f64"])
p("C15","Parallel multi-expression evaluation equals individual evaluation",
 "Evaluating many expressions over many points in parallel gives, for every expression and point, what evaluating that expression alone at that point gives: numbers, substituted expressions and skipped variables may be mixed freely, short columns repeat their last value, text input gives text and expression input gives expressions. Mismatched shapes give an error.",
 ["inputs","schedules"],"every list of expressions, variable lists and value tables of mixed kinds",
 "Tests use two or three small tables; dispatch between fast and slow paths depends on the mixture.",
 ["src/bindings/parallel.rs"],
 [("fast-path dispatch","src/bindings/parallel.rs")],
 ["evaluate_parallel","eval_parallel!"])
p("C16","Malformed evaluation requests give errors, not panics or wrong data",
 "A request with the wrong number of columns, unequal column lengths, a too-small output, an unbound variable or an unsupported function gives the matching error, at any size, and never panics, reads out of bounds or returns numbers. A well-formed request never gives an error and writes exactly the requested outputs.",
 ["inputs","fault_sequences"],"every shape of columns, parameters and output buffer, small and large",
 "Tests try single-digit malformed shapes below the parallel thresholds.",
 ["src/bindings/eval_f64.rs","src/evaluator/simd.rs","src/evaluator/compiler.rs","src/core/error.rs"],
 [("shape validation","src/evaluator/simd.rs"),("column validation","src/bindings/eval_f64.rs")],
 ["eval_batch","eval_f64","CompiledEvaluator::compile"])
p("C17","Built-in and special functions return accurate values",
 "Every built-in elementary and special function, evaluated through the symbolic, the compiled or the generic numeric interface, agrees with its mathematical definition to its stated accuracy over its whole documented real domain, and gives no number outside it. Poles and out-of-domain arguments are never reported as ordinary finite values.",
 ["inputs"],"every built-in function and every argument (order and parameter included) in its domain",
 "Tests check a handful of tabulated values per function; approximations switch formula by region.",
 ["src/math/special.rs","src/math/bessel.rs","src/math/elliptic.rs","src/math/polynomials.rs","src/functions/definitions.rs"],
 [("region-switched approximations","src/math/bessel.rs"),("gamma family","src/math/special.rs")],
 ["Expr::evaluate","CompiledEvaluator::evaluate"])
p("C18","Special functions satisfy their functional equations",
 "The special functions satisfy, at every argument in their domain, the recurrences and reflection, symmetry and inverse relations that define them (for example those of gamma, the polygammas, Bessel functions, orthogonal polynomials, elliptic integrals, zeta and Lambert W), within their stated accuracy. These hold across region boundaries of the implementation.",
 ["inputs"],"every order, parameter and argument in the domain",
 "Tests check isolated values, not relations between neighbouring orders and arguments.",
 ["src/math/special.rs","src/math/bessel.rs","src/math/elliptic.rs","src/math/polynomials.rs"],
 [("recurrences","src/math/bessel.rs"),("polynomial recurrences","src/math/polynomials.rs")],
 ["Expr::evaluate","MathScalar"])
p("C19","Dual-number differentiation agrees with calculus",
 "Arithmetic and functions on dual numbers give the ordinary value together with the exact first derivative, for every composition of supported operations, and agree with the symbolic derivative of the same formula. Dual arithmetic obeys the ring laws.",
 ["inputs","programs"],"every composition of dual operations and every point where the functions are differentiable",
 "Tests check each method at one or two points.",
 ["src/math/dual.rs","src/core/traits.rs"],
 [("dual arithmetic","src/math/dual.rs")],
 ["Dual"])
p("C20","User-defined functions behave like their definitions everywhere",
 "A function declared with a body evaluates, compiles and simplifies exactly like its body with the arguments substituted. It differentiates by the chain rule over every argument, using the declared partial derivatives and a formal derivative where none is declared. Wrong argument counts are errors when compiling and otherwise leave the call formal; an undeclared function stays formal in results.",
 ["inputs","programs","histories"],"every set of (nested, multi-argument) definitions and every expression using them",
 "Tests define one or two functions at a time.",
 ["src/core/unified_context.rs","src/diff/engine.rs","src/evaluator/mod.rs","src/core/expr/evaluate.rs"],
 [("user function registry","src/core/unified_context.rs"),("body expansion on compile","src/evaluator/mod.rs"),("chain rule","src/diff/engine.rs")],
 ["Context::with_function","UserFunction","Diff","CompiledEvaluator::compile"])
p("C21","The symbol registry behaves like a map from names to identities",
 "After any sequence of creations, lookups, removals and counts, a name denotes one symbol: asking again for an existing name gives the same symbol, strict creation fails exactly if the name exists, strict lookup fails exactly if it does not, and removal or clearing makes the name absent to every caller and thread. Distinct names, and distinct anonymous symbols, are never identified.",
 ["histories","schedules"],"every sequence of registry operations, on one or several threads",
 "Tests run two or three operations and share one global registry.",
 ["src/core/symbol/registry.rs","src/core/symbol/mod.rs","src/core/symbol/interned.rs"],
 [("global registry with thread-local caches","src/core/symbol/registry.rs")],
 ["symb","symb_new","symb_get","symbol_exists","remove_symbol","clear_symbols"],
 [("name and id tables","name -> symbol","src/core/symbol/registry.rs")])
p("C22","Contexts keep their symbols and functions to themselves",
 "Names declared in a context are visible through it and invisible to other contexts, any sequence of declarations and removals leaves it holding exactly what a plain set and map would hold, and parsing through it keeps its declared multi-letter names and functions whole. Work in one context never changes results obtained through another or through none.",
 ["histories"],"every interleaving of operations on several contexts",
 "Tests use one or two contexts and a couple of operations.",
 ["src/core/unified_context.rs","src/core/symbol/registry.rs"],
 [("per-context symbol table","src/core/unified_context.rs")],
 ["Context"])
p("C23","Concurrent use gives the same answers as sequential use",
 "Any mix of parsing, symbol creation, differentiation, simplification, printing and (batch) evaluation running on many threads gives each caller the results it would get alone, with no panic, deadlock or lost symbol. One compiled evaluator or expression shared by threads gives every thread the same values.",
 ["schedules","histories"],"every set of concurrent workloads over shared symbols, contexts and evaluators",
 "Tests are single-threaded, or run unrelated work in parallel by accident.",
 ["src/core/symbol/registry.rs","src/core/unified_context.rs","src/evaluator/mod.rs","src/simplification/engine.rs"],
 [("locks and thread-local caches","src/core/symbol/registry.rs")],
 ["symb","parse","Diff","CompiledEvaluator"])
p("C24","Builder options and limits do what they say",
 "Depth and node limits reject exactly the inputs that exceed them and never alter accepted ones; fixed variables are never differentiated; conflicting declarations (a name both fixed and differentiated, both variable and function) are errors. Skipping simplification changes the form of a result but not its value, and text and expression entry points agree.",
 ["inputs","configurations"],"every combination of builder options and every input",
 "Tests set one option at a time on one input.",
 ["src/api/builder.rs","src/lib.rs","src/core/expr/analysis.rs"],
 [("option validation","src/api/builder.rs"),("size measures","src/core/expr/analysis.rs")],
 ["Diff","Simplify"])
p("C25","Uncertainty propagation equals the covariance formula",
 "For any expression, variables and positive semi-definite covariance, the propagated uncertainty evaluates to the square root of the quadratic form of the partial derivatives with the covariance matrix, numeric and symbolic entries alike; the default uses one independent standard deviation symbol per variable, and the relative uncertainty is that divided by the magnitude of the expression. Dimension mismatches are errors.",
 ["inputs"],"every expression, variable list and covariance matrix",
 "Tests check linear and product examples.",
 ["src/uncertainty.rs"],
 [("quadratic form construction","src/uncertainty.rs")],
 ["uncertainty_propagation","relative_uncertainty"])
p("C26","Inspection and transformation APIs report the expression faithfully",
 "The structural view, variable set, containment test, node visitor, mapping and substitution of an expression agree with the function it denotes: rebuilding from the view gives the same value, the reported variables are exactly those it mentions, and substituting or mapping gives the value of the composed function. Node and depth counts are positive and grow with structure.",
 ["inputs","programs"],"every expression whatever its internal form",
 "Tests inspect a few small expressions; packed polynomials answer through separate code.",
 ["src/core/visitor.rs","src/core/expr/mod.rs","src/core/expr/analysis.rs","src/core/poly.rs"],
 [("stable view of packed forms","src/core/visitor.rs"),("analysis accessors","src/core/expr/analysis.rs")],
 ["Expr::view","Expr::variables","Expr::substitute","walk_expr"])
p("C27","The Python package gives the same answers as the Rust library",
 "Every operation of the Python package (parsing, operators, differentiation, simplification, evaluation, compiled and NumPy batch evaluation, contexts, duals, uncertainty) gives values equal to mathematics and to the Rust results for the same input. Invalid input raises a Python exception and never crashes the interpreter.",
 ["inputs","programs"],"every Python program over the public package API, with lists and NumPy arrays of any length and dtype",
 "The Python tests sample each method once.",
 ["src/bindings/python/expr.rs","src/bindings/python/evaluator.rs","src/bindings/python/functions.rs","src/bindings/python/context.rs","src/bindings/python/dual.rs","src/bindings/python/parallel.rs"],
 [("PyO3 wrappers","src/bindings/python/mod.rs")],
 ["import symb_anafis"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
