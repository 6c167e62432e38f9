HOOKS = {'guard': 'calcurs_verif', 'enable': 'harness/.cargo/config.toml sets rustflags --cfg calcurs_verif for every build of the harness', 'source_commits': ['1fd0f88']}
BASE_NOTE = ("Seeded random exploration of real executions judged by an oracle that shares no code with the library; "
  "assurance is statistical over the generated inputs, nothing is proved. Inputs whose exact i128 arithmetic overflows are outside the property. ")
def P(id, title, statement, over, text, tests, files, mech, technique, note='', na=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if hook: a['hook_needed'] = hook
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=tests,
             anchors=a, technique=technique, note=BASE_NOTE + note)
    if na: d['na'] = na
    return d
TODO = 'not built yet'
I = ['inputs']
PR = ['inputs', 'programs']
PROPS = [
P('C01', 'Rational arithmetic is exact and always in lowest terms',
  'Adding, subtracting, multiplying, dividing (operators by value, by reference and assigning), comparing, hashing, converting, inverting, rounding and querying rationals gives exactly the mathematical result whenever every intermediate integer fits in 128 bits. Every rational a caller can see is in lowest terms with a positive denominator, so equal values compare equal and hash alike, and the order is the numeric order.',
  I, 'all pairs of rationals and chains of operations on them whose intermediate integers fit in i128',
  'The two rational tests check a handful of small constants; the claim is over all numerators, denominators and operator forms.',
  ['src/rational.rs'], [('arithmetic operator impls over Ratio<i128>', 'src/rational.rs'), ('new/from normalisation', 'src/rational.rs')],
  'runtime monitor: reference big-rational oracle over chained operations'),
P('C02', 'Rational powers, gcds and binomials are exact or left alone',
  'Raising a rational to a rational power returns either its input unchanged or the exact value of the integral part of the exponent together with the exact fractional rest, it does the latter whenever that value fits comfortably in 128 bits, and it never panics or returns anything else (0^0 excepted). The gcd of two fractions over one denominator and binomial coefficients are exact too.',
  I, 'all bases and exponents, including negative, fractional, huge and unrepresentable ones',
  'Tests cover a few small integer powers; overflow, sign and fractional exponents are not sampled.',
  ['src/rational.rs'], [('Rational::pow / pow_basic', 'src/rational.rs'), ('int_gcd, binomial_coeff', 'src/rational.rs')],
  'runtime monitor: reference big-rational oracle'),
P('C03', 'Building an expression preserves its value',
  'However an expression is put together (arithmetic operators in all value, reference and assigning forms, the named constructors for sums, products, quotients, powers, roots, exponentials, logarithms and trigonometric functions, or their non-simplifying variants), the result denotes the same real number as the mathematical formula at every point of the domain where the formula and all power laws are defined. Construction neither panics nor turns a defined formula into an undefined one.',
  PR, 'all formulas over numbers, variables, pi, e, + - * / ^, roots, exp, logs, (inverse) trigonometric functions, all construction routes, all points of the domain',
  'Tests compare a few dozen literal results; they never evaluate them and cover no mixed construction routes.',
  ['src/algos.rs', 'src/atom.rs'], [('Expr::{add,sub,mul,div,pow} and *_raw', 'src/algos.rs'), ('operator impls', 'src/atom.rs'), ('Sum::add_rhs, Prod::mul_rhs', 'src/algos.rs')],
  'runtime monitor: interval/exact-rational evaluation oracle on the constructed trees'),
P('C04', 'Reducing an expression preserves its value',
  'Automatic simplification of any expression tree, whether built through the simplifying operators or assembled by hand (nested, empty or single-argument sums and products included), gives an expression with the same real value at every point where the input and all power laws are defined. It neither panics nor turns a defined expression into an undefined one.',
  PR, 'all expression trees and all points of their domain',
  'Tests compare a few literal normal forms; the value claim is over every tree and every point.',
  ['src/atom.rs', 'src/algos.rs'], [('SymbolicExpr::reduce impls', 'src/atom.rs'), ('merge_args / reduce_all', 'src/algos.rs')],
  'runtime monitor: interval/exact-rational evaluation oracle before/after reduce'),
P('C05', 'Reducing produces a normal form',
  'A reduced expression contains no nested or fewer-than-two-argument sums or products, no zero or undefined terms or factors, no factor one, at most one number per sum and per product, no two like terms in a sum, no two factors with the same base in a product, and no power with exponent 0 or 1 or base 1. Reducing again changes nothing (up to argument order; results that contain a power of a product are excepted), giving the arguments of sums and products in another order changes nothing but the order of the result (powers of products and of numbers excepted), and any arithmetic formula of numbers reduces to the single exact number it denotes. Adding plain terms one by one to a sum in place (multiplying variables, functions, sums and positive powers of them into a product) keeps it free of like terms (equal bases) and of second numbers.',
  PR, 'all expression trees',
  'Tests list a few inputs; a normal form is a claim about all trees.',
  ['src/atom.rs', 'src/algos.rs'], [('Sum/Prod/Pow reduce', 'src/atom.rs'), ('Sum::reduce_all, Prod::reduce_all', 'src/algos.rs')],
  'runtime monitor: structural invariant checker on every reduced tree'),
P('C06', 'Undefined results are marked undefined, and only those',
  'Arithmetic with an undefined operand is undefined; dividing anything by zero, 0^0 and zero to a negative power are undefined, in the operators as well as when reducing a hand-assembled tree. Reducing a formula of numbers gives the undefined marker exactly when some division by zero or such power occurs in it.',
  PR, 'all formulas of numbers and all positions of an undefined or zero operand',
  'Tests check a few literal cases.',
  ['src/algos.rs', 'src/atom.rs'], [('undef handling in add/mul/div/pow', 'src/algos.rs'), ('Pow::reduce', 'src/atom.rs')],
  'runtime monitor: reference evaluation with explicit undefinedness'),
P('C07', 'Expanding preserves the value and leaves nothing to expand',
  'Expanding (fully, only at the root, or distributing a product over one sum) gives an expression of the same real value at every point where the input and all power laws are defined, without panicking. Fully expanding a reduced polynomial expression leaves no product with a sum as a factor and no integer power of a sum, and after reducing again exactly the monomials of the polynomial remain, each once: two polynomial expressions that denote the same polynomial have the same expanded and reduced form up to the order of arguments.',
  I, 'all expression trees; all polynomial expressions for the structural part',
  'Tests expand a dozen literals.',
  ['src/algos.rs'], [('Expr::expand, expand_main_op, distribute, expand_pow_rec', 'src/algos.rs')],
  'runtime monitor: evaluation oracle and structural invariant checker'),
P('C08', 'Fraction and factoring operations preserve the value',
  'Rationalizing, factoring out, cancelling, and splitting into numerator and denominator give expressions of the same real value wherever the input and all power laws are defined. Factoring the common part of two expressions, and separating the factors that contain a variable from those that do not, give parts whose product is the original again. Rationalizing a reduced expression leaves no fraction in a sum, the common part of two monomials is their greatest common monomial, and factoring out (cancelling) an expanded polynomial (quotient of two) pulls out (cancels) its monomial content.',
  I, 'all expression trees and all points of their domain',
  'Tests compare a few literals.',
  ['src/algos.rs', 'src/atom.rs'], [('rationalize, factor_out, cancel, factorize_common_terms, separate_factors', 'src/algos.rs'), ('numerator, denominator, try_as_div', 'src/atom.rs')],
  'runtime monitor: evaluation oracle before/after'),
P('C09', 'Trigonometric rewriting preserves the value',
  'Expanding, contracting, substituting and simplifying trigonometric functions give expressions of the same real value wherever the input and all power laws are defined, without panicking. Substitution leaves no tangents, cotangents, secants or cosecants, expansion leaves no sine or cosine of a sum, and contracting a power of a sine or cosine, or a product of different ones, leaves no product or power of sines and cosines.',
  I, 'all expression trees with trigonometric functions and all points of their domain',
  'Tests compare a few literals, most of them by printing only.',
  ['src/algos.rs'], [('expand_trig, contract_trig, substitute_trig, simplify_trig', 'src/algos.rs')],
  'runtime monitor: interval evaluation oracle before/after'),
P('C10', 'Exponential and logarithm expansion preserve the value',
  'Expanding exponentials of sums and logarithms of products and powers gives expressions of the same real value wherever the input and all power laws are defined, without panicking. On a reduced expression the first leaves no exponential of a sum and the second no natural logarithm of a product or power.',
  I, 'all expression trees with exponentials and logarithms and all points of their domain',
  'Tests compare a few literals.',
  ['src/algos.rs'], [('expand_exponential, expand_ln', 'src/algos.rs')],
  'runtime monitor: interval evaluation oracle before/after'),
P('C11', 'Simplify lists equivalent forms from smallest to largest',
  'Simplifying an expression lists pairwise different forms ordered by size (number of nodes), each of which has the same real value as the expression wherever it and all power laws are defined. The list is empty exactly for undefined, numbers and variables, and two calls give the same list.',
  PR, 'all small expression trees and all points of their domain',
  'No test looks at the list that simplify returns.',
  ['src/algos.rs'], [('Expr::simplify', 'src/algos.rs'), ('ExprCost', 'src/algos.rs')],
  'runtime monitor: evaluation oracle on every listed form, order and duplicate monitor'),
P('C12', 'Derivatives are the derivatives',
  'Differentiating an expression with respect to a variable gives, at every point where the expression and all power laws are defined and differentiable, the value of the derivative of the function that the expression denotes, and reducing it keeps that value. It never panics.',
  I, 'all expression trees (all functions, logarithm bases, variable exponents), variables and points',
  'Tests differentiate ten literals in one variable.',
  ['src/algos.rs', 'src/atom.rs'], [('Expr::derivative', 'src/algos.rs'), ('Func::derivative', 'src/atom.rs')],
  'runtime monitor: forward-mode automatic differentiation in interval arithmetic as oracle'),
P('C13', 'Polynomial views report the polynomial',
  'Reading a sum of products of numbers, constants and positive integer powers as a polynomial in a set of generalized variables (variables, functions, sums) reports the true degree, total and per variable, and for every combination of exponents the coefficient that collects all terms with it, whatever the order of terms and factors. Collecting terms keeps the value and leaves one term per combination; anything that is not a polynomial in those variables, and a degree or coefficient asked for what is no variable of the polynomial, is reported as such.',
  I, 'all polynomials and non-polynomials, all sets of generalized variables (variables, functions, sums, products, powers), all orders of terms and factors',
  'Tests query a handful of literals in one order.',
  ['src/polynomial.rs', 'src/atom.rs'], [('MonomialView', 'src/polynomial.rs'), ('PolynomialView', 'src/polynomial.rs'), ('VarPow', 'src/polynomial.rs'), ('Expr::variables', 'src/atom.rs')],
  'runtime monitor: independent polynomial bookkeeping as oracle for every query'),
P('C14', 'Substitution replaces exactly the matching sub-expressions',
  'Substituting replaces every outermost sub-expression that equals the searched one (up to the order of arguments of sums and products) and nothing else, does not search the inserted replacement, and leaves its input unchanged. Concurrent substitution does the same for several pairs at once, the first matching pair wins; sequential substitution applies the pairs one after the other.',
  I, 'all expression trees and all lists of replacement pairs, replacements that contain the replaced included',
  'Tests substitute a few literals.',
  ['src/algos.rs'], [('Expr::{substitude, seq_substitude, concurr_substitude}', 'src/algos.rs')],
  'runtime monitor: independent substitution as oracle'),
P('C15', 'Structural queries agree with the tree',
  'Listing, visiting and rewriting the sub-expressions of an expression covers every node once (and only those below nodes at which a visitor does not stop), an expression is free of exactly the expressions that do not occur in it (up to the order of arguments), and its cost is its number of nodes. Arguments, type and number predicates, base and exponent, rational coefficient and rest, coefficient and term, the splits of a sum into first and rest, flattening and function names report what the tree contains, and so do the generalized variables (variables, functions, sums that are factors, bases of positive integer powers, other powers as a whole); base^exponent, coefficient times rest, coefficient times term and the two parts of a split have the value of the whole.',
  I, 'all expression trees (degenerate sums and products included), all searched expressions',
  'Only variables, term and fractions have tests, on a few literals.',
  ['src/atom.rs', 'src/algos.rs'], [('iter_compl_sub_exprs, free_of, base, exponent, term, rational_coeff', 'src/atom.rs'), ('for_each_compl_sub_expr, ExprCost', 'src/algos.rs'), ('predicates of Atom', 'src/atom.rs')],
  'runtime monitor: independent walk over the tree as oracle for every query'),
P('C16', 'Equality, hash and order are consistent',
  'Two expressions are equal exactly if they are the same up to the order of arguments of sums and products (at every level), and equal expressions have equal hashes. The order of expressions is reflexive, antisymmetric and transitive, says Equal only for equal expressions, and does so for all equal expressions with sorted arguments; numbers are ordered by value, pi and e included. Sums, products, powers, functions, numbers and variables taken by themselves compare as the expressions made of them.',
  I, 'all pairs and triples of expressions, including numbers arbitrarily close to pi and e and variables with odd names',
  'No test looks at the order of more than a few literals; transitivity and hash consistency are claims about all pairs and triples.',
  ['src/atom.rs'], [('PartialEq/Hash for Sum, Prod, Expr', 'src/atom.rs'), ('Ord for Atom, Real, Expr', 'src/atom.rs')],
  'runtime monitor: canonical-form oracle and order-axiom monitor over pools of expressions'),
P('C17', 'A printed formula denotes the expression',
  'Displaying an expression gives a formula that, read with the usual conventions (^ before multiplication, division and juxtaposition from left to right, these before + and -, sin^2(x) for a power of a function), has the value of the expression at every point, shows exactly its variables under their own names, and shows the undefined marker exactly if the expression contains it. Numbers print exactly, and so do formulas put together from printed parts with the formatter\'s own + - * / and powers.',
  I, 'all expression trees, numbers, function and variable names',
  'Tests print thirty literals; precedence and signs interact in ways those do not combine.',
  ['src/sym_fmt.rs', 'src/atom.rs'], [('SymbolicFormatter, FmtAtom', 'src/sym_fmt.rs'), ('Display for Func, Irrational, Rational', 'src/atom.rs'), ('Func::name', 'src/atom.rs')],
  'runtime monitor: independent reader and evaluation oracle'),
P('C18', 'Serialized expressions come back unchanged',
  'Writing an expression, or any part of it, as JSON and reading it back gives the same expression, structure and order of arguments included, whatever its numbers and variable names. Rationals read from text are in lowest terms or rejected (zero denominator); damaged text is rejected or read as a well-formed expression, never with a panic.',
  I, 'all expression trees, all texts',
  'There is no test of serialization.',
  ['src/atom.rs', 'src/rational.rs'], [('Serialize/Deserialize for Expr, Atom, Func, Real', 'src/atom.rs'), ('Serialize/Deserialize for Rational', 'src/rational.rs')],
  'runtime monitor: round-trip oracle and text mutation'),
P('C19', 'Operations are pure',
  'Whatever operation is applied to an expression, and whatever in-place change is made to a copy of it (assigning operators, mutable access to its arguments or nodes at any depth, visiting rewriters), every other handle keeps showing what it showed before: the inputs, expressions that share sub-expressions, handles to sub-expressions, and the shared constants. What an operation returns depends only on the structure of its inputs, not on sharing, on earlier calls, or on the thread.',
  ['histories', 'inputs'], 'all sequences of operations and mutations on families of expressions that share sub-expressions',
  'Tests apply one operation to fresh expressions; aliasing only shows when other handles are looked at afterwards.',
  ['src/atom.rs', 'src/algos.rs'], [('atom_mut / args_mut / map_args (copy on write)', 'src/atom.rs'), ('thread-local constants', 'src/atom.rs'), ('every operation', 'src/algos.rs')],
  'runtime monitor: snapshot monitor over all live handles and constants after every operation of a random history, differential against unshared copies and a fresh thread'),
P('C20', 'The expr! macro builds the formula it is given',
  'The expression that expr!(formula) builds denotes the formula: ^ binds before * and /, these before + and -, all of them from left to right, a minus sign in front of an operand negates it, names are variables (pi is the number, undef the undefined marker), calls call the function of that name, integers have their value. Every formula made of these compiles. (What a minus sign in front of the base of a power means is left open.)',
  PR, 'all formulas, notations of integers, spacings and parenthesizations',
  'Tests use the macro with a few dozen formulas and judge it by itself.',
  ['macros/src/lib.rs'], [('Expr::parse_bin_expr, parse_unary_expr, parse_operand', 'macros/src/lib.rs'), ('gen_expr_stream', 'macros/src/lib.rs')],
  'runtime monitor: generated program of random formulas, evaluation oracle on what the macro builds'),
P('C21', 'Operations terminate and do not panic',
  'Every operation on expressions (construction, rewriting, simplifying, querying, polynomial views, printing, serializing, mutating copies), applied to any small expression, degenerate trees and undefined operands included, and to the results of other operations, returns: it does not panic, overflow the stack or run forever. What multiplies nothing out (reducing, comparing, hashing, printing, serializing, substituting, deriving, querying) returns on deep nesting too: its effort does not double with every level. (Visiting rewriters that insert what they look for, and arithmetic that exceeds 128 bits, are excepted.)',
  ['histories', 'inputs'], 'all small expression trees and sequences of operations on them',
  'Tests call each operation on a few well-formed inputs.',
  ['src/algos.rs', 'src/atom.rs', 'src/polynomial.rs', 'src/sym_fmt.rs'], [('every public operation', 'src/algos.rs'), ('reduce', 'src/atom.rs'), ('panicking unwraps and recursion', 'src/algos.rs')],
  'runtime monitor: panic hook, allocation budget and stack/CPU watchdog around every call'),
P('C22', 'Expressions release their memory and share it when copied',
  'When all handles to an expression are dropped its memory is released: building expressions, applying operations to them and dropping everything leaves as many live allocations as before. Copying an expression, of whatever size, allocates nothing.',
  ['histories', 'inputs'], 'all sequences of operations on expressions followed by dropping everything',
  'No test looks at memory; leaks (reference cycles, forgotten or cached nodes) do not change results.',
  ['src/atom.rs'], [('Expr over a reference-counted atom, Clone/Drop', 'src/atom.rs'), ('atom_mut', 'src/atom.rs')],
  'runtime monitor: instrumented global allocator (live blocks and allocations per thread)'),
P('C23', 'The builtins of the integration rules do what their names say',
  'The Wolfram builtins available to integration rules: the predicates (TrueQ, FalseQ, IntegerQ, FractionQ, NumberQ, EvenQ, OddQ, SumQ, ProductQ, PowQ, AtomQ) hold for exactly the truth values, numbers (pi and e included) and expressions of that kind and for nothing else, Not negates truth values; Sin, Cos, Tan, ArcSin, ArcCos, ArcTan, Sqrt, Exp and Log (one argument: natural, two: base first) give the value of that function, Derivative and Expand the derivative and the expansion. A wrong number of arguments, an argument that is no expression, and a logarithm base that is no number are rejected.',
  I, 'all builtins and all arguments',
  'There is no test of the builtins.',
  ['src/rubi.rs'], [('WlfrmBuiltins', 'src/rubi.rs'), ('args!/expr! argument checks', 'src/rubi.rs')],
  'runtime monitor: tree classification and evaluation oracle on every builtin call',
  hook='rubi::verif calls the crate-private builtins by name (cfg calcurs_verif)'),
P('C24', 'Sorting arguments is a canonical order',
  'Sorting the arguments of an expression only permutes the arguments of sums and products (at every level), gives the same result for every order in which they were given, is idempotent, and works for any number and mixture of arguments.',
  I, 'all expression trees and all permutations of their arguments',
  'Tests sort two short literals; an inconsistent order only shows on particular triples or longer argument lists.',
  ['src/algos.rs', 'src/atom.rs'], [('Expr::sort_args, cmp_args', 'src/algos.rs'), ('Ord for Atom/Expr', 'src/atom.rs')],
  'runtime monitor: metamorphic oracle (permutations, idempotence, multiset equality)'),
]
