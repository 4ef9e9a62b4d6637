"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
EV='math_evaluation/core/evaluations.py'; LN='math_evaluation/core/latex_normalize.py'
LP='math_evaluation/core/latex_parser.py'; TE='math_evaluation/core/type_evaluations.py'
L2='latex2sympy/latex2sympy2.py'; LL='math_evaluation/llms/llm_models.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","An answer always equals itself; None handling is fixed",
 "Comparing any answer string with a copy of itself, each copy possibly padded with different leading or trailing whitespace, returns True whatever the string contains. Comparing None with None returns True and comparing None with a string, in either position, returns False, never an exception.",
 ["inputs"],"for every answer string and every whitespace padding of either side",
 "The tests compare a few identical well-formed LaTeX strings; they never compare arbitrary (unparsable, unbalanced, empty) text with itself.",
 [EV],[("identity shortcut before normalisation",EV+": is_equiv")],["is_equiv(a, b)"])
p("C02","Comparison and normalisation are total",
 "Comparing any two strings returns True or False and never raises, and normalising any string returns a string or a set of strings and never raises, even for empty, unbalanced, truncated or otherwise meaningless text and whatever the underlying parsers do with it (answer or fail).",
 ["inputs","fault_sequences"],"for every pair of strings over a hostile alphabet, and every outcome (value or exception) of the parsing library",
 "The tests only use well-formed answers; malformed model output is what an evaluation run over thousands of generated answers actually contains.",
 [EV,LN,LP],[("exception containment",EV+": is_equiv, "+LN+": string_normalize, "+LP+": are_equal_under_sympy")],["is_equiv","string_normalize","are_equal_under_sympy"])
p("C03","Numeric answers are accepted exactly within the tolerance",
 "A numeric prediction p is accepted for a numeric truth t exactly when it is close enough: |t-p| < 0.005 when |t| >= 1, |t-p| < 0.001*|t| when 0 < |t| < 1, and |t-p| < 0.001 when t = 0. Signs, magnitudes and the notation of the two numbers never change that verdict.",
 ["inputs"],"for all pairs of numbers (integers, decimals, simple fractions, either sign) of bounded length",
 "A handful of accept pairs and no near-miss reject pairs are tested; the thresholds, their switch at 1 and at 0 and the behaviour for negative numbers are never probed.",
 [LP,EV,LN],[("tolerance rule",LP+": _diff_equal, _are_equal_latex_sympy")],["is_equiv(t, p)"])
p("C04","All notations of one number are interchangeable",
 "Plain decimals with or without trailing zeros, thousands-separated integers, a/b, \\frac{a}{b}, \\frac ab, \\dfrac, \\tfrac and \\cfrac forms, scientific notation and the bare words million, billion and trillion behind a number denote the same value wherever they do mathematically: two notations of the same number are accepted for each other, and notations of numbers further apart than the tolerance are rejected.",
 ["inputs"],"for every value of the digits in each pair of notations, within stated digit counts",
 "Each notation is tested with one or two literal values.",
 [LN,LP,L2],[("number normalisation",LN+": further_string_normalize, _strip_properly_formatted_commas, _parse_latex"),("number literals",L2+": convert_atom, convert_frac")],["is_equiv","string_normalize"])
p("C05","Mixed numbers mean whole part plus fraction",
 "A mixed number written 'w n/d' or 'w\\frac{n}{d}' (also \\frac nd) has the value w + n/d, and with a leading minus sign the value -(w + n/d), so it is accepted for that value and rejected for any value outside tolerance.",
 ["inputs"],"for every whole part, numerator and denominator, with and without a minus sign",
 "Three positive mixed numbers are tested and no negative one.",
 [LN],[("implicit plus insertion",LN+": _inject_implicit_mixed_number")],["is_equiv","string_normalize"])
p("C06","Percentages match both readings and nothing else",
 "A percentage x\\% (or x%) is accepted for the prediction x, x% or x/100 in any decimal notation, in either argument position, and rejected for numbers that are outside tolerance of both x and x/100.",
 ["inputs"],"for every decimal x within stated digit counts and both argument orders",
 "Only 10\\% against 10 and 0.1 is tested.",
 [LN,EV],[("two-valued normalisation",LN+": _string_normalize; "+EV+": is_equiv")],["is_equiv","string_normalize"])
p("C07","Base-b integers match their digits and their value only",
 "An integer written digits_b or digits_{b} normalises to exactly two readings: the digit string as written and its positional value in base b. It is therefore accepted for that value or those digits and rejected for other integers outside tolerance.",
 ["inputs"],"for every digit string up to the stated length and every base",
 "One numeral in one base is compared with itself.",
 [LN],[("positional evaluation",LN+": _str_to_decimal, _string_normalize")],["string_normalize","is_equiv"])
p("C08","Clock times match their 24-hour reading, minute for minute",
 "A time h:mm or h:mm:ss (hours up to 23) with a p.m. marker is accepted for the same time on the 24-hour clock, a zero seconds field is insignificant, and spelling, case and \\text wrapping of the marker do not matter. Two times whose minutes or seconds differ, or whose hours differ by something other than a multiple of 12, are never accepted for each other.",
 ["inputs"],"for all hours, minutes, seconds and marker spellings",
 "Two time pairs are tested.",
 [LN],[("time normalisation",LN+": _str_to_time_list")],["string_normalize","is_equiv"])
p("C09","Angles in degrees match plain and radian readings only",
 "An angle x^\\circ or x^{\\circ}, with x an integer or a decimal, normalises to exactly two readings, the number x and x/180*\\pi, so it is accepted for x and for x degrees in radians and the fractional digits of x are never lost.",
 ["inputs"],"for every decimal x within stated digit counts, with and without spaces and braces",
 "One angle inside a trigonometric expression is tested.",
 [LN],[("degree expansion",LN+": _string_normalize")],["string_normalize","is_equiv"])
p("C10","Units never change the number",
 "A number followed by a supported unit, wrapped in \\text or \\mbox or (for the units that may) bare, singular or plural, with or without an integer power, normalises to the number alone; and text with no unit, \\text or currency mark in it is not altered by unit removal.",
 ["inputs"],"for every supported unit, every spelling (wrapper, plural, power) and every digit string within stated length",
 "Eight of the seventy units are tested, each with one number; one unit name containing another is never tested.",
 [LN,'math_evaluation/core/constants.py'],[("unit removal",LN+": _string_normalize, constants.py UNIT_LIST")],["string_normalize"])
p("C11","Presentational markup is invisible",
 "Wrapping an answer in $...$ or \\text{...}, adding the spacing commands \\! \\, \\; \\: or blanks, using \\left and \\right, writing {,} for a comma, doubling a backslash, or letting a Python escape eat the backslash of \\frac, \\text, \\right and the like (form feed, tab, carriage return, bell, backspace) leaves the normalised answer unchanged, while a control word that is none of this markup passes through unchanged.",
 ["inputs"],"for every answer core over the stated alphabet and length and every place the markup can be inserted",
 "Each kind of markup is tested on one or two literal answers.",
 [LN],[("markup removal",LN+": _string_normalize")],["string_normalize"])
p("C12","Collections compare element by element, order only where it matters",
 "Two bracketed sequences are accepted exactly when they have the same bracket kind, the same length and pairwise equivalent elements in order. Two unordered comma lists or sets \\{...\\}, textually identical repeats counted once, are accepted exactly when their elements can be paired off one to one with equivalent partners, independently of the order in which the elements are listed and of hash order. A single element in such brackets is that element.",
 ["inputs","schedules"],"for every element-equivalence relation on up to four elements a side, and every listing or iteration order",
 "The tests use three-element literals whose elements are well separated, so pairing, order dependence and truncation never show.",
 [EV],[("element pairing",EV+": is_equiv_possible_tuple")],["is_equiv"])
p("C13","Splitting respects nesting and thousands separators",
 "Splitting an answer cuts exactly at the commas that are outside every bracket pair and are not thousands separators of a well-formed grouped number; the bracket kind decides ordered or unordered; the pieces, joined with commas, reproduce the (outer-bracket-stripped) text; text with unequal numbers of opening and closing brackets is refused, not split. A number is un-grouped only when every group after the first has exactly three digits and the first has one to three.",
 ["inputs"],"for every string up to the stated length over brackets, commas, blanks, digits and letters",
 "The tests never nest brackets, never unbalance them and never place a malformed digit group.",
 [LN],[("bracket-depth scan",LN+": split_tuple, _strip_properly_formatted_commas")],["split_tuple","is_equiv"])
p("C14","Intervals: endpoints and openness both count",
 "Two non-empty intervals are accepted exactly when both endpoints have equal values (in any notation, \\infty included) and each end is open or closed alike; unions (\\cup) and intersections (\\cap) of them are compared as point sets, independently of the order in which the parts are written, and an interval is never accepted for a different point set.",
 ["inputs"],"for all integer and decimal endpoints within stated digit counts, all four bracket combinations and up to two parts",
 "Four literal pairs are tested, one of them a rejection.",
 [LN,EV],[("interval construction",LN+": _str_to_interval; "+EV+": is_equiv_possible_intervals")],["is_equiv"])
p("C15","Matrices: same shape and every entry equivalent",
 "Two matrices, written in a matrix, pmatrix, bmatrix or array environment or as nested lists in square brackets, are accepted exactly when they have the same shape (a row vector, a column vector and a flat list counting as one shape) and every pair of corresponding entries is equivalent; no entry is skipped and none is compared with another position.",
 ["inputs"],"for every entry-equivalence relation and all shapes up to 3x3, in every mix of notations",
 "Only accepting literal pairs are tested: no test rejects a matrix because of one entry or because of its shape.",
 [LN,EV,LP],[("matrix splitting and comparison",LN+": split_matrix, "+EV+": is_equiv_possible_matrix, "+LP+": _list_to_mat, _are_equal_latex_sympy")],["is_equiv","are_equal_under_sympy"])
p("C16","Equations and inequalities compare as relations",
 "An equation is accepted for the same equation with its sides swapped, an inequality a<b for b>a (and a<=b for b>=a), and a != b for b != a; a strict inequality is never accepted for a non-strict one, nor for one pointing the other way, nor a relation of one kind for another kind; and relations whose sides differ beyond tolerance are rejected.",
 ["inputs"],"for all numeric constants in linear relations within stated digit counts, all operators on both sides",
 "Two rejected equations and one accepted system are tested; inequalities and != are not tested at all.",
 [LP],[("relation comparison",LP+": _are_equal_latex_sympy, _ineq_to_expr, _uneq_to_set, _get_sympy_type")],["is_equiv","are_equal_under_sympy"])
p("C17","Complex numbers need both parts to match",
 "Two complex numbers are accepted exactly when their real parts and their imaginary parts are both within numeric tolerance; i, I and \\sqrt{-1} denote the same unit, and a complex number with non-negligible imaginary part is never accepted for a real one.",
 ["inputs"],"for all real and imaginary parts within stated digit counts and each spelling of the unit",
 "Two accepting literal pairs are tested and no rejection.",
 [LP,TE],[("part-wise comparison",LP+": _are_equal_latex_sympy, expr_with_only_i; "+TE+": _str_to_complex")],["are_equal_under_sympy","is_equiv_type"])
p("C18","Sampling cannot accept expressions that differ",
 "When two expressions in the same variables are judged by numeric sampling, expressions that agree at every point are accepted and expressions that differ beyond tolerance at every point drawn are rejected, whichever random points are drawn; expressions over different variable sets are never accepted by sampling.",
 ["inputs","schedules"],"for every sequence of random draws and all values the two expressions take at the points drawn",
 "The tests run with whatever points one seed draws.",
 [LP],[("random sampling",LP+": _numerical_equal, _diff_equal")],["are_equal_under_sympy"])
p("C19","A failing or timed-out algebra step never becomes an acceptance",
 "If any of the algebra steps used in a comparison (expansion, simplification, absolute value, numeric evaluation) times out or fails, the comparison still returns a verdict without raising, and it accepts only when some step that did not fail established equality within tolerance.",
 ["fault_sequences","inputs"],"for every subset and order of failing steps and every value the remaining steps return",
 "No test makes an algebra step fail.",
 [LP],[("timeout wrappers",LP+": sympy_simplify, sympy_expand_equal, sympy_abs, sympy_evalf")],["are_equal_under_sympy"])
p("C20","Typed comparison is total and never stricter than untyped",
 "With any answer type (including none) the typed comparison returns True or False without raising, and it accepts whenever the untyped comparison accepts.",
 ["inputs","configurations"],"for every type name and every outcome of the comparison and normalisation steps, multi-valued normal forms included",
 "There is no test of the typed entry point.",
 [TE],[("type dispatch",TE+": is_equiv_type and its type checks")],["is_equiv_type"])
p("C21","Typed comparison adds only its type's reading",
 "As Vector, answers are compared as ordered lists whatever their outer brackets ((), [], {} or none); as Set, as unordered lists likewise; as Function, by right-hand sides with any defined name on the left; as Complex, with i read as the imaginary unit: answers that differ under that reading and under the untyped one are rejected.",
 ["inputs","configurations"],"for every element-equivalence relation on bounded lists, every bracket style and every type",
 "There is no test of the typed entry point, so a type check that accepts everything passes the suite.",
 [TE],[("type checks",TE+": is_equiv_vector, is_equiv_set, is_equiv_function, is_equiv_complex")],["is_equiv_type"])
p("C22","Parsed arithmetic has the value of the formula",
 "The expression obtained from a LaTeX formula built from +, -, *, \\times, \\cdot, /, \\div, \\frac, powers, unary signs, implicit products, roots, absolute values, factorials, binomials, groups of every bracket kind and \\mod has, for all values of its variables, the value that standard precedence and left-to-right association give the formula; an implicit product binds tighter than a division sign, a letter directly followed by a bracketed group is a function application and not covered, and a power is taken before the factorial behind it.",
 ["inputs","programs"],"for all real values of the variables, over a generated family of formulas up to the stated size",
 "Each operator is tested on a few literals, seldom in combination; wrong flattening, sign or association in a nested position does not show.",
 [L2,'latex2sympy/PS.g4'],[("tree conversion",L2+": convert_add, convert_mp, convert_unary, convert_postfix_list, convert_exp, convert_frac, add_flat, mul_flat")],["latex2sympy(formula)"])
p("C23","Numeric literals are parsed exactly",
 "A number with optional thousands commas, decimal part, E exponent or percent sign is parsed to exactly the rational number it denotes, with no rounding and no digit lost, wherever it stands in a formula, and a \\variable{name} (or \\variable{name\\%}) for which a value was supplied is replaced by that value (or its hundredth) everywhere.",
 ["inputs"],"for all digits in every literal form within stated lengths",
 "A dozen literals are tested.",
 [L2],[("literal conversion",L2+": convert_atom")],["latex2sympy(formula, values)"])
p("C24","Parsing does not depend on what was parsed before",
 "The result of parsing a formula depends only on the formula and the supplied variable values: not on earlier calls, on their failures, on leftover module state, or on nested parses made while handling the same formula. (The documented declarations, set_variances, set_real and the \\in R^{m n} notation, are not covered.)",
 ["histories","inputs"],"for every prior value of the parser's module state reachable by earlier calls, and formulas of every construct",
 "Each test parses one formula and the order is fixed.",
 [L2],[("module state",L2+": VARIABLE_VALUES, frac_type, diff_op, partial_op, variances, var")],["latex2sympy after a history"])
p("C25","Parsed matrices and row operations are the ones written",
 "Matrix entries land at their written position; sums, differences, products, multiples by a number, negation, transpose, determinant, trace and powers of matrices, and every elementary row or column operation after \\xrightarrow (scaling, swapping, adding a multiple, top list before bottom list), give the matrix that linear algebra prescribes for all entry values.",
 ["inputs","programs"],"for all real entry values, over shapes up to 3x3 and all row/column indices",
 "Only a few concrete matrices are tested and no elementary operation is.",
 [L2],[("matrix conversion",L2+": convert_matrix, convert_elementary_transform, mat_add_flat, mat_mul_flat")],["latex2sympy(formula)"])
p("C26","Parsed functions and operators are the ones written",
 "Trigonometric, inverse, hyperbolic, logarithmic (any base), exponential, root, floor/ceiling, max/min, gcd/lcm of numbers, sum, product, limit, first-derivative, integral and evaluation-bar notation, when it is accepted, is parsed to that operation on those arguments in that order, with powers of function names applied to the value (and exponent -1 meaning the inverse for trigonometric functions), a function without brackets taking the whole product behind it, and a limit without a direction taken from above, for all argument values.",
 ["inputs","programs"],"for all values of the arguments, over each notation variant (parenthesised or not, sub/superscript order)",
 "Each function is tested in one or two spellings.",
 [L2],[("function conversion",L2+": convert_func, handle_sum_or_prod, handle_integral, handle_limit, handle_exp")],["latex2sympy(formula)"])
p("C27","Rendering a parsed formula back keeps its value",
 "Simplifying and re-rendering a real formula (arithmetic, powers, roots, factorials, elementary functions, logarithms, rounding and extrema; no remainders, powers of absolute values, imaginary units, sums, limits or integrals) as LaTeX, then parsing that rendering, gives an expression with the same value as the original formula for all values of its variables for which the formula and its simplified form are defined.",
 ["inputs","programs"],"for all variable values, over a generated family of formulas",
 "The renderer is not tested.",
 [L2],[("rendering",L2+": latex, latex2latex")],["latex2latex(formula)"])
p("C28","The AsciiMath rendering denotes the expression it was given",
 "The AsciiMath text produced for an expression denotes, under AsciiMath's usual precedence, an expression with the same value: operands of powers, reciprocals, factorials, roots, fractions, functions, sums, products, integrals, derivatives and limits are grouped so that nothing binds differently. (Not covered: sums and integrals over several limits, sets, matrices and remainders.)",
 ["inputs","programs"],"for all values of the variables, over a generated family of expressions",
 "The AsciiMath printer has no test.",
 ['latex2sympy/asciimath_printer.py'],[("printer","latex2sympy/asciimath_printer.py: AsciiMathPrinter")],["AsciiMathPrinter().doprint(expr)"])
p("C29","Answer-type query: bounded retries, first good reply wins",
 "The answer-type query calls the model at most the allowed number of times, stops at the first reply that names a type and returns exactly that type text (what follows the first 'Type:' marker up to the end of its line), returns None if no reply does, and never raises because a call failed or a reply was malformed; the answer is shown to the model wrapped in exactly one pair of dollar signs.",
 ["fault_sequences","inputs"],"for every sequence of failures and replies within the retry limit, every reply text and every answer text within stated lengths",
 "The model client is not tested at all.",
 [LL],[("retry loop",LL+": get_llm_type")],["get_llm_type"])
p("C30","Multi-answer ground truth and boxed extraction",
 "A prediction is accepted for a list of alternative ground truths exactly when it is equivalent to at least one of them, in whatever order they are listed; and the answer extracted from a model output is the content of its last \\boxed{...}, wherever in the output that box starts and however its braces nest; a last box whose braces never close is left unspecified.",
 ["inputs"],"for every list of up to four alternatives with every verdict per alternative, and every output text within stated length",
 "The scripts that compute the published scores have no tests.",
 ['demo.py','example_tora_eval.py'],[("any-of loop","demo.py: is_equiv_MATH"),("box extraction","example_tora_eval.py: extract_boxed")],["is_equiv_MATH","extract_boxed"])
p("C31","Every comparison ends within its time limits",
 "However hard the two answers are to simplify, one comparison ends within a fixed multiple of the per-step time limit.",
 ["inputs","schedules"],"for all pairs of answers",
 "Wall-clock behaviour of a computer-algebra system on all inputs cannot be tested.",
 [LP],[("timeout decorator",LP+": timeout(TIMEOUT_SECONDS)")],["is_equiv wall time"])
p("C32","Algebraically equal expressions are always accepted",
 "Two closed-form expressions in the same variables that are equal for all admissible values of the variables are accepted, and two that are not equal are rejected.",
 ["inputs"],"for all pairs of expressions",
 "The tests hold about ten pairs.",
 [LP],[("simplification",LP+": sympy_simplify, sympy_expand_equal")],["are_equal_under_sympy"])
p("C33","Text that is no formula is rejected, and no part of a formula is dropped",
 "latex2sympy raises an exception on a text that is not a formula, a relation between two formulas or a list of these (missing operands, unbalanced or wrongly paired brackets, an index or power with nothing to attach to, leftover text behind a formula), and what it returns for a text it accepts denotes the whole text: every number, variable, operator, index, relation and list element of the text is in the result. (Left open: stray closing brackets at the very end, chains of relations, double powers or indices, unbraced powers of several digits, a letter directly before a bracket, functions without brackets, thousands separators, a command name run into the letters behind it.)",
 ["inputs","programs"],"for every short sequence of symbols over alphabets of digits, letters, operators, brackets, relations, separators and commands, with symbolic digits and variable values",
 "The tests feed well-formed formulas and two or three malformed ones; the shortest texts on which a parser silently stops half-way are never tried.",
 [L2,'latex2sympy/PS.g4'],[("entry point and error listener",L2+": latex2sympy, MathErrorListener.syntaxError"),("list and relation conversion",L2+": convert_relation, convert_atom, convert_postfix_list")],["latex2sympy(text)"])
p("C34","Equal polynomial and rational expressions are accepted, differing ones rejected",
 "Two expressions in the same variables built from numbers, sums, products, whole and negative powers, fractions and at most one root, sine, cosine, logarithm or exponential each, that have the same value for all values of the variables, are equivalent however they are arranged (order of terms and factors, expanded or factored, common factors cancelled or not, signs moved, decimals for fractions); two whose values differ by more than 0.01 at every point with coordinates between 1 and 10 are not equivalent, whatever points are sampled.",
 ["inputs","schedules"],"for every pair within stated families of formulas, all values of the variables and all points the sampling can draw",
 "The tests hold about ten accepted pairs and hardly a rejected one; which points are drawn is random.",
 [LP],[("comparison of expressions",LP+": _are_equal_latex_sympy, sympy_expand_equal, sympy_simplify, _diff_equal"),("sampling",LP+": _numerical_equal, sympy_evalf")],["is_equiv"])
p("C35","Enumerations and sets in words mean what their elements mean",
 "An answer that lists its elements with commas, 'or', 'and' (plain, with a comma before, inside \\text), with dollar signs around the elements, in braces, or behind a membership or set-builder prefix (x \\in \\{…\\}, \\{x | …\\}, names of several letters included) means the same as the bare list of those elements: it is equivalent to another answer exactly when the sets (for bracketed ones: the lists or intervals) of their elements are. Words and names that merely contain 'or' or 'and', and bars that belong to an element (\\{|x|, 2\\}, \\{x | |x-1|<2\\}) change nothing.",
 ["inputs"],"for every relation between the elements, in each of the listed wordings; for every character next to or/and; for all digits",
 "The tests have four such wordings with fixed numbers; which elements are lost or glued together by a rewriting step shows only for particular elements.",
 [LN,EV],[("wording rules",LN+": string_normalize, _string_normalize"),("element comparison",EV+": is_equiv, _is_equiv, is_list")],["is_equiv"])
p("C36","A comparison depends on its two texts only",
 "The verdict of is_equiv and of typed comparisons and the normal form of a text are those of a newly started process, whatever was compared before in the same process (the same texts in other roles, texts that differ only in blanks, signs, brackets or case, typed comparisons, comparisons that failed or were interrupted at any point by a timeout) and whether or not verbose reporting is on.",
 ["histories","crash_points","inputs"],"for every listed history over the same and related texts, all digits, and every interruption point within the first calls of an earlier comparison",
 "The tests run every comparison in one order in one process and never ask again after an interruption; remembered results and leftover module state show only for particular histories.",
 [EV,TE,LN,LP],[("state between comparisons",LP+": _is_latex_equal, are_equal_under_sympy; "+LN+": string_normalize"),("typed entry point",TE+": is_equiv"),("reporting",LP+": verbose branches")],["is_equiv","type_evaluations.is_equiv","string_normalize"])
p("C37","Names and layout in parsed formulas",
 "In latex2sympy every spelling of a name (blanks and braces around subscripts and accents, x_1 and x_{1}, \\bar and \\overline, \\vec and \\overrightarrow, \\tilde and \\widetilde, subscript and power in either order) denotes one and the same variable or function, different names (letter, case, accent, alphabet, subscript) denote different ones, and spacing and style marks (blanks, line breaks, tabs, \\, \\quad \\qquad ~ \\displaystyle, dollar signs around the formula) and the style of brackets change nothing, wherever in the formula they stand.",
 ["inputs","programs"],"for all values of the variables, in every listed formula with marks at every token boundary, and for every pair of names considered",
 "The tests contain each name and mark in one or two places; that two of several hundred names are not the same symbol, and that a mark is harmless at every boundary, needs all pairs and places.",
 [L2,'latex2sympy/PS.g4'],[("names",L2+": convert_atom, get_name, convert_func"),("layout",L2+": latex2sympy; PS.g4: WS, THINSPACE, NEGTHINSPACE, QUAD, CMD_DISPLAYSTYLE"),("brackets","PS.g4: group")],["latex2sympy(text)"])
p("C38","Answers in words",
 "An answer written as words (unit words aside) in \\text{…} or \\mbox{…} is equivalent to another answer exactly when that one consists of the same words (upper or lower case, blanks, dollar signs and the \\text itself do not matter): alone, as element of a set, list or tuple (also next to numbers), behind an equals sign, in set braces or as a matrix entry. No word is lost, no list of words is equal to one with other words or other order of a tuple, and words in text mode are never equal because they consist of the same letters (on, no). Plain words are equal to themselves in any case and never to words of other letters.",
 ["inputs"],"for every choice of up to three letters (either case, one place a blank) per word in the listed layouts",
 "The tests hold a handful of single words; removing \\text as a unit or reading words as products of letters shows only for particular words and layouts.",
 [LN,EV],[("text mode",LN+": _string_normalize, _is_text, further_string_normalize"),("verdict",EV+": is_equiv, is_equiv_possible_tuple")],["is_equiv"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
