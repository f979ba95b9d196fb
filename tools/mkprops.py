#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the human-edited source of the property list).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="wicked/diagrams/"; A="wicked/algebra/"; H="wicked/helpers/"
prop("C01","Wick contraction of a product is exact over occupied/unoccupied vacua",
 "Contracting any product of normal-ordered operators over occupied and unoccupied fermionic spaces gives an expression equal, as an operator and for every value of the tensor entries, to the sum over all Wick pairings (creation left of annihilation in occupied spaces, annihilation left of creation in unoccupied ones), each taken once with its sign, its operator prefactors and its combinatorial weight. No pairing is missing, duplicated or given a wrong sign, weight, tensor or index pattern, and the uncontracted remainder is the correctly signed normal-ordered operator string.",
 ["inputs"],"all numbers of operators, all operator shapes (numbers of creation/annihilation operators per space), all labels, all assignments of space types, all scalar factors",
 "The tests compare a few dozen hand-derived CC/MP2 results; most shapes, odd-rank operators, three-fold repeated contractions and several-space products are never evaluated, and nothing compares against an independent expansion.",
 [D+"wick_theorem.cc",D+"wick_theorem_elementary_contractions.cc",D+"wick_theorem_composite_contractions.cc",D+"wick_theorem_process_contractions.cc",D+"wick_theorem_canonicalize_graph.cc",D+"operator.cc",D+"graph_matrix.cc",A+"symbolic_term.cc"],
 [("elementary pairings",D+"wick_theorem_elementary_contractions.cc"),("backtracking without duplicates",D+"wick_theorem_composite_contractions.cc"),("sign, prefactor and combinatorial weight",D+"wick_theorem_process_contractions.cc")],
 ["the expression returned by WickTheorem.contract"])
prop("C02","Generalized Wick contraction with cumulants is exact for general spaces",
 "Contracting any product of normal-ordered operators when some spaces are general (correlated) gives exactly the generalized Wick expansion: every way of choosing disjoint connected contractions (one-body density, one-hole density, and k-body cumulants with equally many creation and annihilation legs taken from at least two operators), each once and with correct sign, weight, tensor label (gamma1, eta1, lambdak) and upper/lower index order. The result equals that expansion for every value of the densities, cumulants and operator tensors.",
 ["inputs"],"all products, operator shapes and assignments of occupied, unoccupied and general space types",
 "The tests contain a handful of multireference results for rank-1/2 operators; cumulant sign conventions, multi-operator cumulants and mixed space types are not covered by any independent evaluation.",
 [D+"wick_theorem_elementary_contractions.cc",D+"wick_theorem_process_contractions.cc",D+"wick_theorem_canonicalize_graph.cc",H+"combinatorics.cc"],
 [("leg distributions from integer partitions",D+"wick_theorem_elementary_contractions.cc"),("gamma1/eta1/lambda tensors and signs",D+"wick_theorem_process_contractions.cc")],
 ["the expression returned by WickTheorem.contract"])
prop("C03","Rank window and cumulant cutoff select exactly the requested terms",
 "Contracting with a rank window returns exactly those terms of the unrestricted result whose number of uncontracted operators lies in the window (bounds included), unchanged, and a window that excludes every term gives an empty expression. A maximum cumulant level n removes exactly the terms containing a cumulant of more than n bodies and changes no other term.",
 ["inputs","configurations"],"all products, all pairs minrank/maxrank, all cumulant cutoffs",
 "Tests use a few (minrank,maxrank) pairs on fixed products and one or two cutoffs; boundary off-by-ones show only for particular combinations of rank and shape.",
 [D+"wick_theorem_composite_contractions.cc",D+"wick_theorem_elementary_contractions.cc",D+"wick_theorem_process_contractions.cc"],
 [("rank filter",D+"wick_theorem_composite_contractions.cc:process_contraction"),("maxcumulant_",D+"wick_theorem_elementary_contractions.cc")],
 ["the expression returned by WickTheorem.contract"])
prop("C04","Contraction results do not depend on engine settings, object history or batching",
 "The value of a contraction is the same with graph canonicalization on or off, threaded or single-threaded, at every print level, with a fresh or a reused engine object, and is unaffected by earlier contractions. It is linear: contracting a sum of products with coefficients and an overall factor equals the correspondingly weighted sum of the individual contractions.",
 ["configurations","histories","inputs"],"all combinations of settings, all earlier calls on the same object, all factors and coefficients, all operator sums",
 "Tests run default settings on a fresh object, and one single-threaded copy of a test file; combinations of settings and reuse histories are not explored and the scalar factors are fixed numbers.",
 [D+"wick_theorem.cc",D+"wick_theorem_process_contractions.cc",D+"wick_theorem_canonicalize_graph.cc"],
 [("state cleared per call",D+"wick_theorem.cc:WickTheorem::contract"),("single/multi-threaded drivers",D+"wick_theorem_process_contractions.cc"),("graph canonicalization",D+"wick_theorem_canonicalize_graph.cc")],
 ["the expression returned by WickTheorem.contract under different settings"],None,
 [("contractions_, elementary_contractions_, ncontractions_","work lists of the last call",D+"wick_theorem.h")])
prop("C05","The threaded contraction engine is free of data races",
 "When a contraction is evaluated by concurrent tasks, no two tasks access the same shared memory without ordering where at least one access is a write, so every schedule gives the same result as running the tasks one after another.",
 ["schedules","inputs"],"all interleavings of the tasks launched for one contraction, for all products",
 "A test run sees one schedule on one machine; a race shows itself rarely and the suite runs without a race detector.",
 [D+"wick_theorem_process_contractions.cc",D+"wick_theorem.h"],
 [("std::async task per contraction",D+"wick_theorem_process_contractions.cc:process_contractions_threads"),("per-task results combined after join",D+"wick_theorem_process_contractions.cc")],
 ["memory accesses of the tasks and their ordering (fork, join, locks, atomics)"],None,
 [("timers_","timing map of the engine shared by all tasks",D+"wick_theorem.h")])
prop("C06","Rational arithmetic is exact and always in canonical form",
 "Addition, subtraction, multiplication, division, negation, comparison and the compound assignments on rationals give the mathematically exact result, also when an operand is negative or the same object as the target. Every rational produced from a nonzero denominator has a positive denominator and no common factor, so two rationals compare equal exactly when their values are equal.",
 ["inputs"],"all numerators and denominators (of any size the integer type holds), all operator combinations, including aliasing",
 "Tests use about twenty literal fractions, mostly positive and never aliased; negative divisors and reduction after each operation need all values.",
 [H+"rational.cc",H+"rational.h"],
 [("reduce() by gcd",H+"rational.cc"),("sign normalization in the constructor",H+"rational.cc")],
 ["numerator(), denominator(), ==, repr of results"])
prop("C07","Rational text forms denote the value and are read back unchanged",
 "The string, repr and compiled forms of a rational denote its value, and reading a factor from a string accepts exactly an optional sign, an integer and an optional '/integer' with surrounding blanks, giving the denoted value (a missing integer denotes 1, as in the printed coefficients of a term); anything else, a zero denominator included, is rejected with an error. Reading back the printed form of a rational gives the same rational.",
 ["inputs"],"all strings up to the bound and all rationals",
 "Tests parse a few literals; malformed, signed, spaced and multi-digit combinations form a large language that must be decided as a whole.",
 [H+"rational.cc"],[("make_rational_from_str",H+"rational.cc"),("str/repr",H+"rational.cc")],["parsed value or error; printed text"])
prop("C08","Canonicalizing a term or expression never changes its value",
 "Canonicalizing a normal-ordered term (or every term of an expression) yields an equal operator for every value of its tensors: the returned phase together with the reordered tensors, relabelled summation indices and reordered operators represents the same object, and no index is captured by another. Canonicalizing an already canonical term again keeps its value, and gives the same term with phase +1 whenever its tensors have pairwise distinct labels.",
 ["inputs"],"all terms: any tensors with antisymmetric or symmetric indices, any shared or free indices, any field types, any operator strings; all coefficients",
 "Tests canonicalize a few strings and compare with literal results; captures and sign errors depend on which indices are shared between which tensors and operators.",
 [A+"symbolic_term.cc",A+"expression.cc",A+"tensor.cc",A+"sqoperator.cc",A+"index.cc"],
 [("score-based tensor sort and relabelling",A+"symbolic_term.cc:SymbolicTerm::canonicalize"),("operator sort with sign",A+"sqoperator.cc:canonicalize_sqops"),("merging of equal terms",A+"expression.cc:Expression::canonicalize")],
 ["term and phase after canonicalization"])
prop("C09","Tensor index sorting applies exactly the symmetry sign",
 "Canonicalizing a tensor sorts its upper and its lower indices and returns the parity of both permutations for antisymmetric tensors and +1 for symmetric ones, and refuses nonsymmetric tensors; sorting a list of indices returns a sorted rearrangement with its permutation parity. Relabelling indices through a map replaces each index simultaneously by its image and touches nothing else.",
 ["inputs"],"all index values, spaces, ranks and symmetry types; all relabelling maps",
 "A few literal tensors are tested; sign correctness is a statement about every permutation of every index pattern.",
 [A+"tensor.cc",A+"index.cc",H+"combinatorics.cc"],
 [("canonicalize_indices",A+"index.cc"),("permutation_sign",H+"combinatorics.cc"),("reindex",A+"tensor.cc")],
 ["tensor indices and returned phase"])
prop("C10","Vacuum normal ordering preserves the operator",
 "Reordering an expression with respect to the true vacuum returns an expression equal to the input under the (anti)commutation relations for fermions and bosons, for every value of the indices, in which every operator product has creation operators left of annihilation operators in canonical order. In same-index mode the result equals the input when different labels denote different orbitals.",
 ["inputs"],"all products of fermionic and bosonic creation/annihilation operators with equal or different indices and any tensors and coefficients, both contraction modes",
 "Tests order short literal products; exactness is an identity over all operator words.",
 [A+"symbolic_term_normal_order.cc",A+"expression_normal_order.cc"],
 [("swap-and-contract recursion",A+"symbolic_term_normal_order.cc"),("duplicate operator elimination",A+"symbolic_term_normal_order.cc")],
 ["terms and coefficients returned by vacuum_normal_ordered"])
prop("C11","Expressions form a vector space and product algebra over the rationals",
 "Sums, differences, negation, scalar multiplication and division, products and dot products of expressions obey the vector-space and algebra laws for all coefficients: like terms are combined, terms whose coefficient becomes zero disappear, and equality holds exactly when all coefficients agree. Scaling by zero gives the empty expression, dividing by zero is an error, and operands other than the target are left unchanged.",
 ["inputs","histories"],"all expressions, coefficients and sequences of operations, including operations of an expression with itself",
 "Tests add and subtract a few literal expressions; coefficient cancellation depends on arbitrary rational values.",
 [H+"algebra.hpp",H+"helpers.h",A+"expression.cc",A+"symbolic_term.cc"],
 [("add_to_map drops zeros",H+"helpers.h"),("Algebra operators",H+"algebra.hpp")],["terms and coefficients of the results"])
prop("C12","Adjoint is an involutive antihomomorphism",
 "Taking the adjoint twice gives back the same object, the adjoint of a product is the product of adjoints in reverse order, and adjoint is additive and keeps real coefficients. The adjoint of an operator string is the reversed string with creation and annihilation exchanged, and that of a diagrammatic operator exchanges its creation and annihilation counts in every space.",
 ["inputs"],"all operator strings, terms, expressions, diagrammatic operators, products and sums",
 "Only a couple of literal adjoints are tested.",
 [A+"symbolic_term.cc",A+"expression.cc",A+"sqoperator.cc",A+"tensor.cc",H+"product.hpp",D+"operator.cc",D+"graph_matrix.cc",D+"operator_expression.h"],
 [("Product::adjoint",H+"product.hpp"),("SQOperator::adjoint",A+"sqoperator.cc"),("GraphMatrix::adjoint",D+"graph_matrix.cc")],["adjoint objects"])
prop("C13","Commutators and BCH series equal their definitions",
 "The commutator of operator sums equals AB - BA for all coefficients, and the similarity-transformation series of order n equals the sum over k up to n of the k-fold nested commutator divided by k factorial. Building an operator from component strings yields one term of coefficient one per component with the stated creation and annihilation counts.",
 ["inputs"],"all operator sums with arbitrary coefficients, all orders up to the bound",
 "The tests evaluate low orders for fixed single operators with unit coefficients.",
 [D+"operator_expression.cc",D+"operator_product.h",H+"algebra.hpp"],
 [("commutator",D+"operator_expression.cc"),("bch_series",D+"operator_expression.cc"),("make_diag_operator_expression",D+"operator_expression.cc")],["terms and coefficients of the operator sums"])
prop("C14","Reordering commuting operators preserves the operator product",
 "Canonicalizing an operator product or sum only exchanges neighbouring operators that commute or anticommute, applies the matching fermionic sign, and merges products that become equal by adding their coefficients; the resulting operator equals the original. In particular contracting before and after canonicalization gives equal results.",
 ["inputs"],"all products of operators of any shape and parity, all coefficients",
 "Tests canonicalize a few even-parity products; signs matter for odd operators and several exchanges.",
 [D+"operator_product.cc",D+"operator.cc",D+"operator_expression.cc"],
 [("bubble sort over commuting neighbours",D+"operator_product.cc"),("do_operators_commute",D+"operator.cc")],["canonical product, phase and merged sums"])
prop("C15","All orderings are strict total orders consistent with equality",
 "The comparisons of indices, second-quantized operators, tensors, terms and diagrammatic operators are irreflexive, asymmetric and transitive, and two objects are equal exactly when neither precedes the other, so sorting and map lookup are well defined. Objects that denote different operators (other label, index, kind or ordering mark) are never identified.",
 ["inputs"],"all triples of objects",
 "Ordering laws quantify over all triples; tests compare a few pairs.",
 [A+"index.cc",A+"sqoperator.cc",A+"tensor.cc",A+"symbolic_term.cc",D+"operator.cc",D+"graph_matrix.cc"],
 [("operator< / operator==",A+"tensor.cc"),("operator< / operator==",A+"symbolic_term.cc"),("operator< / operator==",D+"operator.cc")],["results of < and =="])
prop("C16","Printing and parsing are inverse to each other",
 "The text printed for an index, tensor, term or expression is accepted by the corresponding reader and gives back an equal object with the same coefficients, tensors, operators and ordering mark. Text outside the grammar of indices and tensors is rejected with an error instead of being misread.",
 ["inputs"],"all indices, labels, tensors, operator strings and coefficients in the printable range; all short strings for rejection",
 "Round trips are tested for a few literals; separators between coefficient and label depend on digit counts and signs.",
 [A+"index.cc",A+"tensor.cc",A+"expression.cc",A+"symbolic_term.cc",H+"helpers.cc","wicked/utils.py"],
 [("make_index_from_str",A+"index.cc"),("make_tensor_from_str",A+"tensor.cc"),("make_expression / Expression::str",A+"expression.cc")],["reparsed objects"])
prop("C17","Conversion to many-body equations partitions the expression without loss",
 "Converting an expression to many-body equations distributes every term to exactly one equation, filed under the key given by its uncontracted annihilation (upper) and creation (lower) operators per space, with the term's coefficient and tensors unchanged and the left-hand tensor carrying the operator indices in matching order. Recombining the equations reproduces the expression.",
 ["inputs"],"all canonical expressions over any spaces and coefficients",
 "Tests print equations for a few CC residuals.",
 [A+"expression.cc",A+"equation.cc"],[("to_manybody_equation",A+"expression.cc"),("Equation",A+"equation.cc")],["keys, left- and right-hand sides and factors of the equations"])
prop("C18","Compiled code computes the same contraction as the equation",
 "The einsum and ambit strings generated for an equation denote exactly its tensor contraction: same factor, same tensors in order, distinct letters for distinct indices and the same letter for repeated ones, with output indices in left-hand-side order and block labels matching the index spaces. Unknown formats are rejected, and equations that cannot be expressed are refused rather than miscompiled.",
 ["inputs"],"all equations: any tensors, any index sharing pattern, any spaces, index names and factors",
 "A few literal strings are compared in the tests; index-letter clashes depend on the chosen index names and counts.",
 [A+"equation.cc",A+"tensor.cc",A+"symbolic_term.cc",H+"rational.cc"],[("get_unique_index",A+"equation.cc"),("Equation::compile",A+"equation.cc")],["the compiled string"])
prop("C19","Orbital-space registry stays consistent, also after rejected requests",
 "Every registered space keeps its label, field, type and index names, label lookup inverts registration, labels and index names are unique, and unknown labels or names are rejected. A rejected registration leaves the registry exactly as it was, resetting empties it, and more spaces than the engine can represent are refused rather than corrupting results.",
 ["histories","inputs"],"all sequences of registrations (valid and invalid), lookups and resets",
 "Tests add two or three spaces and check two error cases, never the state after an error.",
 [H+"orbital_space.cc",H+"orbital_space.h",D+"graph_matrix.cc",D+"graph_matrix.h"],
 [("add_space",H+"orbital_space.cc"),("label_to_pos_, indices_to_pos_",H+"orbital_space.h"),("fixed-size graph matrix",D+"graph_matrix.h")],["num_spaces, label, indices, label_to_space, errors"],None,
 [("space_info_/label_to_pos_/indices_to_pos_","registered spaces and reverse maps",H+"orbital_space.h")])
prop("C20","Combinatorial kernels are exact",
 "The factorial and binomial functions return the mathematical value wherever it fits their result type, the permutation sign equals the parity of the permutation, and the list of integer partitions with a length limit contains every partition of the number with at most that many parts exactly once, parts in nonincreasing order.",
 ["inputs"],"all arguments in the representable range; all permutations up to the bound",
 "Tests check a few small values; overflow order inside binomial and the partition successor rule need every argument.",
 [H+"combinatorics.cc"],[("factorial, binomial, permutation_sign, integer_partitions",H+"combinatorics.cc")],["returned values"])
prop("C21","Operator prefactors and index symmetry factors are the products of factorials",
 "The prefactor of a diagrammatic operator is one over the product of the factorials of its creation and annihilation counts in every space, and the symmetry factor, signature and index counts of a tensor are those of its index multiset. Converting an operator to algebraic form with second-quantized operators and a tensor keeps matching index order.",
 ["inputs"],"all shapes and all space counts",
 "Factors are only observed through a few contracted results.",
 [D+"operator.cc",A+"index.cc",A+"tensor.cc",A+"expression.cc"],[("Operator::factor",D+"operator.cc"),("symmetry_factor, signature",A+"tensor.cc"),("make_operator_expr",A+"expression.cc")],["factor(), symmetry_factor(), signature(), make_operator_expr result"])
prop("C22","The Python operator generator enumerates every block exactly once",
 "Generating an operator of given rank over strings of creation and annihilation spaces yields each block of sorted creation and sorted annihilation spaces exactly once, excluding those with equal creation and annihilation spaces only when the diagonal is disabled, and parsing multi-line text adds every line's term once.",
 ["inputs"],"all ranks, space strings and space registries up to the bound",
 "Tests use one or two space strings.",
 ["wicked/utils.py"],[("gen_op",  "wicked/utils.py"),("string_to_expr","wicked/utils.py")],["component list passed to the operator constructor"])
prop("C23","The Python interface performs the operation each binding names",
 "Every arithmetic operator, method, free function, keyword argument and default value offered by the Python module performs exactly the C++ operation of that name on its operands in their written order: results of +, -, *, /, @, +=, -=, comparisons, measure functions, contract overloads, commutators, series, readers and settings equal the direct C++ results, and no binding changes an operand it should only read. Unequal objects never compare equal through the bindings.",
 ["inputs"],"all operands (with arbitrary coefficients) and all arguments, also those left to their default values",
 "The Python tests exercise many bindings once, with operands for which swapped operands, a lost factor or a wrong default value often go unnoticed.",
 ["wicked/api/"+f for f in ("expression_api.cc","operator_api.cc","wick_theorem.cc","term_api.cc","tensor_api.cc","index_api.cc","sqoperator_api.cc","orbital_space_api.cc","rational_api.cc","equation_api.cc")],
 [("lambdas and default arguments of the class bindings","wicked/api/expression_api.cc"),("contract overloads","wicked/api/wick_theorem.cc"),("commutator, bch_series, op","wicked/api/operator_api.cc")],["values returned to Python and operands afterwards"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
