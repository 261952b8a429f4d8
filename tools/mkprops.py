"""Writes properties.jsonl (run by hand when a statement changes)."""
import json, os, re
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': m.strip(), 'where': files[0]} for m in re.split(r', (?![^(]*\))', mech)]}}
    if state:
        d['anchors']['state'] = state
    P.append(d)


prop('C01', 'Geometric product is the Clifford product of the metric',
     'For every algebra that can be built from a symmetric metric (orthogonal or not, any signature, degenerate or not, numeric '
     'or symbolic, any dimension) A*B, and the Ga-level product on expressions, is the Clifford product determined by that metric: bilinear, '
     'associative, with the symmetrised product of basis vectors equal to the metric entries. Scalar (int, rational, symbolic) operands on '
     'either side act as multiplication by that scalar.',
     ['inputs', 'configurations'], 'all metrics and dimensions, all pairs of multivectors and scalars',
     'The tests multiply a few fixed vectors in a few metrics; the product is defined for 4^n blade pairs per metric and an unbounded set of metrics.',
     ['galgebra/ga.py', 'galgebra/mv.py'],
     'Mv.__mul__/__rmul__, Ga.mul, _GeometricProductFunction, basic_mul, reduce_basis, blade/base conversion, nc_subs')
prop('C02', 'Outer, inner, contraction and scalar products are grade selections',
     'On homogeneous multivectors of grades r and s, A^B, A|B, A<B and A>B are the grade r+s, |r-s| (zero when r or s is 0), s-r and r-s parts '
     'of A*B (zero when that grade is negative), extended bilinearly, and the wedge does not depend on the metric. The Ga product functions '
     '(wedge, hestenes_dot, left_contract, right_contract, scalar_product, dot in each dot_mode, Mul) agree with the operators, the '
     'scalar product sp(A, B) is the scalar part of A*B (of rev(A)*B with switch "rev"), and scalar operands on either side of an operator act as grade-0 multivectors.',
     ['inputs', 'configurations'], 'all metrics, all pairs of multivectors, scalar operands on either side',
     'Tests check selected identities on selected operands; orthogonal and non-orthogonal algebras use separate code for each product.',
     ['galgebra/ga.py', 'galgebra/mv.py'],
     '_SingleGradeProductFunction (ortho and non-ortho paths), _WedgeProductFunction, blade_reduce, Mv.__xor__/__or__/__lt__/__gt__, Mv.sp')
prop('C03', 'Linear operations, scalar promotion, powers and commutators',
     'Addition, subtraction, negation, scalar multiplication and division make multivectors a vector space in which plain numbers and expressions '
     'stand for grade-0 multivectors on either side of the operator. Non-negative integer powers are repeated geometric products (A**0 = 1) and non-integer powers are refused, '
     'A>>B and Ga.com are (AB-BA)/2, A<<B is (AB+BA)/2, and A/B is A times the inverse of B.',
     ['inputs', 'configurations'], 'all algebras, operands, operand types and sides',
     'Each operator has separate branches for Mv/number/expression operands and for blade/base representation; tests touch few combinations.',
     ['galgebra/mv.py', 'galgebra/ga.py'], 'Mv._arithmetic_op, __neg__, __pow__, __truediv__, __rtruediv__, __lshift__, __rshift__, Ga.com')
prop('C04', 'Grade decomposition and involutions',
     'The grade parts of a multivector sum to it, even and odd parts select even and odd grades, and reversion, grade involution and Clifford conjugation '
     'multiply the grade-r part by (-1)^(r(r-1)/2), (-1)^r and their product. Grade queries (is_scalar, is_vector, pure_grade, grade lists), '
     'scalar part and coefficient extraction (blade_coefs, get_coefs, components, proj, list, grade_decomposition) report exactly the blades with '
     'nonzero coefficients and those coefficients, raising an error only where documented.',
     ['inputs', 'configurations'], 'all algebras and multivectors, in blade or base representation, however the expression is arranged',
     'Results depend on how sympy orders and arranges an expression; tests use a handful of tidy expressions.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py'],
     'Ga.get_grade/reverse/even_odd/grades/grade_decomposition/scalar_part, Mv.blade_coefs/get_coefs/components/proj, metric.linear_expand')
prop('C05', 'Equality and representation independence',
     'base_rep() and blade_rep() are mutually inverse and do not change the multivector denoted; every operation gives an equal multivector whichever representation '
     'or algebraically equivalent arrangement its operands are in. Two multivectors of one algebra compare equal exactly when they are the same multivector, and a '
     'multivector equals a plain expression only when it is that scalar.',
     ['inputs', 'configurations'], 'all algebras (non-orthogonal ones have distinct representations), all pairs of multivectors and rearrangements',
     'The base representation exists only for non-orthogonal metrics and almost no test uses it explicitly.',
     ['galgebra/mv.py', 'galgebra/ga.py'], 'Mv.base_rep/blade_rep/__eq__, blade_expansion_dict, base_expansion_dict, nc_subs')
prop('C06', 'Inverses are two-sided inverses',
     'Whenever inv(), shirokov_inverse(), hitzer_inverse(), 1/A or a negative power returns a finite multivector, that multivector is the two-sided inverse '
     '(exact on exact input). shirokov_inverse and (for n<6) hitzer_inverse succeed for every multivector with an inverse and raise an error for one '
     'without, and inv succeeds on every nonzero scalar, versor and any A for which A*A or A*rev(A) is a nonzero scalar.',
     ['inputs', 'configurations'], 'all algebras up to dimension 5 (6 for shirokov), all invertible and singular multivectors',
     'Tests check a few symbolic inverses in four metrics; singular and indefinite cases are not covered.',
     ['galgebra/mv.py'], 'Mv.inv, Mv.shirokov_inverse, Mv.hitzer_inverse, Mv.__truediv__, __rtruediv__, __pow__')
prop('C07', 'Exponentials and rotations',
     'exp(A) of a multivector whose square is a scalar equals the power series, for numeric and symbolic squares of either sign '
     'or zero: the hint selects the functions in which the result is written, not its value. '
     'A.rotate_multivector(B) = exp(-B/2) A exp(B/2), which for a bivector blade B preserves grades, norms '
     'and products. An A whose square is not scalar is rejected with an error.',
     ['inputs', 'configurations'], 'all algebras, all A with scalar square, both hints',
     'exp has six branches chosen by the form of the square; tests exercise unit bivectors in Euclidean space.',
     ['galgebra/mv.py'], 'Mv.exp, Mv.rotate_multivector, mv.exp, mv.rot')
prop('C08', 'Quadratic form, norm and magnitude',
     'qform(A) is the scalar part of rev(A)*A, norm2(A) is its absolute value, norm(A) (and abs(A)) its nonnegative square root, and mag2/mag aggregate '
     'the norm2 of the grade parts. A sign hint may only be used to resolve a sign that is otherwise unknown: for quantities whose sign is determined '
     'the result is the same for every hint, and where the sign is unknown the result is correct for all values at which the hint names the true sign.',
     ['inputs', 'configurations'], 'all algebras and multivectors, all hints',
     'Sign handling depends on sympy assumptions, factoring and the metric class; tests fix a few examples.',
     ['galgebra/mv.py', 'galgebra/metric.py'], 'Mv.qform/norm2/norm/mag2/mag, metric.abs_with_hint, metric.square_root_of_expr')
prop('C09', 'Duality and pseudoscalars',
     'E() is the wedge of the basis vectors and I() is E scaled so that I*I is +1 or -1 with the sign of E*E (for a symbolic metric whose sign sympy cannot determine, the sign named by the Isq parameter). In each of the eight dual modes dual(A) is the documented '
     'product with I or its inverse, undual is the exact inverse of dual on both sides, and an unknown mode is rejected without changing the current mode. '
     'cross(u, v) of nonzero 3-d vectors is -I*(u^v) and rejects other arguments.',
     ['inputs', 'configurations'], 'all algebras with nonsingular metric, all eight modes, all multivectors',
     'Tests check dual/undual in selected modes for four algebras.',
     ['galgebra/ga.py', 'galgebra/mv.py'], 'Ga.E, Ga.I, Ga.i_inv, e_sq, Ga.dual_mode, Mv.dual, Mv.undual, mv.cross')
prop('C10', 'Projection, reflection, blade and versor tests',
     'project_in_blade(B) is (A<B)*inv(B), reflect_in_blade(B) is the grade-wise sandwich sum of (-1)^(s(r+1)) B<A>_r inv(B) for B of grade s; both reject non-blades '
     'and null blades. is_blade() is true of every nonzero outer product of vectors (null or not) and false of zero, mixed-grade multivectors and any homogeneous non-blade B with B^B nonzero (the documented limit of the test). '
     'is_versor() is true exactly of products of non-null vectors, and nonzero scalars count as blades and versors. (Multivectors with numeric or polynomial coefficients.)',
     ['inputs', 'configurations'], 'all algebras, all multivectors and blades',
     'Tests use basis blades and a few constructed versors.',
     ['galgebra/mv.py'], 'Mv.project_in_blade, reflect_in_blade, is_blade, is_versor, module functions proj and refl',
     [{'name': 'blade_flg/versor_flg', 'meaning': 'cached verdicts on a multivector'}])
prop('C11', 'Reciprocal bases and frames',
     'The reciprocal basis vectors returned by mvr() satisfy e^i|e_j = delta_ij, and g_inv is the inverse of the metric. ReciprocalFrame of any independent set of vectors '
     '(non-null volume) satisfies v^i|v_j = delta_ij and stays in their span; in "append" mode the unnormalised vectors satisfy v^i|v_j = E^2 delta_ij with E^2 appended.',
     ['inputs', 'configurations'], 'all nonsingular metrics; all independent vector sets',
     'Tests check one frame; the reciprocal basis feeds every derivative and linear map.',
     ['galgebra/ga.py', 'galgebra/metric.py'], 'Ga.r_basis, r_basis_mv, mvr, g_inv, ReciprocalFrame, _reciprocal_of_basis_blade')
prop('C12', 'Geometric derivative in any coordinates',
     'For every product op in * ^ | < >, grad op F is the sum of e^i op (d_i F) and F op rgrad the sum of (d_i F) op e^i, where d_i F includes the derivatives of the basis '
     'vectors, in Cartesian, oblique, orthogonal or non-orthogonal curvilinear coordinates, normalised or not, whether the coordinates are declared by a metric or by a position vector X given as a list of Cartesian components. In curvilinear coordinates of flat space the result is the '
     'Cartesian derivative of the same field expressed in the moving frame.',
     ['inputs', 'configurations'], 'all coordinate systems and metrics, all multivector fields, all products, both sides',
     'Tests check textbook gradients, divergences and Laplacians in a few coordinate systems.',
     ['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/metric.py', 'galgebra/dop.py'],
     'Ga.grads, Ga._build_grads, Dop.Mul, Pdop.__call__, Ga.pDiff, blade_derivation, _update_de_from_rbasis, normalize_metric')
prop('C13', 'Differential operator algebra',
     'Scalar, partial and multivector differential operators form an algebra under application: (D1+D2)F = D1 F + D2 F, (D1-D2)F = D1 F - D2 F, (D1 op D2)F applies the composed operator '
     'with the Leibniz rule for non-constant coefficients, multiplying by a scalar or multivector on the non-acting side scales the coefficients, and left- and right-acting (cmpflg) operators mirror each other (compositions in flat space; a plain scalar on the left of < or > is Python\'s reflected comparison and is excluded). '
     'Sums and products do not depend on term order, and operators compare equal when they have the same terms.',
     ['inputs', 'programs'], 'all operators built from coefficients and partial derivatives, all products, all argument fields',
     'Tests check fixed operator identities.',
     ['galgebra/dop.py', 'galgebra/mv.py'], 'Dop.Add/Mul/__truediv__/__neg__, Sdop, Pdop, _consolidate_terms, _merge_terms, _eval_derivative_n_times_terms')
prop('C14', 'Connection and derivatives of basis vectors',
     'Christoffel symbols of both kinds are the standard ones of the metric, and the partial derivative of any multivector field with respect to a coordinate (pDiff, diff, pdiff, Pdop application) is '
     'the coefficient-wise derivative plus the connection on the basis blades, a derivation over every product, compatible with the metric, for normalised bases too. '
     'Derivatives with respect to a symbol that is not a coordinate act on coefficients only.',
     ['inputs', 'configurations'], 'all coordinate-dependent metrics, all fields and coordinates',
     'Tests pin a few connection coefficients.',
     ['galgebra/metric.py', 'galgebra/ga.py', 'galgebra/mv.py'], 'Metric.Christoffel_symbols, Metric.de, dg, normalize_metric, Ga.pDiff, Ga.blade_derivation, Mv.diff, Mv.pdiff',
     [{'name': '_dbases', 'meaning': 'cache of blade derivatives'}])
prop('C15', 'Induced metrics of submanifolds and vector manifolds',
     'A submanifold built from a coordinate map, or from a vector-valued embedding in a base with constant metric, has the metric J^T g(u) J pulled back from the base manifold (from its un-normalised metric), and an '
     'algebra built from a vector manifold X has the metric of the tangent vectors of X. Its products, derivatives and gradient are those of the induced metric.',
     ['inputs', 'configurations'], 'all maps and base metrics, nested submanifolds, shared coordinate names',
     'Tests use a sphere in flat space.',
     ['galgebra/ga.py', 'galgebra/metric.py'], 'Sm.__init__, Ga.sm, Metric X= path, g_raw')
prop('C16', 'Linear transformations act as outermorphisms',
     'A transformation built from a matrix, list of images, dictionary, function, versor or symbol maps basis vectors to the given images (nested lists list the images of the basis vectors), extends linearly and to wedge products, '
     'and reports that map through matrix(). Sum, difference, scalar multiple and product are pointwise sum, difference, scaling and composition; det, tr, adj, inv and is_singular are determinant, trace, metric adjoint, inverse and singularity of the map. '
     'Symmetric and antisymmetric symbolic maps are self-adjoint and anti-self-adjoint in the metric, and a function that is not linear or not vector-valued is rejected.',
     ['inputs', 'configurations'], 'all nonsingular algebras (all metrics for construction, application and arithmetic), all constructor forms, all multivector arguments',
     'Tests use diagonal or 2-d matrices mostly in Euclidean metrics.',
     ['galgebra/lt.py'], 'Lt.__init__, __call__, mv_dict, matrix, det, tr, adj, inv, is_singular, arithmetic; Symbolic_Matrix')
prop('C17', 'Multilinear transformations',
     'A multilinear map built from a function, a component expression or a name evaluates on vectors as that function or as the general multilinear form of its rank, linear in each slot, in any metric. '
     'Sums and differences add values, the products * ^ | chain argument slots (^ and | for multivector-valued maps), contraction, slot gradient and covariant derivative of scalar-valued maps are those of the tensor, and none of this depends on which other multilinear maps were created before.',
     ['inputs', 'histories'], 'all ranks, metrics, vector arguments and creation histories',
     'Tests use one Minkowski and one planar example in a fresh algebra.',
     ['galgebra/lt.py'], 'Mlt.__init__, __call__, increment_slots, arithmetic; Ga._mlt_a/_mlt_acoefs/_mlt_pdiffs caches')
prop('C18', 'Multivector derivative with respect to a multivector',
     'make_grad(a) builds the derivative with respect to a general or partial-grade multivector variable a, each coefficient differentiated against the reciprocal of its blade: '
     'it reproduces <AX> -> A projections, grad_a (a|v) = v, and the left and right (cmpflg) forms, in any nonsingular metric. '
     'A sequence of coefficients is treated as the vector with those components, and repeated calls give the same operator.',
     ['inputs', 'configurations'], 'all nonsingular metrics, all multivector variables and linear or polynomial functions of them',
     'Tests check scalar examples in two metrics.',
     ['galgebra/ga.py', 'galgebra/mv.py'], 'Ga.make_grad, _reciprocal_blade_dict, Ga._agrads')
prop('C19', 'Text output denotes the printed object',
     'str() of a multivector, linear transformation or differential operator is an expression that denotes exactly that object: every nonzero term appears once with its sign, coefficient and blade (blade form; undefined functions are printed without their arguments), '
     'in each of the three multivector formats and with or without wedge marks. Printing does not change the object.',
     ['inputs', 'configurations'], 'all multivectors, operators and transformations, all formats',
     'Tests compare a few strings; signs, sums as coefficients and collected terms combine without limit.',
     ['galgebra/mv.py', 'galgebra/printer.py', 'galgebra/dop.py', 'galgebra/atoms.py'], 'Mv._sympystr, Dop._sympystr, Sdop/Pdop printers, GaPrinter, atoms printers')
prop('C20', 'LaTeX output denotes the printed object',
     'The LaTeX form of a multivector, linear transformation or differential operator contains every nonzero term exactly once with its sign, coefficient and blade (undefined functions without arguments when that setting is on), in each format, and reads back as the object printed. '
     'Settings given for one print do not leak into the next.',
     ['inputs', 'configurations'], 'all multivectors, operators and transformations, all formats',
     'As for text output: tests pin some strings only.',
     ['galgebra/mv.py', 'galgebra/printer.py', 'galgebra/dop.py'], 'Mv._latex, Dop._latex, GaLatexPrinter, Fmt, _WithSettings, latex')
prop('C21', 'GAeval applies the declared operator precedence',
     'GAeval(s) equals the value of s with the product operators bound in the order given to def_prec (default: < > | tightest, then ^, then *, all above + and -), left-associative within a level, '
     'explicit parentheses respected, for any expression of names, numbers, the five products, + and - (two plain numbers only under *, + and -). An order naming an unknown operator is rejected.',
     ['inputs', 'configurations'], 'all expressions and precedence orders accepted by def_prec',
     'Tests evaluate a few strings; the parser rewrites text by regular expressions.',
     ['galgebra/_utils/parser.py', 'galgebra/printer.py'], 'parse_line, _parse_paren, _add_paren, _unparse_paren, def_prec, GAeval')
prop('C22', 'Operations neither alter operands nor depend on history',
     'No operation changes the value, printed form or answers to queries of its operands, of the arguments passed to a constructor, or of the algebra. '
     'The result of a computation is the same whatever other computations were done before it in the same algebra or in other algebras alive in the process, including ones that raised errors; shared lazily filled tables never change an answer.',
     ['histories', 'programs'], 'all interleavings of operations on any number of algebras in one process',
     'Each test starts from fresh objects and runs one operation sequence.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/lt.py'],
     'lazy product tables, cached properties, _dbases, _agrads, Mlt slots, blade_flg/versor_flg, connect_flg, dslot, module-level counters',
     [{'name': 'Ga caches', 'meaning': 'tables filled on first use and shared by later computations'}])
prop('C23', 'Construction of algebras and multivectors',
     'An algebra has the requested basis, metric, coordinates and 2^n basis blades indexed in order of grade; Ga.build, Cl(p,q,r) and the kingdon-style constructor return the algebra, its basis vectors and the requested signature. '
     'Each multivector constructor form (scalar, vector, bivector/grade2, pseudo, even/spinor, odd, mv, grade r, coefficient lists, function fields) yields exactly the blades of its category with distinct coefficients, given coefficients in basis order, '
     'and rejects malformed requests.',
     ['inputs', 'configurations'], 'all basis strings, metric forms, signatures, constructor categories and arguments',
     'Tests build a few algebras and names.',
     ['galgebra/ga.py', 'galgebra/metric.py', 'galgebra/mv.py', 'galgebra/interop/_cl.py', 'galgebra/interop/kingdon.py'],
     'Metric.__init__, symbols_list, Ga.indexes/blades/bases, Mv._make_*, Ga.mv, Ga.build, interop Cl')
prop('C24', 'Coefficient-wise transformations preserve the multivector',
     'simplify, expand, trigsimp, collect and Nga return a multivector equal to the original (to the requested precision for Nga); subs and func apply exactly the given substitution or function to each blade coefficient and nothing else. '
     'simplify of a differential operator leaves its action unchanged.',
     ['inputs'], 'all multivectors and coefficient expressions',
     'Tests simplify a few expressions.',
     ['galgebra/mv.py', 'galgebra/metric.py', 'galgebra/dop.py'], 'Mv.simplify/expand/trigsimp/collect/subs/func, Nga, Dop.simplify, linear_expand_terms')
prop('C25', 'Objects of different algebras are never combined',
     'Every binary operation and two-operand method on multivectors, differential operators and linear or multilinear transformations that belong to different algebra instances raises an error instead of returning a value (an equality comparison may also report that they differ), even when the algebras '
     'have the same basis names and metric, and algebra identity survives any number of instances. Operand types an operation does not support raise an error rather than giving a wrong result.',
     ['inputs', 'configurations'], 'all operations and all pairs of algebras in a process',
     'Tests check a few operator/type pairs.',
     ['galgebra/mv.py', 'galgebra/dop.py', 'galgebra/lt.py', 'galgebra/ga.py'], 'Ga.__eq__/__hash__/name counter, checks in Mv operators, Dop.Add/Mul, Lt arithmetic')
prop('C26', 'Output redirection conserves output and restores state',
     'Between Format() and the end of tex/xpdf output, and in gprint documents, everything printed appears exactly once and in order in the generated LaTeX, text outside math is preserved, and standard output and plain-text printing are restored afterwards. '
     'Enhanced printing and format settings affect only how objects are shown.',
     ['programs', 'histories'], 'all sequences of Format, print, Fmt, tex calls',
     'Tests check a few one-shot documents.',
     ['galgebra/printer.py', 'galgebra/gprinter.py'], 'Format, GaLatexPrinter.redirect/restore, tex, gFormat/gprint, module-level buffers')
prop('C27', 'Tables, parts, listings and older names agree with the products',
     'The product tables and basis expansions an algebra publishes hold, for every pair of basis elements and in whatever order they are looked up, the product of the metric; the maps between index tuples, blades, bases and grades are inverse to one another and list every element once. '
     'The part functions on expressions (grade_decomposition, split_multivector, remove_scalar_part, scalar_part, get_grade, even_odd, reverse, grades) give the parts of the multivector however the expression is arranged. Older names still offered (deprecated attributes and methods, galgebra.deprecated) return what their '
     'replacement returns and warn, module functions reject arguments that are not multivectors, and debug output changes nothing in the algebra that is built.',
     ['inputs', 'configurations'], 'all algebras, basis elements, lookup orders, expression arrangements and older names',
     'Tests look at a few table entries of fixed algebras; the lazily filled tables have an entry per pair of blades of every algebra and separate code for orthogonal and other bases.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/lt.py', 'galgebra/deprecated.py', 'galgebra/metric.py'],
     'BladeProductFunction.table_dict, basic_mul.table_dict, blade_expansion_dict/base_expansion_dict, OrderedBiMap/GradedTuple listings, Ga.grade_decomposition/split_multivector/scalar_part, deprecated aliases of Ga and Lt, galgebra.deprecated.MV, debug option')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
