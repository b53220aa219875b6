#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties)."""
import json
A = 'src/qnet/algebra/core/'
L = 'src/qnet/algebra/library/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p('C01', 'Scalar arithmetic is complex-number arithmetic',
  "Adding, subtracting, multiplying, dividing, raising to powers and conjugating scalars - numbers, symbols, the special zero and one, state overlaps, and their compounds, on either side of native Python or SymPy numbers - always yields a scalar whose value is the same operation on the operands' values. No automatic simplification changes the value of a scalar expression for any assignment of its symbols.",
  ['inputs', 'programs'], 'every pair of scalar operands of the supported kinds, every operator and operand order, all values of the symbols',
  'Tests sample a few concrete numbers and compare to hand-written results; a wrong branch for a rare operand pair (e.g. the special one minus an overlap) is never reached.',
  [A+'scalar_algebra.py', A+'abstract_quantum_algebra.py', 'src/qnet/algebra/_rules.py'],
  [('scalar operators __add__/__sub__/__mul__/__truediv__/__pow__', A+'scalar_algebra.py'), ('scalar rewriting rules', 'src/qnet/algebra/_rules.py')], ['value of resulting scalar'])
p('C02', 'Operator sums and products keep their meaning under automatic rewriting',
  'Whatever operands are added, subtracted, multiplied, scaled or raised to an integer power, the simplified operator that results acts on every state exactly as the mathematical sum, product, multiple or power of the operands does. This includes projectors and transition operators, identity and zero, tensor products over several degrees of freedom, and nested compounds.',
  ['inputs', 'programs'], 'all operator expressions up to the stated nesting, all matrix elements of the symbolic operators, all scalar values, all basis labels in the stated range',
  'Tests compare a handful of expressions with an expected tree; they do not compare meaning, and cannot cover all operand orders, labels and coefficients.',
  [A+'operator_algebra.py', 'src/qnet/algebra/_rules.py', A+'algebraic_properties.py', A+'abstract_quantum_algebra.py'],
  [('create() with simplification pipeline', A+'abstract_algebra.py'), ('binary rules for products', 'src/qnet/algebra/_rules.py'), ('collect summands/scalars', A+'algebraic_properties.py')], ['denoted matrix of result'])
p('C03', 'Harmonic-oscillator operator identities are exact',
  'Every automatic simplification of products of ladder, phase, displacement and squeezing operators and of their action on number and coherent states is an exact identity of the infinite-dimensional oscillator, for every occupation number, phase, amplitude and squeezing parameter, in particular with every phase factor correct.',
  ['inputs', 'programs'], 'all products of the stated length, all symbolic parameters, occupation numbers up to the bound',
  'Tests check a few tree shapes; a wrong sign or conjugate in a phase factor for complex parameters would have to be spotted by hand.',
  ['src/qnet/algebra/_rules.py', L+'fock_operators.py', A+'state_algebra.py'],
  [('Fock-space product rules', 'src/qnet/algebra/_rules.py'), ('coherent states', A+'state_algebra.py')], ['denoted matrix elements'])
p('C04', 'Spin and Pauli operators satisfy the angular-momentum algebra',
  'For every spin quantum number, the raising, lowering and z operators, their products, their action on the labelled spin states and the derived x, y, Pauli and transition operators agree with the standard angular-momentum matrices. Every simplification of such products and matrix-element coefficient is exact for all allowed quantum numbers.',
  ['inputs', 'programs'], 'all spins and magnetic quantum numbers within the bound (symbolic), all products of the stated length',
  'Tests use spin 1/2 and 1 for a few entries; coefficients for other spins and mixed products are not compared with the matrices.',
  [L+'spin_algebra.py', L+'pauli_matrices.py', 'src/qnet/algebra/_rules.py'],
  [('matrix-element coefficient functions', L+'spin_algebra.py'), ('spin product rules', 'src/qnet/algebra/_rules.py')], ['denoted matrices'])
p('C05', 'States, overlaps and outer products keep their meaning under rewriting',
  'Building kets, bras, tensor products, overlaps, outer products and operators applied to states always gives an expression whose value as a vector, number or operator equals the mathematical operation on the operands. Orthonormality of labelled basis states, contraction of matching spaces and conversion between an outer product and an operator are exact for every label, symbol and operand order.',
  ['inputs', 'programs'], 'all ket/bra/operator combinations up to the stated nesting, all labels within bound, all amplitudes and matrix elements',
  'Tests compare expected trees for particular labels; partial overlaps over several spaces and sums of states are sampled only sparsely.',
  [A+'state_algebra.py', 'src/qnet/algebra/_rules.py', A+'abstract_quantum_algebra.py'],
  [('ket/bra rules', 'src/qnet/algebra/_rules.py'), ('Bra as dual of Ket', A+'state_algebra.py')], ['denoted vectors'])
p('C06', 'Superoperator expressions act as the maps they denote',
  'Sums, products, multiples, adjoints and left/right multiplications of superoperators, and their application to an operator, act on every operator exactly as the corresponding composition of linear maps, after any automatic rewriting. Bringing a Liouvillian into its normal form returns a Hamiltonian and jump operators that generate the identical map.',
  ['inputs', 'programs'], 'all superoperator expressions up to the stated nesting, all operators they are applied to, all symbolic coefficients',
  'Tests check a few trees and a few numeric Liouvillians; the order of right multiplications and sign/conjugation of coefficients is not settled for all operands.',
  [A+'super_operator_algebra.py', 'src/qnet/algebra/_rules.py'],
  [('superoperator rules', 'src/qnet/algebra/_rules.py'), ('Lindblad/Liouvillian helpers', A+'super_operator_algebra.py')], ['denoted map'])
p('C07', 'Factors are only reordered when they commute, and always canonically',
  'Sorting the factors of a product never exchanges two factors that act on a common degree of freedom, so the product keeps its value; and any two ways of writing the same sum, or the same product of factors on disjoint degrees of freedom, give one identical expression. Expression ordering keys form a consistent total preorder so that sorting does not depend on the input order.',
  ['inputs', 'programs'], 'all operand orders of up to the stated number of factors, all assignments of factors to spaces and all labels',
  'A sort with a partial order can go wrong only for particular arrangements of five or more factors over several spaces; tests never try them all.',
  ['src/qnet/utils/ordering.py', A+'algebraic_properties.py', A+'operator_algebra.py'],
  [('DisjunctCommutativeHSOrder / KeyTuple', 'src/qnet/utils/ordering.py'), ('orderby', A+'algebraic_properties.py')], ['operand order of products and sums'])
p('C08', 'Hilbert spaces form a consistent tensor-product and subset algebra',
  'Tensor products of Hilbert spaces behave as sets of distinct local factors: product, removal, intersection, containment, disjointness, tensor-factor and comparison tests all agree with the corresponding set operation, and products are commutative, associative and idempotent. Dimensions multiply, and basis states enumerate every label exactly once, with indices, labels and neighbours consistent.',
  ['inputs', 'programs'], 'all pairs and triples of spaces built from the stated number of local factors (including the trivial and the full space), all dimensions and labels in range',
  'Tests list a few pairs of spaces; combinations such as removing a product space that contains the local space are not covered.',
  [A+'hilbert_space_algebra.py', 'src/qnet/utils/indices.py'],
  [('ProductSpace/LocalSpace set methods', A+'hilbert_space_algebra.py')], ['results of space methods'])
p('C09', 'Taking the adjoint is a conjugate-linear involution that reverses products',
  'The adjoint of any scalar, operator, state or matrix expression denotes the conjugate transpose of that expression (and the adjoint of a superoperator its trace dual): adjoints distribute over sums, conjugate operator and state coefficients, reverse products, and applying the adjoint twice gives back an equal expression.',
  ['inputs', 'programs'], 'all expressions of the covered kinds up to the stated nesting, all values of their symbols',
  'Tests take the adjoint of a few trees; coefficient conjugation and reversal inside sums, derivatives and library operators is not covered for every node type.',
  [A+'abstract_quantum_algebra.py', A+'operator_algebra.py', A+'state_algebra.py', A+'super_operator_algebra.py', L+'fock_operators.py', L+'spin_algebra.py'],
  [('per-class adjoint methods', A+'abstract_quantum_algebra.py')], ['denotation of adjoint'])
p('C10', 'Traces and partial traces are exact',
  'Tracing any operator over any set of degrees of freedom, after all automatic rewriting, denotes the partial trace of that operator: linear, independent of tracing order, cyclic only where allowed, factoring only over disjoint degrees of freedom.',
  ['inputs', 'programs'], 'all operators up to the stated nesting, all choices of traced spaces, all matrix elements',
  'Trace rules rotate and split products; tests show a few trees, and cannot show that the value is unchanged for all operators.',
  [A+'operator_algebra.py', 'src/qnet/algebra/_rules.py'],
  [('trace rules and cyclic factorisation', A+'operator_algebra.py'), ('OperatorTrace rules', 'src/qnet/algebra/_rules.py')], ['denoted partial trace'])
p('C11', 'Commutators denote AB-BA under every rewriting and expansion',
  'Creating, simplifying, adjoining, expanding, differentiating, evaluating or applying the Leibniz expansion to a commutator always yields an expression equal to the difference of the two products, for all operands including sums, products, scalar multiples and identical or commuting operands.',
  ['inputs', 'programs'], 'all operand pairs up to the stated nesting, all matrix elements and coefficients',
  'Tests check a few commutators structurally; operand patterns for the rules are combinatorial.',
  [A+'operator_algebra.py', 'src/qnet/algebra/_rules.py', 'src/qnet/algebra/toolbox/commutator_manipulation.py'],
  [('Commutator class', A+'operator_algebra.py'), ('expand_commutators_leibniz', 'src/qnet/algebra/toolbox/commutator_manipulation.py')], ['denotation'])
p('C12', 'Expansion and simplification preserve value and reach their normal form',
  'Expanding an expression, expanding within a commutator, simplifying its scalar coefficients, or applying a user simplification never changes its value, for every kind of quantum expression. A fully expanded expression contains no product, scaling, outer product or operator application with a sum inside.',
  ['inputs', 'programs'], 'all expressions up to the stated nesting, all values of symbols',
  'Tests expand a few products; the many node types and nestings multiply beyond what samples cover.',
  [A+'abstract_quantum_algebra.py', A+'operator_algebra.py', A+'state_algebra.py', A+'super_operator_algebra.py', A+'abstract_algebra.py'],
  [('_expand methods', A+'abstract_quantum_algebra.py')], ['denotation and shape of result'])
p('C13', 'Differentiation obeys linearity and the product rule exactly',
  'The derivative of any expression with respect to a symbol denotes the derivative of its value: linear, following the product rule with the operand order preserved, of any order, with mixed derivatives commuting, and zero exactly when the value does not depend on the symbol.',
  ['inputs', 'programs'], 'all expressions up to the stated nesting with symbol-dependent operators, states and coefficients',
  'Tests differentiate a few expressions; product-rule terms for each node type and each position are not all reached.',
  [A+'abstract_quantum_algebra.py', A+'operator_algebra.py', A+'state_algebra.py', A+'scalar_algebra.py'],
  [('_diff methods, QuantumDerivative', A+'abstract_quantum_algebra.py')], ['denotation of derivative'])
p('C14', 'Series expansion returns exactly the Taylor coefficients',
  'Expanding any expression in a parameter about a point to a given order returns one entry per order, and each entry is the corresponding Taylor coefficient of the value of the expression, so that the truncated series agrees with the expression up to that order.',
  ['inputs', 'programs'], 'all polynomial-in-parameter expressions up to the stated nesting, all expansion points, all orders up to the bound',
  'Tests expand a few products; convolution of coefficients for mixed products and non-zero expansion points is not settled.',
  [A+'abstract_quantum_algebra.py', A+'scalar_algebra.py', A+'state_algebra.py', A+'operator_algebra.py', 'src/qnet/algebra/core/matrix_algebra.py'],
  [('_series_expand methods', A+'abstract_quantum_algebra.py')], ['series coefficients'])
p('C15', 'Substitution is simultaneous and agrees with evaluation',
  'Substituting symbols or sub-expressions replaces exactly the free occurrences, simultaneously, so the value of the result equals the value of the original under the substituted assignment, and symbols bound by a sum are untouched. The reported free and bound symbols are exactly those on which the value depends or which are summed over.',
  ['inputs', 'programs'], 'all expressions up to the stated nesting, all substitution maps on their symbols (including swaps)',
  'Tests substitute a symbol or two; swaps, nested arguments, bound indices and automatic re-simplification after substitution are not covered together.',
  [A+'abstract_algebra.py', A+'indexed_operations.py', A+'scalar_algebra.py'],
  [('substitute', A+'abstract_algebra.py'), ('free/bound symbols', A+'indexed_operations.py')], ['denotation after substitution'])
p('C16', 'Indexed sums equal the explicit sum over their index ranges',
  'Every operation on an indexed sum - building it, evaluating it, scaling, multiplying it with another expression or another sum over the same index name, taking adjoints, eliminating Kronecker deltas - denotes the same value as the operation applied to the explicit finite sum over its index ranges. Products of sums never confuse their summation indices.',
  ['inputs', 'programs'], 'all sums up to the stated number of indices with ranges in the bound, all terms of the stated forms and all values of the symbols',
  'Tests use mostly single sums with particular names; clashes of index names and ranges of different spaces are sampled at most once.',
  [A+'indexed_operations.py', A+'abstract_quantum_algebra.py', A+'scalar_algebra.py', 'src/qnet/algebra/_rules.py', A+'algebraic_properties.py'],
  [('IndexedSum.doit, make_disjunct_indices', A+'indexed_operations.py'), ('Kronecker delta elimination', A+'algebraic_properties.py')], ['denotation'])
p('C17', 'Equality, hashing, rebuilding and caching of expressions are consistent',
  'Equal expressions have equal hashes and equal values; rebuilding an expression from its own arguments and keyword arguments returns an equal expression with the same value; and whether instances are cached, which expressions were built before, or whether rules were temporarily changed and restored (even after an error) never changes a result.',
  ['inputs', 'histories'], 'all covered expressions, all labels and indices in range, all histories of up to the stated length of building and context switching',
  'Tests rebuild a few instances and never compare a warm and a cold cache over histories.',
  [A+'abstract_algebra.py', 'src/qnet/algebra/toolbox/core.py', 'src/qnet/utils/singleton.py'],
  [('Expression.create instance cache', A+'abstract_algebra.py'), ('temporary_rules / caches', 'src/qnet/algebra/toolbox/core.py')], ['==, hash, args, kwargs'])
p('C18', 'Pattern matching binds wildcards exactly as declared',
  'A pattern matches an expression if and only if its head, conditions, keyword arguments and argument list fit, where a wildcard stands for exactly one, one-or-more or any number of arguments at the allowed end, and a repeated wildcard name binds equal values everywhere. A successful match returns exactly those bindings, and searching visits every matching sub-expression.',
  ['inputs', 'programs'], 'all patterns and argument lists up to the stated length, all argument values and wildcard names',
  'Tests list particular matches; arity and repeated-name combinations are combinatorial and depend on argument equality.',
  ['src/qnet/algebra/pattern_matching/__init__.py'],
  [('Pattern.match, MatchDict', 'src/qnet/algebra/pattern_matching/__init__.py')], ['match result and bindings'])
p('C19', 'Permutation utilities implement permutation algebra',
  'Inverting, composing, concatenating, cycling and decomposing permutations follow the algebra of bijections: composing with the inverse gives the identity, conversion to and from disjoint cycles round-trips, permuting a sequence is consistent with composition. Splitting a permutation into a block permutation and permutations within blocks recomposes to the original, and invalid input is rejected.',
  ['inputs'], 'all permutations up to the stated length, all block structures of that length',
  'Tests sample some permutations; block decompositions only a few.',
  ['src/qnet/utils/permutations.py'],
  [('permutation helpers', 'src/qnet/utils/permutations.py')], ['returned permutations'])
p('C20', 'Circuit composition rules preserve the network they describe',
  'Series products, concatenations, feedback, inverses and channel permutations of circuits, with all automatic rewriting, describe the same input-output network - the same scattering, coupling and Hamiltonian - as composing the components directly by the series, concatenation and feedback formulas. Port counts and block structure are consistent with it.',
  ['inputs', 'programs'], 'all circuit expressions up to the stated size over components of one to three ports, all permutations and port choices, all scattering/coupling/Hamiltonian values',
  'Circuit rewriting moves permutations through components and redirects ports; tests check a few fixed networks, not every permutation and port pair.',
  [A+'circuit_algebra.py', 'src/qnet/algebra/_rules.py', 'src/qnet/utils/permutations.py'],
  [('SeriesProduct/Concatenation/Feedback rules', 'src/qnet/algebra/_rules.py'), ('CPermutation factorisation', A+'circuit_algebra.py'), ('SLH composition', A+'circuit_algebra.py')], ['SLH of the circuit'])
p('C21', 'Channel routing helpers connect exactly the ports they are asked to',
  'Channel maps, identity padding, channel extraction and the connect helper route each named port to the requested one and leave the order of all other ports unchanged; connecting components by a list of output-input pairs gives the network with exactly those links, however components and ports are referenced.',
  ['inputs', 'programs'], 'all port maps and connection lists up to the stated sizes',
  'Tests use a few routings; off-by-one and ordering errors depend on particular port combinations.',
  [A+'circuit_algebra.py', 'src/qnet/algebra/toolbox/circuit_manipulation.py'],
  [('map_channels, pad_with_identity, extract_channel', A+'circuit_algebra.py'), ('connect', 'src/qnet/algebra/toolbox/circuit_manipulation.py')], ['resulting permutation / SLH'])
p('C22', 'Equations of motion follow from the circuit model exactly',
  'The symbolic Liouvillian, master equation, Heisenberg equation of motion and effective Hamiltonian derived from a model equal the textbook Lindblad and quantum Langevin expressions in its scattering matrix, coupling operators and Hamiltonian, and Schroedinger and Heisenberg pictures are dual to each other. Trace is conserved.',
  ['inputs', 'programs'], 'all models with up to the stated number of ports and symbolic operators, all states and observables',
  'Tests compare a couple of models with hand-expanded results.',
  [A+'circuit_algebra.py', A+'super_operator_algebra.py'],
  [('symbolic_master_equation, symbolic_liouvillian, symbolic_heisenberg_eom', A+'circuit_algebra.py'), ('liouvillian', A+'super_operator_algebra.py')], ['denoted equation of motion'])
p('C23', 'Model transformations keep the physics they promise to keep',
  'Driving a model with coherent inputs adds exactly the drive amplitudes through the scattering matrix; moving scalar drives into the Hamiltonian leaves the master equation unchanged; expanding, simplifying, substituting and taking the inverse of a model preserve its dynamics, with a model followed by its inverse being trivial.',
  ['inputs', 'programs'], 'all models with up to the stated number of ports and symbolic scattering, coupling, Hamiltonian and drive amplitudes',
  'Tests use a driven cavity or two; conjugation and sign errors cancel for real drives and single ports.',
  [A+'circuit_algebra.py'],
  [('coherent_input, move_drive_to_H, series_inverse', A+'circuit_algebra.py')], ['master equation before and after'])
p('C24', 'Operator matrices follow block-matrix algebra',
  'Adding, multiplying, scaling, transposing, conjugating, adjoining, stacking, block-splitting and assembling matrices of operators or scalars give entry by entry the result of the usual matrix formulas with the order of entry products preserved; splitting into blocks and reassembling gives the original matrix.',
  ['inputs', 'programs'], 'all shapes up to the bound, all entries (symbolic operators and scalars), all block partitions',
  'Tests use a few 2x2 examples; rectangular shapes and all partitions are not covered.',
  [A+'matrix_algebra.py'],
  [('Matrix class and helpers', A+'matrix_algebra.py')], ['entries of result'])
p('C25', 'Numeric conversion represents the same operator',
  'Converting an operator, state or superoperator expression to a numeric or SymPy matrix gives the matrix of that expression in the ordered tensor basis of the requested space, for every supported node type, so that conversion commutes with sums, products, multiples, adjoints and embedding into a larger space.',
  ['inputs', 'programs'], 'all supported expressions up to the stated nesting, dimensions in range, parameters symbolic where the target allows it',
  'Tests convert a few operators and compare with hand-made matrices; embedding positions and each library operator are not all covered.',
  ['src/qnet/convert/to_sympy_matrix.py', 'src/qnet/convert/to_qutip.py'],
  [('convert_to_sympy_matrix', 'src/qnet/convert/to_sympy_matrix.py'), ('convert_to_qutip', 'src/qnet/convert/to_qutip.py')], ['converted matrix'])
p('C26', 'Printed expressions read back with the same meaning',
  'The plain-text rendering of an expression, read with ordinary operator precedence, denotes the same value: parentheses, minus signs, daggers, coefficients, and factor order are never dropped or misplaced, and rendering an adjoint renders the adjoint. The code-like representation evaluates back to an equal expression.',
  ['inputs', 'programs'], 'all expressions up to the stated nesting over the covered node types, all values of symbols',
  'Tests compare some strings; precedence errors appear only for particular parent/child/sign combinations.',
  ['src/qnet/printing/asciiprinter.py', 'src/qnet/printing/_precedence.py', 'src/qnet/printing/sreprprinter.py', 'src/qnet/printing/_render_head_repr.py', 'src/qnet/printing/base.py', 'src/qnet/printing/sympy.py'],
  [('parenthesize / precedence', 'src/qnet/printing/_precedence.py'), ('printer methods', 'src/qnet/printing/asciiprinter.py')], ['str(expr), srepr(expr)'])
p('C27', 'Equation manipulation applies the same operation to both sides',
  'Every arithmetic operation, method application, function application and substitution on an equation acts on exactly the side or sides it names and leaves the other unchanged, so a valid equation stays valid and its verification vanishes; continued steps keep the full history and the effective left-hand side.',
  ['inputs', 'histories'], 'all sequences of operations up to the stated length with symbolic operands',
  'Tests run one derivation; interactions of continued steps with sides and tags are a history property.',
  ['src/qnet/algebra/toolbox/equation.py'],
  [('Eq class', 'src/qnet/algebra/toolbox/equation.py')], ['lhs, rhs, history, verify()'])
p('C28', 'Index ranges and symbolic labels enumerate and evaluate exactly',
  'Iterating an index range yields exactly the integers from start to stop in the given step (inclusive of the end) or all basis labels of a finite space, its length and membership test agree with that iteration, and substituting a symbolic label gives the concrete label at that index. Ladder steps on basis labels move exactly by the requested amount or report leaving the basis.',
  ['inputs'], 'all starts, stops and steps in the bound (symbolic integers), all spaces and labels in range, all shifts',
  'Boundary cases (negative steps, ends not hit exactly, shifts out of the basis) are sampled only.',
  ['src/qnet/utils/indices.py', A+'hilbert_space_algebra.py', A+'state_algebra.py'],
  [('IndexRangeBase subclasses, SymbolicLabelBase', 'src/qnet/utils/indices.py'), ('next_basis_label_or_index', A+'hilbert_space_algebra.py')], ['iteration results'])
p('C29', 'Library circuit components are physically consistent',
  'Every library component has, for all values of its parameters, a unitary scattering matrix, a self-adjoint Hamiltonian and as many ports as it declares, and its parameters act as documented: mixing angles and phases give the stated scattering, displacements add exactly their amplitude.',
  ['inputs', 'configurations'], 'all components of the library, all real or complex parameter values, all partial parameter substitutions',
  'Tests instantiate components with default symbols; unitarity for all parameters is a universally quantified identity.',
  [L+'circuit_components.py', A+'circuit_algebra.py'],
  [('component toSLH', L+'circuit_components.py')], ['SLH of component'])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
