"""writes properties.jsonl and MANIFEST.json (run by hand after editing; the outputs are committed)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CT, OT, OP, PA, UT, EC, PL = ['oranssi/%s.py' % x for x in ('circuit_tools', 'opt_tools', 'optimizers', 'pauli', 'utils',
                                                           'edge_coloring', 'plot_utils')]
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique_note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(dict.fromkeys(over)), text=text),
                      why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


P('C01', 'Embedding a local operator keeps its action and its wire order',
  'Promoting a k-qubit operator to the full register of n qubits gives exactly the matrix that applies the operator to '
  'the listed wires, in the listed order (first wire = most significant factor), and the identity to every other qubit.'
  ' It holds for every complex matrix and every ordered tuple of distinct wires, adjacent or not, and an operator whose '
  'size does not fit the wires, or wires outside the register, are refused.',
  ['inputs'], 'every complex operator, every ordered tuple of distinct wires, every register size',
  'tests embed a few fixed gates; an index slip shows only for some wire orders and non-symmetric operators',
  [CT], [('full-operator embedding', CT + ':get_full_operator')])
P('C02', 'The unitary extracted from a circuit is the circuit',
  'The gates and wires extracted from a parametrised circuit, multiplied in order after embedding, are the unitary of '
  'that circuit for all parameter values, so that an optimisation starts from the state the circuit prepares. A circuit '
  'that contains a state preparation, which no unitary represents, is refused.',
  ['inputs', 'histories'], 'every circuit of supported gates, every parameter vector, every wire assignment',
  'tests compare a handful of fixed circuits at fixed angles',
  [CT, OP], [('gate extraction', CT + ':get_ops_from_qnode'), ('initial unitary', OP + ':exact_lie_optimizer')])
P('C03', 'The Pauli operator basis is correct, complete and named',
  'The operator lists for su(2), su(4) and su(2^n) contain, under each name, exactly the tensor product of the Pauli '
  'matrices the name spells (left letter = first qubit), each name once. With identities included they are an orthogonal '
  'basis: every complex matrix equals the sum over the basis of tr(PM)/2^n times P.',
  ['inputs'], 'every register size and every complex matrix to expand',
  'tests compare lengths and a few entries; a wrong sign or a swapped name shows only in the expansion of some matrices',
  [UT], [('su(2)', UT + ':get_su_2_operators'), ('su(4)', UT + ':get_su_4_operators'), ('su(N)', UT + ':get_su_n_operators')])
P('C04', 'The Hamiltonian matrix is the weighted sum of its observables',
  'The Hamiltonian matrix assembled from a list of observables and real coefficients equals the sum of coefficient times '
  'the embedded observable, for every observable (tensor products and arbitrary Hermitian ones included), wire order and '
  'coefficient; without coefficients every term has weight one.',
  ['inputs'], 'all coefficients, all Hermitian observables, all wire tuples',
  'tests use unit coefficients and few observables',
  [CT], [('assembly', CT + ':get_hamiltonian_matrix')])
P('C05', 'Reported Lie-algebra directions are the Riemannian gradient',
  'The dictionary of directions for a circuit unitary has exactly one entry per Pauli word of the register and its value '
  'is the imaginary part of the expectation of the commutator of that word with the sum of the observables, in the state '
  'the unitary prepares, divided by the Hilbert-space dimension. Every kind of layer reports the same values for its own '
  'observables and device.',
  ['inputs', 'configurations'], 'every unitary, every list of observables, every layer class',
  'tests look at one optimisation run, where sign and normalisation errors are invisible',
  [CT, OT], [('directions', CT + ':get_all_su_n_directions'), ('layer API', OT + ':LieLayer.get_lie_algebra_directions')])
P('C06', 'The parameter-shift commutator equals i[rho, O]',
  'For every density matrix (every complex matrix) and every involutory observable O with gate exp(-itO/2), the '
  'parameter-shift rule returns exactly i times the commutator of the density matrix and O, and so a Hermitian matrix '
  'when its argument is Hermitian.',
  ['inputs'], 'every matrix, every Pauli word and every axis of a single-qubit reflection',
  'a test samples few states; the identity is algebraic over all of them',
  [CT], [('param shift', CT + ':param_shift_comm')])
P('C07', 'An exact optimisation step is the Riemannian gradient step',
  'One step of the exact optimiser multiplies the current unitary from the left by exp(-i eta/2 G) for every observable '
  'in turn, where G = i[rho, O] is computed from the state after the previous observable; the recorded states and costs '
  'are those of the resulting unitary. With learning rate zero the state does not change.',
  ['inputs', 'histories'], 'every initial unitary, learning rate in [0, 1], observable list and step count in bounds',
  'tests check only that the cost ends near the minimum, which wrong steps reach too',
  [OP, CT], [('exact step', OP + ':exact_lie_optimizer'), ('gradient', CT + ':param_shift_comm')])
P('C08', 'Everything an optimiser returns describes one and the same run',
  'Costs, states, unitaries, parameters, directions, gates and perturbation steps have one entry per step in step order '
  '(plus the initial one for costs, states, unitaries and parameters), are returned in the documented order for exactly '
  'the requested flags, and agree: each cost is the summed expectation in the state of the same index, which is the '
  'state of the unitary or parameters of that index. Layers are applied in the given order, cyclically, each to the '
  'unitary the previous one returned, and asking for more results never changes the run.',
  ['histories', 'configurations', 'inputs'], 'all combinations of return flags, layer lists, step counts and layer behaviours',
  'tests use one flag combination at a time and never relate the results to one another',
  [OP], [('records', OP + ':approximate_lie_optimizer'), ('records', OP + ':exact_lie_optimizer'),
         ('records', OP + ':parameter_shift_optimizer')])
P('C09', 'Early stopping fires exactly when the cost has converged',
  'An optimiser stops before the requested number of steps only when its convergence rule holds (the cost agrees within '
  'tolerance with the one of the previous step, or of five steps before for the layer-based one, after the warm-up '
  'steps), and then it does stop at that step; otherwise it runs exactly the requested number of steps. Without a '
  'tolerance the layer-based optimiser never stops early, and with perturbation it records the step and goes on.',
  ['histories', 'inputs'], 'every cost history, tolerance and step budget in bounds',
  'the histories that tell a wrong comparison from the right one are not the ones tests run into',
  [OP], [('stopping', OP + ':exact_lie_optimizer'), ('stopping', OP + ':approximate_lie_optimizer'),
         ('stopping', OP + ':parameter_shift_optimizer')])
P('C10', 'Optimisers and layers refuse invalid hyperparameters and circuits',
  'A step count below one, a learning rate that is not a float in [0, 1], a negative tolerance, flags that are not '
  'booleans, layers that are not layers, unsupported localities, strides, register sizes or direction names, and '
  'circuits with the wrong kind of result are refused with an error before any step is taken; every valid setting is '
  'accepted.',
  ['inputs', 'configurations'], 'every numeric value of a hyperparameter and every argument kind',
  'tests try two or three values per argument and only some of the arguments',
  [OP, OT], [('validation', OP + ':exact_lie_optimizer'), ('validation', OP + ':approximate_lie_optimizer'),
             ('validation', OP + ':parameter_shift_optimizer'), ('layers', OT)])
P('C11', 'A local Lie-algebra layer is the projected gradient step',
  'A call of the local layer multiplies the unitary, for every observable and every qubit (or qubit pair), by the '
  'exponential of minus eta/2^n times the sum over the selected Pauli directions of <[P, O]> P, with all expectation '
  'values taken in the state at entry; in trotterised mode by one exponential per direction instead. Only the requested '
  'directions contribute and repeated calls do not influence one another.',
  ['inputs', 'configurations', 'histories'], 'every unitary, eta, observable list, locality, direction subset, trotter setting',
  'tests only check that a layer runs', [OT], [('layer step', OT + ':LocalLieAlgebraLayer.__call__')])
P('C12', 'A custom-direction layer steps in exactly the chosen directions',
  'A call multiplies the unitary by the exponential of minus eta/2^n times the sum of <[P, O]> P over all placements of '
  'the chosen one- and two-qubit Pauli words (all of them when no choice is given), or by the ordered product of single '
  'exponentials when trotterised; no other direction contributes.',
  ['inputs', 'configurations'], 'every unitary, eta, observable list and direction subset',
  'tests only check that a layer runs', [OT], [('layer step', OT + ':CustomDirectionLieAlgebraLayer.__call__')])
P('C13', 'Greedy layers pick the direction with the largest gradient',
  'The adaptive layers rotate about the Pauli word whose summed gradient is largest in absolute value among all one- and '
  'two-qubit words (up to three-qubit words for the su(8) layer); the squared-gradient layer never picks the same word '
  'twice in a row. In commuting mode all rotated words share the letters of the best direction, act on disjoint qubits, '
  'have a gradient within tolerance of the best, and the returned gate list reproduces the returned unitary.',
  ['inputs', 'histories'], 'every unitary, observable list and previous choice',
  'a wrong choice still lowers the cost, so end-to-end tests pass',
  [OT], [('greedy', OT + ':SquaredLieAlgebraLayer.__call__'), ('greedy', OT + ':SU8_AlgebraLayer.__call__'),
         ('greedy', OT + ':ZassenhausLayer.__call__')])
P('C14', 'Rotosolve returns the exact minimum along the chosen direction',
  'For every unitary, Pauli word and list of observables the returned unitary is exp(-i eta P/2) times the given one for '
  'the returned angle eta, and no other angle gives a lower summed expectation; in particular the cost never rises.',
  ['inputs'], 'every unitary, Pauli word, observable list and competing angle',
  'a wrong angle still lowers the cost at the sampled states',
  [OT], [('rotosolve', OT + ':rotosolve')])
P('C15', 'Adaptive VQE appends the best layer and keeps its ansatz',
  'Each call appends the layer (word on all single qubits, even bonds, or odd bonds with the closing bond) whose summed '
  'absolute gradients are largest, never with the word of the call before, re-optimises all parameters with the given '
  'optimiser, and returns the unitary of the whole ansatz at the returned parameters.',
  ['inputs', 'histories'], 'every current unitary, every optimiser result, every previous choice',
  'tests run one optimisation and look at the cost only',
  [OT], [('adapt-VQE', OT + ':AdaptVQELayer.__call__')])
P('C16', 'Direction catalogues list every local Pauli word exactly once',
  'The su(2), su(4) and su(8) catalogues of an n-qubit register hold, for every word of the requested weights and every '
  'increasing tuple of that many qubits, exactly one entry, and its matrix is the word embedded on those qubits.',
  ['inputs', 'configurations'], 'register sizes and flag combinations in bounds, acting on every state',
  'tests never look into the catalogues', [OT],
  [('su(2)', OT + ':AlgebraSU2'), ('su(4)', OT + ':AlgebraSU4'), ('su(8)', OT + ':AlgebraSU8')])
P('C17', 'Pauli monomials multiply, commute and conjugate like matrices',
  'Products, commutators, commutation tests and conjugates of Pauli words with arbitrary complex coefficients agree with '
  'the matrices the words stand for, in any chain of such operations, on any sites; the operands of a product keep their '
  'value.',
  ['inputs', 'histories'], 'all complex coefficients, all letters, all site sets in bounds, chains of operations',
  'tests multiply few words with unit coefficients', [PA],
  [('product', PA + ':PauliMonomial.__mul__'), ('commutator', PA + ':PauliMonomial.commutator'),
   ('conjugate', PA + ':PauliMonomial.conj')])
P('C18', 'Pauli sums add, subtract, multiply and scale like matrices',
  'The sum, difference, product and scalar multiple of Pauli sums stand for the sum, difference, product and multiple of '
  'the matrices (up to the documented dropping of coefficients close to zero), and building or combining sums leaves the '
  'operands and the monomials they were made of unchanged.',
  ['inputs', 'histories'], 'all complex coefficients, all words in bounds, chains of operations',
  'cancellations and duplicates arise only for particular coefficients', [PA],
  [('sum', PA + ':PauliSum'), ('simplification', PA + ':PauliSum.simplify')])
P('C19', 'Equality, hashing and ordering of Paulis are consistent',
  'Equal Paulis and equal monomials have equal hashes, equality is an equivalence that compares letters and sites (and '
  'for monomials whether the coefficient is real), and the order of monomials is a strict weak order: irreflexive, '
  'asymmetric and transitive, for all coefficients: by the letters first, then words with a complex coefficient before '
  'those with a real one, then by the sum of real and imaginary part of the coefficient.',
  ['inputs'], 'all coefficients and letters, all pairs and triples', 'the laws range over triples of values',
  [PA], [('equality', PA + ':PauliMonomial.__eq__'), ('order', PA + ':PauliMonomial.__lt__'), ('hash', PA + ':Pauli.__hash__')])
P('C20', 'A commuting set of edges is non-empty and non-overlapping',
  'Given any non-empty list of distinct single qubits or of qubit pairs, the selection returned is a non-empty subset of it in which '
  'no qubit occurs twice, whatever colouring the heuristic ends with; when nothing overlaps the whole list is returned.',
  ['inputs', 'schedules'], 'all edge lists in bounds and all outcomes of the colouring heuristic',
  'the heuristic is random and mostly succeeds; the failing outcomes are the ones that matter',
  [CT, EC], [('selection', CT + ':get_commuting_set')])
P('C21', 'The edge-colouring verdict is true and its bookkeeping exact',
  'When the colouring heuristic reports success every edge has a colour in range and edges that share a vertex differ, '
  'when it reports failure this is not so, and whatever the random choices every edge ends with a colour in range. The '
  'conflict levels that guide it are those of the current colouring after every recolouring.',
  ['inputs', 'schedules'], 'all graphs in bounds, all colourings and all random draws in bounds',
  'random choices are fixed by the seed in tests', [EC],
  [('verdict', EC + ':checkEdgeColoring'), ('heuristic', EC + ':applyHeuristic'), ('bookkeeping', EC + ':updateConflictDictionary')])
P('C22', 'Bloch-sphere conversions are inverse to each other',
  'Every pair of angles gives the density matrix of the corresponding point of the Bloch sphere, and the angles computed '
  'from any pure single-qubit density matrix (also one that is pure only up to rounding) lie in [0, 2 pi) and [0, pi] '
  'and give that density matrix back, up to the snapping of azimuths within 1e-3 of a full turn to zero; a matrix whose '
  'trace is not one is refused.',
  ['inputs'], 'all angles, all pure states, poles and the branch cut included',
  'poles and branch cuts are measure-zero sets that samples miss', [PL],
  [('state to angles', PL + ':state_to_spherical'), ('angles to state', PL + ':spherical_to_state')])
P('C23', 'The unitarity check accepts unitaries and repairs what is not one',
  'The unitarity test accepts a matrix exactly when it is unitary to the stated accuracy, the projection returns a '
  'unitary, and a layer with the check enabled applies a unitary even when the exponential it computed has drifted, '
  'whereas an exact exponential is applied unchanged.',
  ['inputs', 'fault_sequences'], 'every matrix and every relative drift of a computed exponential',
  'numerical drift does not occur at test sizes', [OT],
  [('test', OT + ':LieLayer._is_unitary'), ('projection', OT + ':LieLayer._project_onto_unitary'),
   ('use', OT + ':LocalLieAlgebraLayer.__call__')])
P('C24', 'Random perturbations keep the circuit unitary and its state normalised',
  'When an optimiser perturbs a stuck run, whatever the random draw the unitary is multiplied by a unitary matrix: the '
  'recorded states stay normalised and the run goes on from the perturbed unitary, which a non-symmetric draw does move. '
  'No perturbation happens unless it was '
  'asked for and the run has converged.',
  ['schedules', 'histories'], 'all random draws and all histories in bounds',
  'tests do not reach a perturbation', [OP],
  [('perturbation', OP + ':exact_lie_optimizer'), ('perturbation', OP + ':approximate_lie_optimizer')])
P('C25', 'The operator two-norm is a unitarily invariant norm',
  'The operator two-norm of a complex matrix is the square root of the sum of squared moduli of its entries: non-negative, '
  'zero only for the zero matrix, homogeneous, and unchanged under multiplication by a unitary.',
  ['inputs'], 'all complex matrices in bounds', 'the laws hold over all matrices', [UT],
  [('norm', UT + ':operator_2_norm')])
P('C26', 'A unitary run as a circuit gives its first column and its expectation values',
  'Running a unitary as a circuit from the all-zero state returns the first column of the matrix as the state, and for an '
  'observable on any ordered wires the expectation value of that observable in this state; calls are independent of '
  'each other, whether made through a QNode of the caller or through those of a layer, and a call without the unitary or the observable is refused.',
  ['inputs', 'histories'], 'every unitary, observable and wire tuple in bounds', 'tests run fixed gates on fixed wires', [CT, OT],
  [('state', CT + ':circuit_state_from_unitary'), ('expectation', CT + ':circuit_observable_from_unitary'),
   ('layer nodes', OT + ':LieLayer.__init__')])
P('C27', 'Calls leave their arguments and earlier results unchanged',
  'No function, layer or optimiser changes the matrices, parameter lists, observables, directions, wires or edges handed '
  'to it, nor a result it handed out before, and what a function returns is not shared with its arguments or with '
  'later results: a caller may reuse its inputs for a second run and gets the same answer.',
  ['inputs', 'histories'], 'all inputs in bounds, calls repeated on the same objects',
  'tests build fresh arguments for every call', [CT, OT, OP, UT, PL],
  [('functions', CT + ':get_full_operator'), ('layers', OT + ':LocalLieAlgebraLayer.__call__'),
   ('adaptive layers', OT + ':AdaptVQELayer.__call__'), ('optimisers', OP + ':approximate_lie_optimizer')])
P('C28', 'The parameter-shift optimiser descends the gradient of the summed expectation',
  'Each step of the parameter-shift optimiser subtracts the learning rate times the exact gradient of the sum of the '
  'expectation values of all observables, for flat and nested parameter lists, parameters shared between gates, scaled '
  'or unused, and the recorded costs, parameters and states are those of the parameters after each step.',
  ['inputs', 'histories'], 'all angles and learning rates, all circuits in bounds',
  'tests only see that the cost goes down', [OP], [('descent', OP + ':parameter_shift_optimizer')])
P('C29', 'Pauli words are built, keyed and printed as written',
  'A Pauli word keeps the letters, sites and coefficient it was written with, whether letters are given by name or by index and '
  'in whatever order the sites are listed; its key finds the operator of that word in the direction catalogues; its '
  'texts without coefficient are the same exactly for the same word, and the coefficient is printed unless it is one. '
  'Invalid sites, letters or coefficients, repeated sites and sums of unequal lengths are refused.',
  ['inputs'], 'all words, orders and coefficients in bounds', 'tests construct a few words in ascending order', [PA, OT],
  [('construction', PA + ':Pauli.__init__'), ('construction', PA + ':PauliMonomial.__init__'), ('key', PA + ':PauliMonomial.to_oranssi'),
   ('texts', PA + ':PauliMonomial.__repr__')])
P('C30', 'Direction plots draw the recorded directions',
  'The direction plots have one point per recorded unitary; every curve labelled with a Pauli word is the direction of '
  'that word, on the axes of its weight, curves are left out only where the direction vanishes, and the curve labelled '
  'SU(2^k) is the summed size of the directions of weight k. The cost landscape has phi on the horizontal and theta on '
  'the vertical axis.',
  ['inputs', 'histories'], 'all unitaries and costs in bounds', 'nothing in the test suite looks at a plot', [PL],
  [('separate', PL + ':plot_su16_directions_separate'), ('aggregated', PL + ':plot_su16_directions'),
   ('two qubits', PL + ':plot_su8_directions'), ('individual', PL + ':plot_su8_directions_individually'),
   ('landscape', PL + ':plot_bloch_sphere_2d')])
P('C31', 'The Zassenhaus layer alternates its phases and rotates along a gradient',
  'ZassenhausLayer makes ratio[0] calls in its SU(4) phase, each a rotation about the two-qubit word with the steepest '
  'gradient by the angle that minimises the cost, then ratio[1] calls in its SU(8) phase, and starts over. A call in '
  'the SU(8) phase rotates about a two-qubit word that shares one qubit with the word of the call before, does not '
  'commute with it and has gradients in its own direction and in that of the product; the angle is proportional to the '
  'step size and to the gradient of the product over the last best angle, with the sign of the commutator. Where no '
  'word qualifies the unitary is returned as it is and the next call is in the SU(4) phase.',
  ['inputs', 'histories'], 'all unitaries in bounds, every ratio and history of calls in bounds',
  'no test runs the layer beyond checking that the result is unitary', [OT, PA],
  [('call', OT + ':ZassenhausLayer.__call__'), ('construction', OT + ':ZassenhausLayer.__init__'), ('best angle', OT + ':rotosolve')])

P('C32', 'The stochastic layer steps along whatever direction its algebra draws',
  'A call of StochasticLieAlgebraLayer asks its algebra once for a Pauli word of weight one or two and an ordered tuple of '
  'qubits (in any order), and for each observable in turn multiplies the unitary from the left by exp(-eta/2^n <[P, O]> P), with P '
  'the drawn word on the drawn qubits and the expectation taken in the state before the call. The draw can be read off the '
  'layer afterwards, earlier draws and calls have no influence, and the unitary handed in is not changed.',
  ['inputs', 'schedules'], 'every draw, every sequence of two draws, all unitaries, observables and learning rates in bounds',
  'the one test of the layer cannot run, because drawing is left unimplemented; callers supply their own draw', [OT],
  [('call', OT + ':StochasticLieAlgebraLayer.__call__'), ('lazy catalogue', OT + ':AlgebraSU4.add_pauli')])

LEVEL_NOTE = ('bounded symbolic execution of the repository source with z3; sizes, steps and model assumptions are stated '
              'in DESIGN.md and in the evidence; exact real arithmetic, no floating-point rounding')


def main():
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, 'harness', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'],
                               thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --tier thorough' % p['id'],
                               technique='solver-based checking: symbolic execution of the real source, z3 decides each '
                                         'assertion for all inputs within bounds, counterexamples replayed on the real code',
                               level='model_checking', level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=p['id'], reason='no check built yet'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy, networkx, sympy"', checks=checks,
                       not_applicable=na), f, indent=1)


main()
