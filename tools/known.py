"""writes known_findings.json (by hand)"""
import json, os
F = [('C14', 'e3fc9ec', 'rotosolve scaled the angle wrongly and did not end in the minimum'),
     ('C20', '5aa3357', 'get_commuting_set could return an empty or overlapping selection, and failed for one edge listed twice'),
     ('C17', 'e671e2d', 'products and conjugates of monomials ignored a total coefficient set by commutator or scalar_mul'),
     ('C18', '41e45ea', 'PauliSum operations changed their operands'),
     ('C19', '5126a88', 'equal Paulis with different coefficients had different hashes'),
     ('C19', '6416f5e', 'monomial `<` was not asymmetric'),
     ('C23', '2a1381a', 'unitary_error_check replaced the exponential by a wrong matrix instead of projecting it'),
     ('C05', 'aeb14fd', 'get_lie_algebra_directions failed for several layer classes'),
     ('C12', '569ec91', 'CustomDirectionLieAlgebraLayer failed with directions=None'),
     ('C10', '5ead630', 'return_params was not validated'),
     ('C31', '3b5db5b', 'ZassenhausLayer raised UnboundLocalError when no SU(8) direction has a gradient (for example from |000> or at a minimum)'),
     ('C30', 'e2f9856', 'plot_su16_directions_separate called get_all_su_n_directions with the wrong arguments'),
     ('C08', '3fdb9a6', 'exact_lie_optimizer perturbed the unitary after the last step, so results disagreed'),
     ('C02', 'fd5434a', 'circuits with a state preparation were silently accepted'),
     ('C22', 'e499935', 'state_to_spherical returned nan for states whose z coefficient rounds beyond 1'),
     ('C27', '86c0309', 'AdaptVQELayer appended to the parameter list of its caller'),
     ('C08', 'c3de049', 'approximate_lie_optimizer lost gates and unitaries of commuting layers')]
json.dump({'findings': [], 'fixed': ['fixed: property=%s %s %s' % f for f in F]},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
