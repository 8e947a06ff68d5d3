"""rewrites the property table of DESIGN.md from properties.jsonl, the bounds in harness/ and the last evidence"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NEW = {
    'C26': ('circuit_state_from_unitary, circuit_observable_from_unitary, through QNodes of the caller and of a layer',
            'first column of the matrix; expectation value from the column and the embedded observable'),
    'C27': ('every function, layer and optimiser call of the other checks, with its arguments and results frozen before and compared after',
            'the frozen copies, entry by entry'),
    'C28': ('parameter_shift_optimizer with a differentiating model of the optimiser',
            'parameter-shift rule on the closed-form state of the circuit'),
    'C29': ('Pauli, PauliMonomial, PauliSum constructors, to_oranssi, __repr__, tex; look-up in AlgebraSU4/SU8',
            'the word as written; tensor product by index formula; texts equal iff words equal'),
    'C30': ('LandscapeDirections, plot functions of plot_utils with a recording stand-in for matplotlib',
            'directions recomputed from the unitaries by the index formula'),
    'C31': ('ZassenhausLayer over several calls, both phases', 'gradients, commutators and best angles recomputed from the state'),
    'C32': ('StochasticLieAlgebraLayer with a draw supplied as a fork over all words and ordered qubit tuples',
            'formula of the statement'),
}


def esc(s):
    return s.replace('|', '\\|')


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    lines = open(p).read().split('\n')
    rows = {}
    for l in lines:
        if l.startswith('| C') and l[2:5] not in rows and l.count(' | ') >= 4:
            c = [x.strip() for x in l.replace('\\|', '\0').strip('|').split('|')]
            if len(c) == 5:
                rows[l[2:5]] = (c[1].replace('\0', '|'), c[2].replace('\0', '|'))
    rows.update({k: v for k, v in NEW.items() if k not in rows})
    start = next(i for i, l in enumerate(lines) if l.startswith('|----|'))
    end = start + 1
    while lines[end].startswith('| C'):
        end += 1
    out = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        q = json.loads(l)
        h = importlib.import_module('harness.' + q['id'].lower())
        b = h.BOUNDS['quick'] + '. *T*: ' + h.BOUNDS.get('thorough', 'as quick')
        if getattr(h, 'ASSUMPTIONS', []):
            b += '. Assumes: ' + '; '.join(h.ASSUMPTIONS)
        e = os.path.join(HERE, 'evidence', q['id'] + '.json')
        w = '%d s' % round(json.load(open(e))['wall_s']) if os.path.exists(e) else ''
        out.append('| %s %s | %s | %s | %s | %s |' % (q['id'], q['title'], esc(rows[q['id']][0]), esc(rows[q['id']][1]), esc(b), w))
    lines[start + 1:end] = out
    open(p, 'w').write('\n'.join(lines))


main()
