"""C18: Pauli sums."""
from . import lib

BOUNDS = {'quick': 'sums of up to four monomials on 1-2 sites, repeated words included, arbitrary real and complex coefficients; '
                   'construction, +, -, *, scalar multiples and chains of them',
          'thorough': 'as quick with sums of up to six monomials and longer chains'}
ASSUMPTIONS = ['monomials of one sum have the same length (others are refused)',
               'the documented dropping of coefficients with |c| <= 1e-8 is allowed for, per word']
TOL = 2.1e-8
SITES = [1, 4]
T = {'II': (1, 'I'), 'IX': (1, 'X'), 'IY': (1, 'Y'), 'IZ': (1, 'Z'), 'XI': (1, 'X'), 'YI': (1, 'Y'), 'ZI': (1, 'Z'),
     'XX': (1, 'I'), 'YY': (1, 'I'), 'ZZ': (1, 'I'), 'XY': (1j, 'Z'), 'YX': (-1j, 'Z'), 'YZ': (1j, 'X'),
     'ZY': (-1j, 'X'), 'ZX': (1j, 'Y'), 'XZ': (-1j, 'Y')}


def mono(pa, w, c):
    return pa.PauliMonomial([pa.Pauli(SITES[i], ch, coeff=c if i == 0 else 1.0) for i, ch in enumerate(w)])


def coeffs(s):
    """word -> coefficient"""
    out = {}
    for m in s.pauli_sum:
        k = ' '.join('%s%d' % ('IXYZ'[p.gamma], p.alpha) for p in m.monomial)
        out[k] = out.get(k, 0) + m.coeff
    return out


def key(w):
    return ' '.join('%s%d' % (ch, SITES[i]) for i, ch in enumerate(w))


def mul(a, b):
    out = {}
    for k, x in a.items():
        for l, y in b.items():
            f, w = 1, []
            for p, q in zip(k.split(), l.split()):
                g, r = T[p[0] + q[0]]
                f = f * g
                w.append(r + p[1:])
            t = ' '.join(w)
            out[t] = out.get(t, 0) + f * x * y
    return out


def add(a, b, s=1):
    out = dict(a)
    for k, y in b.items():
        out[k] = out.get(k, 0) + s * y
    return out


def same(env, label, s, want, tol=TOL):
    got = coeffs(s)
    ks = sorted(set(got) | set(want))
    env.near(label, [got.get(k, 0) for k in ks], [want.get(k, 0) for k in ks], tol)
    env.ok(label + ': length', len(s) == len(s.pauli_sum))


def coef(env, kind, name):
    return env.cplx(name) if kind == 'c' else env.real(name) if kind == 'r' else kind


def build(env, words):
    pa = env.mod('pauli')
    ms, want = [], {}
    kinds = env.choice('kinds', ['r', 'c', 'rc']) if len(words) > 1 else env.choice('kinds', ['r', 'c'])
    for i, w in enumerate(words):
        c = coef(env, kinds[i % len(kinds)], 'c%d' % i)
        ms.append(mono(pa, w, c))
        want[key(w)] = want.get(key(w), 0) + c
    before = [m.coeff for m in ms]
    s = pa.PauliSum(ms)
    same(env, 'the sum of its monomials', s, want)
    env.eq('the monomials keep their coefficients', [m.coeff for m in ms], before)
    env.ok('the list of monomials is unchanged', len(ms) == len(words) and all(
        [p.gamma for p in m.monomial] == ['IXYZ'.index(ch) for ch in w] for m, w in zip(ms, words)))
    s.simplify()
    same(env, 'simplifying again keeps the sum', s, want, 2 * TOL)
    env.out('sum', sorted(coeffs(s).items()))


def program(env, sums, ops, kinds='r', scalar='real'):
    """sums: name -> words; ops: (op, x, y) with the result called R"""
    pa = env.mod('pauli')
    S, V = {}, {}
    for n, ws in sums.items():
        ms = [mono(pa, w, coef(env, kinds[i % len(kinds)], '%s%d' % (n, i))) for i, w in enumerate(ws)]
        S[n] = pa.PauliSum(ms)
        V[n] = coeffs(S[n])
    for k, (op, x, y) in enumerate(ops):
        lab = 'step %d %s: ' % (k + 1, op)
        names = [n for n in S if n != 'R' or 'R' in (x, y)]
        held = {n: S[n] for n in names}
        before = {n: (coeffs(S[n]), len(S[n])) for n in names}
        if op == 'scale':
            c = {'real': lambda: env.real('s%d' % k), 'cplx': lambda: env.cplx('s%d' % k), 'int': lambda: 3}[scalar]()
            S[x].scalar_mul(c)
            same(env, lab + 'scalar multiple', S[x], {w: c * v for w, v in before[x][0].items()})
            held.pop(x)
        else:
            a, b = before[x][0], before[y][0]
            if op == 'add':
                R, want = S[x] + S[y], add(a, b)
            elif op == 'sub':
                R, want = S[x] - S[y], add(a, b, -1)
            else:
                R, want = S[x] * S[y], mul(a, b)
            same(env, lab + 'result', R, want)
            S['R'] = R
        for n, s in held.items():
            now = coeffs(s)
            env.ok(lab + n + ' keeps its words', sorted(now) == sorted(before[n][0]) and len(s) == before[n][1])
            if sorted(now) == sorted(before[n][0]):
                env.eq(lab + n + ' keeps its value', [now[w] for w in sorted(now)], [before[n][0][w] for w in sorted(now)])
    if 'R' in S:
        env.out('R', sorted(coeffs(S['R']).items()))


def aliased(env, op):
    """changing a result must not change what it was made of"""
    pa = env.mod('pauli')
    a = mono(pa, 'XZ', env.real('a'))
    b = mono(pa, 'YY', env.real('b'))
    A, B = pa.PauliSum([a]), pa.PauliSum([b, a])
    va, vb, ma = coeffs(A), coeffs(B), a.coeff
    R = A + B if op == 'add' else A - B if op == 'sub' else A * B if op == 'mul' else pa.PauliSum(A.pauli_sum)
    R.scalar_mul(2.5)
    for k in sorted(vb):
        env.eq('second operand', coeffs(B).get(k, 0), vb[k])
    env.eq('first operand', coeffs(A).get(key('XZ'), 0), va[key('XZ')])
    env.eq('monomial', a.coeff, ma)
    A.scalar_mul(-1)
    env.eq('monomial after scaling a sum made of it', a.coeff, ma)
    env.eq('the other sum after scaling', [coeffs(B).get(k, 0) for k in sorted(vb)], [vb[k] for k in sorted(vb)])
    env.out('R', sorted(coeffs(R).items()))


def refused(env):
    pa = env.mod('pauli')
    X, XX = mono(pa, 'X', 1.0), mono(pa, 'XX', 1.0)
    env.ok('different lengths are refused', env.call(lambda: pa.PauliSum([X, XX])).raised == 'AssertionError')
    env.ok('what is not a monomial is refused', env.call(lambda: pa.PauliSum([X, 2.0])).raised == 'AssertionError')
    s = pa.PauliSum([X])
    env.ok('a scalar that is not a number is refused', env.call(lambda: s.scalar_mul('2')).raised == 'AssertionError')
    env.ok('the empty sum has no terms', len(pa.PauliSum([])) == 0)
    env.out('n', len(s))


def scenarios(tier):
    out = [('build_%s' % '_'.join(ws), build, dict(words=ws)) for ws in (
        ['X'], ['X', 'X'], ['X', 'Y', 'X'], ['Z', 'Z', 'Z'], ['X', 'Y', 'X', 'Y'], ['XY', 'YX', 'XY'], ['XI', 'IX', 'XI'],
        ['XX', 'XX', 'ZZ', 'ZZ'])]
    A, B, C = ['X', 'Z'], ['X', 'Y'], ['Z', 'X']
    P = {'add': [('add', 'A', 'B')], 'sub': [('sub', 'A', 'B')], 'mul': [('mul', 'A', 'B')], 'self_sub': [('sub', 'A', 'A')],
         'self_add': [('add', 'A', 'A')], 'square': [('mul', 'A', 'A')], 'add_sub': [('add', 'A', 'B'), ('sub', 'R', 'B')],
         'scale_sub': [('scale', 'A', None), ('sub', 'A', 'B')], 'scaled_result': [('add', 'A', 'B'), ('scale', 'R', None)],
         'sub_sub': [('sub', 'A', 'B'), ('sub', 'R', 'A')], 'cancel_mul': [('sub', 'A', 'A'), ('mul', 'R', 'B')],
         'mul_add': [('mul', 'A', 'B'), ('add', 'R', 'C')]}
    for k, ops in P.items():
        sums = {n: ws for n, ws in zip('ABC', (A, B, C)) if any(n in o for o in ops)}
        out.append(('n1_' + k, program, dict(sums=sums, ops=ops)))
    for k in ('add', 'sub', 'mul', 'scaled_result'):
        out.append(('n2_' + k, program, dict(sums={'A': ['XY', 'ZI'], 'B': ['ZI', 'XY']}, ops=P[k], scalar='cplx')))
        out.append(('complex_' + k, program, dict(sums={'A': ['X', 'Z'], 'B': ['Z']}, ops=P[k], kinds='c', scalar='int')))
    for op in ('add', 'sub', 'mul', 'copy'):
        out.append(('aliased_' + op, aliased, dict(op=op)))
    out.append(('refused', refused, {}))
    if tier == 'thorough':
        out += [('build_%s' % '_'.join(ws), build, dict(words=ws)) for ws in (
            ['X', 'Y', 'X', 'Y', 'X'], ['XX', 'YY', 'XX', 'YY', 'ZZ', 'XX'])]
        for k, ops in P.items():
            sums = {n: ws for n, ws in zip('ABC', (['XY', 'ZZ', 'YI'], ['YX', 'ZZ'], ['XY'])) if any(n in o for o in ops)}
            out.append(('n2big_' + k, program, dict(sums=sums, ops=ops)))
            out.append(('rc_' + k, program, dict(sums={n: ws for n, ws in zip('ABC', (A, B, C))}, ops=ops, kinds='rc')))
    return out
