"""C06: the parameter-shift commutator."""
import itertools
from . import lib

BOUNDS = {'quick': '1-3 qubits, arbitrary complex rho, every Pauli word up to weight 2 (1-2 qubits) and selected words on '
                   '3, every reflection axis on one qubit, gates built as cosine/sine form or matrix exponential',
          'thorough': 'as quick with every word on 3 qubits'}


def comm(env, rho, O):
    return 1j * (rho @ O - O @ rho)


def words(env, n, ws, mode):
    ct = env.mod('circuit_tools')
    w = env.choice('word', ws)
    O = lib.word(env, w)
    rho = env.matrix('rho', 2 ** n)
    I = lib.eye(env, 2 ** n)
    if mode == 'expm':
        gate = lambda t: env.expm(-1j * t / 2 * O)
    else:
        gate = lambda t: env.cos(t / 2) * I - 1j * env.sin(t / 2) * O
    got = ct.param_shift_comm(rho, gate)
    env.out('commutator', got)
    env.eq('parameter shift with %s' % w, got, comm(env, rho, O))


def axis(env):
    ct = env.mod('circuit_tools')
    nx, ny, nz = env.real('nx'), env.real('ny'), env.real('nz')
    env.assume(env.equal(nx * nx + ny * ny + nz * nz, 1))
    O = env.arr([[nz, nx - 1j * ny], [nx + 1j * ny, -1 * nz]])
    I = lib.eye(env, 2)
    rho = env.matrix('rho', 2)
    got = ct.param_shift_comm(rho, lambda t: env.cos(t / 2) * I - 1j * env.sin(t / 2) * O)
    env.eq('parameter shift along an arbitrary axis', got, comm(env, rho, O))


def density(env, n):
    ct = env.mod('circuit_tools')
    psi = env.state('psi', 2 ** n)
    rho = lib.outer(env, psi)
    w = env.choice('word', ['X', 'Y', 'Z'] if n == 1 else ['ZZ', 'XY', 'IX'])
    O = lib.word(env, w)
    I = lib.eye(env, 2 ** n)
    G = ct.param_shift_comm(rho, lambda t: env.cos(t / 2) * I - 1j * env.sin(t / 2) * O)
    env.out('gradient', G)
    env.eq('the gradient is Hermitian', G, lib.dag(G))
    env.eq('the gradient is traceless', sum(G[i, i] for i in range(2 ** n)), 0)


OPTIONS = {'axis': {'witness': 0}}


def scenarios(tier):
    w3 = ['XYZ', 'ZIZ', 'IIY', 'YXI']
    out = []
    for mode in ('trig', 'expm'):
        out += [('words_n1_' + mode, words, dict(n=1, ws=lib.words(1, 'IXYZ'), mode=mode)),
                ('words_n2_' + mode, words, dict(n=2, ws=lib.words(2, 'IXYZ'), mode=mode)),
                ('words_n3_' + mode, words, dict(n=3, ws=w3 if tier == 'quick' else lib.words(3, 'IXYZ'), mode=mode))]
    return out + [('axis', axis, {}), ('density_n1', density, dict(n=1)), ('density_n2', density, dict(n=2))]
