"""Oracles shared by the scenarios: independent of the code under test, used in symbolic and in concrete mode."""
import itertools

PAULI = {'I': [[1, 0], [0, 1]], 'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]]}


def word(env, w):
    """matrix of a Pauli word, left letter = first qubit"""
    n = len(w)
    N = 2 ** n
    rows = []
    for r in range(N):
        row = []
        for c in range(N):
            t = 1
            for q, ch in enumerate(w):
                t = t * PAULI[ch][(r >> (n - 1 - q)) & 1][(c >> (n - 1 - q)) & 1]
                if t == 0:
                    break
            row.append(t)
        rows.append(row)
    return env.arr(rows)


def placed(env, w, wires, n):
    """Pauli word on the given wires of n qubits"""
    full = ['I'] * n
    for ch, q in zip(w, wires):
        full[q] = ch
    return word(env, ''.join(full))


def words(n, letters='XYZ'):
    return [''.join(t) for t in itertools.product(letters, repeat=n)]


def eye(env, N):
    return env.arr([[1 if i == j else 0 for j in range(N)] for i in range(N)])


def zeros(env, N):
    return env.arr([[0] * N for _ in range(N)])


def dag(A):
    return A.conj().T


def col(U):
    """the state a unitary prepares from |0..0>"""
    return U[:, 0]


def bracket(env, psi, A):
    """<psi|A|psi>, complex"""
    phi = A @ psi
    t = 0
    for a, b in zip(psi, phi):
        t = t + a.conjugate() * b
    return t


def scaled(env, A, ref):
    """replays compare with a tolerance: what scales with the inputs is measured against them"""
    if env.symbolic:
        return A
    m = float(abs(ref).max())
    return A / m if m > 1e-290 else A


def outer(env, psi):
    n = len(psi)
    return env.arr([[psi[i] * psi[j].conjugate() for j in range(n)] for i in range(n)])


# ------------------------------------------------------------------------------------------ PennyLane side
def obs_list(env, spec):
    """spec: list of (word, wires) -> PennyLane observables"""
    qml = env.qml
    P = {'X': qml.PauliX, 'Y': qml.PauliY, 'Z': qml.PauliZ, 'I': qml.Identity}
    out = []
    for w, wires in spec:
        o = None
        for ch, q in zip(w, wires):
            p = P[ch](q)
            o = p if o is None else o @ p
        out.append(o)
    return out


def obs_mats(env, spec, n):
    return [placed(env, w, wires, n) for w, wires in spec]


def unitary_circuit(env, W, n):
    """a circuit whose unitary is W"""
    qml = env.qml

    def circuit(params, **kwargs):
        qml.QubitUnitary(W, wires=list(range(n)))
        return qml.state()
    return circuit


def cost(env, U, mats):
    t = 0
    for O in mats:
        t = t + env.expect(col(U), O)
    return t


def prepared(env, start, n):
    """unitaries (as products of real gates) of some states: GHZ, all zero, tilted product"""
    V = eye(env, 2 ** n)
    if start == 'ghz':
        h = 1 / env.sqrt(2)
        V = env.embed(env.arr([[h, h], [h, -1 * h]]), (0,), n) @ V
        for q in range(1, n):
            V = env.embed(env.arr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]), (q - 1, q), n) @ V
    elif start == 'tilt':
        for q in range(n):
            c, s = [(0.6, 0.8), (0.28, 0.96), (0.8, -0.6), (0.96, 0.28)][q % 4]
            V = env.embed(env.arr([[c, -1 * s], [s, c]]), (q,), n) @ V
    elif start != 'zero':
        raise ValueError(start)
    return V


def family(env, start, rotation, n, tag):
    """a one-parameter family of unitaries through a prepared one: all rotations about a word"""
    V = prepared(env, start, n)
    t = env.angle(tag)
    P = placed(env, rotation[0], rotation[1], n)
    return env.cos(t / 2) * V - 1j * env.sin(t / 2) * (P @ V)
