"""C22: Bloch-sphere conversions."""
from . import lib

BOUNDS = {'quick': 'no bound: all angles; all points of the unit sphere; all points whose radius differs from one by up to 1e-9; '
                   'all complex 2x2 matrices for the trace test', 'thorough': 'as quick'}
ASSUMPTIONS = ['azimuths within 1.1e-3 of 2 pi may be reported as 0 (documented snapping); the angles then give the state '
               'back up to 6e-4']
SNAP = 6e-4


def rho_of(env, x, y, z, t=1):
    return env.arr([[(t + z) / 2, (x - 1j * y) / 2], [(x + 1j * y) / 2, (t - z) / 2]])


def to_state(env):
    pl = env.mod('plot_utils')
    phi, theta = env.angle('phi'), env.angle('theta')
    rho = pl.spherical_to_state(phi, theta)
    st = env.sin(theta)
    env.ok('a 2x2 matrix', tuple(rho.shape) == (2, 2))
    env.eq('the density matrix of the point', rho, rho_of(env, st * env.cos(phi), st * env.sin(phi), env.cos(theta)))
    env.out('rho', rho)


def ranges(env, phi, theta):
    env.ok('azimuth at least 0', phi >= 0)
    env.ok('azimuth below 2 pi', phi < 2 * env.pi)
    env.ok('polar angle in [0, pi]', env.all([theta >= 0, theta <= env.pi]))


def back(env, eps, where):
    """angles of a pure state give the state back"""
    pl = env.mod('plot_utils')
    z = {'north': 1.0, 'south': -1.0}.get(where)
    x, y = env.real('x', -2, 2), env.real('y', -2, 2)
    if z is None:
        z = env.real('z', -2, 2)
    else:
        if eps:
            z = z + env.real('dz', -eps / 2, eps / 2)
    if where == 'cut':
        y = 0.0
        env.assume(x > 0)
    elif where == 'back cut':
        y = 0.0
        env.assume(x < 0)
    r2 = x * x + y * y + z * z
    if env.symbolic:
        if eps:
            env.assume(env.all([r2 <= (1 + eps) ** 2, r2 >= (1 - eps) ** 2]))
        else:
            env.assume(r2 == 1)
    else:
        env.assume(abs(r2 - 1) <= 2.5 * eps + 1e-9)
    rho = rho_of(env, x, y, z)
    phi, theta = pl.state_to_spherical(rho)
    ranges(env, phi, theta)
    got = pl.spherical_to_state(phi, theta)
    come_back(env, got, rho, theta, x, y, eps)
    env.out('state', [got[0, 0], got[1, 1]])


def come_back(env, got, rho, theta, x, y, eps=0):
    if env.symbolic:
        # steps on the way, each proved and then used
        s, a = env.sin(theta), env.atan2(y, x)
        r = env.abs(x + 1j * y)
        c, d = env.cos(a), env.sin(a)
        step(env, 'sin theta is not negative', s >= 0)
        step(env, 'x and y from the azimuth', env.all([r * c == x, r * d == y]))
        if eps:
            step(env, 'sin theta squared is near the radius squared', env.all([s * s - r * r <= 3e-9, r * r - s * s <= 3e-9]))
            step(env, 'sin theta is near the radius', env.all([s - r <= 6e-5, r - s <= 6e-5]))
        else:
            step(env, 'sin theta squared is the radius squared', s * s == r * r)
            step(env, 'sin theta is the radius', s == r)
        step(env, 'the radius is at most one', r <= 1.001)
    env.near('the state comes back', got, rho, SNAP if not eps else 1e-3)


def step(env, label, c):
    env.ok(label, c)
    env.assume(c)


def exact(env):
    """away from the snapping the state comes back exactly"""
    pl = env.mod('plot_utils')
    x, y, z = env.real('x', -1, 1), env.real('y', -1, 1), env.real('z', -1, 1)
    if env.symbolic:
        env.assume(x * x + y * y + z * z == 1)
    else:
        r = (x * x + y * y + z * z) ** 0.5
        env.assume(r > 0.1)
        x, y, z = x / r, y / r, z / r
    env.assume(env.any([y > 0.01, x < 0]))
    rho = rho_of(env, x, y, z)
    phi, theta = pl.state_to_spherical(rho)
    env.eq('the state comes back', pl.spherical_to_state(phi, theta), rho)
    env.out('p', rho[0, 0])


def from_vector(env):
    """the state of an arbitrary amplitude vector"""
    pl = env.mod('plot_utils')
    a, b = env.real('a', 0, 1), env.cplx('b')
    n2 = a * a + (b * b.conjugate()).real
    if env.symbolic:
        env.assume(n2 == 1)
    else:
        env.assume(n2 > 0.01)
        a, b = a / n2 ** 0.5, b / n2 ** 0.5
    rho = lib.outer(env, [a + 0j if not env.symbolic else env.arr([a])[0], b])
    phi, theta = pl.state_to_spherical(rho)
    ranges(env, phi, theta)
    come_back(env, pl.spherical_to_state(phi, theta), rho, theta, 2 * (a * b).real, 2 * (a * b).imag)
    env.out('rho', rho)


def trace(env):
    pl = env.mod('plot_utils')
    rho = env.matrix('rho', 2)
    o = env.call(lambda: pl.state_to_spherical(rho))
    t = rho[0, 0] + rho[1, 1] - 1
    d2 = t.real * t.real + t.imag * t.imag
    if o.ok:
        env.ok('accepted: the trace is one', d2 <= 1e-8)
    else:
        env.ok('refused', o.raised == 'AssertionError')
        env.ok('refused: the trace is not one', d2 > (1e-14 if env.symbolic else 0))
    env.out('accepted', o.ok)


def scenarios(tier):
    out = [('to_state', to_state, {}), ('exact', exact, {}), ('vector', from_vector, {}), ('trace', trace, {})]
    for eps in (0, 1e-9):
        for w in ('sphere', 'north', 'south', 'cut', 'back cut'):
            out.append(('back_%s%s' % (w.replace(' ', '_'), '_rounded' if eps else ''), back, dict(eps=eps, where=w)))
    return out
