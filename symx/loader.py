"""Loads /repo's current source into modules whose imports and a few builtins are the symbolic ones."""
import builtins
import importlib
import math
import os
import sys
import types
import numpy as np
from .engine import ENGINE, Unsupported
from .scalar import S, SBool, S_of, as_bool
from . import snp, sscipy, sqml, smpl

REPO = os.environ.get('ORANSSI_REPO', '/repo')
_code = {}


class RandomModule(types.ModuleType):
    """the random module: every draw is an arbitrary admissible value"""

    def __init__(self):
        super().__init__('random')

    def seed(self, *a, **k):
        pass

    def choice(self, seq):
        seq = list(seq)
        if not seq:
            raise IndexError('Cannot choose from an empty sequence')
        return seq[ENGINE.env.havoc_choice('choice', len(seq))]

    def randint(self, a, b):
        return a + ENGINE.env.havoc_choice('randint', b - a + 1)

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return a + ENGINE.env.havoc_choice('randint', b - a)

    def shuffle(self, l):
        n = len(l)
        for i in range(n - 1):
            j = i + ENGINE.env.havoc_choice('shuffle', n - i)
            l[i], l[j] = l[j], l[i]

    def sample(self, pop, k):
        l = list(pop)
        self.shuffle(l)
        return l[:k]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random.%s' % n)


class MathModule(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        for n in ('sqrt', 'cos', 'sin', 'exp', 'atan2', 'isclose', 'fabs', 'prod'):
            setattr(self, n, getattr(self, '_' + n))

    @staticmethod
    def _sqrt(x):
        return snp.SNP.sqrt(x)

    @staticmethod
    def _cos(x):
        return snp.SNP.cos(x)

    @staticmethod
    def _sin(x):
        return snp.SNP.sin(x)

    @staticmethod
    def _exp(x):
        return snp.SNP.exp(x)

    @staticmethod
    def _atan2(y, x):
        return snp.SNP.arctan2(y, x)

    @staticmethod
    def _fabs(x):
        return abs(x)

    @staticmethod
    def _prod(x):
        return snp.SNP.prod(list(x))

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, S) or isinstance(b, S):
            raise Unsupported('math.isclose')
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(math, n)


def _values(items, key):
    return [key(i) if key is not None else i for i in items]


def _sym_any(vals):
    return any(isinstance(v, (S, SBool)) or (isinstance(v, np.ndarray) and v.dtype == object) for v in vals)


_NO = object()


def _num(v):
    return v.reshape(-1)[0] if isinstance(v, np.ndarray) and v.size == 1 else v


def s_max(*args, key=None, default=_NO):
    items = list(args[0]) if len(args) == 1 else list(args)
    if not items:
        if default is not _NO:
            return default
        raise ValueError('max() arg is an empty sequence')
    vals = _values(items, key)
    if _sym_any(vals):
        return items[snp.argmax_list([_num(v) for v in vals])]
    return items[max(range(len(vals)), key=lambda i: vals[i])] if key is not None else max(items)


def s_min(*args, key=None, default=_NO):
    items = list(args[0]) if len(args) == 1 else list(args)
    if not items:
        if default is not _NO:
            return default
        raise ValueError('min() arg is an empty sequence')
    vals = _values(items, key)
    if _sym_any(vals):
        return items[snp.argmax_list([-_num(v) for v in vals])]
    return items[min(range(len(vals)), key=lambda i: vals[i])] if key is not None else min(items)


def s_round(x, n=None):
    return x.__round__(n) if isinstance(x, S) else round(x, n)


class Program:
    """one fresh instance of the repository's modules"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.random = RandomModule()
        self.stub = {
            'numpy': snp.SNP, 'numpy.linalg': snp.SNP.linalg, 'numpy.random': snp.SNP.random,
            'scipy': sscipy.SCIPY, 'scipy.linalg': sscipy.SCIPY.linalg, 'scipy.optimize': sscipy.SCIPY.optimize,
            'pennylane': sqml.QML, 'pennylane.wires': sqml.QML.wires, 'random': self.random, 'math': MathModule(),
        }
        mpl = smpl.Matplotlib()
        self.stub.update({'matplotlib': mpl, 'matplotlib.pyplot': mpl.pyplot})
        b = dict(vars(builtins))
        b.update(float=snp.FloatShim, int=snp.IntShim, complex=snp.ComplexShim, bool=snp.BoolShim,
                 max=s_max, min=s_min, print=lambda *a, **k: None, round=s_round, __import__=self._import)
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'oranssi':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(self._path(name + '.' + f)):
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self.load('oranssi')
        if top in self.stub:
            if fromlist:
                if name in self.stub:
                    return self.stub[name]
                m = self.stub[top]
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
                return m
            return self.stub[top]
        return importlib.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self._path(name)
        code = _code.get(path)
        if code is None:
            if not os.path.exists(path):
                raise ModuleNotFoundError('No module named %r' % name)
            with open(path) as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = _code[path] = compile(src, path, 'exec')
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, child = name.rpartition('.')
        if parent:
            setattr(self.load(parent), child, m)
        return m


class Coverage:
    """functions of /repo whose code was executed"""

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        try:
            mon.use_tool_id(self.tool, 'symx')
        except ValueError:
            pass
        prefix = os.path.join(REPO, 'oranssi') + os.sep

        def cb(code, off):
            if code.co_filename.startswith(prefix):
                self.seen.add(os.path.relpath(code.co_filename, REPO) + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, cb)
        mon.set_events(self.tool, mon.events.PY_START)
