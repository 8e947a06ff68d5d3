"""A stand-in for matplotlib.pyplot that records the curves: figures have axes, axes have lines, lines have data."""
import types
import numpy as np
from .engine import Unsupported


class Inert:
    """decoration: every attribute is a callable that returns another one"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()

    def __call__(self, *a, **k):
        return Inert()


class Text:
    def __init__(self):
        self.size, self.text = 10.0, ''

    def set_fontsize(self, s):
        self.size = s
    set_size = set_fontsize

    def get_fontsize(self):
        return self.size
    get_size = get_fontsize

    def get_text(self):
        return self.text

    def set_text(self, t):
        self.text = t

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()


class AxisOf:
    def __init__(self):
        self.label = Text()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()


class Line(Inert):
    def __init__(self, x, y, label):
        self.x, self.y, self.label = x, y, label

    def get_label(self):
        return self.label

    def set_label(self, s):
        self.label = str(s)

    def get_ydata(self, orig=True):
        return self.y

    def get_xdata(self, orig=True):
        return self.x

    def set_ydata(self, y):
        self.y = list(y)

    def get_data(self):
        return self.x, self.y


class Axes:
    def __init__(self, fig):
        self.figure, self.lines = fig, []
        self.xaxis, self.yaxis = AxisOf(), AxisOf()
        self.ticks = [[Text() for _ in range(3)] for _ in range(2)]

    def plot(self, *a, **k):
        a = [x for x in a if not isinstance(x, str)]
        if len(a) == 1:
            y = list(a[0])
            x = list(range(len(y)))
        elif len(a) == 2:
            x, y = list(a[0]), list(a[1])
        else:
            raise Unsupported('several curves in one plot call')
        if len(x) != len(y):
            raise ValueError('x and y must have same first dimension')
        for v in y:
            if isinstance(v, (list, tuple)) or getattr(v, 'ndim', 0):
                raise Unsupported('matrix of curves')
        self.lines.append(Line(x, y, str(k.get('label', '_line%d' % len(self.lines)))))
        return [self.lines[-1]]

    def get_lines(self):
        return list(self.lines)

    def set_xlabel(self, s, **k):
        self.xaxis.label.text = s

    def set_ylabel(self, s, **k):
        self.yaxis.label.text = s

    def get_xlabel(self):
        return self.xaxis.label.text

    def get_ylabel(self):
        return self.yaxis.label.text

    def get_xticklabels(self):
        return list(self.ticks[0])

    def get_yticklabels(self):
        return list(self.ticks[1])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def subplots(self, r=1, c=1, squeeze=True, **k):
        A = np.empty((r, c), dtype=object)
        for i in range(r):
            for j in range(c):
                A[i, j] = self.add_subplot()
        if squeeze:
            return A[0, 0] if r == c == 1 else A.reshape(-1) if 1 in (r, c) else A
        return A

    def gca(self, **k):
        return self.axes[-1] if self.axes else self.add_subplot()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()


class Pyplot(types.ModuleType):
    def __init__(self):
        super().__init__('matplotlib.pyplot')
        self.figs = []
        self.Axes, self.Figure = Axes, Figure
        self.cm = Inert()
        self.rcParams = {}

    def figure(self, *a, **k):
        self.figs.append(Figure())
        return self.figs[-1]

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def gca(self, **k):
        return self.gcf().gca()

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, squeeze=k.get('squeeze', True))

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def close(self, which=None):
        self.figs = [] if which == 'all' else self.figs[:-1] if which is None else [f for f in self.figs if f is not which]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()


class Matplotlib(types.ModuleType):
    def __init__(self):
        super().__init__('matplotlib')
        self.pyplot = Pyplot()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert()
