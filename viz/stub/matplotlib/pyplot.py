"""SAVED: path -> [(kind, values)] of the figure saved there, in the order of drawing"""
import os
import numpy as np
from matplotlib import Anything, colors as _colors

SAVED = {}
_current = None


class Axes(Anything):
    def __init__(self, figure):
        self.figure = figure

    def _add(self, kind, **values):
        self.figure.events.append((kind, values))

    def set_title(self, label, *args, **kwargs):
        self._add('title', text=label)

    def set_aspect(self, aspect, *args, **kwargs):
        self._add('aspect', aspect=aspect)

    def scatter(self, x, y, s=None, c=None, *args, norm=None, cmap=None, **kwargs):
        x, y, c = (np.array(v, dtype=float) for v in (x, y, c))
        if not len(x) == len(y) == len(c):
            raise ValueError('x, y and c must be of same size')
        norm = _colors.Normalize() if norm is None else norm
        norm.autoscale_None(c)
        self._add('scatter', x=x, y=y, c=c, mapped=np.array(norm(c), dtype=float), norm=norm)
        return Anything()

    def plot(self, *args, **kwargs):
        values = [a for a in args if not isinstance(a, str)]
        values = [np.atleast_1d(np.array(list(a) if isinstance(a, range) else a, dtype=float)) for a in values]
        if len(values) == 1:
            values.insert(0, np.arange(len(values[0]), dtype=float))
        x, y = values
        if len(x) != len(y):
            raise ValueError('x and y must have same first dimension')
        self._add('plot', x=x, y=y)
        return [Anything()]

    def boxplot(self, x, positions=None, **kwargs):
        # one box, or several of them
        boxes = [x] if np.ndim(x[0] if len(x) else 0) == 0 else list(x)
        positions = list(range(1, len(boxes) + 1)) if positions is None else list(positions)
        if len(positions) != len(boxes):
            raise ValueError('each box needs a position')
        for p, box in zip(positions, boxes):
            self._add('box', y=np.array(box, dtype=float), x=[p])
        return Anything()

    def hist(self, x, bins=None, **kwargs):
        x = np.array(x, dtype=float)
        n, edges = np.histogram(x, bins=10 if bins is None else bins)
        self._add('hist', y=x, n=n, edges=edges)
        return n, edges, Anything()


class Figure(Anything):
    def __init__(self):
        self.events = []
        self.axes = []

    def add_subplot(self, *args, **kwargs):
        return self.gca()

    def gca(self):
        if not self.axes:
            self.axes.append(Axes(self))
        return self.axes[0]

    def savefig(self, path, **kwargs):
        path = os.path.abspath(path)
        with open(path, 'x' if path in SAVED else 'w') as f:
            f.write(f'{len(self.events)} drawn\n')
        SAVED[path] = list(self.events)


def figure(*args, **kwargs):
    global _current
    _current = Figure()
    return _current


def subplots(*args, **kwargs):
    f = figure()
    return f, f.gca()


def gcf():
    return figure() if _current is None else _current


def gca():
    return gcf().gca()


def savefig(path, **kwargs):
    gcf().savefig(path, **kwargs)


def close(*args, **kwargs):
    global _current
    _current = None


class _Style:
    @staticmethod
    def use(*args, **kwargs):
        pass


style = _Style


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if name in ('scatter', 'plot', 'boxplot', 'hist'):
        return getattr(gca(), name)
    if name == 'title':
        return gca().set_title
    return Anything()
