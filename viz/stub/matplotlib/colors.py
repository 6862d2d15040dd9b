import numpy as np
from matplotlib import Anything


class Normalize:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin = None if vmin is None else float(vmin)
        self.vmax = None if vmax is None else float(vmax)
        self.clip = clip

    def autoscale(self, A):
        self.vmin = self.vmax = None
        self.autoscale_None(A)

    def autoscale_None(self, A):
        A = np.asanyarray(A)
        if self.vmin is None and A.size:
            self.vmin = A.min()
        if self.vmax is None and A.size:
            self.vmax = A.max()

    def scaled(self):
        return self.vmin is not None and self.vmax is not None

    def __call__(self, value, clip=None):
        self.autoscale_None(value)
        v = np.ma.masked_array(np.asarray(value, dtype=float))
        if self.vmin == self.vmax:
            return v * 0.0
        if self.vmin > self.vmax:
            raise ValueError('minvalue must be less than or equal to maxvalue')
        return (v - self.vmin) / (self.vmax - self.vmin)


class TwoSlopeNorm(Normalize):
    def __init__(self, vcenter, vmin=None, vmax=None):
        super().__init__(vmin=vmin, vmax=vmax)
        self.vcenter = vcenter
        if vcenter is not None and vmax is not None and vcenter >= vmax:
            raise ValueError('vmin, vcenter, and vmax must be in ascending order')
        if vcenter is not None and vmin is not None and vcenter <= vmin:
            raise ValueError('vmin, vcenter, and vmax must be in ascending order')

    def autoscale_None(self, A):
        super().autoscale_None(A)
        if self.vmin >= self.vcenter:
            self.vmin = self.vcenter - (self.vmax - self.vcenter)
        if self.vmax <= self.vcenter:
            self.vmax = self.vcenter + (self.vcenter - self.vmin)

    def __call__(self, value, clip=None):
        self.autoscale_None(value)
        if not self.vmin <= self.vcenter <= self.vmax:
            raise ValueError('vmin, vcenter, vmax must increase monotonically')
        return np.ma.masked_array(np.interp(np.asarray(value, dtype=float), [self.vmin, self.vcenter, self.vmax], [0, 0.5, 1]))


class BoundaryNorm(Normalize):
    def __init__(self, boundaries, ncolors, clip=False, extend='neither'):
        super().__init__(vmin=boundaries[0], vmax=boundaries[-1], clip=clip)
        self.boundaries = np.asarray(boundaries)
        self.N = len(self.boundaries)
        if self.N - 1 > ncolors:
            raise ValueError('There are too many color bins')

    def __call__(self, value, clip=None):
        return np.ma.masked_array(np.digitize(np.asarray(value, dtype=float), self.boundaries) - 1)


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return Anything()
