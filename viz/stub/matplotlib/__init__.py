"""A stand-in for matplotlib: nothing is drawn, but what would be is recorded, see pyplot.SAVED.
Norms and histograms behave like those of matplotlib."""
import importlib, sys, types


class Anything:
    """takes every call, has every attribute"""
    N = 256

    def __call__(self, *args, **kwargs):
        return Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __iter__(self):
        return iter(())


for _n in ['cm', 'ticker', 'tri', 'lines', 'patches', 'style', 'axes', 'figure']:
    _m = types.ModuleType('matplotlib.' + _n)
    _m.__getattr__ = lambda name: Anything()
    sys.modules['matplotlib.' + _n] = _m
    globals()[_n] = _m
rcParams = {}


def use(*args, **kwargs):
    pass


def __getattr__(name):
    if name in ('colors', 'pyplot'):
        return importlib.import_module('matplotlib.' + name)
    if name.startswith('__'):
        raise AttributeError(name)
    return Anything()
