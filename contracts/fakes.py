"""Stand-ins for objects a function asks through a stated interface."""
import types
from vlib import sym
from vlib.concrete import Skip


class Fake(object):
    """answers what the contract gives it, and with the methods of the real
    class `real`; any other question makes the symbolic run undecided (never
    a violation)"""
    real = None

    def __init__(self, S, **kw):
        self.__dict__.update(kw, _S=S)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for k in (self.real.__mro__ if self.real else ()):
            if name in k.__dict__ and k.__module__.startswith('svgpy'):
                v = k.__dict__[name]
                if isinstance(v, property):
                    return v.fget(self)
                if isinstance(v, types.FunctionType):
                    return types.MethodType(v, self)
                if isinstance(v, (staticmethod, classmethod)):
                    return v.__get__(None, self.real)
                return v
        if self.__dict__['_S'].symbolic:
            raise sym.Unsupported('the stand-in has no %s' % name)
        raise Skip()

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)
