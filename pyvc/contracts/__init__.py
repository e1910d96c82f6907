"""Contracts: preconditions, postconditions and results in terms of theory.py,
for the functions of /repo, by qualified name."""
import z3
from ..values import *


class Contract:
    """qual: qualified name; props: the properties it is part of.
    args(I): arbitrary arguments; pre(I, args): [(name, formula)];
    post(I, args, result): proves the postcondition with I.prove;
    result(I, args): what a caller may assume (value constrained by the post)."""
    qual = None
    props = ()
    inline = ()          # functions verified as part of this one
    models = {}
    raises = None        # exception the postcondition allows, with when(I, args)

    def args(self, I):
        raise NotImplementedError

    def pre(self, I, args):
        return []

    def prepare(self, I, args):
        """Called before the body: loop forms, ghost models."""

    def post(self, I, args, result):
        want = self.spec(I, args)
        I.prove(zb(I.veq(result, want)), 'result')

    def run(self, I, f, args):
        return I.call_source(f, args)

    def on_raise(self, I, args, exc):
        I.prove(False, 'never raises (%s)' % exc.name)

    def spec(self, I, args):
        raise NotImplementedError

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        return self.spec(I, args)


def zb(x):
    from ..engine import zb as f
    return f(x)


def callable_contract(c):
    """Can callers rely on the contract (rather than on the body)?"""
    return type(c).spec is not Contract.spec or type(c).use is not Contract.use


REGISTRY = {}


def register(cls):
    c = cls()
    REGISTRY[c.qual if c.key is None else c.key] = c
    return cls


Contract.key = None
Contract.shards = 1           # processes that share the obligations
Contract.patience = 1         # times the usual time limit
Contract.group = None        # contracts of a group (another model of the same objects) use only contracts of the group


def load():
    import importlib
    import pkgutil
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(__name__ + '.' + m.name)
    return REGISTRY
