"""References to objects that exist before the verified function runs: instances of the
classes of /repo (InstKind), and sequences of them named by a term (LSeq)."""
import z3
from .values import *
from .engine import zi, zb, mkint, mkbool


class InstKind(RefKind):
    """Instances of a class of /repo that the verified code does not change: the fields are
    functions of the reference, the methods are those of the current source."""
    def __init__(self, name, klass, fields, sort=None, sets=None):
        RefKind.__init__(self, name, fields, None, sort)
        self.klass = klass
        self.sets = sets or {}      # what may be changed: a ghost update for each field

    def cls_of(self, I, o):
        return I.find(self.klass)

    def getattr(self, I, o, name):
        h = self.attrs.get(name)
        if h is not None:
            return h(I, o)
        c = self.cls_of(I, o)
        if not isinstance(c, ClassVal):
            raise Unsupported('no class %s' % self.klass)
        a = c.lookup(name)
        if isinstance(a, FuncVal):
            if a.prop:
                return I.call(a, [o])
            return a if a.static else Bound(o, a)
        if a is None:
            raise Unsupported('field %s of a %s' % (name, self.name))
        return a

    def setattr(self, I, o, name, v):
        c = self.cls_of(I, o)
        a = c.lookup(name) if isinstance(c, ClassVal) else None
        if isinstance(a, FuncVal) and a.prop and isinstance(a.setter, FuncVal):
            I.call(a.setter, [o, v])
            return
        h = self.sets.get(name)
        if h is None or isinstance(a, FuncVal):
            raise Unsupported('change of %s of a %s' % (name, self.name))
        h(I, o, v)

    def strof(self, I, o):
        f = self.cls_of(I, o).lookup('__str__')
        if f is None:
            raise Unsupported('text of a %s' % self.name)
        return I.call(f, [o])

    def isa(self, I, v, t):
        from .externs import subclass
        return isinstance(t, ClassVal) and subclass(self.cls_of(I, v), t)

    def eq(self, I, a, b):
        if I.in_code:
            f = self.cls_of(I, a).lookup('__eq__')
            if f is not None:
                n, I.in_code = I.in_code, 0
                try:
                    return I.truth(I.call(f, [a, b]))
                finally:
                    I.in_code = n
        return RefKind.eq(self, I, a, b)


class LSeq:
    """Sequences of things of one kind, as terms: lengths, items, concatenation."""
    def __init__(self, name, item_sort, wrap):
        self.sort = z3.DeclareSort(name)
        self.wrap = wrap
        f = lambda n, *s: z3.Function('%s.%s' % (name, n), *s)
        self.LEN = f('len', self.sort, Int)
        self.AT = f('at', self.sort, Int, item_sort)
        self.CAT = f('cat', self.sort, self.sort, self.sort)
        self.UNIT = f('unit', item_sort, self.sort)
        self.EMPTY = z3.Const(name + '.empty', self.sort)
        self.item_sort = item_sort

    def axioms(self, I):
        a, b = z3.Const('a$', self.sort), z3.Const('b$', self.sort)
        x = z3.Const('x$', self.item_sort)
        j = z3.Int('j$')
        c = self.CAT(a, b)
        I.fact(z3.ForAll([a], self.LEN(a) >= 0, patterns=[self.LEN(a)]))
        I.fact(z3.ForAll([a, b], self.LEN(c) == self.LEN(a) + self.LEN(b), patterns=[c]))
        I.fact(z3.ForAll([a, b, j], z3.And(z3.Implies(z3.And(j >= 0, j < self.LEN(a)), self.AT(c, j) == self.AT(a, j)),
                                           z3.Implies(j >= self.LEN(a), self.AT(c, j) == self.AT(b, j - self.LEN(a)))), patterns=[self.AT(c, j)]))
        I.fact(self.LEN(self.EMPTY) == 0)
        I.fact(z3.ForAll([x], z3.And(self.LEN(self.UNIT(x)) == 1, self.AT(self.UNIT(x), 0) == x), patterns=[self.UNIT(x)]))

    def value(self, t, kind='list'):
        return SSeq(kind, SInt(self.LEN(t)), lambda j: self.wrap(self.AT(t, zi(j))))
