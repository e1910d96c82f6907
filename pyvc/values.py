"""Values of the symbolic interpreter.

Concrete Python values (int, bool, str, None, float, tuple of values) stand for
themselves; everything else is one of the classes below.  Strings live in an
uninterpreted sort Str with LEN, CH (code point at index), CAT, SUB; entities
(atoms and edges of the hypergraph) in a sort Ent."""
import z3

Str = z3.DeclareSort('Str')
Ent = z3.DeclareSort('Ent')
Int = z3.IntSort()
Bool = z3.BoolSort()

LEN = z3.Function('LEN', Str, Int)
CH = z3.Function('CH', Str, Int, Int)
CAT = z3.Function('CAT', Str, Str, Str)
SUB = z3.Function('SUB', Str, Int, Int, Str)
CHR = z3.Function('CHR', Int, Str)
I2S = z3.Function('I2S', Int, Str)
S2I = z3.Function('S2I', Str, Int)
LT = z3.Function('STRLT', Str, Str, Bool)

# entities
KIND = z3.Function('KIND', Ent, Int)


def isEdge(t):
    return KIND(t) == 0


def isSym(t):
    return KIND(t) == 1


def isInt(t):
    return KIND(t) == 2


def isFlt(t):
    return KIND(t) == 3


ELEN = z3.Function('ELEN', Ent, Int)
EL = z3.Function('EL', Ent, Int, Ent)
TXT = z3.Function('TXT', Ent, Str)      # text of a symbol
IVAL = z3.Function('IVAL', Ent, Int)    # value of an integer
SYM = z3.Function('SYM', Str, Ent)
NUM = z3.Function('NUM', Int, Ent)


class Unsupported(Exception):
    """The source is outside of the verifier's subset."""


class SInt:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SEnt:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SEnt(%s)' % self.t


class SFlt:
    """A float (opaque)."""
    def __init__(self, t):
        self.t = t


class Char:
    """Part of a string: one character with a symbolic code point."""
    def __init__(self, code):
        self.code = code


class Slice:
    """Part of a string: characters lo..hi-1 of an atom."""
    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi


class Mapped:
    """Part of a string: an atom with a function applied to every code point."""
    def __init__(self, t, fn):
        self.t, self.fn = t, fn


class SStr:
    """A string as a rope: parts are str, z3 terms of sort Str, Char, Slice, Mapped."""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr(%s)' % (self.parts,)


class SOpt:
    """None or a value."""
    def __init__(self, none, val):
        self.none, self.val = none, val

    def __repr__(self):
        return 'SOpt(%s,%r)' % (self.none, self.val)


class SSeq:
    """An immutable sequence of n values given by a function of the index."""
    def __init__(self, kind, n, get, base=None):
        self.kind, self.n, self.get = kind, n, get
        self.base = base     # (sequence, offset) if this is a suffix of it
        self.flt = None
        self.prov = None     # how it was made of others

    def __repr__(self):
        return 'SSeq(%s,%s)' % (self.kind, self.n)


class SSetV:
    """Contents of a set: membership as a predicate over terms of one sort."""
    def __init__(self, sort, mem, wrap):
        self.sort, self.mem, self.wrap = sort, mem, wrap


class SBag:
    """An unordered list of unknown multiplicities: its members as a predicate."""
    def __init__(self, sort, mem, wrap):
        self.sort, self.mem, self.wrap = sort, mem, wrap


class SFun:
    """Ghost: a total function (contents of a table column)."""
    def __init__(self, sorts, fn):
        self.sorts, self.fn = sorts, fn

    def __call__(self, *a):
        return self.fn(*a)


class Mutable:
    """Anything with state that a snapshot must save."""
    frozen = False

    def change(self):
        if self.frozen:
            raise Unsupported('a %s is changed under another name' % type(self).__name__)


class Held(Mutable):
    """A list or set; frozen once it is part of a structure that is described otherwise."""
    @property
    def items(self):
        return self._items

    @items.setter
    def items(self, v):
        self.change()
        self._items = v


class PyList(Held):
    def __init__(self, I, items):
        self._items = items
        self.opaque = None
        I.register(self)

    def save(self):
        return (list(self._items) if isinstance(self._items, list) else self._items, self.opaque, self.frozen)

    def load(self, s):
        self._items = list(s[0]) if isinstance(s[0], list) else s[0]
        self.opaque = s[1]
        self.frozen = s[2]


class PyDict(Mutable):
    def __init__(self, I, items=None):
        self.items = dict(items or {})
        I.register(self)

    def freeze(self, I):
        """What is in it is now described by something else."""
        for v in self.items.values():
            if isinstance(v, PyList) and isinstance(v.items, list):
                v.items = SSeq('list', 0, None) if not v.items else I.as_seq(v)
            elif isinstance(v, PySet) and isinstance(v.items, list):
                sv = I.set_value(v)
                v.items = SSetV(Ent, lambda y: z3.BoolVal(False), lambda y: SEnt(y)) if sv is None else sv
            if isinstance(v, Held):
                v.frozen = True
        self.items = Frozen(self.items)

    def save(self):
        return self.items if isinstance(self.items, Frozen) else dict(self.items)

    def load(self, s):
        self.items = s if isinstance(s, Frozen) else dict(s)


class Frozen(dict):
    def _no(self, *a, **k):
        raise Unsupported('a dictionary is changed under another name')
    __setitem__ = __delitem__ = update = pop = popitem = clear = setdefault = _no


class PySet(Held):
    """items: list of values (concrete number) or SSetV"""
    def __init__(self, I, items):
        self._items = items
        I.register(self)

    def save(self):
        return (list(self._items) if isinstance(self._items, list) else self._items, self.frozen)

    def load(self, s):
        self._items = list(s[0]) if isinstance(s[0], list) else s[0]
        self.frozen = s[1]


class Obj(Mutable):
    def __init__(self, I, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})
        I.register(self)

    def save(self):
        return dict(self.fields)

    def load(self, s):
        self.fields = dict(s)

    def __repr__(self):
        return '<%s object>' % getattr(self.cls, 'name', self.cls)


class SRef(Obj):
    """An immutable reference to something outside of the verified code: a term of its own sort.
    cls is a RefKind."""
    def __init__(self, t, cls):
        self.t, self.cls = t, cls
        self.fields = {}

    def __repr__(self):
        return 'SRef(%s)' % self.t


class RefKind:
    """What can be seen of references of one sort: attributes by functions of (I, reference)."""
    described = False       # only invariants that contracts offer say anything about what a loop makes of one

    def __init__(self, name, attrs=None, text=None, sort=None):
        self.name = name
        self.sort = sort if sort is not None else z3.DeclareSort(name)
        self.attrs = attrs or {}
        self.text = text

    def getattr(self, I, o, name):
        h = self.attrs.get(name)
        return None if h is None else h(I, o)

    def setattr(self, I, o, name, v):
        raise Unsupported('change of a %s' % self.name)

    def strof(self, I, o):
        if self.text is None:
            raise Unsupported('text of a %s' % self.name)
        return SStr([self.text(o.t)])

    def eq(self, I, a, b):
        if not (isinstance(b, SRef) and b.cls is self and isinstance(a, SRef)):
            return False
        return True if a.t.eq(b.t) else a.t == b.t

    def vite(self, I, c, a, b):
        return SRef(z3.If(c, a.t, b.t), self)

    def shape(self, I, o):
        return ('ref', self)

    def isa(self, I, v, t):
        return False

    def fresh(self, I, hint=None):
        return SRef(I.fresh(self.sort, hint or self.name), self)


class Env(Mutable):
    def __init__(self, I, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        I.register(self)

    def save(self):
        return dict(self.vars)

    def load(self, s):
        self.vars = dict(s)


class FuncVal:
    def __init__(self, node, module, qualname, closure=None, cls=None, defaults=()):
        self.node, self.module, self.qualname, self.closure, self.cls = node, module, qualname, closure, cls
        self.static = False
        self.prop = None
        self.setter = None
        self.decorated = False

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ClassVal:
    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class ModuleVal:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class ExtModule:
    """A module outside of /repo; its functions are modelled or unsupported."""
    def __init__(self, name):
        self.name = name


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Opaque:
    """A value nothing is known about; using it is unsupported."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


NOTIMPL = Opaque('NotImplemented')


class Absent:
    """A variable without a value."""
    def __repr__(self):
        return 'Absent'


ABSENT = Absent()
