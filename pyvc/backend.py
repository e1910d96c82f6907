"""The backend as the facade and the readers see it: its operations by their contracts.

State: $EX, which edges exist (a predicate on Ent), and the log of the single
additions in order (edge, timestamp), $LE and $LT."""
import z3
from .values import *
from .engine import zi, zb, mkint, mkbool, And, Or, Not
from . import theory as T

SIGS = {'exists': [('vertex',)], 'add': [('edges',), ('timestamp', -1)], 'remove': [('edges',)], 'pattern2edges': [('pattern',)], 'star': [('center',)],
        'symbols_with_root': [('root',)], 'destroy': [], 'degree': [('vertex',)], 'timestamp': [('vertex',)], 'batch_exec': [('funs',)], 'f_all': [('f',)]}


def bind(name, args, kw):
    from .externs import raise_
    sig = SIGS[name]
    kw = dict(kw)
    if len(args) > len(sig):
        raise_('TypeError')
    out = list(args)
    for k in range(len(args), len(sig)):
        p = sig[k]
        if p[0] in kw:
            out.append(kw.pop(p[0]))
        elif len(p) > 1:
            out.append(p[1])
        else:
            raise_('TypeError')
    if kw:
        raise_('TypeError')
    return out


class Token:
    """A value of which nothing is known, and that can only be passed on."""
    name = 'token'

    @staticmethod
    def truth(I, o):
        o.fields.setdefault('$truth', I.fresh(Bool, 'truth'))
        return o.fields['$truth']

    @staticmethod
    def other(I, o, v):
        """Is it equal to a value of another kind?"""
        return I.fresh(Bool, 'equal')

    @staticmethod
    def getattr(I, o, name):
        raise Unsupported('use of a value that is only passed on')

    @staticmethod
    def eq(I, a, b):
        return a is b

    @staticmethod
    def isa(I, v, t):
        raise Unsupported('use of a value that is only passed on')


def token(I):
    return Obj(I, Token)


class Recorder:
    """A backend that records its calls."""
    name = 'recorder'

    @staticmethod
    def make(I, cls=None):
        o = Obj(I, Recorder)
        o.fields['$calls'] = ()
        return o

    @staticmethod
    def getattr(I, o, name):
        if name not in SIGS:
            return None

        def call(I, *args, **kw):
            a = bind(name, args, kw)
            r = None if name in ('remove', 'destroy', 'batch_exec') else token(I)
            o.fields['$calls'] = o.fields['$calls'] + ((name, a, r),)
            return r
        return Builtin(name, call)


# -- the abstract hypergraph ----------------------------------------------------

def edge_fact(I, f):
    """Only edges of two or more elements exist."""
    x = z3.Const('x$e', Ent)
    I.assume(z3.ForAll([x], z3.Implies(f(x), z3.And(KIND(x) == 0, ELEN(x) >= 2)), patterns=[f(x)]))


def start(I):
    f = I.fresh_fun('EX', Ent, Bool)
    edge_fact(I, f)
    I.ghost['$EX'] = SFun([Ent], lambda x: f(x))
    return f


def tup_axioms(I, n):
    """Tuples of n elements are determined by their elements."""
    f = z3.Function('TUP%d' % n, *([Ent] * n + [Ent]))
    xs = [z3.Const('x%d$' % k, Ent) for k in range(n)]
    t = f(*xs)
    I.fact(z3.ForAll(xs, z3.And(KIND(t) == 0, ELEN(t) == n, *[EL(t, k) == x for k, x in enumerate(xs)]), patterns=[t]))
    e = z3.Const('e$', Ent)
    I.fact(z3.ForAll([e], z3.Implies(z3.And(KIND(e) == 0, ELEN(e) == n), e == f(*[EL(e, k) for k in range(n)])), patterns=[z3.MultiPattern(ELEN(e), EL(e, z3.IntVal(n - 1)))]))
    return f


def pattern_mem(I, p):
    """The predicate 'matches the pattern p'."""
    s = I.as_seq(p)
    if isinstance(s.n, int):
        vs = [s.get(k) for k in range(s.n)]

        def m(x):
            cs = [KIND(x) == 0, ELEN(x) == s.n]
            for k, v in enumerate(vs):
                if v is None:
                    continue
                if isinstance(v, SOpt):
                    cs.append(z3.Or(zb(v.none), EL(x, k) == I.ent_of(v.val)))
                else:
                    cs.append(EL(x, k) == I.ent_of(v))
            return z3.And(*cs)
        return m
    j = z3.Int('j$p')
    v = s.get(SInt(j))

    def m(x):
        if isinstance(v, SOpt):
            c = z3.Or(zb(v.none), EL(x, j) == I.ent_of(v.val))
        else:
            c = EL(x, j) == I.ent_of(v)
        return z3.And(KIND(x) == 0, ELEN(x) == zi(s.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), c)))
    return m


def contains_mem(I, c):
    t = I.ent_of(c)

    def m(x):
        j = z3.Int('j$k')
        return z3.Exists([j], z3.And(j >= 0, j < ELEN(x), EL(x, j) == t))
    return m


def edge_set(mem):
    return SSetV(Ent, mem, lambda y: SEnt(y))


def several(I, edges):
    """Is the argument of add or remove several edges?"""
    from . import externs
    first = I.getitem(edges, 0)
    return externs.isa(I, I.unopt(first), externs.BUILTINS['tuple']) or externs.isa(I, first, externs.BUILTINS['list'])


def same_seq(I, a, n, get):
    pass


class Abstract:
    """A backend by its contracts; fields: none, the state is ghost."""
    name = 'backend'

    @staticmethod
    def make(I):
        o = Obj(I, Abstract)
        start(I)
        o.fields['$LE'] = PyList(I, [])
        o.fields['$LT'] = PyList(I, [])
        return o

    @staticmethod
    def getattr(I, o, name):
        if name not in SIGS:
            return None

        def call(I, *args, **kw):
            h = getattr(Abstract, 'op_' + name, None)
            if h is None:
                raise Unsupported('backend.%s' % name)
            return h(I, o, *bind(name, args, kw))
        return Builtin(name, call)

    @staticmethod
    def op_exists(I, o, v):
        return mkbool(I.ghost['$EX'](I.ent_of(v)))

    @staticmethod
    def op_degree(I, o, v):
        f = o.fields.get('$degree')
        if f is None:
            # nothing is said about it but that it is not negative
            f = I.fresh_fun('degree', Ent, z3.IntSort())
            x = z3.Const('x$deg', Ent)
            I.fact(z3.ForAll([x], f(x) >= 0, patterns=[f(x)]))
        return SInt(f(I.ent_of(v)))

    @staticmethod
    def op_add(I, o, edges, ts):
        ex = I.ghost['$EX']
        LE, LT = o.fields['$LE'], o.fields['$LT']
        if several(I, edges):
            items = I.concrete_items(edges)
            if items is not None:
                ts_ = [I.ent_of(x) for x in items]
                I.ghost['$EX'] = SFun([Ent], lambda x: z3.Or(zb(ex(x)), *[x == t for t in ts_]))
                for x in items:
                    I.list_append(LE, x)
                    I.list_append(LT, ts)
            else:
                from .externs import seq_set
                s = I.as_seq(edges)
                sv = seq_set(I, s)
                I.ghost['$EX'] = SFun([Ent], lambda x: z3.Or(zb(ex(x)), zb(sv.mem(x))))
                I.list_extend(LE, SSeq('list', s.n, s.get))
                I.list_extend(LT, SSeq('list', s.n, lambda j: ts))
        else:
            t = I.ent_of(edges)
            I.ghost['$EX'] = SFun([Ent], lambda x: z3.Or(zb(ex(x)), x == t))
            I.list_append(LE, SEnt(t))
            I.list_append(LT, ts)
        return edges

    @staticmethod
    def op_remove(I, o, edges):
        ex = I.ghost['$EX']
        if several(I, edges):
            items = I.concrete_items(edges)
            if items is not None:
                ts_ = [I.ent_of(x) for x in items]
                I.ghost['$EX'] = SFun([Ent], lambda x: z3.And(zb(ex(x)), *[x != t for t in ts_]))
            else:
                from .externs import seq_set
                s = I.as_seq(edges)
                sv = seq_set(I, s)
                I.ghost['$EX'] = SFun([Ent], lambda x: z3.And(zb(ex(x)), z3.Not(zb(sv.mem(x)))))
        else:
            t = I.ent_of(edges)
            I.ghost['$EX'] = SFun([Ent], lambda x: z3.And(zb(ex(x)), x != t))
        return None

    @staticmethod
    def op_pattern2edges(I, o, pattern):
        ex = I.ghost['$EX']
        m = pattern_mem(I, pattern)
        return PySet(I, edge_set(lambda x: z3.And(zb(ex(x)), m(x))))

    @staticmethod
    def op_star(I, o, center):
        ex = I.ghost['$EX']
        m = contains_mem(I, center)
        if '$star' in o.fields:
            c, star = I.ent_of(center), o.fields['$star']
            return PySet(I, edge_set(lambda x: star(c, x)))
        return PySet(I, edge_set(lambda x: z3.And(zb(ex(x)), m(x))))
