"""Loops over symbolic data.

For a loop the state at the start of iteration i is described by closed forms,
one for every cell (variable, attribute, list, set, ghost) the body changes.
A form is proved to hold at i = 0 and to be preserved by an arbitrary
iteration; together they are the inductive invariant.  What a normally ending
iteration j establishes, CONT(j), is collected from the paths of the body, with
the constants it introduces made functions of j, and may be assumed for all
earlier iterations."""
import ast
import z3
from .values import *

UID = [0]


def uid():
    UID[0] += 1
    return UID[0]


def eng():
    from . import engine
    return engine


# -- iteration -----------------------------------------------------------------

def sequence(I, x):
    """The items of an iterable in iteration order, as SSeq."""
    if isinstance(x, SOpt):
        x = I.unopt(x)
    if isinstance(x, PySet):
        if isinstance(x.items, list) and len(x.items) == 1:
            v = x.items[0]
            return SSeq('list', 1, lambda j: v)
        sv = I.set_value(x)
        if sv is None:
            return SSeq('list', 0, None)
        return enumeration(I, sv)
    if isinstance(x, Obj) and hasattr(x.cls, 'iterate'):
        return x.cls.iterate(I, x)
    if isinstance(x, SSetV):
        return enumeration(I, x)
    if isinstance(x, SBag):
        return any_order(I, x)
    if isinstance(x, PyList) and isinstance(x.items, SBag):
        return any_order(I, x.items)
    return I.as_seq(x)


def any_order(I, b):
    """The members of an unordered list, each at least once."""
    n = I.fresh(Int, 'size')
    item = I.fresh_fun('ITEM', Int, b.sort)
    pos = I.fresh_fun('POS', b.sort, Int)
    j = z3.Int('j$')
    y = z3.Const('y$', b.sort)
    zb = eng().zb
    I.assume(n >= 0)
    I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), zb(b.mem(item(j)))), patterns=[item(j)]))
    I.assume(z3.ForAll([y], z3.Implies(zb(b.mem(y)), z3.And(pos(y) >= 0, pos(y) < n, item(pos(y)) == y))))
    return SSeq('list', eng().mkint(n), lambda k: b.wrap(item(eng().zi(k))))


def mentions(t, v):
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if t.eq(v):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo.extend(t.children())
    return False


def member(I, x):
    """An arbitrary item of an iterable (assumed to be one), for uses where order and multiplicity do not matter."""
    e = eng()
    if isinstance(x, SOpt):
        x = I.unopt(x)
    sv = None
    if isinstance(x, PySet):
        sv = I.set_value(x)
        if sv is None:
            raise e.PathEnd()
    elif isinstance(x, (SSetV, SBag)):
        sv = x
    elif isinstance(x, PyList) and isinstance(x.items, SBag):
        sv = x.items
    elif isinstance(x, Obj) and hasattr(x.cls, 'asset'):
        sv = x.cls.asset(I, x)
    if sv is not None:
        y = I.fresh(sv.sort, 'y')
        I.assume(e.zb(sv.mem(y)))
        return sv.wrap(y)
    s = I.as_seq(x)
    f = I.element_of(I, s) if I.element_of is not None else None
    if f is not None:
        y = I.fresh(Ent, 'y')
        I.assume(f(y))
        return SEnt(y)
    j = I.fresh(Int, 'j')
    I.assume(z3.And(j >= 0, j < e.zi(s.n)))
    return s.get(SInt(j))


def nested(I, comp, env, first, kind):
    """A comprehension of several loops: what it contains, in any order."""
    e = eng()
    heap0 = list(I.heap)
    before = state(I, heap0)

    def thunk():
        mark, c0 = len(I.facts), len(I.created)
        v0 = dict(env.vars)
        for k, g in enumerate(comp.generators):
            x = member(I, first if k == 0 else I.eval(g.iter, env))
            I.assign(g.target, x, env)
            for c in g.ifs:
                if not I.decide(I.truth(I.eval(c, env))):
                    raise e.PathEnd()
        v = I.eval(comp.elt, env)
        env.vars = v0
        if changed(before, state(I, heap0)):
            raise Unsupported('a comprehension that changes something')
        if isinstance(v, (str, SStr)):
            sort, t = Str, I.sterm(v)
        else:
            sort, t = Ent, I.ent_of(v)
        facts = I.facts[mark:]
        return sort, t, [f for f in facts if f.get_id() not in I.bg], list(I.created[c0:])
    alts = I.explore(thunk)
    if not alts:
        return PyList(I, []) if kind == 'list' else PySet(I, [])
    sort = alts[0][0]
    if any(a[0] != sort for a in alts) or any(isinstance(c, z3.FuncDeclRef) for a in alts for c in a[3]):
        raise Unsupported('a comprehension of mixed items')
    if I.bags:
        return named(I, sort, alts, kind)

    def mem(y):
        out = []
        for _, t, facts, created in alts:
            f = z3.And(*(facts + [y == t]))
            out.append(z3.Exists(created, f) if created else f)
        return z3.Or(*out) if len(out) > 1 else out[0]
    wrap = (lambda y: SStr([y])) if sort == Str else (lambda y: SEnt(y))
    if kind == 'list':
        return PyList(I, SBag(sort, mem, wrap))
    return PySet(I, SSetV(sort, mem, wrap))


def named(I, sort, alts, kind):
    """What a comprehension contains: items that are arbitrary members themselves are described as they are,
    others by a predicate with a witness for each unknown."""
    e = eng()
    y = z3.Const('y$b', sort)
    plain, rest = [], []
    for _, t, facts, created in alts:
        if any(c.eq(t) for c in created) and len(created) == 1:
            plain.append((t, z3.And(*facts)))
        else:
            rest.append((t, facts, created))
    P = None
    if rest:
        P = I.fresh_fun('comprehension', sort, Bool)
        out = []
        for t, facts, created in rest:
            body = z3.And(*facts)
            vs = [z3.Const('c%d$b' % k, c.sort()) for k, c in enumerate(created)]
            sub = lambda f, ws: z3.substitute(f, *list(zip(created, ws))) if created else f
            I.fact(z3.ForAll(vs, z3.Implies(sub(body, vs), P(sub(t, vs)))) if vs else z3.Implies(body, P(t)))
            ws = [I.fresh_fun('of', sort, c.sort())(y) for c in created]
            out.append(z3.And(sub(body, ws), y == sub(t, ws)))
        I.fact(z3.ForAll([y], z3.Implies(P(y), z3.Or(*out)), patterns=[P(y)]))

    def mem(x):
        cs = [z3.substitute(f, (t, x)) for t, f in plain]
        if P is not None:
            cs.append(P(x))
        return z3.Or(*cs) if len(cs) != 1 else cs[0]
    wrap = (lambda x: SStr([x])) if sort == Str else (lambda x: SEnt(x))
    return PyList(I, SBag(sort, mem, wrap)) if kind == 'list' else PySet(I, SSetV(sort, mem, wrap))


def enumeration(I, sv):
    """An arbitrary enumeration without repetition of a finite set."""
    n = I.fresh(Int, 'size')
    item = I.fresh_fun('ITEM', Int, sv.sort)
    pos = I.fresh_fun('POS', sv.sort, Int)
    j = z3.Int('j$')
    y = z3.Const('y$', sv.sort)
    I.assume(n >= 0)
    mi = sv.mem(item(j))
    my = sv.mem(y)
    mi = z3.BoolVal(mi) if isinstance(mi, bool) else mi
    my = z3.BoolVal(my) if isinstance(my, bool) else my
    I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(mi, pos(item(j)) == j)), patterns=[item(j)]))
    I.assume(z3.ForAll([y], z3.Implies(my, z3.And(pos(y) >= 0, pos(y) < n, item(pos(y)) == y))))
    s = SSeq('list', eng().mkint(n), lambda k: sv.wrap(item(eng().zi(k))))
    s.from_set = sv
    I.ghost['$enums'] = I.ghost.get('$enums', ()) + ((sv, pos, item),)
    s.pos = pos
    s.item = item
    return s


# -- shapes: values as uninterpreted functions of the iteration --------------------

class NoShape(Exception):
    pass


def shape(I, v, heap0=None):
    if isinstance(v, (bool, SBool)):
        return ('bool',)
    if isinstance(v, (int, SInt)):
        return ('int',)
    if isinstance(v, (str, SStr)):
        return ('str',)
    if isinstance(v, SEnt):
        return ('ent',)
    if isinstance(v, SFlt):
        return ('flt',)
    if v is None:
        return ('none',)
    if isinstance(v, SOpt):
        return ('opt', shape(I, v.val, heap0))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(shape(I, x, heap0) for x in v)
    if hasattr(v, 'share'):
        v.share()
    if isinstance(v, PyList) and isinstance(v.items, SBag):
        return ('bag', v.items.sort)
    if isinstance(v, SBag):
        return ('bag', v.sort)
    if isinstance(v, PyList):
        return ('seq', 'list', seq_shape(I, I.as_seq(v), heap0))
    if isinstance(v, SSeq):
        return ('seq', v.kind, seq_shape(I, v, heap0))
    if isinstance(v, PySet):
        sv = I.set_value(v)
        return ('set', sv.sort if sv else None)
    if isinstance(v, SSetV):
        return ('set', v.sort)
    if isinstance(v, Obj) and hasattr(v.cls, 'shape'):
        return v.cls.shape(I, v)
    if isinstance(v, (FuncVal, ClassVal, Builtin, ModuleVal)) or (isinstance(v, (Obj, Bound, PyDict)) and (heap0 is None or isinstance(v, Bound) or any(v is o for o in heap0))):
        return ('const', v)
    raise NoShape(repr(v))


def seq_shape(I, s, heap0):
    if isinstance(s.n, int):
        if s.n == 0:
            return None
        r = None
        for k in range(s.n):
            r = merge_shapes(r, shape(I, s.get(k), heap0))
        return r
    j = I.fresh(Int, 'k')
    return shape(I, s.get(SInt(j)), heap0)


ENTISH = ('ent', 'str', 'int', 'tuple', 'flt')


def merge_shapes(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    if a[0] == 'const' and b[0] == 'const':
        if a[1] is b[1]:
            return a
        raise NoShape('objects')
    if a[0] == 'none':
        return b if b[0] == 'opt' else ('opt', b)
    if b[0] == 'none':
        return a if a[0] == 'opt' else ('opt', a)
    if a[0] == 'opt' or b[0] == 'opt':
        return ('opt', merge_shapes(a[1] if a[0] == 'opt' else a, b[1] if b[0] == 'opt' else b))
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(merge_shapes(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == 'seq' and b[0] == 'seq' and a[1] == b[1]:
        return ('seq', a[1], merge_shapes(a[2], b[2]))
    if a[0] == 'seq' and b[0] == 'tuple' and a[1] == 'tuple':
        m = a[2]
        for x in b[1:]:
            m = merge_shapes(m, x)
        return ('seq', 'tuple', m)
    if b[0] == 'seq' and a[0] == 'tuple' and b[1] == 'tuple':
        return merge_shapes(b, a)
    if a[0] == 'set' and b[0] == 'set':
        if a[1] is None or b[1] is None or a[1] == b[1]:
            return ('set', a[1] if a[1] is not None else b[1])
    if a[0] in ENTISH and b[0] in ENTISH:
        return ('ent',)
    raise NoShape('%s and %s' % (a[0], b[0]))


class Fun:
    """Uninterpreted functions that hold values of one shape, per arguments."""
    def __init__(self, I, sh, name, argsorts):
        self.sh, self.argsorts = sh, argsorts
        k = sh[0]
        mk = lambda suffix, sort, extra=(): I.fresh_fun(name + suffix, *(list(argsorts) + list(extra) + [sort]))
        self.sub = None
        if k == 'int':
            self.f = mk('', Int)
        elif k == 'bool':
            self.f = mk('', Bool)
        elif k == 'str':
            self.f = mk('', Str)
        elif k in ('ent', 'flt'):
            self.f = mk('', Ent)
        elif k == 'opt':
            self.f = mk('.none', Bool)
            self.sub = Fun(I, sh[1], name, argsorts)
        elif k == 'tuple':
            self.sub = [Fun(I, s, '%s.%d' % (name, n), argsorts) for n, s in enumerate(sh[1:])]
        elif k == 'seq':
            self.f = mk('.n', Int)
            self.sub = Fun(I, sh[2] or ('int',), name + '.at', list(argsorts) + [Int])
        elif k in ('set', 'bag'):
            self.f = mk('.mem', Bool, [Ent if sh[1] is None else sh[1]])
        elif k == 'u64':
            self.f = mk('', Int)
        elif k == 'ref':
            self.f = mk('', sh[1].sort)

    def at(self, I, *a):
        k = self.sh[0]
        if k == 'int':
            return SInt(self.f(*a))
        if k == 'bool':
            return SBool(self.f(*a))
        if k == 'str':
            return SStr([self.f(*a)])
        if k == 'ent':
            return SEnt(self.f(*a))
        if k == 'flt':
            return SFlt(self.f(*a))
        if k == 'none':
            return None
        if k == 'ref':
            return SRef(self.f(*a), self.sh[1])
        if k == 'const':
            return self.sh[1]
        if k == 'opt':
            return SOpt(self.f(*a), self.sub.at(I, *a))
        if k == 'tuple':
            return tuple(s.at(I, *a) for s in self.sub)
        if k == 'seq':
            I.assume_soft(self.f(*a) >= 0)
            return SSeq(self.sh[1], SInt(self.f(*a)), lambda j: self.sub.at(I, *(list(a) + [eng().zi(j)])))
        if k == 'set':
            sort = Ent if self.sh[1] is None else self.sh[1]
            return SSetV(sort, lambda y: self.f(*(list(a) + [y])), (lambda y: SStr([y])) if sort == Str else (lambda y: SEnt(y)))
        if k == 'bag':
            return SBag(self.sh[1], lambda y: self.f(*(list(a) + [y])), (lambda y: SStr([y])) if self.sh[1] == Str else (lambda y: SEnt(y)))
        if k == 'u64':
            from .externs import U64
            return U64.make(I, self.f(*a), self.sh[1])
        raise NoShape(k)

    def eq(self, I, a, v):
        """z3 facts: the value at a equals v."""
        k = self.sh[0]
        a = list(a)
        if k == 'int':
            return self.f(*a) == eng().zi(v)
        if k == 'bool':
            return self.f(*a) == eng().zb(v)
        if k == 'str':
            return self.f(*a) == I.sterm(v)
        if k == 'ent':
            return self.f(*a) == I.ent_of(v)
        if k in ('flt', 'ref'):
            return self.f(*a) == v.t
        if k in ('none', 'const'):
            return z3.BoolVal(True)
        if k == 'opt':
            if v is None:
                return self.f(*a)
            if isinstance(v, SOpt):
                return z3.And(self.f(*a) == eng().zb(v.none), z3.Implies(z3.Not(eng().zb(v.none)), self.sub.eq(I, a, v.val)))
            return z3.And(z3.Not(self.f(*a)), self.sub.eq(I, a, v))
        if k == 'tuple':
            return z3.And(*[s.eq(I, a, x) for s, x in zip(self.sub, v)]) if self.sub else z3.BoolVal(True)
        if k == 'seq':
            s = I.as_seq(v)
            cs = [self.f(*a) == eng().zi(s.n)]
            if isinstance(s.n, int):
                cs += [self.sub.eq(I, a + [z3.IntVal(m)], s.get(m)) for m in range(s.n)]
            else:
                j = z3.Int('j%d$' % uid())
                from .theory import under_binder
                body = under_binder(I, j, z3.And(j >= 0, j < eng().zi(s.n)), lambda: self.sub.eq(I, a + [j], s.get(SInt(j))))
                cs.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < eng().zi(s.n)), body)))
            return z3.And(*cs)
        if k in ('set', 'bag'):
            sv = I.set_value(v) if isinstance(v, PySet) else v.items if isinstance(v, PyList) else v
            y = z3.Const('y%d$' % uid(), Ent if self.sh[1] is None else self.sh[1])
            m = False if sv is None else sv.mem(y)
            m = z3.BoolVal(m) if isinstance(m, bool) else m
            ps = [self.f(*(a + [y]))]
            if k == 'bag' and z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED and m.num_args():
                ps.append(m)
            return z3.ForAll([y], self.f(*(a + [y])) == m, patterns=ps)
        if k == 'u64':
            return self.f(*a) == v.fields['v']
        raise NoShape(k)


# -- cells ---------------------------------------------------------------------------

class Ghost:
    """stands for the ghost variables as an object with cells"""


GHOST = Ghost()


def cells_of(I, o, st):
    if o is GHOST:
        return dict(st)
    if isinstance(o, (Env, Obj)):
        return dict(st)
    if isinstance(o, PyDict):
        return dict(st)
    if isinstance(o, PyList):
        return {'$': st[0]}
    if isinstance(o, PySet):
        return {'$': st[0]}
    if hasattr(o, 'cells'):
        return o.cells(st)
    raise Unsupported('state of %r' % (o,))


def cell_set(I, cell, v):
    o, k = cell
    if o is GHOST:
        I.ghost[k] = v
    elif isinstance(o, Env):
        o.vars[k] = v
    elif isinstance(o, Obj):
        o.fields[k] = v
    elif isinstance(o, PyDict):
        o.items[k] = v
    elif isinstance(o, (PyList, PySet)):
        o.items = list(v) if isinstance(v, list) else v
    else:
        o.set_cell(k, v)


def same_items(a, b):
    if a is b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y or (isinstance(x, (int, str, bool)) and type(x) is type(y) and x == y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, (SInt, SBool, SEnt, SRef)) and type(a) is type(b):
        return a.t.eq(b.t)
    return False


def state(I, heap0):
    st = [(o, cells_of(I, o, o.save())) for o in heap0]
    st.append((GHOST, {k: v for k, v in I.ghost.items() if k not in ('$enums', '$k')}))
    return st


def changed(old, new):
    out = {}
    for (o, a), (p, b) in zip(old, new):
        for k in list(a.keys()) + [k for k in b if k not in a]:
            x, y = a.get(k, ABSENT), b.get(k, ABSENT)
            if not same_items(x, y):
                out[(o, k)] = y
    return out


class Key:
    """cells as dictionary keys (objects by identity)"""


def ck(cell):
    return (id(cell[0]), cell[1])


# -- forms ----------------------------------------------------------------------------

class Form:
    """at(i): value at the start of iteration i; dom(i): what else holds.
    defs(path, i): facts of CONT that define the functions of the form."""
    kind = 'closed'

    def __init__(self, at, dom=None, check=True, name=''):
        self.at, self.dom, self.check, self.name = at, dom, check, name

    def extra(self, I, i):
        return None

    def define(self, I, i, end):
        return None


class Rec(Form):
    """Value by primitive recursion over the iterations."""
    def __init__(self, I, sh, v0, name):
        self.F = Fun(I, sh, name, [Int])
        self.v0 = v0
        self.check = False
        self.dom = None
        self.name = 'recursion'

    def at(self, i):
        return self.F.at(self.I, i)

    def init(self, I):
        return self.F.eq(I, [z3.IntVal(0)], self.v0)

    def define(self, I, i, end):
        return self.F.eq(I, [i + 1], end)


class Havoc(Form):
    """A ghost function of which only an invariant is known: inv(f, i) for its value f at the start of iteration i."""
    def __init__(self, I, v0, ranges, inv, name):
        self.I, self.v0, self.inv, self.name = I, v0, inv, name
        self.sorts = v0.sorts
        self.D = I.fresh_fun(name.replace(' ', '_'), *([Int] + list(v0.sorts) + [ranges]))
        self.check = False
        self.dom = lambda i: inv(self.at(i), i)

    def at(self, i):
        return SFun(self.sorts, lambda *x: self.D(i, *x))

    def vars(self):
        return [z3.Const('h%d$' % k, s) for k, s in enumerate(self.sorts)]

    def init(self, I):
        xs = self.vars()
        d = self.D(z3.IntVal(0), *xs)
        return z3.ForAll(xs, d == self.v0(*xs), patterns=[d])

    def define(self, I, i, end):
        if not isinstance(end, SFun) or not I.valid(self.inv(end, i + 1)):
            raise NoShape(self.name)
        xs = self.vars()
        d = self.D(i + 1, *xs)
        return z3.ForAll(xs, d == end(*xs), patterns=[d])


class Append(Form):
    """A list that grows by k items in every iteration, or by at most one."""
    def __init__(self, I, s0, shp, k, name, conditional):
        self.I, self.s0, self.k = I, s0, k
        self.G = [Fun(I, shp, '%s.item%d' % (name, m), [Int]) for m in range(k)]
        self.cond = conditional
        if conditional:
            self.C = I.fresh_fun(name + '.count', Int, Int)
            self.SEL = I.fresh_fun(name + '.sel', Int, Int)
        self.check = False
        self.dom = None
        self.name = 'append'
        self.current = {}

    def at(self, i):
        I = self.I
        e = eng()
        s0 = self.s0
        n0 = s0.n
        if self.cond:
            n = e.mkint(e.zi(n0) + self.C(i))
            get = lambda j: I.cat_get(s0, SSeq('list', 0, lambda q: self.G[0].at(I, self.SEL(e.zi(q)))), n0, j)
        elif self.k == 1:
            n = e.mkint(e.zi(n0) + i)
            get = lambda j: I.cat_get(s0, SSeq('list', 0, lambda q: self.G[0].at(I, e.zi(q))), n0, j)
        else:
            k = self.k
            n = e.mkint(e.zi(n0) + i * k)

            def pick(q):
                q = e.zi(q)
                v = self.G[k - 1].at(I, q / k)
                for m in range(k - 2, -1, -1):
                    v = I.vite(I.simp(q % k == m), self.G[m].at(I, q / k), v)
                return v
            get = lambda j: I.cat_get(s0, SSeq('list', 0, pick), n0, j)
        r = SSeq('list', n, get)
        r.form = (self, i)
        if self.cond and isinstance(n0, int) and n0 == 0 and self.G[0].sh[0] in ('ent', 'str'):
            f = self.G[0].f
            jj = z3.Int('j$m%d' % uid())
            r.member = lambda y: z3.Exists([jj], z3.And(jj >= 0, jj < i, self.C(jj + 1) == self.C(jj) + 1, f(jj) == y))
        return r

    def init(self, I):
        return self.C(z3.IntVal(0)) == 0 if self.cond else True

    def extra(self, I, i):
        if not self.cond:
            return None
        q = z3.Int('q$')
        return z3.And(self.C(i) >= 0, self.C(i) <= i,
                      z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), z3.And(self.C(q) >= 0, self.C(q) <= q, self.C(q) <= self.C(i))), patterns=[self.C(q)]),
                      z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < self.C(i)), z3.And(self.SEL(q) >= 0, self.SEL(q) < i, self.C(self.SEL(q)) == q,
                                                                                     self.C(self.SEL(q) + 1) == q + 1)), patterns=[self.SEL(q)]))

    def define(self, I, i, end):
        vals = appended(self, end)
        if vals is None:
            raise NoShape('list')
        if self.cond:
            if not vals:
                return self.C(i + 1) == self.C(i)
            return z3.And(self.C(i + 1) == self.C(i) + 1, self.SEL(self.C(i)) == i, self.G[0].eq(I, [i], vals[0]))
        return z3.And(*[g.eq(I, [i], v) for g, v in zip(self.G, vals)])


def history(items, stop):
    """Values appended since the sequence `stop`, or None."""
    vals = []
    while items is not stop:
        h = getattr(items, 'hist', None)
        if h is None:
            return None
        vals.insert(0, h[1])
        items = h[0]
    return vals


def appended(form, end):
    x = end
    vals = []
    while not (isinstance(x, SSeq) and getattr(x, 'form', (None,))[0] is form):
        h = getattr(x, 'hist', None)
        if h is None:
            return None
        vals.insert(0, h[1])
        x = h[0]
    return vals


class SetAdd(Form):
    """A set that grows by at most k items in an iteration."""
    def __init__(self, I, sv0, sort, wrap, k, name):
        self.I, self.sv0, self.sort, self.wrap, self.k = I, sv0, sort, wrap, k
        self.G = [I.fresh_fun('%s.add%d' % (name, m), Int, sort) for m in range(k)]
        self.A = [I.fresh_fun('%s.if%d' % (name, m), Int, Bool) for m in range(k)]
        self.check = False
        self.dom = None
        self.name = 'set'

    def at(self, i):
        def mem(y):
            j = z3.Int('j$s%d' % uid())
            c = z3.Or(*[z3.And(self.A[m](j), self.G[m](j) == y) for m in range(self.k)])
            m0 = False if self.sv0 is None else self.sv0.mem(y)
            ex = z3.Exists([j], z3.And(j >= 0, j < i, c))
            return ex if m0 is False else z3.Or(m0, ex)
        r = SSetV(self.sort, mem, self.wrap)
        r.form = (self, i)
        return r

    def init(self, I):
        return True

    def define(self, I, i, end):
        vals = appended(self, end)
        if vals is None or len(vals) > self.k:
            raise NoShape('set')
        cs = []
        for m in range(self.k):
            if m < len(vals):
                t = I.sterm(vals[m]) if self.sort == Str else I.ent_of(vals[m])
                cs += [self.A[m](i), self.G[m](i) == t]
            else:
                cs.append(z3.Not(self.A[m](i)))
        return z3.And(*cs)


# -- the rule --------------------------------------------------------------------------

def free_of(t, ids, cache):
    """Does t mention one of the constants or functions with these ids?"""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().get_id() in ids:
                return False
            todo += x.children()
    return True


class Loop:
    def __init__(self, I, st, env, it):
        self.I, self.st, self.env, self.it = I, st, env, it
        self.isfor = it is not None
        self.items = sequence(I, it) if self.isfor else None
        self.seq = getattr(self.items, 'over', self.items)       # the items without the numbers that enumerate or range(len()) give
        self.n = eng().zi(self.items.n) if self.isfor else None
        self.heap0 = list(I.heap)
        self.entry = state(I, self.heap0)
        self.v0 = {}
        for o, cs in self.entry:
            for k, v in cs.items():
                self.v0[(id(o), k)] = v
        self.forms = {}      # key -> (cell, Form)
        self.gens = {}       # key -> iterator of candidate forms
        self.cont = None     # function j -> list of facts, for the current forms
        self.base = I.counter

    def run(self):
        I = self.I
        key = (id(I.ctx.stack), id(self.st), tuple(I.ctx.trace))
        old = I.loop_cache.get(key) if I.replaying() else None
        if old is not None:
            # the same loop, in the same state
            _, forms, self.cont, created, I.counter = old
            self.forms = {}
            for (at, k), f in forms:
                o = GHOST if at is None else I.heap[at]
                self.forms[(id(o), k)] = ((o, k), f)
            I.created += created
            self.after()
            return
        mark = len(I.created)
        self.infer()
        if I.reuse_loops:
            place = {id(o): n for n, o in enumerate(I.heap)}
            if all(c[0] is GHOST or id(c[0]) in place for c, f in self.forms.values()):
                forms = [((None if c[0] is GHOST else place[id(c[0])], c[1]), f) for c, f in self.forms.values()]
                I.loop_cache[key] = (I.ctx.stack, forms, self.cont, I.created[mark:], I.counter)
        self.after()

    def infer(self):
        I = self.I
        stable = False
        last_cont = None
        if I.reuse_loops:
            self.offered()
        I.loopinfo.append(self)
        try:
            for rnd in range(25):
                recs, failed = self.probe(last_cont)
                new = self.update(recs, failed)
                if not new and not failed:
                    stable = True
                    self.cont = self.make_cont(recs)
                    break
                last_cont = None
                if failed and not new:
                    # perhaps what earlier iterations established is needed
                    if not getattr(self, 'retried', None) == self.sig():
                        self.retried = self.sig()
                        last_cont = self.make_cont(recs)
                        continue
                    self.advance(failed)
            if not stable:
                raise Unsupported('no invariant found for the loop at line %s' % getattr(self.st, 'lineno', '?'))
        finally:
            I.loopinfo.pop()
        if not I.probing:
            for key, (cell, f) in self.forms.items():
                if f.check:
                    I.obligations.append({'name': 'loop at line %s: invariant of %s (%s)' % (getattr(self.st, 'lineno', '?'), cell_name(cell), f.name),
                                          'status': 'discharged', 'by': 'z3', 's': 0, 'detail': ''})

    def offered(self):
        """Starts with what the contract offers for the state that all calls change."""
        I = self.I
        for o, cs in self.entry:
            if o is self.env:
                names = {n for s in self.st.body for n in names_stored(s)}
                if self.isfor:
                    names |= names_stored(self.st.target)
                for k in sorted(names):
                    if self.dead(k):
                        self.gens[ck((o, k))] = self.candidates((o, k), cs.get(k, ABSENT), [])
                        self.next_form(ck((o, k)), (o, k))
            if o is GHOST:
                for k, v in cs.items():
                    if k in I.always:
                        self.gens[ck((o, k))] = self.candidates((o, k), v, [])
                        self.next_form(ck((o, k)), (o, k))
            elif any(o is x for x in I.always):
                self.gens[ck((o, '$'))] = self.candidates((o, '$'), cs['$'], [])
                self.next_form(ck((o, '$')), (o, '$'))

    def sig(self):
        return tuple(sorted((k[0], str(k[1]), id(f)) for k, (c, f) in self.forms.items()))

    def install(self, i, cont):
        I = self.I
        for key, (cell, f) in self.forms.items():
            if hasattr(f, 'init'):
                c = f.init(I)
                if c is not True and c is not None:
                    I.assume(c)
        for key, (cell, f) in self.forms.items():
            cell_set(I, cell, f.at(i))
            if f.dom is not None:
                I.assume(f.dom(i))
            x = f.extra(I, i)
            if x is not None:
                I.assume(x)
        if I.on_iteration is not None:
            I.on_iteration(self, i)
        if cont is not None:
            for c in cont(i):
                I.assume(c)
            I.conts.append((cont, i))

    def start(self, i):
        """Runs to the start of the body of iteration i."""
        I = self.I
        if self.isfor:
            I.assign(self.st.target, self.items.get(SInt(i)), self.env)
        else:
            if not I.decide(eng().zb(I.truth(I.eval(self.st.test, self.env)))):
                raise eng().PathEnd()

    def probe(self, cont):
        I = self.I
        e = eng()
        failed = set()
        self.poison = set()

        def thunk():
            i = I.fresh(Int, 'i')
            mark = len(I.facts)
            c0 = len(I.created)
            I.assume(i >= 0)
            if self.isfor:
                I.assume(i < self.n)
            self.install(i, cont)
            start = len(I.facts)
            try:
                self.start(i)
                I.exec_block(self.st.body, self.env)
            except e.ContinueLoop:
                pass
            except (e.BreakLoop, e.ReturnValue, e.PyRaise):
                return None
            end = state(I, self.heap0)
            ch = changed(self.entry, end)
            vals = {}
            for cell, y in ch.items():
                vals[ck(cell)] = (cell, y)
            for key, (cell, f) in self.forms.items():
                for o, cs in end:
                    if o is cell[0]:
                        vals[key] = (cell, cs.get(cell[1], ABSENT))
            defs = []
            for key, (cell, f) in self.forms.items():
                y = vals[key][1]
                if f.check:
                    if key in failed:
                        continue
                    ok = False
                    try:
                        ok = self.preserved(f, i, y)
                    except (Unsupported, NoShape, TypeError):
                        ok = False
                    if not ok:
                        failed.add(key)
                else:
                    try:
                        d = f.define(I, i, y)
                        if d is not None:
                            defs.append(d)
                    except (Unsupported, NoShape, AttributeError, TypeError, z3.Z3Exception):
                        failed.add(key)
            facts = list(I.facts[start:])
            shapes = {}
            for key, (cell, y) in vals.items():
                if key not in self.forms:
                    shapes[key] = self.describe(cell, y)
            return {'i': i, 'facts': facts + defs, 'vals': vals, 'shapes': shapes, 'created': list(I.created[c0:])}
        I.probing += 1
        try:
            recs = [r for r in I.explore(thunk) if r is not None]
        finally:
            I.probing -= 1
        return recs, failed

    def preserved(self, f, i, y):
        I = self.I
        want = f.at(i + 1)
        if f.dom is not None and not I.valid(f.dom(i + 1)):
            return False
        if isinstance(want, Opaque):
            return True
        return self.equal(want, y)

    def equal(self, a, b):
        I = self.I
        if a is ABSENT or b is ABSENT:
            return a is b
        if isinstance(a, SBag) and isinstance(b, (SBag, list)) or isinstance(b, SBag) and isinstance(a, list):
            a, b = [SSetV(x.sort, x.mem, x.wrap) if isinstance(x, SBag) else x for x in (a, b)]
        if isinstance(a, SSetV) or isinstance(b, SSetV):
            I2 = PySet(I, a if isinstance(a, SSetV) else list(a))
            J2 = PySet(I, b if isinstance(b, SSetV) else list(b))
            return I.valid(eng().zb(I.seteq(I2, J2)))
        if isinstance(a, list):
            a = PyList(I, list(a))
        if isinstance(b, list):
            b = PyList(I, list(b))
        if isinstance(a, SSeq) and isinstance(b, PyList):
            a = PyList(I, a)
        if isinstance(b, SSeq) and isinstance(a, PyList):
            b = PyList(I, b)
        return I.valid(eng().zb(I.veq(a, b)))

    def describe(self, cell, y):
        I = self.I
        try:
            if isinstance(y, SSeq) and isinstance(cell[0], PyList):
                return ('list', None)
            return ('shape', shape(I, y, self.heap0))
        except (NoShape, Unsupported, eng().PyRaise):
            return ('none', None)

    # candidates

    def update(self, recs, failed):
        """Adds forms for newly changed cells; True if the forms changed."""
        new = False
        cells = {}
        for r in recs:
            for key, (cell, y) in r['vals'].items():
                if key not in self.forms:
                    cells.setdefault(key, (cell, []))[1].append((r, y))
        for key, (cell, ys) in cells.items():
            allv = []
            for r in recs:
                y = r['vals'].get(key)
                allv.append((r, y[1] if y else self.v0.get(key, ABSENT)))
            self.gens[key] = self.candidates(cell, self.v0.get(key, ABSENT), allv)
            self.next_form(key, cell)
            new = True
        return new

    def next_form(self, key, cell):
        for f in self.gens[key]:
            if f is not None:
                self.forms[key] = (cell, f)
                return
        raise Unsupported('no invariant found for %s in the loop at line %s' % (cell_name(cell), getattr(self.st, 'lineno', '?')))

    def advance(self, failed):
        for key in failed:
            self.next_form(key, self.forms[key][0])

    def holds_at_start(self, f, v0):
        """f(0) == v0?"""
        I = self.I

        def thunk():
            if isinstance(f, Havoc):
                g = f.inv(v0, z3.IntVal(0))
                return all(I.valid(c) for c in g.children()) if z3.is_and(g) else I.valid(g)
            if f.dom is not None and not I.valid(f.dom(z3.IntVal(0))):
                return False
            return self.equal(f.at(z3.IntVal(0)), v0)
        I.probing += 1
        try:
            rs = I.explore(thunk)
        except (Unsupported, eng().PyRaise, TypeError):
            return False
        finally:
            I.probing -= 1
        return bool(rs) and all(rs)

    def candidates(self, cell, v0, allv):
        I = self.I
        o, k = cell
        nm = cell_name(cell)
        ys = [y for r, y in allv]
        # what a contract offers
        for offer in I.form_offers:
            for f in offer(I, self, cell, v0, ys) or []:
                if self.holds_at_start(f, v0):
                    yield f
        if isinstance(o, Env) and self.dead(k):
            yield Form(lambda i: Opaque('%s outside of an iteration' % k), check=True, name='temporary')
        if v0 is ABSENT:
            if all(y is not ABSENT for y in ys):
                yield Form(lambda i: Opaque('%s may have no value' % k), check=True, name='temporary')
            return
        if o is GHOST:
            return
        # counters
        if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
            e = eng()
            ds = set()
            for y in ys:
                try:
                    d = z3.simplify(e.zi(y) - e.zi(v0))
                    ds.add(d.as_long() if z3.is_int_value(d) else None)
                except Unsupported:
                    ds.add(None)
            if len(ds) == 1 and None not in ds:
                c = ds.pop()
                yield Form(lambda i: e.mkint(e.zi(v0) + c * i), name='counter')
        # suffixes
        if isinstance(v0, (str, SStr, SEnt)) or (isinstance(v0, (PyList, SSeq, tuple))):
            f = self.suffix(v0)
            if f is not None:
                yield f
        if isinstance(o, PyList) and isinstance(v0, SSeq):
            f = self.suffix(v0)
            if f is not None:
                yield f
        # growing lists
        if isinstance(o, PyList):
            f = self.appending(cell, v0, allv)
            if f is not None:
                yield f
        if isinstance(o, PySet):
            f = self.adding(cell, v0, allv)
            if f is not None:
                yield f
            return
        # recursion
        if not isinstance(o, (PyList, PySet)):
            try:
                sh = shape(I, v0, self.heap0)
                for r in allv:
                    d = r[0]['shapes'].get(ck(cell))
                    if d is not None:
                        if d[0] != 'shape':
                            raise NoShape('?')
                        sh = merge_shapes(sh, d[1])
                if sh[0] == 'const' or sh[0] == 'ref' and sh[1].described:
                    raise NoShape('object')
                f = Rec(I, sh, v0, '%s@%d' % (nm, uid()))
                f.I = I
                yield f
            except NoShape:
                pass

    def suffix(self, v0):
        I = self.I
        e = eng()
        if isinstance(v0, SEnt):
            return None
        if isinstance(v0, (str, SStr)):
            t = I.sterm(v0)
            s0 = SStr([t])
            from .strings import mkslice

            def at(i):
                i = z3.IntVal(i) if isinstance(i, int) else i
                m = mkslice(I, t, z3.simplify(i), LEN(t))
                return SStr([m]) if m != '' or not isinstance(m, str) else ''
            return Form(at, dom=lambda i: z3.And(i >= 0, i <= LEN(t)), name='suffix')
        frozen = isinstance(v0, PyList)
        s = I.as_seq(v0)

        def at(i):
            i = z3.IntVal(i) if isinstance(i, int) else i
            b, off = (s, 0) if s.base is None else s.base
            r = SSeq(s.kind, e.mkint(e.zi(s.n) - i), lambda j: s.get(e.mkint(e.zi(j) + i)))
            r.base = (b, e.mkint(e.zi(off) + i))
            return PyListView(I, r) if frozen else r
        return Form(at, dom=lambda i: z3.And(i >= 0, i <= e.zi(s.n)), name='suffix')

    def appending(self, cell, v0, allv):
        I = self.I
        lists = []
        for r, y in allv:
            if isinstance(v0, list):
                if isinstance(y, list):
                    if len(y) < len(v0) or not same_items(y[:len(v0)], v0):
                        return None
                    lists.append(y[len(v0):])
                elif isinstance(y, SSeq):
                    return None
                else:
                    return None
            else:
                h = history(y, v0)
                if h is None:
                    return None
                lists.append(h)
        ks = {len(x) for x in lists}
        if not ks or max(ks) == 0:
            return None
        try:
            sh = None
            for x in lists:
                for v in x:
                    sh = merge_shapes(sh, shape(I, v, self.heap0))
        except NoShape:
            return None
        s0 = I.as_seq(PyList(I, v0)) if isinstance(v0, list) else v0
        if len(ks) == 1:
            f = Append(I, s0, sh, ks.pop(), '%s@%d' % (cell_name(cell), uid()), False)
        elif ks == {0, 1}:
            f = Append(I, s0, sh, 1, '%s@%d' % (cell_name(cell), uid()), True)
        else:
            return None
        return f

    def adding(self, cell, v0, allv):
        I = self.I
        k = 0
        sort = None
        for r, y in allv:
            if isinstance(y, list):
                h = y[len(v0):] if isinstance(v0, list) and same_items(y[:len(v0)], v0) else None
            else:
                h = history(y, v0) if not isinstance(v0, list) else None
            if h is None:
                return None
            k = max(k, len(h))
            for v in h:
                s = Str if isinstance(v, (str, SStr)) else Ent
                if sort is None:
                    sort = s
                elif sort != s:
                    sort = Ent
        if sort is None or k == 0:
            return None
        sv0 = I.set_value(PySet(I, list(v0))) if isinstance(v0, list) else v0
        if sv0 is not None and sv0.sort != sort:
            return None
        wrap = (lambda y: SStr([y])) if sort == Str else (lambda y: SEnt(y))
        return SetAdd(I, sv0, sort, wrap, k, '%s@%d' % (cell_name(cell), uid()))

    def dead(self, name):
        """Assigned in every iteration before it is read, and not read elsewhere."""
        if name.startswith('$'):
            return False
        if self.isfor:
            tgt = names_stored(self.st.target)
        else:
            tgt = set()
        if name not in tgt:
            if not self.isfor and reads(self.st.test, name):
                return False
            r = assigned_first(self.st.body, name)
            if r is False:
                return False
        fn = self.env.vars.get('$node')
        if fn is None:
            return True       # comprehension
        return not read_outside(fn, self.st, name)

    # CONT

    def make_cont(self, recs):
        I = self.I
        if not recs:
            return lambda i, at=None: [i == 0]
        if not I.after_loops:
            return lambda i, at=None: []
        paths = []
        for r in recs:
            ids = {}
            for c in r['created']:
                ids[c.get_id() if isinstance(c, z3.FuncDeclRef) else c.decl().get_id()] = c
            ids[r['i'].decl().get_id()] = r['i']
            mine = set(ids)
            others = mine - {r['i'].decl().get_id()}
            fs = [f for f in r['facts'] if not free_of(f, others if f.get_id() in I.bg else mine, None)]
            kept = {f.get_id() for f in fs}
            more = [f for f in r['facts'] if f.get_id() not in kept and not free_of(f, mine, None)]
            paths.append((r, fs, more))
        ii = z3.Int('i$%d' % uid())
        lifted = []
        lifted_more = []
        for r, fs, more in paths:
            csub, fsub = [], []
            for c in r['created']:
                if isinstance(c, z3.FuncDeclRef):
                    ar = [c.domain(k) for k in range(c.arity())]
                    g = z3.Function('%s^%d' % (c.name(), uid()), *([Int] + ar + [c.range()]))
                    fsub.append((c, g))
                else:
                    if c.eq(r['i']):
                        continue
                    g = z3.Function('%s^%d' % (c.decl().name(), uid()), Int, c.sort())
                    csub.append((c, g))
            fs2 = []
            for f in fs + more:
                if fsub:
                    f = z3.substitute_funs(f, *[(c, g(*([r['i']] + [z3.Var(k, c.domain(k)) for k in range(c.arity())]))) for c, g in fsub])
                f = z3.substitute(f, *([(c, g(r['i'])) for c, g in csub] + []))
                f = z3.substitute(f, (r['i'], ii))
                fs2.append(f)
            lifted.append(fs2[:len(fs)])
            lifted_more.append(fs2[len(fs):])
        if len(lifted) == 1:
            facts = lifted[0]
        else:
            # common facts apart
            common = set(f.get_id() for f in lifted[0])
            for fs in lifted[1:]:
                common &= set(f.get_id() for f in fs)
            facts = [f for f in lifted[0] if f.get_id() in common]
            rest = [z3.And(*[f for f in fs if f.get_id() not in common]) for fs in lifted]
            facts.append(z3.Or(*rest))
        self._keep = lifted
        # instances of background axioms, for single indices only
        axioms = [z3.And(*fs) for fs in lifted_more if fs]

        def cont(i, at=None):
            out = []
            j = z3.Int('j$c')
            if at is not None:
                return [z3.Implies(z3.And(at >= 0, at < i), z3.substitute(f, (ii, at))) for f in facts + axioms]
            todo = list(facts)
            while todo:
                f = todo.pop(0)
                if z3.is_and(f):
                    todo[:0] = f.children()
                    continue
                f = z3.substitute(f, (ii, j))
                if z3.is_quantifier(f) and f.is_forall():
                    # one quantifier, for better triggers
                    vs = [z3.Const('%s$m' % f.var_name(k), f.var_sort(k)) for k in range(f.num_vars())]
                    back = list(reversed(vs))
                    ts = [[z3.substitute_vars(t, *back) for t in f.pattern(k).children()] for k in range(f.num_patterns())]
                    ps = [z3.MultiPattern(*p) for p in ts] if all(any(mentions(t, j) for t in p) for p in ts) else []
                    out.append(z3.ForAll([j] + vs, z3.Implies(z3.And(j >= 0, j < i), z3.substitute_vars(f.body(), *reversed(vs))), patterns=ps))
                    continue
                out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), f)))
            return out
        return cont

    def after(self):
        I = self.I
        e = eng()
        if I.choose():
            if self.isfor:
                i = self.n
                I.assume(self.n >= 0)
                self.install(i, self.cont)
            else:
                i = I.fresh(Int, 'n')
                I.assume(i >= 0)
                self.install(i, self.cont)
                if I.decide(e.zb(I.truth(I.eval(self.st.test, self.env)))):
                    raise e.PathEnd()
            I.exec_block(self.st.orelse, self.env)
            return
        i = I.fresh(Int, 'i')
        I.assume(i >= 0)
        if self.isfor:
            I.assume(i < self.n)
        self.install(i, self.cont)
        self.start(i)
        try:
            I.exec_block(self.st.body, self.env)
        except e.BreakLoop:
            return
        except e.ContinueLoop:
            pass
        raise e.PathEnd()


class PyListView(PyList):
    pass


def cell_name(cell):
    o, k = cell
    if o is GHOST:
        return 'ghost ' + str(k)
    if isinstance(o, (Env, Obj)):
        return str(k)
    return 'list' if isinstance(o, PyList) else 'set' if isinstance(o, PySet) else 'dict[%r]' % (k,)


def run(I, st, env, it):
    Loop(I, st, env, it).run()


# -- names -------------------------------------------------------------------------------

def names_stored(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def reads(node, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Load, ast.Del)) for x in ast.walk(node))


def assigned_first(body, name):
    """True: assigned before read; False: may be read first; None: neither."""
    for st in body:
        r = assigned_first1(st, name)
        if r is not None:
            return r
    return None


def assigned_first1(st, name):
    if isinstance(st, ast.Assign):
        if reads(st.value, name):
            return False
        for t in st.targets:
            if reads(t, name):
                return False
            if name in names_stored(t):
                return True
        return None
    if isinstance(st, ast.AugAssign):
        if reads(st.value, name) or name in names_stored(st.target) or reads(st.target, name):
            return False
        return None
    if isinstance(st, ast.If):
        if reads(st.test, name):
            return False
        a, b = assigned_first(st.body, name), assigned_first(st.orelse, name)
        if a is False or b is False:
            return False
        ta, tb = terminates(st.body), terminates(st.orelse)
        if (a or ta) and (b or tb):
            return True if (a or b) else None
        if a is None and b is None:
            return None
        return True if (a and tb) or (b and ta) else (None if not later_ok() else None)
    if isinstance(st, (ast.For, ast.While)):
        if isinstance(st, ast.For):
            if reads(st.iter, name):
                return False
            if name in names_stored(st.target):
                inner = assigned_first(st.body, name)
                return None if inner is not False else None
        elif reads(st.test, name):
            return False
        r = assigned_first(st.body, name)
        if r is False or assigned_first(st.orelse, name) is False:
            return False
        return None
    if reads(st, name):
        return False
    if name in names_stored(st):
        return None
    return None


def later_ok():
    return True


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


def read_outside(fn, loop, name):
    """Is the variable read where control may come after the loop?"""
    inside = {id(x) for x in ast.walk(loop)}
    nested, closures = False, set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)) and x is not loop and id(loop) in {id(y) for y in ast.walk(x)}:
            nested = True
        if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)):
            closures |= {id(y) for y in ast.walk(x)}
    at = (getattr(loop, 'lineno', 0), getattr(loop, 'col_offset', 0))
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside:
            if nested or id(x) in closures or (x.lineno, x.col_offset) > at:
                return True
    return False
