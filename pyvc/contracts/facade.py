"""Contracts of the facade: gb/hypergraph/hypergraph.py, null.py, batch_hypergraph.py
(G10-G13, G15), over the contracts of the backend (pyvc/backend.py)."""
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T, backend as B
from ..engine import zi, mkint, mkbool
from .symbol import entity, a_text

H = 'gb.hypergraph.hypergraph.HyperGraph.'
N = 'gb.hypergraph.null.Null.'
BH = 'gb.hypergraph.batch_hypergraph.BatchHyperGraph.'


def cls(I, q):
    return I.find(q.rstrip('.'))


def facade(I, backend, q=H):
    return Obj(I, cls(I, q), {'backend': backend})


def delegation(name):
    class Delegates(Contract):
        __doc__ = 'HyperGraph.%s is the operation of the backend.' % name
        key = '%s: facade' % name
        qual = H + name
        props = ('G15',)

        def args(self, I):
            sig = B.SIGS[name]
            a = [B.token(I) for p in sig]
            if sig and len(sig[-1]) > 1 and I.choose():
                a.pop()
            return [facade(I, B.Recorder.make(I))] + a

        def post(self, I, args, r):
            calls = args[0].fields['backend'].fields['$calls']
            I.prove(len(calls) == 1 and calls[0][0] == name, 'one call of the operation of the backend')
            want = B.bind(name, args[1:], {})
            got = calls[0][1]
            I.prove(all(x is y or (isinstance(x, int) and type(x) is type(y) and x == y) for x, y in zip(got, want)), 'with the same arguments')
            I.prove(r is calls[0][2], 'and its result')
    Delegates.__name__ = 'Facade_' + name
    register(Delegates)


for _n in B.SIGS:
    delegation(_n)


@register
class FacadeInit(Contract):
    qual = H + '__init__'
    props = ('G15', 'C01')
    KINDS = {'null': 'gb.hypergraph.null.Null', 'sqlite': 'gb.hypergraph.sqlite.SQLite', 'mysql': 'gb.hypergraph.mysql.MySQL'}

    def args(self, I):
        I.ghost['$params'] = p = PyDict(I, {'backend': a_text(I, 'backend'), 'db': B.token(I), 'host': B.token(I), 'user': B.token(I), 'password': B.token(I)})
        return [Obj(I, cls(I, H)), p]

    def prepare(self, I, args):
        for q in ('gb.hypergraph.sqlite.SQLite', 'gb.hypergraph.mysql.MySQL'):
            def made(I, f, b, q=q):
                b[0].fields['$made'] = (q, b[1])
            I.ghost_models['call:%s.__init__' % q] = made

    def name_is(self, I, n):
        return zb(I.veq(I.ghost['$params'].items['backend'], n))

    def post(self, I, args, r):
        b = args[0].fields.get('backend')
        if b is None:
            I.prove(self.name_is(I, 'none'), 'without a backend only if asked for none')
            return
        I.prove(isinstance(b, Obj) and isinstance(b.cls, ClassVal) and b.cls.qual in self.KINDS.values(), 'a known kind of backend')
        n = [k for k, q in self.KINDS.items() if q == b.cls.qual][0]
        I.prove(self.name_is(I, n), 'the backend that was named')
        if n != 'null':
            I.prove(b.fields.get('$made') == (b.cls.qual, args[1]), 'made with the parameters')

    def on_raise(self, I, args, exc):
        I.prove(exc.name == 'RuntimeError', 'refused with an error')
        for n in ('none', 'null', 'sqlite', 'mysql'):
            I.prove(z3.Not(self.name_is(I, n)), 'only unknown names are refused')


def null(name, check):
    class NullOp(Contract):
        __doc__ = 'Null.%s answers as for an empty hypergraph.' % name
        qual = N + name
        props = ('G15',)

        def args(self, I):
            a = [B.token(I) for p in B.SIGS[name]]
            if a and len(B.SIGS[name][-1]) > 1 and I.choose():
                a.pop()
            return [Obj(I, cls(I, N))] + a

        def post(self, I, args, r):
            I.prove(check(I, args, r), 'the answer for an empty hypergraph')
            I.prove(args[0].fields == {}, 'nothing is stored')
    NullOp.__name__ = 'Null_' + name
    register(NullOp)


def empty_set(I, a, r):
    return isinstance(r, PySet) and I.set_value(r) is None


def int_is(n):
    return lambda I, a, r: isinstance(r, int) and not isinstance(r, bool) and r == n


null('exists', lambda I, a, r: r is False)
null('add', lambda I, a, r: r is a[1])
null('remove', lambda I, a, r: r is None)
null('pattern2edges', empty_set)
null('star', empty_set)
null('symbols_with_root', empty_set)
null('destroy', lambda I, a, r: r is None)
null('degree', int_is(0))
null('timestamp', int_is(-1))
null('batch_exec', lambda I, a, r: r is None)
null('f_all', lambda I, a, r: I.concrete_items(r) == [])


# -- beliefs (G10)

def const(I, n):
    return I.find('gb.hypergraph.constants.' + n)


def an_edge(I, name='edge'):
    e = I.fresh(Ent, name)
    I.assume(z3.And(KIND(e) == 0, ELEN(e) >= 2))
    return SEnt(e)


def atomic_first(I, e):
    """An edge given singly starts with an atom (else it reads as several)."""
    I.assume(KIND(EL(e.t, 0)) != 0)


class Beliefs(Contract):
    props = ('G10',)

    def hg(self, I):
        B.tup_axioms(I, 3)
        b = B.Abstract.make(I)
        I.ghost['$old'] = I.ghost['$EX']
        return facade(I, b)

    def tup3(self, I):
        return z3.Function('TUP3', Ent, Ent, Ent, Ent)

    def src(self, I):
        return I.ent_of(const(I, 'source'))

    def log(self, I, args):
        b = args[0].fields['backend']
        return b.fields['$LE'], b.fields['$LT']


@register
class AddBelief(Beliefs):
    """One fact."""
    qual = H + 'add_belief'
    key = 'add_belief: one fact'

    def args(self, I):
        e = an_edge(I)
        atomic_first(I, e)
        a = [self.hg(I), entity(I, 'source'), e, SInt(I.fresh(Int, 'ts'))]
        if I.choose():
            a.pop()
        return a

    def post(self, I, args, r):
        e, s = args[2].t, args[1].t
        b = self.tup3(I)(self.src(I), e, s)
        x = I.fresh(Ent, 'x')
        old, new = I.ghost['$old'], I.ghost['$EX']
        I.prove(zb(new(x)) == z3.Or(zb(old(x)), x == e, x == b), 'the fact and the source exist, everything else is as before')
        LE, LT = self.log(I, args)
        ts = args[3] if len(args) > 3 else -1
        I.prove(zb(I.veq(LE, PyList(I, [SEnt(e), SEnt(b)]))), 'the fact and then its source are added')
        I.prove(zb(I.veq(LT, PyList(I, [ts, ts]))), 'with the timestamp')


@register
class AddBeliefs(Beliefs):
    """Several facts."""
    qual = H + 'add_belief'
    key = 'add_belief: several facts'

    def args(self, I):
        n = I.fresh(Int, 'n')
        f = I.fresh_fun('edges', Int, Ent)
        j = z3.Int('j$')
        I.assume(n >= 1)
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(KIND(f(j)) == 0, ELEN(f(j)) >= 2)), patterns=[f(j)]))
        s = SSeq('tuple', SInt(n), lambda j: SEnt(f(zi(j))))
        I.ghost['$edges'] = (n, f)
        hg = self.hg(I)
        return [hg, entity(I, 'source'), s if I.choose() else PyList(I, SSeq('list', s.n, s.get)), SInt(I.fresh(Int, 'ts'))]

    def post(self, I, args, r):
        s = args[1].t
        T3 = self.tup3(I)
        x = I.fresh(Ent, 'x')
        n, f = I.ghost['$edges']
        old, new = I.ghost['$old'], I.ghost['$EX']
        j = z3.Int('j$q')
        some = z3.Exists([j], z3.And(j >= 0, j < n, z3.Or(x == f(j), x == T3(self.src(I), f(j), s))))
        LE, LT = self.log(I, args)
        want = SSeq('list', mkint(2 * n), lambda k: I.vite(I.simp(zi(k) % 2 == 0), SEnt(f(zi(k) / 2)), SEnt(T3(self.src(I), f(zi(k) / 2), s))))
        I.prove(zb(I.veq(LE, PyList(I, want))), 'the facts and sources are added one after another in order')
        I.prove(zb(I.veq(LT, PyList(I, SSeq('list', mkint(2 * n), lambda k: args[3])))), 'with the timestamp')
        k = I.fresh(Int, 'k')
        I.prove(z3.Implies(zb(old(x)), zb(new(x))), 'every edge stays')
        I.assume(z3.And(k >= 0, k < n))
        le = I.as_seq(LE)
        for d in (0, 1):
            I.prove(I.ent_of(le.get(SInt(2 * k + d))) == (f(k) if d == 0 else T3(self.src(I), f(k), s)), 'an added edge')
        I.prove(zb(new(f(k))), 'the facts exist', [2 * k, k])
        I.prove(zb(new(T3(self.src(I), f(k), s))), 'the source is among their sources', [2 * k + 1, k])
        I.prove(z3.Implies(zb(new(x)), z3.Or(zb(old(x)), some)), 'nothing else exists')


@register
class Sources(Beliefs):
    qual = H + 'sources'

    def args(self, I):
        return [self.hg(I), an_edge(I)]

    def post(self, I, args, r):
        I.prove(isinstance(r, PySet), 'a set')
        y = I.fresh(Ent, 'y')
        sv = I.set_value(r)
        got = z3.BoolVal(False) if sv is None else zb(sv.mem(y))
        b = self.tup3(I)(self.src(I), args[1].t, y)
        has = zb(I.ghost['$EX'](b))
        I.prove(z3.Implies(got, has), 'every result is a source')
        I.prove(z3.Implies(has, got), 'every source is a result')

    def use(self, I, f, args):
        ex = I.ghost['$EX']
        T3 = self.tup3(I)
        s, e = self.src(I), I.ent_of(args[1])
        return PySet(I, B.edge_set(lambda y: zb(ex(T3(s, e, y)))))


@register
class RemoveBelief(Beliefs):
    qual = H + 'remove_belief'

    def args(self, I):
        e = an_edge(I)
        atomic_first(I, e)
        return [self.hg(I), entity(I, 'source'), e]

    def post(self, I, args, r):
        old, new = I.ghost['$old'], I.ghost['$EX']
        e, s = args[2].t, args[1].t
        T3 = self.tup3(I)
        S = self.src(I)
        x = I.fresh(Ent, 'x')
        y = z3.Const('y$s', Ent)
        left = z3.Exists([y], z3.And(y != s, zb(old(T3(S, e, y)))))
        I.prove(z3.Implies(zb(new(x)), z3.And(zb(old(x)), x != T3(S, e, s))), 'the source is taken away and nothing appears')
        I.prove(z3.Implies(z3.And(zb(old(x)), x != T3(S, e, s), x != e), zb(new(x))), 'other facts and sources are unaffected')
        I.prove(z3.Implies(z3.And(zb(old(e)), e != T3(S, e, s), left), zb(new(e))), 'the fact stays while a source is left')
        I.prove(z3.Implies(z3.Not(left), z3.Not(zb(new(e)))), 'the fact is removed if no source is left')


# -- patterns (G11)

@register
class RemoveByPattern(Contract):
    qual = H + 'remove_by_pattern'
    props = ('G11',)

    def args(self, I):
        b = B.Abstract.make(I)
        I.ghost['$old'] = I.ghost['$EX']
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        f = I.fresh_fun('pat', Int, Ent)
        w = I.fresh_fun('wild', Int, Bool)
        p = SSeq('tuple', SInt(n), lambda j: SOpt(w(zi(j)), SEnt(f(zi(j)))))
        return [facade(I, b), p]

    def prepare(self, I, args):
        old = I.ghost['$old']

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is loops.GHOST and cell[1] == '$EX' and loop.seq is not None and getattr(loop.seq, 'pos', None) is not None:
                sv, pos = loop.seq.from_set, loop.seq.pos
                yield loops.Form(lambda i: SFun([Ent], lambda x: z3.And(zb(v0(x)), z3.Not(z3.And(zb(sv.mem(x)), pos(x) < i)))), name='the edges before i are removed')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        m = B.pattern_mem(I, args[1])
        old, new = I.ghost['$old'], I.ghost['$EX']
        x = I.fresh(Ent, 'x')
        I.prove(z3.Implies(zb(new(x)), z3.And(zb(old(x)), z3.Not(m(x)))), 'the matching edges are removed')
        I.prove(z3.Implies(z3.And(zb(old(x)), z3.Not(m(x))), zb(new(x))), 'every other edge stays')


# -- neighbourhoods (G13)

EGO = z3.Function('EGO', Int, Ent, Ent, Bool)


@register
class Ego(Contract):
    qual = H + 'ego'
    props = ('G13',)

    def args(self, I):
        b = B.Abstract.make(I)
        I.ghost['$old'] = I.ghost['$EX']
        ex = I.ghost['$EX']
        d, c, x, e, y = z3.Int('d$'), z3.Const('c$', Ent), z3.Const('x$', Ent), z3.Const('e$', Ent), z3.Const('y$', Ent)
        j = z3.Int('j$')
        STAR = self.STAR
        VIA, VIAJ = self.VIA, self.VIAJ
        I.assume(z3.ForAll([c, x], STAR(c, x) == z3.And(zb(ex(x)), B.contains_mem(I, SEnt(c))(x)), patterns=[STAR(c, x)]))
        I.assume(z3.ForAll([d, c, x], z3.Implies(d <= 0, z3.Not(EGO(d, c, x))), patterns=[EGO(d, c, x)]))
        # the definition, the existential as witness functions
        w, wj = VIA(d, c, x), VIAJ(d, c, x)
        I.assume(z3.ForAll([d, c, x], z3.Implies(z3.And(d > 0, EGO(d, c, x)), z3.Or(STAR(c, x), z3.And(STAR(c, w), wj >= 1, wj < ELEN(w), EGO(d - 1, EL(w, wj), x)))), patterns=[EGO(d, c, x)]))
        I.assume(z3.ForAll([d, c, x], z3.Implies(z3.And(d > 0, STAR(c, x)), EGO(d, c, x)), patterns=[EGO(d, c, x)]))
        I.assume(z3.ForAll([d, c, x, e, j], z3.Implies(z3.And(d > 0, STAR(c, e), j >= 1, j < ELEN(e), EGO(d - 1, EL(e, j), x)), EGO(d, c, x)),
                           patterns=[z3.MultiPattern(EGO(d, c, x), STAR(c, e), EL(e, j))]))
        b.fields['$star'] = STAR
        return [facade(I, b), entity(I, 'center'), SInt(I.fresh(Int, 'depth'))]

    STAR = z3.Function('STAR', Ent, Ent, Bool)
    VIA = z3.Function('VIA', Int, Ent, Ent, Ent)
    VIAJ = z3.Function('VIAJ', Int, Ent, Ent, Int)

    def post(self, I, args, r):
        I.prove(isinstance(r, PySet), 'a set')
        x = I.fresh(Ent, 'x')
        sv = I.set_value(r)
        got = z3.BoolVal(False) if sv is None else zb(sv.mem(x))
        c, d = args[1].t, zi(args[2])
        I.prove(z3.Implies(got, EGO(d, c, x)), 'every result is in the neighbourhood')
        I.assume(EGO(d, c, x))
        if I.decide(self.STAR(c, x)):
            I.prove(got, 'the edges of the entity are in the result')
            return
        w, wj = self.VIA(d, c, x), self.VIAJ(d, c, x)
        y = EL(w, wj)
        hints = [w, wj, wj - 1]
        for sv, pos, item in I.ghost.get('$enums', ()):
            if sv.sort == Ent:
                I.lemma(zb(sv.mem(y)), hints)
                I.assume(z3.Implies(zb(sv.mem(y)), z3.And(pos(y) >= 0, item(pos(y)) == y)))
                hints.append(pos(y))
        I.prove(got, 'the whole neighbourhood is in the result', hints)

    def use(self, I, f, args):
        c, d = I.ent_of(args[1]), zi(args[2])
        return PySet(I, B.edge_set(lambda y: EGO(d, c, y)))


# -- buffers (G12)

class Buffered(Contract):
    props = ('G12',)

    def hg(self, I):
        b = B.Abstract.make(I)
        # what was added before does not matter: the log starts empty
        n = I.fresh(Int, 'waiting')
        I.assume(n >= 0)
        f = I.fresh_fun('waiting', Int, Ent)
        mx = SInt(I.fresh(Int, 'limit'))
        I.assume(z3.And(mx.t >= 0, n <= mx.t))
        j = z3.Int('j$')
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), KIND(f(j)) == 0), patterns=[f(j)]))
        buf = PyList(I, SSeq('list', SInt(n), lambda j: SEnt(f(zi(j)))))
        o = Obj(I, cls(I, BH), {'backend': b, 'hg': facade(I, b), 'buffer': buf, 'buffer_max': mx, 'timestamp': SInt(I.fresh(Int, 'stamp'))})
        I.ghost['$before'] = (buf.items, o.fields['timestamp'])
        return o

    def total(self, I, o):
        """What was added and what waits, as lists of edges and timestamps."""
        b = o.fields['backend']
        e, t = PyList(I, b.fields['$LE'].items), PyList(I, b.fields['$LT'].items)
        buf = o.fields['buffer']
        ts = o.fields['timestamp']
        n = I.length(buf)
        I.list_extend(e, buf)
        I.list_extend(t, SSeq('list', n, lambda j: ts))
        return e, t

    def check(self, I, o, new, ts):
        """The total is what waited at first and then the new edges (sequence) with ts."""
        items, stamp = I.ghost['$before']
        we, wt = PyList(I, items), PyList(I, SSeq('list', items.n, lambda j: stamp))
        if new is not None:
            I.list_extend(we, new)
            I.list_extend(wt, SSeq('list', I.length(new), lambda j: ts))
        e, t = self.total(I, o)
        I.prove(zb(I.veq(I.length(e), I.length(we))), 'as many edges')
        I.prove(zb(I.veq(e, we)), 'every edge, in order')
        I.prove(zb(I.veq(t, wt)), 'with its timestamp')
        I.prove(zi(I.length(o.fields['buffer'])) <= zi(o.fields['buffer_max']), 'at most the limit is waiting')


@register
class BufferInit(Buffered):
    qual = BH + '__init__'

    def args(self, I):
        b = B.Abstract.make(I)
        a = [Obj(I, cls(I, BH)), facade(I, b)]
        if I.choose():
            a.append(SInt(I.fresh(Int, 'limit')))
        return a

    def post(self, I, args, r):
        o = args[0]
        I.prove(o.fields.get('backend') is args[1].fields['backend'], 'the backend of the hypergraph')
        I.prove(isinstance(o.fields.get('buffer'), PyList) and I.concrete_items(o.fields['buffer']) == [], 'nothing waits')
        if len(args) > 2:
            I.prove(zb(I.veq(o.fields.get('buffer_max'), args[2])), 'the limit')
        else:
            I.prove(isinstance(o.fields.get('buffer_max'), int) and o.fields['buffer_max'] >= 0, 'a limit')
        I.prove(I.concrete_items(args[1].fields['backend'].fields['$LE']) == [], 'nothing is added')


@register
class Flush(Buffered):
    qual = BH + 'flush'

    def args(self, I):
        o = self.hg(I)
        a = [o]
        if I.choose():
            a.append(SInt(I.fresh(Int, 'ts')) if I.choose() else None)
        return a

    def post(self, I, args, r):
        o = args[0]
        if len(args) > 1 and args[1] is not None:
            items, stamp = I.ghost['$before']
            I.ghost['$before'] = (items, args[1])
        I.prove(zb(I.veq(I.length(o.fields['buffer']), 0)), 'nothing waits')
        self.check(I, o, None, None)


@register
class BufferedAdd(Buffered):
    qual = BH + 'add'
    key = 'add: buffered'

    def args(self, I):
        o = self.hg(I)
        if I.choose():
            e = an_edge(I)
            atomic_first(I, e)
            new = e
        else:
            n = I.fresh(Int, 'n')
            I.assume(n >= 1)
            f = I.fresh_fun('edges', Int, Ent)
            j = z3.Int('j$')
            I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), KIND(f(j)) == 0), patterns=[f(j)]))
            new = SSeq('tuple', SInt(n), lambda j: SEnt(f(zi(j))))
            if I.choose():
                new = PyList(I, SSeq('list', new.n, new.get))
        a = [o, new]
        if I.choose():
            a.append(SInt(I.fresh(Int, 'ts')))
        return a

    def post(self, I, args, r):
        o, new = args[:2]
        ts = args[2] if len(args) > 2 else -1
        I.prove(r is new or zb(I.veq(r, new)), 'what was given is returned')
        I.prove(o.fields['buffer'] is not new, 'the buffer is not the list that was given')
        self.check(I, o, PyList(I, [new]) if isinstance(new, SEnt) else new, ts)


@register
class BufferedBelief(Buffered):
    qual = H + 'add_belief'
    key = 'add_belief: buffered'

    def args(self, I):
        B.tup_axioms(I, 3)
        o = self.hg(I)
        src = entity(I, 'source')
        I.ghost['$n'] = None
        if I.choose():
            e = an_edge(I)
            atomic_first(I, e)
            I.ghost['$new'] = [SEnt(e.t), (const(I, 'source'), e, src)]
            return [o, src, e, SInt(I.fresh(Int, 'ts'))]
        n = I.fresh(Int, 'n')
        f = I.fresh_fun('edges', Int, Ent)
        j = z3.Int('j$')
        I.assume(n >= 1)
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(KIND(f(j)) == 0, ELEN(f(j)) >= 2)), patterns=[f(j)]))
        T3 = z3.Function('TUP3', Ent, Ent, Ent, Ent)
        S = I.ent_of(const(I, 'source'))
        I.ghost['$new'] = SSeq('list', mkint(2 * n), lambda k: I.vite(I.simp(zi(k) % 2 == 0), SEnt(f(zi(k) / 2)), SEnt(T3(S, f(zi(k) / 2), src.t))))
        return [o, src, SSeq('tuple', SInt(n), lambda j: SEnt(f(zi(j)))), SInt(I.fresh(Int, 'ts'))]

    def post(self, I, args, r):
        new = I.ghost['$new']
        self.check(I, args[0], PyList(I, list(new)) if isinstance(new, list) else PyList(I, new), args[3])
