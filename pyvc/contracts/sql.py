"""Contracts of the SQLite store: gb/hypergraph/sql.py and sqlite.py (G01-G09)."""
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T, store as S, backend as B
from ..engine import zi, mkint, mkbool, PyRaise
from .symbol import a_text, entity
from .edge import wf

M = 'gb.hypergraph.sql.'
SQL = M + 'SQL.'
WRITES = ('G01', 'G02', 'G03', 'G04', 'G05', 'G06', 'G07', 'G08', 'G09')


# -- texts in order

@register
class StrPlus1(Contract):
    qual = M + 'str_plus_1'
    props = ('G02', 'G03', 'G04')

    def args(self, I):
        return [a_text(I, 's')]

    def pre(self, I, args):
        n = zi(I.slen(args[0]))
        return [('not empty', n >= 1), ('a last character that is not the greatest one', z3.Implies(n >= 1, I.code_at(args[0], n - 1) < 0x10FFFF))]

    def post(self, I, args, r):
        t = I.sterm(args[0])
        I.prove(isinstance(r, (str, SStr)), 'a text')
        n = LEN(t)
        I.prove(zi(I.slen(r)) == n, 'the same length')
        k = I.fresh(Int, 'k')
        I.prove(z3.Implies(z3.And(k >= 0, k < n - 1), I.code_at(r, k) == CH(t, k)), 'the same characters but the last')
        I.prove(I.code_at(r, n - 1) == CH(t, n - 1) + 1, 'the last character is the next one')

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        t = I.sterm(args[0])
        S.range_lemma(I, t)
        I.ghost_models['$prefixes'] = I.ghost_models.get('$prefixes', ()) + (t,)
        return SStr([S.PLUS1(t)])


@register
class Range(Contract):
    """For the queries by prefix."""
    key = 'the texts in the range of a prefix'
    qual = M + 'str_plus_1'
    props = ('G02', 'G03', 'G04')

    def args(self, I):
        return [a_text(I, 'p')]

    pre = StrPlus1.pre

    def run(self, I, f, args):
        # PLUS1, by the contract
        t = I.sterm(args[0])
        q, j = S.PLUS1(t), z3.Int('j$')
        n = LEN(t)
        I.assume(z3.And(LEN(q) == n, CH(q, n - 1) == CH(t, n - 1) + 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n - 1), CH(q, j) == CH(t, j)), patterns=[CH(q, j)])))
        return q

    def post(self, I, args, q):
        t = I.sterm(args[0])
        s = I.fresh(Str, 's')
        I.fact(LEN(s) >= 0)
        a, b = S.before(I, s, t), S.before(I, s, q)
        st = S.starts_def(I, s, t)
        c, d = S.CPL(s, t), S.CPL(s, q)
        w = S.PDIFF(s, t)
        n = LEN(t)
        for x in (c, d, w, n - 1):
            I.fact(CH(q, x) == CH(q, x))
        # instances at the places where the texts first differ
        I.assume(z3.And(*[z3.Implies(z3.And(x >= 0, x < n - 1), CH(q, x) == CH(t, x)) for x in (c, d, w)]))
        I.prove(z3.Implies(st, z3.And(z3.Not(a), b)), 'texts that start with the prefix are in the range')
        I.prove(z3.Implies(z3.And(z3.Not(a), b), st), 'texts in the range start with the prefix')


# -- patterns

@register
class EdgeMatches(Contract):
    qual = M + 'edge_matches_pattern'
    props = ('G01', 'G03')

    def args(self, I):
        e = I.fresh(Ent, 'e')
        I.assume(KIND(e) == 0)
        return [SEnt(e), a_pattern(I)]

    def post(self, I, args, r):
        m = match(I, args[1])
        t = m(args[0].t)
        w = z3.Int('w$m')
        I.prove(isinstance(r, (bool, SBool)), 'a truth value')
        I.prove(zb(r) == t, 'exactly if it has as many elements and agrees where the pattern is no wildcard')

    def use(self, I, f, args):
        x = I.ent_of(args[0])
        return mkbool(match(I, args[1])(x))


def a_pattern(I):
    n = I.fresh(Int, 'n')
    I.assume(n >= 1)
    f = I.fresh_fun('pat', Int, Ent)
    w = I.fresh_fun('wild', Int, Bool)
    j = z3.Int('j$p')
    T.wf_axioms(I)
    I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, z3.Not(w(j))), T.WF(f(j))), patterns=[f(j)]))
    return SSeq('tuple', SInt(n), lambda j: SOpt(w(zi(j)), SEnt(f(zi(j)))))


def item_of(I, p, j):
    """Is position j a wildcard, and the entity there."""
    v = I.as_seq(p).get(SInt(j))
    if v is None:
        return z3.BoolVal(True), None
    if isinstance(v, SOpt):
        return zb(v.none), I.ent_of(v.val)
    return z3.BoolVal(False), I.ent_of(v)


def match(I, p):
    """The predicate 'matches the pattern p', by name."""
    if isinstance(p, SEnt):
        y = p.t
        return lambda x: z3.And(KIND(x) == 0, x == y)
    p = I.as_seq(p)
    c = I.ghost_models.setdefault('$match', {})
    m = c.get(id(p.get))
    if m is None:
        n = len(c)
        m = z3.Function('MATCH%d' % n, Ent, Bool)
        d = z3.Function('MISMATCH%d' % n, Ent, Int)
        c[id(p.get)] = m
        c['keep%d' % n] = p
        c[id(p.get), 'd'] = d
    d = c[id(p.get), 'd']
    x, j = z3.Const('x$m', Ent), z3.Int('j$m')

    def at(k):
        w, e = item_of(I, p, k)
        return z3.Or(w, EL(x, k) == e) if e is not None else w
    n = zi(I.as_seq(p).n)
    w = d(x)
    I.fact(z3.ForAll([x], z3.Implies(m(x), z3.And(KIND(x) == 0, ELEN(x) == n)), patterns=[m(x)]))
    I.fact(z3.ForAll([x, j], z3.Implies(z3.And(m(x), j >= 0, j < n), at(j)), patterns=[z3.MultiPattern(m(x), EL(x, j))]))
    I.fact(z3.ForAll([x], z3.Or(m(x), KIND(x) != 0, ELEN(x) != n, z3.And(w >= 0, w < n, z3.Not(at(w)))), patterns=[m(x)]))
    return m


# -- rows

def rows_ok(I, res):
    """All the rows are orderings of edges."""
    s = z3.Const('s$c', Str)
    m = zb(res(s))
    return z3.ForAll([s], z3.Implies(m, z3.And(S.perm_ok(S.DE(s), S.PK(s)), s == S.PS(S.DE(s), S.PK(s)))), patterns=[S.DE(s)] + ([m] if z3.is_app(m) and m.num_args() == 1 and m.arg(0).eq(s) else []))


def row_text(I, loop):
    """The rows a loop goes through, if they are the rows of a query for ids."""
    r = getattr(loop.seq, 'rows', None)
    return None if r is None else (lambda j: r[1].item(zi(j)))


def rows_so_far(I, loop, cell, v0, ys):
    """The edges of the rows read so far, in a list or a set."""
    from .. import loops
    row = row_text(I, loop) if loop.seq is not None else None
    if row is None or not (isinstance(v0, list) and not v0):
        return
    if isinstance(cell[0], PyList):
        yield loops.Form(lambda i: SSeq('list', mkint(i), lambda j: SEnt(S.DE(row(j)))), name='the edges of the rows before i')
        yield loops.Form(lambda i: SSeq('list', mkint(i), lambda j: SStr([T.E2S(first_of(S.DE(row(j)), S.PK(row(j))))])), name='the first elements of the rows before i')
    if isinstance(cell[0], PySet):
        def at(i, f):
            if (isinstance(i, int) and i == 0) or (z3.is_expr(i) and z3.is_int_value(i) and i.as_long() == 0):
                return []
            j = z3.Int('j$w')
            return SSetV(Ent, lambda y: z3.Exists([j], z3.And(j >= 0, j < i, f(row(j)) == y)), lambda y: SEnt(y))
        yield loops.Form(lambda i: at(i, S.DE), name='the edges of the rows before i')
        j = z3.Int('j$w')
        yield loops.Form(lambda i: [] if is0(i) else SSetV(Str, lambda y: z3.Exists([j], z3.And(j >= 0, j < i, T.E2S(first_of(S.DE(row(j)), S.PK(row(j)))) == y)), lambda y: SStr([y])),
                         name='the first elements of the rows before i')


def first_of(e, k):
    return EL(e, T.PI(ELEN(e), k, 0))


def match_texts(I, q):
    """Sequences of texts met in the code against those of the orderings and edges."""
    e, k = z3.Const('e$x', Ent), z3.Int('k$x')
    for o, ps in ((S.PSEQ(e, k), [e, k]), (S.FSQ(e, k), [e, k]), (T.NSEQ(e), [e])):
        d = T.QDIFF(q, o)
        I.fact(z3.ForAll(ps, z3.Implies(z3.And(T.SQL(q) == T.SQL(o), z3.Implies(z3.And(d >= 0, d < T.SQL(q)), T.SQA(q, d) == T.SQA(o, d))), q == o), patterns=[o]))


class Rows(Contract):
    def setup(self, I, decode=True):
        S.row_axioms(I, decode)
        S.text_axioms(I)
        I.ghost['$ssq'] = (match_texts,)
        I.form_offers.append(rows_so_far)


@register
class Cur2Edges(Rows):
    qual = M + 'cur2edges'
    props = ('G01', 'G02', 'G03')

    def args(self, I):
        self.setup(I)
        res = I.fresh_fun('RES', Str, Bool)
        I.assume(rows_ok(I, res))
        c = S.Cursor.make(I, S.Conn.make(I))
        c.fields['$rs'] = S.Result(I, lambda s: res(s), [None])
        I.ghost['$res'] = res
        return [c]

    def post(self, I, args, r):
        res = I.ghost['$res']
        I.prove(isinstance(r, PySet), 'a set')
        sv = I.set_value(r)
        y, s = I.fresh(Ent, 'y'), I.fresh(Str, 's')
        x = z3.Const('x$', Str)
        got = z3.BoolVal(False) if sv is None else zb(sv.mem(y))
        I.prove(z3.Implies(got, z3.Exists([x], z3.And(res(x), S.DE(x) == y))), 'every result is the edge of a row')
        hints = [pos(s) for _, pos, _ in I.ghost.get('$enums', ())]
        got = z3.BoolVal(False) if sv is None else zb(sv.mem(S.DE(s)))
        I.prove(z3.Implies(res(s), got), 'the edge of every row is a result', hints)

    def use(self, I, f, args):
        c = args[0]
        if not (isinstance(c, Obj) and c.cls is S.Cursor):
            raise Unsupported('cur2edges of something else')
        r = S.Cursor.result(I, c)
        if r.cols != [None]:
            raise Unsupported('cur2edges of other columns')
        I.prove(rows_ok(I, r.mem), 'precondition of %s: the rows are orderings of edges' % self.qual)
        RK = I.fresh_fun('RK', Ent, Str)
        G = I.fresh_fun('GOT', Ent, Bool)
        x, s = z3.Const('x$g', Ent), z3.Const('s$g', Str)
        w = RK(x)
        I.assume(z3.ForAll([x], z3.Implies(G(x), z3.And(zb(r.mem(w)), S.DE(w) == x)), patterns=[G(x)]))
        I.assume(z3.ForAll([s], z3.Implies(zb(r.mem(s)), G(S.DE(s))), patterns=[S.DE(s)]))
        I.ghost_models['$results'] = I.ghost_models.get('$results', ()) + ((r.mem, G),)
        return PySet(I, SSetV(Ent, lambda y: G(y), lambda y: SEnt(y)))


# -- the store

CLS = 'gb.hypergraph.sqlite.SQLite'


class Op(Rows):
    """An operation of a store that is not executing a batch, or is executing one."""
    name = None
    batches = True

    def store(self, I):
        self.setup(I)
        S.state_axioms(I)
        S.table_axioms(I)
        c = I.find(CLS)
        if not isinstance(c, ClassVal):
            raise Unsupported('no class %s' % CLS)
        h = I.fresh(S.State, 'h')
        S.set_state(I, h)
        I.ghost['$PH'] = '?'
        conn = S.Conn.make(I)
        if not self.batches or I.choose():
            cur, n = None, 0
            I.ghost['$dirty'] = False
        else:
            cur = S.Cursor.make(I, conn)
            n = I.fresh(Int, 'batches')
            I.assume(n >= 1)
            n = SInt(n)
            I.ghost['$dirty'] = True
        o = Obj(I, c, {'conn': conn, 'cur': cur, 'batches': n, 'ph': '?'})
        I.ghost_models['$was'] = (h, conn, cur, n)
        I.form_offers.append(cursors)
        return o

    def run(self, I, f, args):
        c = I.find(CLS)
        m = c.lookup(self.qual.rsplit('.', 1)[1]) if isinstance(c, ClassVal) else None
        if not isinstance(m, FuncVal):
            raise Unsupported('no method %s' % self.qual)
        I.verifying = m.qualname
        return I.call_source(m, args)

    def state(self, I, h):
        """The state the operation leads to."""
        return h

    def post(self, I, args, r):
        h = I.ghost_models['$was'][0]
        self.restored(I, args[0])
        S.prove_represents(I, self.after(I, args, h))
        self.result(I, args, h, r)

    def after(self, I, args, h):
        return h

    def result(self, I, args, h, r):
        pass

    def restored(self, I, o):
        h, conn, cur, n = I.ghost_models['$was']
        f = o.fields
        I.prove(f.get('conn') is conn and f.get('cur') is cur, 'the same connection, and the same cursor of the batch, if any')
        I.prove(zi(f.get('batches')) == zi(n), 'the same number of batches being executed')
        if cur is None:
            if isinstance(I.ghost['$dirty'], Opaque):
                raise Unsupported('%r' % I.ghost['$dirty'])
            I.prove(z3.Not(zb(I.ghost['$dirty'])), 'all changes are committed')
        else:
            I.prove(cur.fields['$open'] is True, 'the cursor of the batch is not closed')

    def use(self, I, f, args):
        o = args[0]
        if not isinstance(o, Obj) or '$H' not in I.ghost or not S.represented(I):
            return I.call_source(f, args)
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        h = S.state(I)
        g = self.after(I, args, h)
        if not g.eq(h):
            S.set_state(I, g)
        cur = o.fields.get('cur')
        if cur is not None:
            cur.fields['$rs'] = None
            cur.fields['rowcount'] = SInt(I.fresh(Int, 'rowcount'))
        if not g.eq(h):
            I.ghost['$dirty'] = cur is not None
        return self.value(I, args, h)

    def value(self, I, args, h):
        raise NotImplementedError


def cursors(I, loop, cell, v0, ys):
    """What is left in cursors does not matter."""
    from .. import loops
    o, k = cell
    if isinstance(o, Obj) and o.cls is S.Cursor and k in ('$rs', 'rowcount'):
        yield loops.Form(lambda i: v0 if isinstance(i, int) and i == 0 or z3.is_expr(i) and z3.is_int_value(i) and i.as_long() == 0 else Opaque('what a statement in a loop left'), name='temporary')
    if o is loops.GHOST and k == '$dirty':
        yield loops.Form(lambda i: v0, name='as before')
        yield loops.Form(lambda i: v0 if isinstance(i, int) and i == 0 or z3.is_expr(i) and z3.is_int_value(i) and i.as_long() == 0 else Opaque('whether something is not committed'), name='temporary')


def an_entity(I, name='v'):
    e = I.fresh(Ent, name)
    T.wf_axioms(I)
    I.assume(T.WF(e))
    return SEnt(e)


def an_edge(I, name='e'):
    e = I.fresh(Ent, name)
    T.wf_axioms(I)
    I.assume(S.edge(e))
    return SEnt(e)


@register
class Degree(Op):
    qual = SQL + 'degree'
    props = ('G01', 'G05', 'G07')

    def args(self, I):
        return [self.store(I), an_entity(I)]

    def pre(self, I, args):
        return [('well-formed', wf(I, args[1]))]

    def result(self, I, args, h, r):
        I.prove(isinstance(r, (int, SInt)) and not isinstance(r, bool), 'a number')
        I.prove(zi(r) == S.CNT(h, I.ent_of(args[1])), 'the number of occurrences')

    def value(self, I, args, h):
        return SInt(S.CNT(h, I.ent_of(args[1])))


@register
class Timestamp(Op):
    qual = SQL + 'timestamp'
    props = ('G06',)

    def args(self, I):
        return [self.store(I), an_entity(I)]

    def pre(self, I, args):
        return [('well-formed', wf(I, args[1]))]

    def result(self, I, args, h, r):
        I.prove(isinstance(r, (int, SInt)) and not isinstance(r, bool), 'a number')
        I.prove(zi(r) == S.TSF(h, I.ent_of(args[1])), 'the timestamp')

    def value(self, I, args, h):
        return SInt(S.TSF(h, I.ent_of(args[1])))


@register
class Destroy(Op):
    qual = SQL + 'destroy'
    props = WRITES

    def args(self, I):
        return [self.store(I)]

    def after(self, I, args, h):
        return S.EMPTY

    def value(self, I, args, h):
        return None


# -- queries

JOINS = z3.Function('JOINDIFF', T.SSQ, T.SSQ, Int)


def row_start_lemmas(I):
    """How rows start (lemmas/Text.lean)."""
    b = T.blank(I)
    q, f, t = z3.Const('q$l', T.SSQ), z3.Const('f$l', T.SSQ), z3.Const('t$l', Str)
    w = JOINS(q, f)
    st = S.STARTS(T.JOIN(b, f), CAT(T.JOIN(b, q), b))
    # the texts q, and another blank, if f goes on after q
    I.fact(z3.ForAll([q, f], z3.Implies(z3.And(T.SQL(q) >= 1, T.SQL(q) < T.SQL(f)), z3.Or(st, z3.And(w >= 0, w < T.SQL(q), T.SQA(q, w) != T.SQA(f, w)))), patterns=[st]))
    # the text of an entity, and another blank, exactly if the first text is that one
    st = S.STARTS(T.JOIN(b, f), CAT(t, b))
    I.fact(z3.ForAll([f, t], z3.Implies(z3.And(T.GOODQ(f), T.SQL(f) >= 2, T.TEXTOK(t)), st == (T.SQA(f, 0) == t)), patterns=[st]))
    I.trusted.add('" ".join of texts starts with " ".join of the first of them and a blank; joined texts of entities start with the text of one and a blank only if it is the first (lemmas/Text.lean)')


def members(I, r):
    """The predicate 'in the set r'."""
    I.prove(isinstance(r, PySet), 'a set')
    sv = I.set_value(r)
    return (lambda y: z3.BoolVal(False)) if sv is None else (lambda y: zb(sv.mem(y)))


def positions(I, *ys):
    return [pos(y) for _, pos, item in I.ghost.get('$enums', ()) for y in ys if pos.domain(0) == y.sort()]


class Query(Op):
    def is_result(self, I, args, h, y):
        """Is y in the result?"""
        raise NotImplementedError

    def result(self, I, args, h, r):
        mem = members(I, r)
        y = I.fresh(Ent, 'y')
        want = self.is_result(I, args, h, y)
        I.prove(z3.Implies(mem(y), want), 'only such edges')
        rows = self.rows(I, args, h, y)
        for s in rows:
            for t in I.ghost_models.get('$prefixes', ()):
                I.lemma(z3.Implies(want, S.STARTS(s, t)))
            for m, G in I.ghost_models.get('$results', ()):
                I.lemma(z3.Implies(want, zb(m(s))))
                I.lemma(z3.Implies(want, G(y)))
        I.prove(z3.Implies(want, mem(y)), 'all such edges', positions(I, y, *rows))

    def rows(self, I, args, h, y):
        """Rows that make y a result."""
        return []

    def value(self, I, args, h):
        W = I.fresh_fun('QUERY', Ent, Bool)
        y = z3.Const('y$q', Ent)
        want = self.is_result(I, args, h, y)
        I.assume(z3.ForAll([y], W(y) == want, patterns=[W(y)]))
        return PySet(I, SSetV(Ent, lambda y: self.is_result(I, args, h, y), lambda y: SEnt(y)))


NW = {}


def no_wildcards(I, loop, cell, v0, ys):
    """The elements of the pattern that are no wildcards, in a list."""
    from .. import loops
    if not (isinstance(cell[0], PyList) and isinstance(v0, list) and not v0):
        return
    for p, fs in I.ghost_models.get('$patterns', ()):
        if fs is None:
            yield loops.Form(lambda i, p=p: SSeq('list', mkint(i), lambda j: p.get(j)), name='the first i elements of the pattern')
            continue
        N, W = fs

        def at(i, p=p, N=N, W=W):
            i = z3.IntVal(i) if isinstance(i, int) else i
            w, e = item_of(I, p, i)
            I.fact(N(0) == 0)
            I.fact(z3.Implies(i >= 0, z3.And(N(i + 1) == N(i) + z3.If(w, 0, 1), z3.Implies(z3.Not(w), W(N(i)) == i))))
            return SSeq('list', mkint(N(i)), lambda j: SEnt(item_of(I, p, W(zi(j)))[1]))

        def dom(i, p=p, N=N, W=W):
            q = z3.Int('q$n')
            at(i)
            return z3.And(N(i) >= 0, N(i) <= i, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N(i)), z3.And(W(q) >= 0, W(q) < i, z3.Not(item_of(I, p, W(q))[0]), N(W(q)) == q)), patterns=[W(q)]))
        yield loops.Form(at, dom=dom, name='the elements of the pattern before i that are no wildcards')


def filtered(I, loop, cell, v0, ys):
    """The members of a set gone through that match the pattern."""
    from .. import loops
    if not (isinstance(cell[0], (PyList, PySet)) and isinstance(v0, list) and not v0) or loop.seq is None or getattr(loop.seq, 'item', None) is None:
        return
    item, pos = loop.seq.item, loop.seq.pos
    if item(z3.IntVal(0)).sort() != Ent:
        return
    for m in I.ghost_models.get('$filters', ()):
        def at(i, m=m):
            if isinstance(i, int) and i == 0 or z3.is_expr(i) and z3.is_int_value(i) and i.as_long() == 0:
                return []
            c = SSetV if isinstance(cell[0], PySet) else SBag
            return c(Ent, lambda y: z3.And(pos(y) >= 0, pos(y) < i, item(pos(y)) == y, m(y)), lambda y: SEnt(y))
        yield loops.Form(at, name='those before i that match')


@register
class Pattern2Edges(Query):
    qual = SQL + 'pattern2edges'
    props = ('G01', 'G03')

    def args(self, I):
        o = self.store(I)
        if I.choose():
            return [o, an_edge(I)]
        return [o, a_pattern(I)]

    def pre(self, I, args):
        if isinstance(args[1], SEnt):
            return [('a well-formed edge', z3.And(wf(I, args[1]), KIND(args[1].t) == 0))]
        p = I.as_seq(args[1])
        j = z3.Int('j$p')
        w, e = item_of(I, p, j)
        ok = T.WF(e) if e is not None else z3.BoolVal(True)
        T.wf_axioms(I)
        return [('well-formed', z3.And(zi(p.n) >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(p.n), z3.Not(w)), ok), patterns=[e] if e is not None else [])))]

    def prepare(self, I, args):
        I.form_offers.append(no_wildcards)
        I.form_offers.append(filtered)
        row_start_lemmas(I)
        p = I.as_seq(args[1])
        I.ghost_models['$filters'] = (match(I, args[1]),)
        w = item_of(I, p, z3.Int('j$'))[0]
        if z3.is_false(w):
            I.ghost_models['$patterns'] = ((p, None),)
        else:
            I.ghost_models['$patterns'] = ((p, (I.fresh_fun('NW', Int, Int), I.fresh_fun('WI', Int, Int))),)

    def is_result(self, I, args, h, y):
        return z3.And(S.EX(h, y), match(I, args[1])(y))

    def rows(self, I, args, h, y):
        # the row in the order that starts with the elements that are no wildcards
        p, fs = I.ghost_models['$patterns'][0]
        n = zi(p.n)
        k = I.fresh(Int, 'k')
        j = z3.Int('j$k')
        T.pi_facts(I)
        I.assume(z3.And(k >= 0, k < T.FACT(n)))
        if fs is None:
            I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), T.PI(n, k, j) == j), patterns=[T.PI(n, k, j)]))
        else:
            N, W = fs
            a, b = I.fresh(Int, 'a'), I.fresh(Int, 'b')
            I.prove(z3.Implies(z3.And(0 <= a, a < N(n), 0 <= b, b < N(n), W(a) == W(b)), a == b), 'different positions')
            I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N(n)), T.PI(n, k, j) == W(j)), patterns=[T.PI(n, k, j)]))
        I.trusted.add('itertools.permutations yields an ordering that starts with any given positions')
        return [S.PS(y, k)]


@register
class Exists(Op):
    qual = SQL + 'exists'
    props = WRITES

    def args(self, I):
        return [self.store(I), an_edge(I)]

    def pre(self, I, args):
        return [('a well-formed edge', z3.And(wf(I, args[1]), KIND(I.ent_of(args[1])) == 0))]

    def result(self, I, args, h, r):
        I.prove(isinstance(r, (bool, SBool)), 'a truth value')
        I.prove(zb(r) == S.EX(h, args[1].t), 'exactly if it is stored')

    def value(self, I, args, h):
        return SBool(S.EX(h, I.ent_of(args[1])))


IN = z3.Function('INEDGE', Ent, Ent, Bool)          # is a direct element
INPOS = z3.Function('INPOS', Ent, Ent, Int)


def in_axioms(I):
    c, y, j = z3.Const('c$i', Ent), z3.Const('y$i', Ent), z3.Int('j$i')
    w = INPOS(c, y)
    I.fact(z3.ForAll([c, y], z3.Implies(IN(c, y), z3.And(w >= 0, w < ELEN(y), EL(y, w) == c)), patterns=[IN(c, y)]))
    I.fact(z3.ForAll([c, y, j], z3.Implies(z3.And(j >= 0, j < ELEN(y), EL(y, j) == c), IN(c, y)), patterns=[z3.MultiPattern(IN(c, y), EL(y, j))]))


class Around(Query):
    def prepare(self, I, args):
        I.form_offers.append(no_wildcards)
        I.form_offers.append(filtered)
        row_start_lemmas(I)
        in_axioms(I)
        S.first_axiom(I)

    def center(self, I, args):
        raise NotImplementedError

    def is_result(self, I, args, h, y):
        in_axioms(I)
        return z3.And(S.EX(h, y), IN(self.center(I, args), y))

    def rows(self, I, args, h, y):
        return [S.PS(y, S.KFIRST(ELEN(y), INPOS(self.center(I, args), y)))]


@register
class Star(Around):
    qual = SQL + 'star'
    props = ('G02',)

    def args(self, I):
        return [self.store(I), an_entity(I)]

    def pre(self, I, args):
        return [('well-formed', wf(I, args[1]))]

    def center(self, I, args):
        return I.ent_of(args[1])


@register
class SymbolsWithRoot(Query):
    qual = SQL + 'symbols_with_root'
    props = ('G04',)

    def args(self, I):
        o = self.store(I)
        return [o, a_text(I, 'root')]

    def pre(self, I, args):
        r = args[1]
        t = I.sterm(r)
        j = z3.Int('j$r')
        c = CH(t, j)
        bad = z3.Or(T.ISWS(c), c == 40, c == 41, c == 47, c == 58)
        return [('a root', z3.And(zi(I.slen(r)) >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(t)), z3.Not(bad)), patterns=[c])))]

    def prepare(self, I, args):
        row_start_lemmas(I)
        S.first_axiom(I)
        in_axioms(I)
        first_text_facts(I, self.wanted(I, args))

    def wanted(self, I, args):
        """root/"""
        return I.sterm(SStr([I.sterm(args[1]), '/']))

    def result(self, I, args, h, r):
        I.prove(isinstance(r, PySet), 'a set')
        sv = I.set_value(r)
        p = self.wanted(I, args)
        t, e = I.fresh(Str, 't'), I.fresh(Ent, 'e')
        mem = z3.BoolVal(False) if sv is None else zb(sv.mem(t if sv.sort == Str else SYM(t)))
        st = S.STARTS(t, p)
        one = z3.And(S.EX(h, e), IN(SYM(t), e), st)
        s = S.PS(e, S.KFIRST(ELEN(e), INPOS(SYM(t), e)))
        for q in I.ghost_models.get('$prefixes', ()):
            I.lemma(z3.Implies(one, S.STARTS(s, q)))
        I.prove(z3.Implies(one, mem), 'all such symbols', positions(I, s))
        x = z3.Const('x$r', Ent)
        I.prove(z3.Implies(mem, st), 'only symbols that start with the root and a slash')
        I.prove(z3.Implies(mem, z3.Exists([x], z3.And(S.EX(h, x), IN(SYM(t), x)))), 'only elements of stored edges', self.edges(I))

    def edges(self, I):
        return []


def first_text_facts(I, p):
    """What the characters of rows, and of the texts of atoms, are; about texts that start with p."""
    e, k, j, t = z3.Const('e$f', Ent), z3.Int('k$f'), z3.Int('j$f'), z3.Const('t$f', Str)
    s = S.PS(e, k)
    f0 = T.SQA(S.FSQ(e, k), 0)
    I.trusted.add('" ".join of texts starts with the first text and a blank (lemmas/Text.lean)')
    I.fact(z3.ForAll([e, k], z3.Implies(S.perm_ok(e, k), z3.And(LEN(s) >= LEN(f0) + 1, CH(s, LEN(f0)) == 32)), patterns=[s]))
    I.fact(z3.ForAll([e, k, j], z3.Implies(z3.And(S.perm_ok(e, k), j >= 0, j < LEN(f0)), CH(s, j) == CH(f0, j)), patterns=[CH(s, j)]))
    I.fact(z3.ForAll([t, j], z3.Implies(z3.And(T.ISINT(t), j >= 0, j < LEN(t)), z3.Or(CH(t, j) == 45, T.dig(CH(t, j)))), patterns=[z3.MultiPattern(T.ISINT(t), CH(t, j))]))
    I.fact(z3.ForAll([t, j], z3.Implies(z3.And(T.ISFLT(t), j >= 0, j < LEN(t)), z3.Or(CH(t, j) == 45, CH(t, j) == 46, T.dig(CH(t, j)))), patterns=[z3.MultiPattern(T.ISFLT(t), CH(t, j))]))
    # STARTS(., p), unfolded
    w = S.PDIFF(t, p)
    n = LEN(p)
    st = S.STARTS(t, p)
    I.fact(z3.ForAll([t], z3.Implies(st, LEN(t) >= n), patterns=[st]))
    I.fact(z3.ForAll([t, j], z3.Implies(z3.And(st, j >= 0, j < n), CH(t, j) == CH(p, j)), patterns=[z3.MultiPattern(st, CH(p, j))]))
    I.fact(z3.ForAll([t], z3.Or(st, LEN(t) < n, z3.And(w >= 0, w < n, CH(t, w) != CH(p, w))), patterns=[st]))


# -- writing

def is0(i):
    return isinstance(i, int) and i == 0 or z3.is_expr(i) and z3.is_int_value(i) and i.as_long() == 0


def writing(I, loop, cell, v0, ys):
    """The tables while an edge is added or removed, element by element or row by row."""
    from .. import loops
    if cell[0] is not loops.GHOST or not isinstance(v0, SFun):
        return
    k = cell[1]
    e, ts, sign = I.ghost_models['$writing']
    V0 = loop.v0.get((id(loops.GHOST), '$VERT'))

    def occ(i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        S.occ_step(I, e, i)
        return lambda s: S.OCC(e, i, s)
    if k == '$VERT':
        def at(i):
            o = occ(i)
            return SFun([Str], lambda s: z3.Or(zb(v0(s)), o(s) > 0))
        yield loops.Form(at, name='and the first i elements')
    if k == '$DEG' and sign > 0:
        def at(i):
            o = occ(i)
            return SFun([Str], lambda s: z3.If(zb(V0(s)), v0(s) + o(s), z3.If(o(s) > 0, o(s), v0(s))))
        yield loops.Form(at, name='with the occurrences among the first i elements')
    if k == '$DEG' and sign < 0:
        def at(i):
            o = occ(i)
            return SFun([Str], lambda s: z3.If(zb(V0(s)), v0(s) - o(s), v0(s)))
        yield loops.Form(at, name='without the occurrences among the first i elements')
    if k == '$TS':
        def at(i):
            o = occ(i)
            return SFun([Str], lambda s: z3.If(z3.And(z3.Not(zb(V0(s))), o(s) > 0), ts, v0(s)))
        yield loops.Form(at, name='with those of the new among the first i elements')
    if k == '$PERM':
        b = T.blank(I)

        def these(s, i):
            i = z3.IntVal(i) if isinstance(i, int) else i
            I.fact(z3.Implies(S.perm_ok(e, i), z3.And(S.PS(e, i) == CAT(T.JOIN(b, S.PSEQ(e, i)), CAT(b, I2S(i))), S.DE(S.PS(e, i)) == e, S.PK(S.PS(e, i)) == i)))
            return z3.And(S.DE(s) == e, S.PK(s) >= 0, S.PK(s) < i, s == S.PS(e, S.PK(s)))
        if sign > 0:
            yield loops.Form(lambda i: SFun([Str], lambda s: z3.Or(zb(v0(s)), these(s, i))), name='and the first i orderings')
        else:
            yield loops.Form(lambda i: SFun([Str], lambda s: z3.And(zb(v0(s)), z3.Not(these(s, i)))), name='without the first i orderings')


def occ_text(I, e):
    """Lemma: texts that occur are texts of entities (contract 'texts that occur among the elements')."""
    s, i = z3.Const('s$o', Str), z3.Int('i$o')
    o = S.OCC(e, i, s)
    I.fact(z3.ForAll([i, s], z3.Implies(z3.And(i >= 0, i <= ELEN(e), o > 0), z3.And(T.WF(S.S2E(s)), T.E2S(S.S2E(s)) == s)), patterns=[o]))


@register
class OccText(Rows):
    key = 'texts that occur among the elements'
    qual = SQL + 'add_raw'
    props = ('G01', 'G05')

    def args(self, I):
        self.setup(I)
        return [an_edge(I)]

    def run(self, I, f, args):
        return None

    def post(self, I, args, r):
        e = args[0].t
        i, s = I.fresh(Int, 'i'), I.fresh(Str, 's')
        ok = lambda i: z3.Implies(S.OCC(e, i, s) > 0, z3.And(T.WF(S.S2E(s)), T.E2S(S.S2E(s)) == s))
        S.occ_step(I, e, i)
        I.prove(ok(z3.IntVal(0)), 'at the start')
        I.prove(z3.Implies(z3.And(i >= 0, i < ELEN(e), ok(i)), ok(i + 1)), 'one more element')


class Write(Op):
    sign = 1

    def prepare(self, I, args):
        e = I.ent_of(args[1])
        I.ghost_models['$writing'] = (e, zi(args[2]) if len(args) > 2 else None, self.sign)
        I.form_offers.append(writing)
        occ_text(I, e)
        S.occ_step(I, e, z3.IntVal(0))


@register
class AddRaw(Write):
    qual = SQL + 'add_raw'
    props = WRITES

    def args(self, I):
        return [self.store(I), an_edge(I), SInt(I.fresh(Int, 'timestamp'))]

    def pre(self, I, args):
        return [('a well-formed edge', z3.And(wf(I, args[1]), KIND(I.ent_of(args[1])) == 0))]

    def after(self, I, args, h):
        return S.ADD(h, I.ent_of(args[1]), zi(args[2]))

    def result(self, I, args, h, r):
        I.prove(zb(I.veq(r, args[1])), 'the edge given')

    def value(self, I, args, h):
        return args[1]


@register
class RemoveRaw(Write):
    qual = SQL + 'remove_raw'
    props = WRITES
    sign = -1

    def args(self, I):
        return [self.store(I), an_edge(I)]

    pre = AddRaw.pre

    def after(self, I, args, h):
        return S.REM(h, I.ent_of(args[1]))

    def value(self, I, args, h):
        return None


# -- texts determine what they are of

class Injective(Contract):
    def setup(self, I):
        from . import edge as E
        S.row_axioms(I, False)
        E.qt_axioms(I)
        E.et_axioms(I)


@register
class EntityTexts(Injective):
    key = 'different entities have different texts'
    qual = 'gb.hypergraph.edge.edge2str'
    props = WRITES

    def args(self, I):
        self.setup(I)
        return [an_entity(I, 'e'), an_entity(I, 'f')]

    def run(self, I, fn, args):
        a, b = [I.call(fn, [x]) for x in args]
        I.assume(zb(I.veq(a, b)))
        if I.decide(KIND(args[0].t) == 0):
            # what parsing the common text gives
            return I.call(I.find('gb.hypergraph.edge.str2edge'), [a])
        return None

    def post(self, I, args, r):
        e, f = [x.t for x in args]
        if r is not None:
            I.prove(KIND(f) == 0, 'both are edges')
            I.prove(zb(I.veq(r, args[0])), 'parsed to the first')
            I.prove(zb(I.veq(r, args[1])), 'parsed to the second')
        I.prove(e == f, 'the same entity')


@register
class RowTexts(Injective):
    key = 'different orderings have different texts'
    qual = 'gb.hypergraph.edge.split_edge_str'
    props = WRITES

    def args(self, I):
        self.setup(I)
        S.text_axioms(I)
        return [an_edge(I, 'e'), an_edge(I, 'f')]

    def run(self, I, fn, args):
        e, f = [x.t for x in args]
        k, l = I.fresh(Int, 'k'), I.fresh(Int, 'l')
        I.assume(z3.And(S.perm_ok(e, k), S.perm_ok(f, l), S.PS(e, k) == S.PS(f, l)))
        # what splitting the common text gives
        a, b = S.FSQ(e, k), S.FSQ(f, l)
        for q in (a, b):
            T.join_term(I, ' ', q)
        return k, l, T.seq_term(I, I.as_seq(I.call(fn, [SStr([S.PS(e, k)])])))

    def post(self, I, args, r):
        e, f = [x.t for x in args]
        k, l, q = r
        a, b = S.FSQ(e, k), S.FSQ(f, l)
        I.prove(q == a, 'the texts of the first and its number')
        I.prove(q == b, 'the texts of the second and its number')
        n = ELEN(e)
        I.prove(n == ELEN(f), 'as many elements')
        I.prove(k == l, 'the same ordering')
        j = I.fresh(Int, 'j')
        i = T.PIV(n, k, j)
        for x, o in ((e, a), (f, b)):
            I.fact(T.SQA(o, i) == T.SQA(o, i))
            y = T.E2S(EL(x, T.PI(n, k, i)))
            I.lemma(z3.Implies(z3.And(j >= 0, j < n), T.SQA(o, i) == y))
            I.lemma(z3.Implies(z3.And(j >= 0, j < n), S.S2E(y) == EL(x, j)))
        I.prove(z3.Implies(z3.And(j >= 0, j < n), EL(e, j) == EL(f, j)), 'the same elements')
        d = T.EDIFF(e, f)
        I.assume(z3.Implies(z3.And(d >= 0, d < n), EL(e, d) == EL(f, d)))       # proved for any j
        T.ent_ext(I, e, f)
        I.prove(e == f, 'the same edge')


# -- several edges

def some_edges(I):
    """A non-empty list of edges; the function from positions to them."""
    n = I.fresh(Int, 'n')
    I.assume(n >= 1)
    f = I.fresh_fun('edge', Int, Ent)
    j = z3.Int('j$a')
    T.wf_axioms(I)
    I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), S.edge(f(j))), patterns=[f(j)]))
    return PyList(I, SSeq('list', SInt(n), lambda j: SEnt(f(zi(j))))), n, f


def an_edge_of_atoms(I):
    """An edge that starts with an atom (what is not taken for a list of edges)."""
    e = an_edge(I)
    I.assume(KIND(EL(e.t, 0)) != 0)
    return e


class Several(Op):
    """One edge, or several one after another."""
    more = 0

    def args(self, I):
        o = self.store(I)
        ts = [SInt(I.fresh(Int, 'timestamp')) for _ in range(self.more)]
        if I.choose():
            return [o, an_edge_of_atoms(I)] + ts
        es, n, f = some_edges(I)
        H = I.fresh_fun('H', Int, S.State)
        I.fact(H(0) == I.ghost_models['$was'][0])
        I.ghost_models['$several'] = (H, n, f, ts)

        def at(i, k):
            i = z3.IntVal(i) if isinstance(i, int) else i
            I.fact(H(i + 1) == self.step(H(i), f(i), ts))
            return H(i)

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is not loops.GHOST:
                return
            if cell[1] == '$H':
                yield loops.Form(lambda i: v0 if is0(i) else SRef(at(i, 0), S.STATE), name='the state after the first i edges')
            if cell[1] in S.TABLES:
                k = S.TABLES.index(cell[1])
                yield loops.Form(lambda i: v0 if is0(i) else S.canon(I, at(i, 0))[k], name='the tables after the first i edges')
        I.form_offers.append(offer)
        return [o, es] + ts

    def step(self, h, e, ts):
        raise NotImplementedError

    def after(self, I, args, h):
        if isinstance(args[1], SEnt):
            return self.step(h, args[1].t, args[2:])
        H, n, f, ts = I.ghost_models['$several']
        return H(n)


@register
class Add(Several):
    qual = SQL + 'add'
    props = WRITES
    more = 1

    def step(self, h, e, ts):
        return S.ADD(h, e, zi(ts[0]))

    def result(self, I, args, h, r):
        I.prove(r is args[1] or zb(I.veq(r, args[1])), 'what was given')


@register
class AddDefault(Add):
    key = 'adding without a timestamp'
    more = 0

    def step(self, h, e, ts):
        return S.ADD(h, e, z3.IntVal(-1))


@register
class Remove(Several):
    qual = SQL + 'remove'
    props = WRITES

    def step(self, h, e, ts):
        return S.REM(h, e)


# -- batches of functions

STEP = z3.Function('STEP', Int, S.State, S.State)       # what function j does to a state
PART = z3.Function('PART', Int, S.State, S.State)       # and what it has done when it fails
FAILS = z3.Function('FAILS', Int, S.State, Bool)


class FunKind(RefKind):
    """Functions that use the hypergraph they are given in any way."""
    def call(self, I, o, args, kw):
        me = I.ghost_models['$store']
        I.prove(len(args) == 1 and args[0] is me and not kw, 'functions get the hypergraph')
        I.prove(zi(I.ghost['$next']) == o.t, 'functions are called in order')
        f = me.fields
        cur = f.get('cur')
        if not S.represented(I):
            raise Unsupported('a function called while an operation goes on')
        I.prove(f.get('conn') is I.ghost_models['$was'][1] and (zi(f.get('batches')) == 0 if cur is None else z3.And(zi(f.get('batches')) >= 1, z3.BoolVal(cur.fields['$open'] is True))),
                'functions can use the hypergraph')
        h = S.state(I)
        fails = I.choose()
        I.assume(FAILS(o.t, h) == z3.BoolVal(fails))
        S.set_state(I, (PART if fails else STEP)(o.t, h))
        if cur is not None:
            cur.fields['$rs'] = None
            cur.fields['rowcount'] = SInt(I.fresh(Int, 'rowcount'))
        I.ghost['$dirty'] = cur is not None
        if fails:
            raise PyRaise(ExcVal('FunctionFailed'))
        I.ghost['$next'] = mkint(o.t + 1)
        return None


FUN = FunKind('function', sort=Int)


@register
class BatchExec(Op):
    qual = SQL + 'batch_exec'
    props = ('G08', 'G09')

    def args(self, I):
        o = self.store(I)
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        I.ghost['$next'] = 0
        I.ghost_models['$store'] = o
        H = I.fresh_fun('H', Int, S.State)
        I.fact(H(0) == I.ghost_models['$was'][0])
        I.ghost_models['$run'] = (H, n)

        def at(i):
            i = z3.IntVal(i) if isinstance(i, int) else i
            I.fact(H(i + 1) == STEP(i, H(i)))
            return H(i)

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is not loops.GHOST:
                return
            if cell[1] == '$H':
                yield loops.Form(lambda i: v0 if is0(i) else SRef(at(i), S.STATE), name='the state after the first i functions')
            if cell[1] in S.TABLES:
                k = S.TABLES.index(cell[1])
                yield loops.Form(lambda i: v0 if is0(i) else S.canon(I, at(i))[k], name='the tables after the first i functions')
            if cell[1] == '$next':
                yield loops.Form(lambda i: mkint(zi(i)), name='i')
        I.form_offers.append(offer)
        return [o, PyList(I, SSeq('list', SInt(n), lambda j: SRef(zi(j), FUN)))]

    def use(self, I, f, args):
        return I.call_source(f, args)

    def after(self, I, args, h):
        H, n = I.ghost_models['$run']
        return H(n)

    def result(self, I, args, h, r):
        I.prove(zi(I.ghost['$next']) == I.ghost_models['$run'][1], 'all functions were called')

    def on_raise(self, I, args, exc):
        H, n = I.ghost_models['$run']
        I.prove(exc.name == 'FunctionFailed', 'only fails as a function does')
        j = zi(I.ghost['$next'])
        I.prove(z3.And(j >= 0, j < n, FAILS(j, H(j))), 'the function called last failed')
        self.restored(I, args[0])
        S.prove_represents(I, PART(j, H(j)))


# -- listing

FAPP = z3.Function('FAPP', Ent, Int, Ent)               # what the function given makes of an entity and a degree
FAPPV = z3.Function('FAPPV', Ent, Ent)                  # the entity it was made of


class Given:
    """The function given: it can be told what it was called with, and may query the hypergraph."""
    name = 'function'

    @staticmethod
    def call(I, o, args, kw):
        if len(args) != 1 or kw:
            I.prove(False, 'the function gets one argument')
        d = args[0]
        I.prove(isinstance(d, PyDict) and set(d.items) == {'vertex', 'degree'}, 'the function gets a map with the keys vertex and degree')
        deg = d.items['degree']
        I.prove(isinstance(deg, (int, SInt)) and not isinstance(deg, bool), 'the degree is a number')
        cur = I.ghost_models['$was'][2]
        if cur is not None:
            cur.fields['$rs'] = None
            cur.fields['rowcount'] = SInt(I.fresh(Int, 'rowcount'))
        I.ghost['$calls'] = mkint(zi(I.ghost['$calls']) + 1)
        v = I.ent_of(d.items['vertex'])
        r = FAPP(v, zi(deg))
        I.fact(FAPPV(r) == v)
        return SEnt(r)


@register
class FAll(Op):
    qual = SQL + 'f_all'
    props = ('G07', 'G08')

    def args(self, I):
        o = self.store(I)
        I.ghost['$calls'] = 0
        v, d = z3.Const('v$f', Ent), z3.Int('d$f')
        I.fact(z3.ForAll([v, d], FAPPV(FAPP(v, d)) == v, patterns=[FAPP(v, d)]))
        return [o, Obj(I, Given)]

    def prepare(self, I, args):
        h = I.ghost_models['$was'][0]

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            row = row_text(I, loop) if loop.seq is not None else None
            if row is None:
                return
            if cell[0] is loops.GHOST and cell[1] == '$calls':
                yield loops.Form(lambda i: mkint(zi(i)), name='one for each row before i')
            if isinstance(cell[0], PyList) and isinstance(v0, list) and not v0:
                yield loops.Form(lambda i: SSeq('list', mkint(i), lambda j: SEnt(FAPP(S.S2E(row(j)), S.CNT(h, S.S2E(row(j)))))), name='the results for the rows before i')
        I.form_offers.append(offer)

    def result(self, I, args, h, r):
        s = I.as_seq(r)
        n = zi(s.n)
        I.prove(zi(I.ghost['$calls']) == n, 'as many calls as results')
        j, k, v = I.fresh(Int, 'j'), I.fresh(Int, 'k'), I.fresh(Ent, 'v')
        x, y = I.ent_of(s.get(SInt(j))), I.ent_of(s.get(SInt(k)))
        a, b = FAPPV(x), FAPPV(y)
        inside = z3.And(j >= 0, j < n)
        I.prove(z3.Implies(inside, z3.And(S.KN(h, a), x == FAPP(a, S.CNT(h, a)))), 'every result is that of a known entity and its degree')
        I.prove(z3.Implies(z3.And(inside, k >= 0, k < n, a == b), j == k), 'no entity twice')
        I.fact(S.VERTT(h, T.E2S(v)) == S.VERTT(h, T.E2S(v)))
        ps = positions(I, T.E2S(v)) or [z3.IntVal(0)]
        p = ps[-1]
        x = I.ent_of(s.get(SInt(p)))
        I.prove(z3.Implies(S.KN(h, v), z3.And(p >= 0, p < n, x == FAPP(v, S.CNT(h, v)))), 'every known entity is there')


# -- opening

@register
class Opening(Op):
    """A database that is new, or that represents a hypergraph."""
    key = 'opening a SQLite database'
    qual = CLS + '.__init__'
    props = WRITES

    def args(self, I):
        self.setup(I)
        S.state_axioms(I)
        S.table_axioms(I)
        c = I.find(CLS)
        if not isinstance(c, ClassVal):
            raise Unsupported('no class %s' % CLS)
        new = I.choose()
        h = S.EMPTY if new else I.fresh(S.State, 'h')
        S.set_state(I, h)
        if new:
            # no table yet: nothing is known of what they would contain
            for n, sort in zip(S.TABLES, (Bool, Bool, Int, Int)):
                f = I.fresh_fun('NONE' + n[1:], Str, sort)
                I.ghost[n] = SFun([Str], lambda s, f=f: f(s))
        I.ghost['$schema'] = () if new else tuple((t, cs) for t, cs in S.COLUMNS.items())
        I.ghost['$dirty'] = False
        I.ghost_models['$was'] = (h, None, None, 0)
        path = a_text(I, 'path')
        I.ghost_models['$path'] = path
        return [Obj(I, c, {}), PyDict(I, {'db': path})]

    def result(self, I, args, h, r):
        o = args[0]
        I.prove({t: set(cs) for t, cs in I.ghost['$schema']} == {t: set(cs) for t, cs in S.COLUMNS.items()}, 'the tables are there')
        c = o.fields.get('conn')
        I.prove(isinstance(c, Obj) and c.cls is S.Conn and zb(I.veq(c.fields['$path'], I.ghost_models['$path'])), 'connected to the database')
        I.prove(o.fields.get('ph') == '?', 'the placeholder of SQLite')

    def restored(self, I, o):
        I.prove(o.fields.get('cur') is None and o.fields.get('batches') == 0, 'no batch is executed')
        I.prove(z3.Not(zb(I.ghost['$dirty'])), 'all changes are committed')
