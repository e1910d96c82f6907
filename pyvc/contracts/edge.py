"""Contracts of gb/hypergraph/edge.py (E01, E02)."""
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T
from ..engine import zi, mkint
from .symbol import a_text, entity

M = 'gb.hypergraph.edge.'
ALL = ('E01', 'G01', 'G02', 'G03', 'G07')


# -- E02

def seen_before(I, loop, cell, v0, ys):
    """Flags that tell whether a point, or a digit, was among the first i characters."""
    from .. import loops
    if v0 is not False:
        return
    for t in I.ghost.get('$token', ()):
        for f in (T.FLTPT, T.FIRSTDIG):
            def at(i, f=f):
                i = z3.IntVal(i) if isinstance(i, int) else i
                return SBool(f(t) < i)
            yield loops.Form(at, name='%s is among the first i characters' % ('a point' if f is T.FLTPT else 'a digit'))


@register
class TokenType(Contract):
    qual = M + 'token_type'
    props = ('E01', 'E02')

    def args(self, I):
        return [a_text(I, 'token')]

    def prepare(self, I, args):
        t = I.sterm(args[0])
        T.pt_facts(I, t)
        I.ghost['$token'] = (t,)
        I.form_offers.append(seen_before)

    def names(self, I):
        c = I.find(M + 'TokenType')
        return [I.getattr(c, n) for n in ('INTEGER', 'DOUBLE', 'STRING')]

    def post(self, I, args, r):
        a, b, c = self.names(I)
        t = I.sterm(args[0])
        ii, ff = T.is_int(I, t), T.is_flt(I, t)
        I.prove(len({a, b, c}) == 3 and isinstance(r, int) and r in (a, b, c), 'one of three different types')
        I.prove(ii if r == a else z3.Not(ii), 'an integer exactly if written as one')
        I.prove(ff if r == b else z3.Not(ff), 'a float exactly if written as one')

    def use(self, I, f, args):
        t = I.sterm(args[0])
        T.pt_facts(I, t)
        a, b, c = self.names(I)
        if I.decide(T.is_int(I, t)):
            I.assume(z3.Not(T.is_flt(I, t)))
            return a
        if I.decide(T.is_flt(I, t)):
            return b
        return c


@register
class ParsedToken(Contract):
    qual = M + 'parsed_token'
    props = ('E01', 'E02')

    def args(self, I):
        return [a_text(I, 'token')]

    def pre(self, I, args):
        s = args[0]
        return [('not empty', zi(I.slen(s)) >= 1), ('an edge text if it starts with a parenthesis', z3.Implies(I.code_at(s, 0) == 40, ISTEXT(I, s)))]

    def post(self, I, args, r):
        s = args[0]
        if I.decide(I.code_at(s, 0) == 40):
            # for the edge with this text
            e = I.fresh(Ent, 'e')
            t = I.sterm(s)
            I.assume(z3.And(T.WF(e), KIND(e) == 0, z3.Or(T.E2S(e) == t, T.INNER(e) == t)))
            I.prove(zb(I.veq(r, SEnt(e))), 'the edge with this text')
            return
        I.prove(zb(I.veq(r, self.spec(I, args))), 'result')

    def spec(self, I, args):
        s = args[0]
        t = I.sterm(s)
        if I.decide(I.code_at(s, 0) == 40):
            return edge_of(I, s)
        T.pt_facts(I, t)
        if I.decide(T.is_int(I, t)):
            return SInt(S2I(t))
        if I.decide(T.is_flt(I, t)):
            I.fact(KIND(T.F2E(t)) == 3)
            return SFlt(T.F2E(t))
        return SStr([t])


# -- parentheses

def solid(I, s, c):
    """Witness of a character other than c, if there is one."""
    t = I.sterm(s)
    T.pars_facts(I, t)
    return (T.OPN if c == 40 else T.CLS)(t) < LEN(t)


@register
class OpenPars(Contract):
    qual = M + 'open_pars'
    props = ('E01',)

    def args(self, I):
        return [a_text(I, 's')]

    def pre(self, I, args):
        return [('a character that is no opening parenthesis', solid(I, args[0], 40))]

    def spec(self, I, args):
        t = I.sterm(args[0])
        T.pars_facts(I, t)
        return SInt(T.OPN(t))


@register
class ClosePars(Contract):
    qual = M + 'close_pars'
    props = ('E01',)

    def args(self, I):
        return [a_text(I, 's')]

    def pre(self, I, args):
        return [('a character that is no closing parenthesis', solid(I, args[0], 41))]

    def spec(self, I, args):
        t = I.sterm(args[0])
        T.pars_facts(I, t)
        return SInt(T.CLS(t))


# -- splitting

QT1 = z3.Function('QT1', Str, Bool)       # texts of one or more entities joined by spaces
QT2 = z3.Function('QT2', Str, Bool)       # texts of two or more entities joined by spaces, with or without parentheses, and of one atom
QOF = z3.Function('QOF', Str, T.SSQ)


def qt_axioms(I):
    q = z3.Const('q$t', T.SSQ)
    T.wf_axioms(I)
    j = T.JOIN(T.blank(I), q)
    I.fact(z3.ForAll([q], z3.Implies(z3.And(T.GOODQ(q), T.SQL(q) >= 1), QT1(j)), patterns=[j]))
    I.fact(z3.ForAll([q], z3.Implies(z3.And(T.GOODQ(q), T.SQL(q) >= 2), z3.And(QT2(j), QT2(T.PAR(j)))), patterns=[j]))
    I.fact(z3.ForAll([q], z3.Implies(z3.And(T.GOODQ(q), T.SQL(q) == 1, CH(T.SQA(q, 0), 0) != 40), QT2(j)), patterns=[j]))


def a_qtext(I, least):
    q = I.fresh(T.SSQ, 'q')
    T.wf_axioms(I)
    qt_axioms(I)
    I.assume(z3.And(T.GOODQ(q), T.SQL(q) >= least))
    I.ghost['$q'] = q
    t = T.join_term(I, ' ', q)
    I.assume(z3.Implies(T.SQL(q) == 1, t == T.SQA(q, 0)))
    return q, SStr([t])


@register
class SplitInner(Contract):
    qual = M + 'split_inner_str'
    props = ('E01',)

    def args(self, I):
        q, s = a_qtext(I, 1)
        return [s]

    def pre(self, I, args):
        qt_axioms(I)
        named(I, args[0])
        return [('texts of entities joined by spaces', QT1(I.sterm(args[0])))]

    def prepare(self, I, args):
        q = I.ghost['$q']
        t = args[0].parts[0]

        def wsplit(I, s):
            w = T.WSPLIT(I.sterm(s))
            T.pieces_of_seq(I, q, z3.IntVal(0))
            return PyList(I, T.texts(I, w))
        I.ghost_models['split'] = wsplit
        I.trusted.add('str.split() splits at white space (it is used on texts whose white space is single spaces between other characters)')

        def pos(i):
            i = z3.IntVal(i) if isinstance(i, int) else i
            T.pieces_of_seq(I, q, i)
            k = T.OWN(q, i)
            return k, i - T.START(q, k), T.SQA(q, k)

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if isinstance(v0, int) and not isinstance(v0, bool):
                def depth(i):
                    k, m, x = pos(i)
                    return SInt(z3.If(k < T.SQL(q), T.DEPTH(x, m), 0))
                yield loops.Form(depth, name='the number of open parentheses')
            if v0 is None or isinstance(v0, SOpt):
                def cur(i):
                    k, m, x = pos(i)
                    return SOpt(m == 0, SStr([T.PREF(x, m)]))
                yield loops.Form(cur, name='the pieces of the current element joined by spaces')
            if isinstance(cell[0], PyList) and isinstance(v0, list) and not v0:
                def toks(i):
                    k, m, x = pos(i)
                    return SSeq('list', SInt(k), lambda j: SStr([T.SQA(q, zi(j))]))
                yield loops.Form(toks, name='the elements all of whose pieces were read')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        q = I.ghost['$q']
        I.prove(zb(I.veq(r, T.texts(I, q, 'tuple'))), 'the elements in order')

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        t = I.sterm(args[0])
        r = I.fresh(T.SSQ, 'tokens')
        q = z3.Const('q$t', T.SSQ)
        j = T.JOIN(T.blank(I), q)
        I.assume(z3.ForAll([q], z3.Implies(z3.And(T.GOODQ(q), T.SQL(q) >= 1, j == t), r == q), patterns=[j]))
        # a text of one entity is a sequence of one text
        one(I, t)
        return T.texts(I, r, 'tuple')


def one(I, t):
    """The sequence with the single text t."""
    q = z3.Function('ONE', Str, T.SSQ)(t)
    T.wf_axioms(I)
    I.fact(z3.And(T.SQL(q) == 1, T.SQA(q, 0) == t, T.JOIN(T.blank(I), q) == t))
    I.fact(z3.Implies(TEXTOK_(t), T.GOODQ(q)))
    return q


TEXTOK_ = T.TEXTOK


def named(I, s):
    """Makes the names PAR(..) and ONE(..) known for a text."""
    if isinstance(s, SStr):
        p = s.parts
        if len(p) == 3 and p[0] == '(' and p[2] == ')' and z3.is_expr(p[1]):
            T.wrapped(I, SStr([p[1]]))
    one(I, I.sterm(s))


@register
class SplitEdge(Contract):
    qual = M + 'split_edge_str'
    props = ('E01',)

    def args(self, I):
        q, s = a_qtext(I, 1)
        if I.choose():
            x = T.SQA(q, 0)
            I.assume(z3.And(T.SQL(q) == 1, CH(x, 0) != 40))
            I.fact(z3.And(T.TEXTOK(x), LEN(x) >= 1))        # x is the text of an entity
            return [s]
        I.assume(T.SQL(q) >= 2)
        if I.choose():
            s = T.wrapped(I, s)
            I.assume(T.TEXTOK(I.sterm(s)))      # lemma: the text of the edge of these elements
            I.trusted.add(T.TEXT_LEMMAS)
        return [s]

    def pre(self, I, args):
        qt_axioms(I)
        named(I, args[0])
        return [('texts of entities joined by spaces, with or without parentheses, or of an atom', QT2(I.sterm(args[0])))]

    def post(self, I, args, r):
        q = I.ghost['$q']
        I.prove(zb(I.veq(r, T.texts(I, q, 'tuple'))), 'the elements in order')

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        t = I.sterm(args[0])
        r = I.fresh(T.SSQ, 'tokens')
        q = z3.Const('q$t', T.SSQ)
        j = T.JOIN(T.blank(I), q)
        I.assume(z3.ForAll([q], z3.Implies(z3.And(T.GOODQ(q), T.SQL(q) >= 2, z3.Or(j == t, T.PAR(j) == t)), r == q), patterns=[j]))
        I.assume(z3.ForAll([q], z3.Implies(z3.And(T.GOODQ(q), T.SQL(q) == 1, CH(T.SQA(q, 0), 0) != 40, j == t), r == q), patterns=[j]))
        return T.texts(I, r, 'tuple')


# -- texts

def wf(I, x):
    T.wf_axioms(I)
    return T.WF(I.ent_of(x))


class OfEntity(Contract):
    def args(self, I):
        return [entity(I, 'e')]

    def pre(self, I, args):
        return [('well-formed', wf(I, args[0]))]


@register
class Edge2Str(OfEntity):
    """For entities, and for plain texts (symbols) of any kind, which are their own text."""
    qual = M + 'edge2str'
    props = ALL

    def args(self, I):
        if I.choose():
            return [a_text(I, 's')]
        return [entity(I, 'e')]

    def pre(self, I, args):
        if isinstance(args[0], (str, SStr)):
            return []
        return [('well-formed', wf(I, args[0]))]

    def spec(self, I, args):
        x = args[0]
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, (tuple, SSeq)):
            return T.ent_text(I, I.ent_of(x), 'edge')
        return T.ent_text(I, I.ent_of(x))

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        T.wf_axioms(I)
        if isinstance(args[0], (str, SStr)):
            return args[0]
        return SStr([T.E2S(I.ent_of(args[0]))])


@register
class Atom2Str(OfEntity):
    qual = M + 'atom2str'
    props = ALL

    def pre(self, I, args):
        return [('an atom', KIND(I.ent_of(args[0])) != 0)]

    def spec(self, I, args):
        t = I.ent_of(args[0])
        return T.ent_text(I, t)


@register
class Nodes2Str(OfEntity):
    """For edges, and for lists of any entities."""
    qual = M + 'nodes2str'
    props = ALL

    def args(self, I):
        if I.choose():
            e = entity(I, 'e')
            I.assume(KIND(e.t) == 0)
            return [e]
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        f = I.fresh_fun('node', Int, Ent)
        return [PyList(I, SSeq('list', SInt(n), lambda j: SEnt(f(zi(j)))))]

    def pre(self, I, args):
        T.wf_axioms(I)
        s = I.as_seq(args[0])
        j = z3.Int('j$n')
        if isinstance(s.n, int):
            return [('well-formed', z3.And(*[T.WF(I.ent_of(s.get(k))) for k in range(s.n)]) if s.n else True)]
        x = T.under_binder(I, j, z3.And(j >= 0, j < zi(s.n)), lambda: I.ent_of(s.get(SInt(j))))
        return [('well-formed', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), T.WF(x)), patterns=[x] if T.mentions(x, j) else []))]

    def spec(self, I, args):
        s = I.as_seq(args[0])
        if getattr(s, 'ent', None) is not None:
            return T.inner_text(I, s.ent)
        q = text_seq(I, s)
        return SStr([T.join_term(I, ' ', q)])


def text_seq(I, s):
    """The texts of the entities of a sequence."""
    q = I.fresh(T.SSQ, 'texts')
    j = z3.Int('j$n')
    if isinstance(s.n, int):
        I.assume(z3.And(T.SQL(q) == s.n, *[T.SQA(q, k) == T.E2S(I.ent_of(s.get(k))) for k in range(s.n)]))
        return q
    x = T.under_binder(I, j, z3.And(j >= 0, j < zi(s.n)), lambda: I.ent_of(s.get(SInt(j))))
    I.assume(T.SQL(q) == zi(s.n))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), T.SQA(q, j) == T.E2S(x)), patterns=[T.SQA(q, j)]))
    return q


@register
class AtomTexts(Contract):
    key = 'texts of atoms'
    qual = M + 'edge2str'
    props = ('E01',)

    def args(self, I):
        e = I.fresh(Ent, 'e')
        I.assume(z3.And(T.WF(e), KIND(e) != 0))
        return [SEnt(e)]

    def run(self, I, f, args):
        e = args[0].t
        k = I.ent_kind(args[0])
        t = I.fresh(Str, 'text')
        # the definition of E2S only, without the axiom that is proved here
        if k == 'sym':
            I.assume(z3.And(t == TXT(e), LEN(t) >= 1, T.plain(t), z3.Not(T.is_int(I, t)), z3.Not(T.is_flt(I, t))))
        elif k == 'int':
            I.assume(t == I.i2s(IVAL(e)))
        else:
            I.assume(t == T.fmt(I, e))
        T.is_int(I, t)
        T.is_flt(I, t)
        return t

    def post(self, I, args, t):
        e = args[0].t
        I.assume(T.E2S(e) == t)
        I.prove(T.atom_text(e), 'how it is read')


# -- parsing

ISEDGETEXT = z3.Function('ISEDGETEXT', Str, Bool)


def et_axioms(I):
    e = z3.Const('e$t', Ent)
    T.wf_axioms(I)
    I.fact(z3.ForAll([e], z3.Implies(T.WF(e), ISEDGETEXT(T.E2S(e))), patterns=[T.E2S(e)]))
    I.fact(z3.ForAll([e], z3.Implies(z3.And(T.WF(e), KIND(e) == 0), ISEDGETEXT(T.INNER(e))), patterns=[T.INNER(e)]))


def ISTEXT(I, s):
    et_axioms(I)
    return ISEDGETEXT(I.sterm(s))


def edge_of(I, s):
    """The entity with the text s, or with it inside parentheses."""
    t = I.sterm(s)
    r = I.fresh(Ent, 'edge')
    e = z3.Const('e$t', Ent)
    I.assume(z3.ForAll([e], z3.Implies(z3.And(T.WF(e), T.E2S(e) == t), r == e), patterns=[T.E2S(e)]))
    I.assume(z3.ForAll([e], z3.Implies(z3.And(T.WF(e), KIND(e) == 0, T.INNER(e) == t), r == e), patterns=[T.INNER(e)]))
    return SEnt(r)


@register
class Str2Edge(Contract):
    qual = M + 'str2edge'
    props = ('E01', 'G02', 'G03', 'G07')

    def args(self, I):
        e = I.fresh(Ent, 'e')
        T.wf_axioms(I)
        T.nseq_axioms(I)
        I.assume(T.WF(e))
        I.ghost['$e'] = e
        if I.choose():
            I.assume(KIND(e) != 0)
            return [SStr([T.E2S(e)])]
        I.assume(KIND(e) == 0)
        q = T.NSEQ(e)
        t = T.join_term(I, ' ', q)
        I.fact(t == T.INNER(e))
        if I.choose():
            v = T.ent_text(I, e, 'edge')
        else:
            v = SStr([t])
        return [v]

    def pre(self, I, args):
        return [('the text of an edge or an atom', ISTEXT(I, args[0]))]

    def post(self, I, args, r):
        e = I.ghost['$e']
        I.prove(zb(I.veq(r, SEnt(e))), 'the edge')

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual, name))
        return edge_of(I, args[0])


# -- the property, from the contracts above

class Lemma(OfEntity):
    props = ('E01',)

    def args(self, I):
        e = I.fresh(Ent, 'e')
        T.wf_axioms(I)
        T.nseq_axioms(I)
        qt_axioms(I)
        et_axioms(I)
        I.assume(z3.And(T.WF(e), KIND(e) == 0))
        return [SEnt(e)]

    def fn(self, I, name):
        return I.find(M + name)


@register
class RoundTrip(Lemma):
    key = 'parsing the text of an edge gives the edge'
    qual = M + 'str2edge'

    def run(self, I, f, args):
        e = args[0]
        if I.choose():
            text = I.call(self.fn(I, 'edge2str'), [e])
        else:
            text = I.call(self.fn(I, 'nodes2str'), [e])
        return I.call(f, [text])

    def post(self, I, args, r):
        I.prove(zb(I.veq(r, args[0])), 'the same edge')


@register
class Different(Lemma):
    key = 'different edges have different texts'
    qual = M + 'edge2str'

    def run(self, I, f, args):
        g = I.fresh(Ent, 'g')
        I.assume(z3.And(T.WF(g), KIND(g) == 0))
        a = I.call(f, [args[0]])
        b = I.call(f, [SEnt(g)])
        I.assume(zb(I.veq(a, b)))
        # both are what parsing their common text gives
        return g, I.call(self.fn(I, 'str2edge'), [a])

    def post(self, I, args, r):
        g, x = r
        I.prove(zb(I.veq(x, args[0])), 'parsed to the first')
        I.prove(g == args[0].t, 'the edges are the same')


@register
class Splitting(Lemma):
    key = 'splitting the text of an edge gives the texts of its elements'
    qual = M + 'split_edge_str'

    def run(self, I, f, args):
        e = args[0].t
        q = T.NSEQ(e)
        I.fact(T.JOIN(T.blank(I), q) == T.INNER(e))
        I.fact(T.E2S(e) == T.PAR(T.INNER(e)))
        return I.call(f, [I.call(self.fn(I, 'edge2str'), [args[0]])])

    def post(self, I, args, r):
        e = args[0].t
        I.prove(zb(I.veq(r, SSeq('tuple', SInt(ELEN(e)), lambda j: SStr([T.E2S(EL(e, zi(j)))])))), 'the texts of the elements in order')
