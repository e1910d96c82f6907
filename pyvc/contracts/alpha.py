"""Contracts of the stage that builds the first tree (K01), gb/knowledge/stages/alpha.py, with the methods of
gb/knowledge/semantic_tree.py it uses.

Elements are in a heap h, as in delta.py: AT(h, k) is the element with the id k, KL(h, x) the list of the ids of its children.
LC(h, k) is how often an arbitrary token TT occurs below k.  An element is finished (DAG(h, k)), or it is in progress.
Ghost: OWN(h, k) is -1 for what is finished, and for what is not the id of the element in progress it belongs to; ROLE(h, k): 0 for that
element itself, 1 for its first child (in which the words of compounds are put), 2 for a layer (a node with a hole, the id -1, around
what is there).  What is finished has no part that is in progress, so that changes of the latter do not matter to it.
PROG(h, k): k is an element in progress, and PLC(h, k) is how often TT occurs in all that belongs to it."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint, mkbool
from .. import refs, loops
from ..externs import raise_
from .nlp import TOKEN, TokSort, NL, NR, LCH, RCH, DEP
from .tree import ST, STG, ElemSort, ISNODE, TOK
from . import surgery as S, delta as D
from .surgery import Heap, TreeSort, AT, IDF, CUR, HEAP, holds, elem, ident, only, hf, H
from .delta import IL, IDL, KL, DAG, LC, DAGL, SUML, SL, part, prefix, term, seq_of, x_, y_, k_, j_, h_, l_, m_, All, Imp, And, Or, Not, MP, each, forms

LAY, LID, UNS = hf('layers', ElemSort, IDL), hf('layer', ElemSort, Int), hf('own_list', ElemSort, Bool)
OWN, ROLE = hf('owner', Int, Int), hf('role', Int, Int)
PROG, PLC = hf('in_progress', Int, Bool), hf('progress', Int, Int)
LAYER, LLC = hf('is_layer', Int, Int, Bool), hf('layer_count', Int, Int)
LAYL, SUMLL = hf('are_layers', Int, IDL, Bool), hf('layers_sum', IDL, Int)
READY = hf('complete', Int, Bool)
TAIL, REV = z3.Function('IdSeq.tail', IDL, IDL), z3.Function('IdSeq.reversed', IDL, IDL)
LP, LQ = z3.Function('Elem.before_hole', ElemSort, IDL), z3.Function('Elem.after_hole', ElemSort, IDL)
TT = z3.Const('TT', TokSort)
REACH, CON = z3.Function('Tok.reached', TokSort, Int), z3.Function('Tok.contribution', TokSort, Int)
SRL, SRR = z3.Function('Tok.of_lefts', TokSort, Int, Int), z3.Function('Tok.of_rights', TokSort, Int, Int)
ELE, RK = hf('of_the_tree', ElemSort, Bool), hf('rank', Int, Int)
FIN = hf('finite', Int, Bool)
o_, p_ = z3.Int('o$a'), z3.Int('p$a')


def one(x):
    """How often the leaf x is the token."""
    return z3.If(TOK(x) == TT, 1, 0)


# -- what the functions mean -----------------------------------------------------------------

def axioms(I):
    h, k, l, m, j, o = h_, k_, l_, m_, j_, o_
    IL.axioms(I)
    e = AT(h, k)
    kl = KL(h, e)
    I.fact(All([h, k], Imp(DAG(h, k), And(k >= 0, k < CUR(h), OWN(h, k) == -1, IDF(h, e) == k, READY(h, k),
                                          z3.If(ISNODE(e), And(IL.LEN(kl) >= 1, DAGL(h, kl), LC(h, k) == SUML(h, kl)), LC(h, k) == one(e)))), patterns=[DAG(h, k)]))
    I.fact(All([h, k], Imp(PROG(h, k), And(READY(h, k), OWN(h, k) == k, k >= 0, k < CUR(h))), patterns=[PROG(h, k)]))
    I.fact(All([h, k], Imp(And(k >= 0, k < CUR(h)), And(OWN(h, k) >= -1, OWN(h, k) < CUR(h))), patterns=[OWN(h, k)]))
    I.fact(All([h, l, j], Imp(And(DAGL(h, l), j >= 0, j < IL.LEN(l)), DAG(h, IL.AT(l, j))), patterns=[MP(DAGL(h, l), IL.AT(l, j))]))
    c = IL.CAT(l, m)
    for f in (SUML, SUMLL):
        I.fact(All([h, l, m], f(h, c) == f(h, l) + f(h, m), patterns=[f(h, c)]))
        I.fact(All([h, l], Imp(IL.LEN(l) == 0, f(h, l) == 0), patterns=[f(h, l)]))
        I.fact(All([h, l], Imp(IL.LEN(l) == 1, f(h, l) == (LC if f is SUML else LLC)(h, IL.AT(l, 0))), patterns=[f(h, l)]))
    I.fact(All([h, l, m], DAGL(h, c) == And(DAGL(h, l), DAGL(h, m)), patterns=[DAGL(h, c)]))
    I.fact(All([h, k], SUML(h, IL.UNIT(k)) == LC(h, k), patterns=[SUML(h, IL.UNIT(k))]))
    I.fact(All([h, k], SUMLL(h, IL.UNIT(k)) == LLC(h, k), patterns=[SUMLL(h, IL.UNIT(k))]))
    I.fact(All([h, k], DAGL(h, IL.UNIT(k)) == DAG(h, k), patterns=[DAGL(h, IL.UNIT(k))]))
    I.fact(All([h, l], Imp(IL.LEN(l) == 0, DAGL(h, l)), patterns=[DAGL(h, l)]))
    # layers: different ones, all of one element
    I.fact(All([h, o, l, j], Imp(And(LAYL(h, o, l), j >= 0, j < IL.LEN(l)), LAYER(h, o, IL.AT(l, j))), patterns=[MP(LAYL(h, o, l), IL.AT(l, j))]))
    i = z3.Int('i$a')
    I.fact(All([h, o, l, i, j], Imp(And(LAYL(h, o, l), i >= 0, i < j, j < IL.LEN(l)), IL.AT(l, i) != IL.AT(l, j)), patterns=[MP(LAYL(h, o, l), IL.AT(l, i), IL.AT(l, j))]))
    I.fact(All([h, o, l], Imp(IL.LEN(l) == 0, LAYL(h, o, l)), patterns=[LAYL(h, o, l)]))
    x = AT(h, k)
    lk = KL(h, x)
    I.fact(All([h, o, k], LAYER(h, o, k) == And(k >= 0, k < CUR(h), k != o, o >= 0, OWN(h, k) == o, ROLE(h, k) == 2, IDF(h, x) == k, ISNODE(x), UNS(h, x),
                                                lk == IL.CAT(LP(x), IL.CAT(IL.UNIT(-1), LQ(x))), DAGL(h, LP(x)), DAGL(h, LQ(x)), IL.LEN(LP(x)) + IL.LEN(LQ(x)) >= 1), patterns=[LAYER(h, o, k)]))
    I.fact(All([h, o, k], Imp(LAYER(h, o, k), LLC(h, k) == SUML(h, LP(x)) + SUML(h, LQ(x))), patterns=[LAYER(h, o, k)]))
    # lists
    I.fact(All([l, m], Imp(IL.LEN(l) >= 1, TAIL(c) == IL.CAT(TAIL(l), m)), patterns=[TAIL(c)]))
    I.fact(All([l, m], Imp(IL.LEN(l) == 0, TAIL(c) == TAIL(m)), patterns=[TAIL(c)]))
    I.fact(All([k], TAIL(IL.UNIT(k)) == IL.EMPTY, patterns=[TAIL(IL.UNIT(k))]))
    I.fact(All([k, m], TAIL(IL.CAT(IL.UNIT(k), m)) == m, patterns=[IL.CAT(IL.UNIT(k), m)]))
    I.fact(All([l], Imp(IL.LEN(l) >= 1, And(IL.LEN(TAIL(l)) == IL.LEN(l) - 1, l == IL.CAT(IL.UNIT(IL.AT(l, 0)), TAIL(l)))), patterns=[TAIL(l)]))
    r = REV(l)
    I.fact(All([l], IL.LEN(r) == IL.LEN(l), patterns=[r]))
    I.fact(All([l, j], Imp(And(j >= 0, j < IL.LEN(l)), IL.AT(r, j) == IL.AT(l, IL.LEN(l) - 1 - j)), patterns=[IL.AT(r, j)]))
    I.fact(All([h, o, l], LAYL(h, o, r) == LAYL(h, o, l), patterns=[LAYL(h, o, r)]))
    I.fact(All([h, l], SUMLL(h, r) == SUMLL(h, l), patterns=[SUMLL(h, r)]))
    # what is complete can be read
    I.fact(All([h, k], Imp(READY(h, k), And(k >= 0, k < CUR(h), IDF(h, e) == k)), patterns=[READY(h, k)]))
    I.fact(All([h, k, j], Imp(And(READY(h, k), ISNODE(e), j >= 0, j < IL.LEN(kl)), READY(h, IL.AT(kl, j))), patterns=[MP(READY(h, k), IL.AT(kl, j))]))
    t = z3.Const('t$a', TokSort)
    I.fact(All([t], REACH(t) == z3.If(t == TT, 1, 0) + SRL(t, NL(t)) + SRR(t, NR(t)), patterns=[REACH(t)]))
    I.fact(All([t], And(NL(t) >= 0, NR(t) >= 0, SRL(t, 0) == 0, SRR(t, 0) == 0), patterns=[REACH(t)]))
    I.trusted.add('what is finished (acyclic, no part of it in progress), in progress, a layer, how often a token occurs below: their definitions, and that what is '
                  'finished, and what belongs to another element in progress, is not affected by a change of an element in progress (lemmas/Alpha.lean, checked by Lean); '
                  'the elements in progress and their parts are ghost state, changed by the contracts only')


def tok(I, t):
    """The definitions for one token."""
    I.fact(And(NL(t) >= 0, NR(t) >= 0, SRL(t, 0) == 0, SRR(t, 0) == 0, REACH(t) == z3.If(t == TT, 1, 0) + SRL(t, NL(t)) + SRR(t, NR(t))))


def contribution(I, t):
    """What a child token adds: nothing if it has no dependency or is punctuation."""
    d = SRef(t, TOKEN)
    dep = TOKEN.attrs['dep'](I, d)
    none = Or(zi(I.length(dep)) == 0, zb(I.veq(dep, 'punct')))
    I.fact(CON(t) == z3.If(none, 0, REACH(t)))
    I.fact(z3.If(none, 0, REACH(t)) == CON(t))


def prog_def(h, p):
    x = AT(h, p)
    kl = KL(h, x)
    f = IL.AT(kl, 0)
    F = AT(h, f)
    first = And(f >= 0, f < CUR(h), f != p, OWN(h, f) == p, ROLE(h, f) == 1, IDF(h, F) == f, Imp(ISNODE(F), And(UNS(h, F), IL.LEN(KL(h, F)) >= 1, DAGL(h, KL(h, F)))))
    node = And(UNS(h, x), IL.LEN(kl) >= 1, first, DAGL(h, TAIL(kl)), LAYL(h, p, LAY(h, x)), LID(h, x) == -1)
    fc = z3.If(ISNODE(F), SUML(h, KL(h, F)), one(F))
    return And(p >= 0, p < CUR(h), OWN(h, p) == p, ROLE(h, p) == 0, IDF(h, x) == p, Imp(ISNODE(x), node)), \
        z3.If(ISNODE(x), fc + SUML(h, TAIL(kl)) + SUMLL(h, LAY(h, x)), one(x))


def look(I, p, h=None):
    """The definition of what is in progress, at one id."""
    h = H(I) if h is None else h
    d, n = prog_def(h, p)
    kl = KL(h, AT(h, p))
    I.fact(PROG(h, p) == d)
    I.fact(Imp(PROG(h, p), PLC(h, p) == n))
    I.fact(Imp(IL.LEN(kl) >= 1, And(IL.LEN(TAIL(kl)) == IL.LEN(kl) - 1, kl == IL.CAT(IL.UNIT(IL.AT(kl, 0)), TAIL(kl)))))


def finished(I, k, h=None):
    """The definition of what is finished, at one id."""
    h = H(I) if h is None else h
    e = AT(h, k)
    kl = KL(h, e)
    I.fact(Imp(And(k >= 0, k < CUR(h), OWN(h, k) == -1, IDF(h, e) == k, Or(Not(ISNODE(e)), And(IL.LEN(kl) >= 1, DAGL(h, kl)))), DAG(h, k)))


# -- changes ------------------------------------------------------------------------------

def kept(h, h1, owners, layers=lambda l: z3.BoolVal(True)):
    """What is finished is as it was, and what is in progress, but for what belongs to the owners."""
    mine = lambda o: Or(*[o == x for x in owners]) if owners else z3.BoolVal(False)
    y = AT(h, y_)
    old = And(y_ >= 0, y_ < CUR(h), Not(mine(OWN(h, y_))))
    return [('what is finished stays', All([k_], Imp(DAG(h, k_), And(DAG(h1, k_), LC(h1, k_) == LC(h, k_))), patterns=[DAG(h, k_)])),
            ('lists of what is finished stay', All([l_], Imp(DAGL(h, l_), And(DAGL(h1, l_), SUML(h1, l_) == SUML(h, l_))), patterns=[DAGL(h, l_)])),
            ('what is in progress elsewhere stays', All([p_], Imp(And(PROG(h, p_), Not(mine(p_))), And(PROG(h1, p_), PLC(h1, p_) == PLC(h, p_))), patterns=[PROG(h, p_)])),
            ('ids are not used again', CUR(h1) >= CUR(h)),
            ('the table', All([y_], Imp(old, AT(h1, y_) == y), patterns=[AT(h1, y_), y])),
            ('what belongs to whom', All([y_], Imp(old, And(OWN(h1, y_) == OWN(h, y_), ROLE(h1, y_) == ROLE(h, y_))), patterns=[OWN(h1, y_), ROLE(h1, y_)]))]


def frame(I, h, h1, at=None, idf=None, kl=None, lay=None, lid=None, uns=(), own=None, role=None, cur=None):
    def f(F, v, w):
        t = F(h, v)
        return All([v], F(h1, v) == (z3.If(v == w[0], w[1], t) if w else t), patterns=[F(h1, v)] + ([t] if F in (AT, OWN) else []))
    for F, v, w in ((AT, y_, at), (IDF, x_, idf), (KL, x_, kl), (LAY, x_, lay), (LID, x_, lid), (OWN, y_, own), (ROLE, y_, role)):
        I.fact(f(F, v, w))
    u = UNS(h, x_)
    for x, b in uns:
        u = z3.If(x_ == x, z3.BoolVal(b), u)
    I.fact(All([x_], UNS(h1, x_) == u, patterns=[UNS(h1, x_)]))
    I.fact(CUR(h1) == (CUR(h) if cur is None else cur))


def write(I, k, x=None, **kw):
    """Something of the element with the id k is changed; k is in progress, or new.  x now shares its children."""
    h = H(I)
    if '$hs' in I.ghost:
        h1 = S.new_heap(I)
        frame(I, h, h1, **kw)
        return h1
    if not I.valid(Or(OWN(h, k) != -1, k >= CUR(h))):
        raise Unsupported('a change of what may be finished')
    h1 = S.new_heap(I)
    frame(I, h, h1, **kw)
    same(I, h, h1, k, x)
    return h1


def same(I, h, h1, k, x=None):
    """The lemma (lemmas/Alpha.lean): what does not belong to the owner of k is as before."""
    new = k >= CUR(h)
    o = OWN(h, k)
    I.fact(All([k_], Imp(DAG(h, k_), And(DAG(h1, k_), LC(h1, k_) == LC(h, k_))), patterns=[DAG(h, k_)]))
    I.fact(All([l_], Imp(DAGL(h, l_), And(DAGL(h1, l_), SUML(h1, l_) == SUML(h, l_))), patterns=[DAGL(h, l_)]))
    mine = Or(new, p_ != o) if x is None else And(Or(new, p_ != o), p_ != OWN(h, IDF(h, x)))
    I.fact(All([p_], Imp(And(PROG(h, p_), mine), And(PROG(h1, p_), PLC(h1, p_) == PLC(h, p_))), patterns=[PROG(h, p_)]))
    other = k_ != k if x is None else And(k_ != k, k_ != IDF(h, x))
    I.fact(All([o_, k_], Imp(And(LAYER(h, o_, k_), other), And(LAYER(h1, o_, k_), LLC(h1, k_) == LLC(h, k_))), patterns=[LAYER(h, o_, k_)]))
    if x is not None:
        return
    I.fact(All([o_, l_], Imp(And(LAYL(h, o_, l_), Or(new, ROLE(h, k) != 2)), And(LAYL(h1, o_, l_), SUMLL(h1, l_) == SUMLL(h, l_))), patterns=[LAYL(h, o_, l_)]))


def give(I, k, o, role):
    """Ghost: k, which belongs to nothing else, now belongs to o (-1: it is finished)."""
    h = H(I)
    if o is None:
        if not I.valid(And(k >= 0, k < CUR(h), OWN(h, k) != -1)):
            raise Unsupported('what is finished')
        h1 = write(I, k, own=(k, z3.IntVal(-1)))
        finished(I, k)
    else:
        if not I.valid(And(k >= 0, k < CUR(h), OWN(h, k) == k, o >= 0, o < CUR(h))):
            raise Unsupported('a part of something else')
        h1 = write(I, k, own=(k, o), role=(k, z3.IntVal(role)))
    return h1


def change_list(I, e, t):
    h = H(I)
    if '$hs' in I.ghost or not I.valid(UNS(h, e)):
        raise Unsupported('a list of children that may be shared is changed')
    for x in I.ghost.get('$iterated', ()):
        if not I.valid(x != e):
            raise Unsupported('a list of children is changed while it is iterated')
    write(I, IDF(h, e), kl=(e, t))


class Kids(D.Kids):
    """Node.children_ids"""
    @staticmethod
    def listterm(I, o):
        if o.stamp != I.ghost.get('$assigned', 0):
            raise Unsupported('a list of children that is no longer one')
        return KL(H(I), o.e)

    @staticmethod
    def change(I, e, t):
        change_list(I, e, t)

    @staticmethod
    def look(I, o):
        pass

    @staticmethod
    def setitem(I, o, k, v):
        if isinstance(k, (int, SInt)) and not isinstance(k, bool):
            k = o.cls.index(I, o, k)
            l = o.cls.listterm(I, o)
            if I.valid(k == 0):
                change_list(I, o.e, IL.CAT(IL.UNIT(ident(v)), TAIL(l)))
                return
        D.Kids.setitem(I, o, SInt(k) if z3.is_expr(k) else k, v)


class Layers(Kids):
    """Node.layer_ids"""
    name = 'layer_ids'

    @staticmethod
    def listterm(I, o):
        if o.stamp != I.ghost.get('$assigned', 0):
            raise Unsupported('a list of layers that is no longer one')
        return LAY(H(I), o.e)

    @staticmethod
    def change(I, e, t):
        raise Unsupported('a change of the list of layers')

    @staticmethod
    def setitem(I, o, k, v):
        raise Unsupported('a change of the list of layers')

    @staticmethod
    def getattr(I, o, name):
        def append(I, v):
            v, e = ident(v), o.e
            h = H(I)
            l = o.cls.listterm(I, o)
            own = IDF(h, e)
            if not I.valid(And(OWN(h, own) == own, OWN(h, v) == v, v != own)):
                raise Unsupported('a layer of something else')
            h1 = give(I, v, own, 2)
            h2 = write(I, own, lay=(e, IL.CAT(l, IL.UNIT(v))))
            b = z3.Function('H.again', Heap, IDL, Int, Int)(h2, l, v)
            # one more layer
            I.fact(Imp(And(LAYL(h2, own, l), LAYER(h2, own, v)), Or(LAYL(h2, own, IL.CAT(l, IL.UNIT(v))), And(b >= 0, b < IL.LEN(l), IL.AT(l, b) == v))))
            I.fact(Imp(And(LAYL(h, own, l), b >= 0, b < IL.LEN(l)), LAYER(h, own, IL.AT(l, b))))

        def reverse(I):
            h, e = H(I), o.e
            write(I, IDF(h, e), lay=(e, REV(o.cls.listterm(I, o))))
        for n, f in (('append', append), ('reverse', reverse)):
            if n == name:
                return Builtin('layer_ids.' + name, f)
        return None


def view(cls):
    def f(I, o):
        k = Obj(I, cls)
        k.e, k.stamp = o.t, I.ghost.get('$assigned', 0)
        return k
    return f


def list_of(I, v):
    """The term of the list that becomes one of an element, and the element it is shared with."""
    if isinstance(v, Obj) and not isinstance(v, PyList):
        if v.cls is not Kids:
            raise Unsupported('children %r' % (v,))
        return Kids.listterm(I, v), v.e
    if not isinstance(v, PyList):
        raise Unsupported('children %r' % (v,))
    t = term(I, v)
    D.own(I, v)
    return t, None


def set_kids(I, o, v):
    if '$hs' in I.ghost:
        raise Unsupported('children are changed')
    t, x = list_of(I, v)
    e = o.t
    if not I.decide(ISNODE(e)):
        raise Unsupported('children of a leaf')
    if x is not None and x.eq(e):
        return
    write(I, IDF(H(I), e), x, kl=(e, t), uns=[(e, True)] if x is None else [(e, False), (x, False)])
    I.ghost['$assigned'] = I.ghost.get('$assigned', 0) + 1


def set_layers(I, o, v):
    if not (isinstance(v, PyList) and isinstance(v.items, list) and not v.items) or '$hs' in I.ghost:
        raise Unsupported('layers %r' % (v,))
    write(I, IDF(H(I), o.t), lay=(o.t, IL.EMPTY))
    D.own(I, v)
    I.ghost['$assigned'] = I.ghost.get('$assigned', 0) + 1


def set_layer(I, o, v):
    write(I, IDF(H(I), o.t), lid=(o.t, zi(v)))


def set_id(I, o, v):
    write(I, IDF(H(I), o.t), idf=(o.t, zi(v)))


class Table:
    """Tree.table"""
    name = 'table'

    @staticmethod
    def getitem(I, o, k):
        if not isinstance(k, (int, SInt)) or isinstance(k, bool):
            raise Unsupported('id of an element')
        h, k = H(I), zi(k)
        if not holds(I, And(k >= 0, k < CUR(h))):
            raise_('KeyError')
        return SRef(AT(h, k), ELEM)

    @staticmethod
    def setitem(I, o, k, v):
        k = ident(k)
        write(I, k, at=(k, elem(v)))

    @staticmethod
    def getattr(I, o, name):
        return None


def set_cur(I, o, v):
    c = CUR(H(I))
    if not I.valid(zi(v) == c + 1):
        raise Unsupported('the next id')
    write(I, c, cur=c + 1, own=(c, c), role=(c, z3.IntVal(0)))


ELEM = S.ElemKind('element', None, {
    'type': lambda I, o: I.find(ST + ('NODE' if I.decide(ISNODE(o.t)) else 'LEAF')),
    'tree': lambda I, o: I.ghost['$tree'], 'id': lambda I, o: SInt(IDF(H(I), o.t)),
    'token': only(False, lambda I, o: SRef(TOK(o.t), TOKEN)),
    'children_ids': only(True, view(Kids)), 'layer_ids': only(True, view(Layers)),
    'layer_id': only(True, lambda I, o: SInt(LID(H(I), o.t))),
    '_Node__compound': only(True, lambda I, o: False),     # nothing in this stage makes a compound: a change of the flag is refused
}, ElemSort, {'id': set_id, 'children_ids': set_kids, 'layer_ids': set_layers, 'layer_id': set_layer})

TREEK = refs.InstKind('tree', ST + 'Tree', {
    'root_id': lambda I, o: I.ghost['$root'], 'cur_id': lambda I, o: SInt(CUR(H(I))), 'table': lambda I, o: Obj(I, Table),
}, TreeSort, {'root_id': lambda I, o, v: I.ghost.__setitem__('$root', v), 'cur_id': set_cur})


def heap_form(inv, name):
    def offer(I, loop, cell, v0, ys):
        if cell[0] is loops.GHOST and cell[1] == '$h':
            yield D.Heaps(I, v0, lambda h, i: inv(loop, v0.t, h, i), name)
    return offer


# -- contracts ----------------------------------------------------------------------------

def alpha(cls):
    if cls.key is None or cls.key == getattr(cls.__mro__[1], 'key', None):
        cls.key = 'K01: ' + cls.qual + getattr(cls, 'variant', '')
    register(cls)
    return cls


class Alpha(Contract):
    props = ('K01',)
    group = 'alpha'

    def heap(self, I):
        axioms(I)
        I.ghost['$h'] = SRef(I.fresh(Heap, 'h0'), HEAP)
        I.ghost['$h0'] = I.ghost['$h']
        I.ghost['$owned'] = ()
        I.ghost['$root'] = SInt(I.fresh(Int, 'root'))
        I.ghost['$tree'] = SRef(I.fresh(TreeSort, 'tree'), TREEK)
        I.fact(CUR(H(I)) >= 0)
        return H(I)

    def stage(self, I):
        self.heap(I)
        o = I.instantiate(I.find(STG + 'alpha.AlphaStage'), [], {})
        for n, v in list(o.fields.items()):
            if isinstance(v, Obj) and v.cls is I.find(ST + 'Tree'):
                o.fields[n] = I.ghost['$tree']
        return o

    def element(self, I, name='e', node=None):
        e = I.fresh(ElemSort, name)
        if node is not None:
            I.assume(ISNODE(e) if node else Not(ISNODE(e)))
        return SRef(e, ELEM)

    def prove_all(self, I, cs):
        for name, c in cs:
            I.prove(c, name)

    def demand(self, I, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual.split('.')[-1], name))

    def moved(self, I, h, owners):
        """A heap after a call."""
        h1 = S.new_heap(I)
        for n, c in kept(h, h1, owners):
            I.assume(c)
        return h1


def at_id(h, e):
    return AT(h, IDF(h, e)) == e


class Creates(Alpha):
    """A new element under a new id."""
    def tree(self, I):
        t = Obj(I, I.find(ST + 'Tree'), {'root_id': SInt(I.fresh(Int, 'root')), 'cur_id': SInt(I.fresh(Int, 'cur')), 'table': Obj(I, S.Made)})
        I.ghost['$cur'] = t.fields['cur_id']
        return t

    def post(self, I, args, r):
        made = I.ghost.get('$made', ())
        I.prove(isinstance(r, Obj) and r.cls is I.find(ST + self.cls), 'its class')
        I.prove(len(made) == 1 and made[0][1] is r and zb(I.veq(made[0][0], I.ghost['$cur'])), 'is put under the next id, and nothing else is')
        I.prove(zb(I.veq(r.fields.get('id'), I.ghost['$cur'])), 'its id')
        I.prove(zb(I.veq(args[0].fields['cur_id'], mkint(zi(I.ghost['$cur']) + 1))), 'the next id')
        I.prove(r.fields.get('tree') is args[0], 'its tree')
        self.fields(I, args, r)

    def make(self, I, args, node, shared=None, **kw):
        if '$h' not in I.ghost or '$hs' in I.ghost or args[0] is not I.ghost['$tree'] and not (isinstance(args[0], SRef) and args[0].t.eq(I.ghost['$tree'].t)):
            raise Unsupported('an element of another tree')
        h = H(I)
        N, c = I.fresh(ElemSort, 'N'), CUR(h)
        I.assume(ISNODE(N) if node else Not(ISNODE(N)))
        I.fact(c >= 0)
        I.fact(All([y_], Imp(And(y_ >= 0, y_ < c), AT(h, y_) != N), patterns=[AT(h, y_)]))
        h1 = S.new_heap(I)
        frame(I, h, h1, at=(c, N), idf=(N, c), cur=c + 1, own=(c, c), role=(c, z3.IntVal(0)), **{k: (N, v) if k != 'uns' else v(N) for k, v in kw.items()})
        same(I, h, h1, c, shared)
        return N, c


@alpha
class CreateLeaf(Creates):
    qual = ST + 'Tree.create_leaf'
    cls = 'Leaf'

    def args(self, I):
        return [self.tree(I), SRef(I.fresh(TokSort, 'token'), TOKEN)]

    def fields(self, I, args, r):
        I.prove(zb(I.veq(r.fields.get('type'), I.find(ST + 'LEAF'))), 'a leaf')
        I.prove(r.fields.get('token') is args[1], 'its token')

    def use(self, I, f, args):
        if not (isinstance(args[1], SRef) and args[1].t.sort() == TokSort):
            raise Unsupported('a leaf with %r' % (args[1],))
        N, c = self.make(I, args, False)
        I.fact(TOK(N) == args[1].t)
        look(I, c)
        return SRef(N, ELEM)


@alpha
class CreateNode(Creates):
    qual = ST + 'Tree.create_node'
    cls = 'Node'

    def args(self, I):
        f = I.fresh_fun('ids', Int, Int)
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        l = PyList(I, SSeq('list', SInt(n), lambda j: SInt(f(zi(j)))))
        I.ghost['$list'] = (l, l.items)
        return [self.tree(I), l]

    def fields(self, I, args, r):
        I.prove(zb(I.veq(r.fields.get('type'), I.find(ST + 'NODE'))), 'a node')
        I.prove(r.fields.get('children_ids') is args[1] and args[1].items is I.ghost['$list'][1], 'its children')
        I.prove(r.fields.get('_Node__compound') is False, 'no compound')
        l = r.fields.get('layer_ids')
        I.prove(isinstance(l, PyList) and isinstance(l.items, list) and not l.items and l is not args[1], 'no layers')
        I.prove(zb(I.veq(r.fields.get('layer_id'), -1)), 'no layer')

    def use(self, I, f, args):
        l = args[1] if len(args) > 1 else None
        t, x = (IL.EMPTY, None) if l is None else list_of(I, l)
        hole = with_hole(t)
        if hole is not None:
            I.fact(t == IL.CAT(hole[0], IL.CAT(IL.UNIT(-1), hole[1])))
        N, c = self.make(I, args, True, x, kl=t, lay=IL.EMPTY, lid=z3.IntVal(-1), uns=lambda N: [(N, x is None)] + ([(x, False)] if x is not None else []))
        if hole is not None:
            I.fact(And(LP(N) == hole[0], LQ(N) == hole[1]))
        return SRef(N, ELEM)


def with_hole(t):
    """The lists before and after the hole."""
    ps = []

    def flat(t):
        if t.decl().eq(IL.CAT(t, t).decl()):
            flat(t.arg(0))
            flat(t.arg(1))
        else:
            ps.append(t)
    flat(t)
    unit = IL.UNIT(z3.IntVal(0)).decl()
    at = [k for k, p in enumerate(ps) if p.decl().eq(unit) and z3.is_int_value(z3.simplify(p.arg(0))) and z3.simplify(p.arg(0)).as_long() == -1]
    if len(at) != 1:
        return None

    def join(l):
        t = IL.EMPTY
        for p in l:
            t = p if t is IL.EMPTY else IL.CAT(t, p)
        return t
    return join(ps[:at[0]]), join(ps[at[0] + 1:])


@alpha
class Enclose(Alpha):
    """A leaf that is in progress, or the first child of what is, is moved to a new id; a new node, with it as its only child, is in its place."""
    qual = ST + 'Tree.enclose'

    def args(self, I):
        self.heap(I)
        return [I.ghost['$tree'], self.element(I, node=False)]

    def pre(self, I, args):
        h, e = H(I), elem(args[1])
        c = IDF(h, e)
        return [('a leaf', And(Not(ISNODE(e)), c >= 0, c < CUR(h), AT(h, c) == e)),
                ('in progress, or the first child of what is', Or(And(ROLE(h, c) == 0, OWN(h, c) == c), And(ROLE(h, c) == 1, OWN(h, c) >= 0, OWN(h, c) != c)))]

    def claims(self, h, h1, e, N, main):
        c, m = IDF(h, e), IDF(h1, e)
        y = AT(h, y_)
        old = And(y_ >= 0, y_ < CUR(h))
        o = OWN(h, c)
        return [('a new node', And(ISNODE(N), N != e, AT(h1, c) == N, IDF(h1, N) == c)),
                ('the leaf has a new id', And(m >= CUR(h), m < CUR(h1), AT(h1, m) == e)),
                ('it is the only child', And(KL(h1, N) == IL.UNIT(m), UNS(h1, N))),
                ('no layers', And(IL.LEN(LAY(h1, N)) == 0, LID(h1, N) == -1)),
                ('the first child is a part of it' if main else 'the leaf is finished', And(OWN(h1, m) == c, ROLE(h1, m) == 1) if main else And(DAG(h1, m), LC(h1, m) == one(e))),
                ('ids are not used again', CUR(h1) >= CUR(h)),
                ('it is new', All([y_], Imp(old, y != N), patterns=[y])),
                ('the table', All([y_], Imp(And(old, y_ != c), AT(h1, y_) == y), patterns=[AT(h1, y_), y])),
                ('what belongs to whom', All([y_], Imp(old, And(OWN(h1, y_) == OWN(h, y_), ROLE(h1, y_) == ROLE(h, y_))), patterns=[OWN(h1, y_), ROLE(h1, y_)])),
                ('other ids', All([x_], Imp(And(x_ != e, x_ != N), IDF(h1, x_) == IDF(h, x_)), patterns=[IDF(h1, x_)])),
                ('other children', All([x_], Imp(x_ != N, KL(h1, x_) == KL(h, x_)), patterns=[KL(h1, x_)])),
                ('other lists', All([x_], Imp(x_ != N, UNS(h1, x_) == UNS(h, x_)), patterns=[UNS(h1, x_)])),
                ('other layers', All([x_], Imp(x_ != N, And(LAY(h1, x_) == LAY(h, x_), LID(h1, x_) == LID(h, x_))), patterns=[LAY(h1, x_)])),
                ('what is finished stays', All([k_], Imp(DAG(h, k_), And(DAG(h1, k_), LC(h1, k_) == LC(h, k_))), patterns=[DAG(h, k_)])),
                ('lists of what is finished stay', All([l_], Imp(DAGL(h, l_), And(DAGL(h1, l_), SUML(h1, l_) == SUML(h, l_))), patterns=[DAGL(h, l_)])),
                ('what is in progress elsewhere stays', All([p_], Imp(And(PROG(h, p_), p_ != o), And(PROG(h1, p_), PLC(h1, p_) == PLC(h, p_))), patterns=[PROG(h, p_)])),
                ('layers stay', All([o_, l_], Imp(LAYL(h, o_, l_), And(LAYL(h1, o_, l_), SUMLL(h1, l_) == SUMLL(h, l_))), patterns=[LAYL(h, o_, l_)]))]

    def post(self, I, args, r):
        S.owned_unchanged(I)
        h, e, N = I.ghost['$h0'].t, args[1].t, elem(r)
        m = IDF(H(I), e)
        main = I.decide(ROLE(h, IDF(h, e)) == 0)
        give(I, m, *((IDF(h, e), 1) if main else (None, 0)))
        self.prove_all(I, self.claims(h, H(I), e, N, main))

    def use(self, I, f, args):
        self.demand(I, args)
        h, e = H(I), elem(args[1])
        main = I.decide(ROLE(h, IDF(h, e)) == 0)
        N = I.fresh(ElemSort, 'N')
        h1 = S.new_heap(I)
        for n, c in self.claims(h, h1, e, N, main):
            I.assume(c)
        return SRef(N, ELEM)


@alpha
class HasPos(Alpha):
    """Reads what is complete; changes nothing, and does not fail."""
    qual = ST + 'Node.has_pos'

    def args(self, I):
        self.heap(I)
        return [self.element(I, node=True), I.finding_text() if hasattr(I, 'finding_text') else SStr([I.fresh(Str, 'pos')])]

    def pre(self, I, args):
        h, e = H(I), elem(args[0])
        return [('a complete node', And(READY(h, IDF(h, e)), at_id(h, e), ISNODE(e)))]

    def post(self, I, args, r):
        S.owned_unchanged(I)
        I.prove(I.ghost['$h'] is I.ghost['$h0'], 'nothing is changed')
        I.truth(r)

    def use(self, I, f, args):
        self.demand(I, args)
        return SBool(I.fresh(Bool, 'has_pos'))


# -- layers --------------------------------------------------------------------------------

@alpha
class ApplyLayer(Alpha):
    """The children of the entity are put into the hole of the layer; something finished has none."""
    qual = ST + 'Node.apply_layer'

    def args(self, I):
        self.heap(I)
        whole = I.choose()
        l = self.element(I, 'layer', node=None if whole else True)
        I.ghost['$whole'] = whole
        return [self.element(I, 'self', node=True), self.element(I, 'entity', node=True), l]

    def whole(self, I, args):
        h, l = H(I), elem(args[2])
        return And(DAG(h, IDF(h, l)), at_id(h, l))

    def pre(self, I, args):
        h, n, l = H(I), elem(args[1]), elem(args[2])
        k = IDF(h, l)
        whole = I.ghost.get('$whole')
        if self.calling:
            whole = I.valid(self.whole(I, args))
        return [('finished children', And(ISNODE(n), IL.LEN(KL(h, n)) >= 1, DAGL(h, KL(h, n)))),
                ('something finished', self.whole(I, args)) if whole else ('a layer', And(LAYER(h, OWN(h, k), k), at_id(h, l), n != l, OWN(h, IDF(h, n)) == OWN(h, k)))]

    calling = False

    def claims(self, h, h1, n, l):
        k = IDF(h, l)
        y = AT(h, y_)
        old = And(y_ >= 0, y_ < CUR(h))
        return [('the layer is complete', And(IL.LEN(KL(h1, l)) >= 1, DAGL(h1, KL(h1, l)))),
                ('with what is in both', SUML(h1, KL(h1, l)) == LLC(h, k) + SUML(h, KL(h, n))),
                ('ids are not used again', CUR(h1) >= CUR(h)),
                ('the table', All([y_], Imp(old, AT(h1, y_) == y), patterns=[AT(h1, y_), y])),
                ('the ids', All([y_], Imp(old, IDF(h1, y) == IDF(h, y)), patterns=[IDF(h1, y)])),
                ('what belongs to whom', All([y_], Imp(old, And(OWN(h1, y_) == OWN(h, y_), ROLE(h1, y_) == ROLE(h, y_))), patterns=[OWN(h1, y_), ROLE(h1, y_)])),
                ('other children', All([y_], Imp(And(old, y != l), KL(h1, y) == KL(h, y)), patterns=[KL(h1, y)])),
                ('layers of others', All([y_], Imp(old, And(LAY(h1, y) == LAY(h, y), LID(h1, y) == LID(h, y))), patterns=[LAY(h1, y)])),
                ('what is finished stays', All([k_], Imp(DAG(h, k_), And(DAG(h1, k_), LC(h1, k_) == LC(h, k_))), patterns=[DAG(h, k_)])),
                ('lists of what is finished stay', All([l_], Imp(DAGL(h, l_), And(DAGL(h1, l_), SUML(h1, l_) == SUML(h, l_))), patterns=[DAGL(h, l_)])),
                ('what is in progress elsewhere stays', All([p_], Imp(And(PROG(h, p_), p_ != OWN(h, k)), And(PROG(h1, p_), PLC(h1, p_) == PLC(h, p_))), patterns=[PROG(h, p_)])),
                ('other layers stay', All([o_, k_], Imp(And(LAYER(h, o_, k_), k_ != k, k_ != IDF(h, n)), And(LAYER(h1, o_, k_), LLC(h1, k_) == LLC(h, k_))), patterns=[LAYER(h, o_, k_)]))]

    def prepare(self, I, args):
        h, l = H(I), args[2].t
        kl = KL(h, l)
        n = IL.LEN(LP(l))
        if not I.ghost['$whole']:
            part(I, kl, z3.IntVal(0), n)
            I.fact(And(SL(kl, z3.IntVal(0), n) == LP(l), SL(kl, z3.simplify(n + 1), IL.LEN(kl)) == LQ(l)))
            I.fact(Imp(kl == IL.CAT(LP(l), IL.CAT(IL.UNIT(-1), LQ(l))), IL.AT(kl, n) == -1))
        I.form_offers.append(heap_form(lambda loop, h0, h1, i: h1 == h0, 'the same heap'))

    def post(self, I, args, r):
        S.owned_unchanged(I)
        h, n, l = I.ghost['$h0'].t, args[1].t, args[2].t
        if I.ghost['$whole']:
            I.prove(Not(zb(I.truth(r))), 'nothing is put into what is finished')
            I.prove(H(I) == h, 'nothing is changed')
            return
        I.prove(zb(I.truth(r)), 'something is put into a layer')
        # ghost: what was put there is finished
        c = IL.AT(KL(H(I), l), IL.LEN(LP(l)))
        if I.valid(And(c >= CUR(h), c < CUR(H(I)), OWN(H(I), c) == c)):
            give(I, c, None, 0)
        self.prove_all(I, self.claims(h, H(I), n, l))

    def use(self, I, f, args):
        if len(args) != 3 or not all(isinstance(a, SRef) for a in args):
            raise Unsupported('layers')
        self.calling = True
        try:
            cs = self.pre(I, args)
        finally:
            self.calling = False
        for name, c in cs:
            I.prove(c, 'precondition of apply_layer: ' + name)
        if cs[1][0] == 'something finished':
            return False
        h, n, l = H(I), elem(args[1]), elem(args[2])
        h1 = S.new_heap(I)
        for name, c in self.claims(h, h1, n, l):
            I.assume(c)
        return True


@alpha
class ApplyLayers(Alpha):
    """What is in progress is finished, with all that belongs to it."""
    qual = ST + 'Node.apply_layers'

    def args(self, I):
        self.heap(I)
        return [self.element(I, node=True)]

    def pre(self, I, args):
        h, e = H(I), elem(args[0])
        k = IDF(h, e)
        look(I, k)
        return [('a node in progress', And(PROG(h, k), at_id(h, e), ISNODE(e)))]

    def prepare(self, I, args):
        h, e = H(I), args[0].t
        k = IDF(h, e)
        f = IL.AT(KL(h, e), 0)
        # ghost: the first child is finished
        h1 = give(I, f, None, 0)
        R = REV(LAY(h, e))
        prefix(I, R, z3.IntVal(0))
        m0 = SUML(h1, KL(h1, e))
        fresh = I.fresh(Int, 'm0')
        I.fact(fresh == m0)

        def prev(i):
            return z3.If(zi(i) == 0, e, AT(h1, IL.AT(R, zi(i) - 1)))

        def inv(loop, h0, hi, i):
            first = prefix(I, R, i)
            p = prev(i)
            r = IL.AT(R, j_)
            y = AT(h1, y_)
            old = And(y_ >= 0, y_ < CUR(h1))
            return And(*forms(kept(h1, hi, [k]))[:4], OWN(hi, k) == k, IDF(hi, e) == k, ROLE(hi, k) == 0,
                       All([y_], Imp(old, AT(hi, y_) == y), patterns=[AT(hi, y_), y]),
                       All([y_], Imp(old, And(OWN(hi, y_) == OWN(h1, y_), ROLE(hi, y_) == ROLE(h1, y_))), patterns=[OWN(hi, y_), ROLE(hi, y_)]),
                       All([j_], Imp(And(j_ >= i, j_ < IL.LEN(R)), And(LAYER(hi, k, r), LLC(hi, r) == LLC(h1, r))), patterns=[r]),
                       All([j_], Imp(And(j_ >= 0, j_ < IL.LEN(R)), IDF(hi, AT(h1, r)) == r), patterns=[r]),
                       ISNODE(p), IL.LEN(KL(hi, p)) >= 1, DAGL(hi, KL(hi, p)), SUML(hi, KL(hi, p)) == fresh + SUMLL(h1, first))
        I.form_offers.append(heap_form(inv, 'the first i layers are applied'))

        def var(I, loop, cell, v0, ys):
            if isinstance(cell[0], Env) and isinstance(v0, SRef) and v0.t.sort() == ElemSort:
                yield loops.Form(lambda i: SRef(prev(i), ELEM), name='the layer before')
        I.form_offers.append(var)

    def post(self, I, args, r):
        S.owned_unchanged(I)
        h, e = I.ghost['$h0'].t, args[0].t
        k = IDF(h, e)
        give(I, k, None, 0)
        h1 = H(I)
        R = LAY(h, e)
        prefix(I, REV(R), IL.LEN(R))
        self.prove_all(I, self.claims(h, h1, k) + kept(h, h1, [k]))

    def claims(self, h, h1, k):
        return [('it is finished', DAG(h1, k)), ('with all that belongs to it', LC(h1, k) == PLC(h, k))]

    def use(self, I, f, args):
        self.demand(I, args)
        h, e = H(I), elem(args[0])
        k = IDF(h, e)
        h1 = self.moved(I, h, [k])
        for n, c in self.claims(h, h1, k):
            I.assume(c)


# -- tokens ----------------------------------------------------------------------------------

@alpha
class ProcessChildToken(Alpha):
    """What is below the child token is added to the parent, or to the root."""
    qual = STG + 'alpha.AlphaStage.process_child_token'

    def args(self, I):
        o = self.stage(I)
        e = SInt(I.fresh(Int, 'parent'))
        r = e if I.choose() else SInt(I.fresh(Int, 'root'))
        if r is not e:
            I.assume(zi(r) != zi(e))
        pos = SInt(I.fresh(Int, 'position'))
        I.ghost['$watch'] = (zi(e),) if r is e else (zi(e), zi(r))
        return [o, e, SRef(I.fresh(TokSort, 'token'), TOKEN), r, pos]

    def pre(self, I, args):
        h, e, r = H(I), ident(args[1]), ident(args[3])
        look(I, e)
        look(I, r)
        if not (isinstance(args[2], SRef) and args[2].t.sort() == TokSort):
            raise Unsupported('a token expected')
        contribution(I, args[2].t)
        return [('a parent in progress', PROG(h, e)), ('a root in progress', PROG(h, r))]

    def claims(self, h, h1, e, r, t):
        n, n1 = (PLC(h, e), PLC(h1, e)) if e.eq(r) else (PLC(h, e) + PLC(h, r), PLC(h1, e) + PLC(h1, r))
        return [('the parent is in progress', PROG(h1, e)), ('the root is in progress', PROG(h1, r)), ('what is below the child is added', n1 == n + CON(t))] + kept(h, h1, [e, r])

    def post(self, I, args, r):
        S.owned_unchanged(I)
        h, h1 = I.ghost['$h0'].t, H(I)
        e, r = ident(args[1]), ident(args[3])
        look(I, e)
        look(I, r)
        self.prove_all(I, self.claims(h, h1, e, r, args[2].t))

    def use(self, I, f, args):
        self.demand(I, args)
        h, e, r = H(I), ident(args[1]), ident(args[3])
        if not e.eq(r) and I.decide(e == r):
            r = e
        h1 = S.new_heap(I)
        for n, c in self.claims(h, h1, e, r, args[2].t):
            I.assume(c)
        look(I, e)
        look(I, r)


@alpha
class ProcessToken(Alpha):
    """The token and what is below it: in the element returned, which is finished, and in the layers of the root."""
    qual = STG + 'alpha.AlphaStage.process_token'

    def args(self, I):
        o = self.stage(I)
        return [o, SRef(I.fresh(TokSort, 'token'), TOKEN), None if I.choose() else SInt(I.fresh(Int, 'root'))]

    def root(self, args):
        return None if len(args) < 3 or args[2] is None else ident(args[2])

    def pre(self, I, args):
        if not (isinstance(args[1], SRef) and args[1].t.sort() == TokSort):
            raise Unsupported('a token expected')
        tok(I, args[1].t)
        r = self.root(args)
        if r is None:
            return []
        look(I, r)
        return [('a root in progress', PROG(H(I), r))]

    def prepare(self, I, args):
        t, r = args[1].t, self.root(args)
        hs = I.ghost['$h0'].t

        def inv(loop, h0, h, i):
            at = loop.seq.get(SInt(zi(i))) if loop.isfor else None
            if not isinstance(at, SRef) or at.t.sort() != TokSort:
                return z3.BoolVal(False)
            side = SRL if at.t.decl().eq(LCH(t, z3.IntVal(0)).decl()) else SRR
            contribution(I, at.t)
            i = zi(i)
            I.fact(Imp(i >= 0, side(t, z3.simplify(i + 1)) == side(t, i) + CON(at.t)))
            e = CUR(hs)
            n, n0 = PLC(h, e), PLC(h0, e)
            cs = [PROG(h, e)]
            if r is not None:
                n, n0 = n + PLC(h, r), n0 + PLC(h0, r)
                cs.append(PROG(h, r))
            return And(*cs, n == n0 + side(t, i), *forms(kept(h0, h, [e] + ([] if r is None else [r]))))
        I.form_offers.append(heap_form(inv, 'the first i children'))

    def claims(self, h, h1, k, t, r):
        n = LC(h1, k)
        cs = [('it is finished', DAG(h1, k))]
        if r is None:
            cs.append(('the token and what is below it', n == REACH(t)))
        else:
            cs += [('the root is in progress', PROG(h1, r)), ('the token and what is below it', n + PLC(h1, r) == REACH(t) + PLC(h, r))]
        return cs + kept(h, h1, [] if r is None else [r])

    def post(self, I, args, v):
        S.owned_unchanged(I)
        h, k, r = I.ghost['$h0'].t, ident(v), self.root(args)
        look(I, k)
        if I.valid(And(PROG(H(I), k), Not(ISNODE(AT(H(I), k))))):
            give(I, k, None, 0)
        self.prove_all(I, self.claims(h, H(I), k, args[1].t, r))

    def use(self, I, f, args):
        self.demand(I, args)
        r = self.root(args)
        h = H(I)
        k = I.fresh(Int, 'made')
        h1 = S.new_heap(I)
        for n, c in self.claims(h, h1, k, args[1].t, r):
            I.assume(c)
        for p in (() if r is None else (r,)) + I.ghost.get('$watch', ()):
            look(I, p)
        return SInt(k)


# -- redundant nodes ---------------------------------------------------------------------------

def same_leaves(hs, h):
    """In h, every id of what was finished in hs has an element with as many leaves (rank: none is below itself)."""
    x, y = AT(h, k_), IDF(h, x_)
    own = lambda x: IDF(hs, x)
    return [('each id', All([k_], Imp(DAG(hs, k_), And(ELE(hs, x), LC(hs, own(x)) == LC(hs, k_), RK(hs, own(x)) <= RK(hs, k_))), patterns=[MP(DAG(hs, k_), x)])),
            ('each element', All([x_], Imp(ELE(hs, x_), And(DAG(hs, y), LC(hs, y) == LC(hs, own(x_)), RK(hs, own(x_)) <= RK(hs, y))), patterns=[MP(ELE(hs, x_), y)])),
            ('the children', All([x_], Imp(ELE(hs, x_), KL(h, x_) == KL(hs, x_)), patterns=[KL(h, x_)])),
            ('the ids', CUR(h) == CUR(hs))]


def ranks(I, hs):
    e = AT(hs, k_)
    I.fact(All([k_], Imp(DAG(hs, k_), ELE(hs, e)), patterns=[MP(DAG(hs, k_), e)]))
    I.fact(All([x_], Imp(ELE(hs, x_), And(DAG(hs, IDF(hs, x_)), AT(hs, IDF(hs, x_)) == x_)), patterns=[ELE(hs, x_)]))
    c = IL.AT(KL(hs, x_), j_)
    I.fact(All([x_, j_], Imp(And(ELE(hs, x_), ISNODE(x_), j_ >= 0, j_ < IL.LEN(KL(hs, x_))), And(DAG(hs, c), RK(hs, c) < RK(hs, IDF(hs, x_)))), patterns=[c]))
    l = KL(hs, x_)
    I.fact(All([x_], Imp(And(ELE(hs, x_), IL.LEN(l) == 1), SUML(hs, l) == LC(hs, IL.AT(l, 0))), patterns=[MP(ELE(hs, x_), l)]))
    I.trusted.add('an id of a finished structure has a rank above those of its children (there is no cycle); if elements are moved so that each id has an element '
                  'with as many leaves and no higher rank, every id has as many leaves as before (lemmas/Alpha.lean, checked by Lean)')


@alpha
class RemoveRedundantNesting(Alpha):
    qual = ST + 'Node.remove_redundant_nesting'

    def args(self, I):
        h = self.heap(I)
        hs = I.fresh(Heap, 'hs')
        I.ghost['$hs'] = SRef(hs, HEAP)
        ranks(I, hs)
        return [self.element(I, node=True)]

    def pre(self, I, args):
        hs = I.ghost['$hs'].t
        return [('an element of the tree', And(ELE(hs, elem(args[0])), ISNODE(elem(args[0])))), ('the leaves are as they were', And(*forms(same_leaves(hs, H(I)))))]

    def prepare(self, I, args):
        hs = I.ghost['$hs'].t
        I.form_offers.append(heap_form(lambda loop, h0, h, i: And(*forms(same_leaves(hs, h))), 'the leaves are as they were'))

    def post(self, I, args, r):
        S.owned_unchanged(I)
        self.prove_all(I, same_leaves(I.ghost['$hs'].t, H(I)))

    def use(self, I, f, args):
        first = '$hs' not in I.ghost
        if first:
            h, e = H(I), elem(args[0])
            I.ghost['$hs'] = I.ghost['$h']
            ranks(I, h)
            I.prove(And(DAG(h, IDF(h, e)), at_id(h, e)), 'precondition of remove_redundant_nesting: a finished element')
        else:
            I.prove(And(ELE(I.ghost['$hs'].t, elem(args[0])), ISNODE(elem(args[0]))), 'precondition of remove_redundant_nesting: an element of the tree')
            self.prove_all(I, [('precondition of remove_redundant_nesting: ' + n, c) for n, c in same_leaves(I.ghost['$hs'].t, H(I))])
        hs = I.ghost['$hs'].t
        h1 = S.new_heap(I)
        for n, c in same_leaves(hs, h1):
            I.assume(c)
        I.fact(All([k_], Imp(DAG(hs, k_), And(FIN(h1, k_), LC(h1, k_) == LC(hs, k_))), patterns=[LC(h1, k_)]))


class Parsed:
    """A sentence with a root token."""
    name = 'Sentence'

    @staticmethod
    def getattr(I, o, name):
        if name == 'root':
            return Builtin('Sentence.root', lambda I: I.ghost['$root_token'])
        return None


@alpha
class ProcessSentence(Alpha):
    """The tree has what is reached from the root token."""
    qual = STG + 'alpha.AlphaStage.process_sentence'

    def args(self, I):
        o = self.stage(I)
        I.ghost['$root_token'] = SRef(I.fresh(TokSort, 'root_token'), TOKEN)
        tok(I, I.ghost['$root_token'].t)
        return [o, Obj(I, Parsed)]

    def post(self, I, args, r):
        S.owned_unchanged(I)
        I.prove(isinstance(r, SRef) and r.t.eq(I.ghost['$tree'].t), 'the tree')
        h, k = H(I), ident(I.ghost['$root'])
        fin = FIN(h, k) if '$hs' in I.ghost else DAG(h, k)
        I.prove(Or(fin, DAG(h, k)), 'it is finished')
        I.prove(LC(h, k) == REACH(I.ghost['$root_token'].t), 'the leaves are the tokens that are reached')
