"""Contracts of the stage that combines relations (K03), gb/knowledge/stages/gamma.py, with the
tree surgery of gb/knowledge/semantic_tree.py.

The tree is a heap h: AT(h, k) is the element with the id k, IDF, KN, KID the id and the children
ids of an element.  TREE(h, k): what hangs below k is a tree (finite, no id twice); SET(h, k) its ids; LIN(h, k):
the leaf L, an arbitrary one, is in it.  As no id is twice in a tree, a leaf is in it once or not at all."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint, mkbool
from .. import refs, loops
from ..externs import raise_
from .nlp import TOKEN, LEMMA, POS, NOPOS
from .tree import ST, STG, ElemSort, ISNODE, TOK, COMP

Heap, IdSet = z3.DeclareSort('Heap'), z3.DeclareSort('IdSet')
TreeSort = z3.DeclareSort('TreeRef')


def hf(name, *sorts):
    return z3.Function('H.' + name, Heap, *sorts)


AT, IDF, KN, KID, CUR = hf('at', Int, ElemSort), hf('id', ElemSort, Int), hf('kids', ElemSort, Int), hf('kid', ElemSort, Int, Int), hf('cur', Int)
TREE, SET, LIN = hf('tree', Int, Bool), hf('ids', Int, IdSet), hf('has_leaf', Int, Bool)
MEM, SEP, COMMON = z3.Function('in', IdSet, Int, Bool), z3.Function('apart', IdSet, IdSet, Bool), z3.Function('common', IdSet, IdSet, Int)
WH, LW, BAD, BAD2 = hf('child_with', Int, Int, Int), hf('child_with_leaf', Int, Int), hf('bad', Int, Int), hf('bad2', Int, Int)
DIFF, DIFFJ = z3.Function('H.diff', Heap, Heap, Int, Int), z3.Function('H.diffj', Heap, Heap, Int, Int)
L = z3.Const('L', ElemSort)
x_, y_, k_, j_, l_ = z3.Const('x$g', ElemSort), z3.Int('y$g'), z3.Int('k$g'), z3.Int('j$g'), z3.Int('l$g')
s_, t_, h_ = z3.Const('s$g', IdSet), z3.Const('t$g', IdSet), z3.Const('h$g', Heap)

HEAP = RefKind('heap', sort=Heap)


class HavocRef(loops.Havoc):
    """A heap of which only an invariant is known."""
    def __init__(self, I, v0, inv, name):
        self.I, self.v0, self.name = I, v0, name
        self.inv = lambda v, i: inv(v.t, i)
        self.D = I.fresh_fun(name.replace(' ', '_'), Int, v0.t.sort())
        self.check = False
        self.dom = lambda i: self.inv(self.at(i), i)

    def at(self, i):
        return SRef(self.D(zi(i)), self.v0.cls)

    def init(self, I):
        return self.D(z3.IntVal(0)) == self.v0.t

    def kept(self, end, i):
        g = self.inv(end, i)
        return self.I.valid(g) or z3.is_and(g) and all(self.I.valid(c) for c in g.children())

    def define(self, I, i, end):
        if not isinstance(end, SRef) or not self.kept(end, i + 1):
            raise loops.NoShape(self.name)
        return self.D(i + 1) == end.t


# -- the heap ---------------------------------------------------------------------------

def H(I):
    return I.ghost['$h'].t


def new_heap(I):
    h = I.fresh(Heap, 'h')
    I.ghost['$h'] = SRef(h, HEAP)
    return h


def only(node, f):
    def g(I, o):
        if I.decide(ISNODE(o.t)) != node:
            raise_('AttributeError')
        return f(I, o)
    return g


def frame_write(I, h, h1, at=None, idf=None, kids=None, cur=None):
    """h1 is h but for the given field of the given element (id)."""
    I.fact(z3.ForAll([y_], AT(h1, y_) == (z3.If(y_ == at[0], at[1], AT(h, y_)) if at else AT(h, y_)), patterns=[AT(h1, y_)]))
    I.fact(z3.ForAll([x_], IDF(h1, x_) == (z3.If(x_ == idf[0], idf[1], IDF(h, x_)) if idf else IDF(h, x_)), patterns=[IDF(h1, x_)]))
    I.fact(z3.ForAll([x_], KN(h1, x_) == (z3.If(x_ == kids[0], kids[1], KN(h, x_)) if kids else KN(h, x_)), patterns=[KN(h1, x_)]))
    I.fact(z3.ForAll([x_, j_], KID(h1, x_, j_) == (z3.If(x_ == kids[0], kids[2](j_), KID(h, x_, j_)) if kids else KID(h, x_, j_)), patterns=[KID(h1, x_, j_), KID(h, x_, j_)]))
    I.fact(CUR(h1) == (CUR(h) if cur is None else cur))


def write(I, **kw):
    h = H(I)
    h1 = new_heap(I)
    frame_write(I, h, h1, **kw)
    return h1


def elem(v):
    if not (isinstance(v, SRef) and v.t.sort() == ElemSort):
        raise Unsupported('an element expected, got %r' % (v,))
    return v.t


def holds(I, c):
    """Decides c; the case that it is true first."""
    if I.valid(c):
        I.assume(c)
        return True
    return I.decide(c)


class Table:
    """Tree.table"""
    name = 'table'

    @staticmethod
    def getitem(I, o, k):
        if not isinstance(k, (int, SInt)) or isinstance(k, bool):
            raise Unsupported('id of an element')
        h, k = H(I), zi(k)
        if not holds(I, z3.And(k >= 0, k < CUR(h))):
            raise_('KeyError')
        return SRef(AT(h, k), ELEM)

    @staticmethod
    def setitem(I, o, k, v):
        if not isinstance(k, (int, SInt)) or isinstance(k, bool):
            raise Unsupported('id of an element')
        write(I, at=(zi(k), elem(v)))

    @staticmethod
    def getattr(I, o, name):
        return None


class Kids:
    """Node.children_ids: the list of one node, as it is in the current heap."""
    name = 'children_ids'

    @staticmethod
    def index(I, o, k):
        n = KN(H(I), o.e)
        k = zi(k)
        if not holds(I, z3.And(k >= -n, k < n)):
            raise_('IndexError')
        return k if holds(I, k >= 0) else k + n

    @staticmethod
    def frozen(I, o):
        h = H(I)
        return SSeq('list', SInt(KN(h, o.e)), lambda j: SInt(KID(h, o.e, zi(j))))

    @staticmethod
    def getitem(I, o, k):
        if isinstance(k, (int, SInt)) and not isinstance(k, bool):
            return SInt(KID(H(I), o.e, Kids.index(I, o, k)))
        return I.getitem(PyList(I, Kids.frozen(I, o)), k)

    @staticmethod
    def setitem(I, o, k, v):
        if not isinstance(k, (int, SInt)) or not isinstance(v, (int, SInt)):
            raise Unsupported('change of children')
        k = Kids.index(I, o, k)
        h = H(I)
        h1 = write(I, kids=(o.e, KN(h, o.e), lambda j: z3.If(j == k, zi(v), KID(h, o.e, j))))
        same_below(I, h, h1)

    @staticmethod
    def len(I, o):
        return SInt(KN(H(I), o.e))

    @staticmethod
    def iterate(I, o):
        I.ghost['$iterated'] = True
        return Kids.frozen(I, o)

    @staticmethod
    def insert(I, o, k, v):
        h = H(I)
        n = KN(h, o.e)
        k = zi(k)
        k = z3.If(k < 0, z3.If(k + n < 0, 0, k + n), z3.If(k > n, n, k))
        h1 = write(I, kids=(o.e, n + 1, lambda j: z3.If(j == k, zi(v), KID(h, o.e, z3.If(j < k, j, j - 1)))))
        I.fact(KID(h1, o.e, k) == zi(v))
        I.fact(z3.ForAll([j_], KID(h1, o.e, z3.If(j_ < k, j_, j_ + 1)) == KID(h, o.e, j_), patterns=[KID(h, o.e, j_)]))

    @staticmethod
    def getattr(I, o, name):
        def m(f):
            return Builtin('children_ids.' + name, f)
        if name == 'append':
            return m(lambda I, v: Kids.insert(I, o, KN(H(I), o.e), v))
        if name == 'insert':
            return m(lambda I, k, v: Kids.insert(I, o, k, v))
        return None


def kids(I, o):
    k = Obj(I, Kids)
    k.e = o.t
    return k


def set_id(I, o, v):
    write(I, idf=(o.t, zi(v)))


class ElemKind(refs.InstKind):
    def cls_of(self, I, o):
        c = I.find(ST + ('Node' if I.decide(ISNODE(o.t)) else 'Leaf'))
        if not isinstance(c, ClassVal):
            raise Unsupported('no class of elements')
        return c


ELEM = ElemKind('element', None, {
    'type': lambda I, o: I.find(ST + ('NODE' if I.decide(ISNODE(o.t)) else 'LEAF')),
    'tree': lambda I, o: I.ghost['$tree'], 'id': lambda I, o: SInt(IDF(H(I), o.t)),
    'token': only(False, lambda I, o: SRef(TOK(o.t), TOKEN)),
    'children_ids': only(True, kids),
    '_Node__compound': only(True, lambda I, o: SBool(I.fresh(Bool, 'compound'))),
}, ElemSort, {'id': set_id, 'compound': lambda I, o, v: None})

TREEK = refs.InstKind('tree', ST + 'Tree', {
    'root_id': lambda I, o: I.ghost['$root'], 'cur_id': lambda I, o: SInt(CUR(H(I))), 'table': lambda I, o: Obj(I, Table),
}, TreeSort, {'root_id': lambda I, o, v: I.ghost.__setitem__('$root', v), 'cur_id': lambda I, o, v: write(I, cur=zi(v))})


def droppable(I):
    """L is an article."""
    t = TOK(L)
    return z3.And(z3.Not(NOPOS(t)), POS(t) == I.sterm('DET'), z3.Or(*[LEMMA(t) == I.sterm(s) for s in ('the', 'a', 'an')]))


def axioms(I):
    """What TREE, SET and LIN mean (for the least set of trees), and what holds by induction."""
    h, k, y = h_, k_, y_
    c = KID(h, AT(h, k), j_)
    I.fact(z3.ForAll([h, k], z3.Implies(TREE(h, k), z3.And(k >= 0, k < CUR(h), IDF(h, AT(h, k)) == k, MEM(SET(h, k), k),
                                                           z3.Implies(ISNODE(AT(h, k)), KN(h, AT(h, k)) >= 1))), patterns=[TREE(h, k)]))
    I.fact(z3.ForAll([h, k, y], z3.Implies(z3.And(TREE(h, k), MEM(SET(h, k), y)), z3.And(y >= 0, y < CUR(h), IDF(h, AT(h, y)) == y)), patterns=[MEM(SET(h, k), y)]))
    inside = z3.And(TREE(h, k), ISNODE(AT(h, k)), j_ >= 0, j_ < KN(h, AT(h, k)))
    I.fact(z3.ForAll([h, k, j_], z3.Implies(inside, z3.And(TREE(h, c), z3.Not(MEM(SET(h, c), k)))), patterns=[c]))
    I.fact(z3.ForAll([h, k, j_, l_], z3.Implies(z3.And(inside, l_ >= 0, l_ < KN(h, AT(h, k)), j_ != l_), SEP(SET(h, c), SET(h, KID(h, AT(h, k), l_)))),
                     patterns=[z3.MultiPattern(c, KID(h, AT(h, k), l_))]))
    s, t = s_, t_
    I.fact(z3.ForAll([s, t, y], z3.Implies(z3.And(SEP(s, t), MEM(s, y)), z3.Not(MEM(t, y))), patterns=[z3.MultiPattern(SEP(s, t), MEM(s, y)), z3.MultiPattern(SEP(s, t), MEM(t, y))]))
    I.fact(z3.ForAll([s, t], z3.Implies(z3.Not(SEP(s, t)), z3.And(MEM(s, COMMON(s, t)), MEM(t, COMMON(s, t)))), patterns=[SEP(s, t)]))
    I.fact(z3.Not(ISNODE(L)))
    I.fact(z3.ForAll([h, k], z3.Implies(z3.Not(ISNODE(AT(h, k))), LIN(h, k) == (AT(h, k) == L)), patterns=[LIN(h, k)]))
    I.fact(z3.ForAll([h, x_], KN(h, x_) >= 0, patterns=[KN(h, x_)]))
    I.trusted.add('trees of elements: what a tree is, what its ids and leaves are (definitions); ids of a tree are those of its elements, and what hangs '
                  'below an id is the same in two heaps that agree on its ids (lemmas/Tree.lean)')


def unfold(I, h, k):
    """The definitions at one id."""
    e = AT(h, k)
    n = KN(h, e)
    c = lambda j: KID(h, e, j)
    b, b2, w = BAD(h, k), BAD2(h, k), LW(h, k)
    I.fact(z3.Implies(z3.And(k >= 0, k < CUR(h), IDF(h, e) == k, z3.Or(z3.Not(ISNODE(e)), z3.And(n >= 1, z3.Implies(z3.And(b >= 0, b < n), z3.And(
        TREE(h, c(b)), z3.Not(MEM(SET(h, c(b)), k)), z3.Implies(z3.And(b2 >= 0, b2 < n, b2 != b), SEP(SET(h, c(b)), SET(h, c(b2))))))))), TREE(h, k)))
    wh = WH(h, k, y_)
    I.fact(z3.ForAll([y_], z3.Implies(MEM(SET(h, k), y_), z3.Or(y_ == k, z3.And(ISNODE(e), wh >= 0, wh < n, MEM(SET(h, c(wh)), y_)))), patterns=[MEM(SET(h, k), y_)]))
    I.fact(z3.ForAll([y_, j_], z3.Implies(z3.And(ISNODE(e), j_ >= 0, j_ < n, MEM(SET(h, c(j_)), y_)), MEM(SET(h, k), y_)), patterns=[MEM(SET(h, c(j_)), y_)]))
    I.fact(MEM(SET(h, k), k))
    I.fact(z3.Implies(z3.And(ISNODE(e), LIN(h, k)), z3.And(w >= 0, w < n, LIN(h, c(w)))))
    I.fact(z3.ForAll([j_], z3.Implies(z3.And(ISNODE(e), j_ >= 0, j_ < n, LIN(h, c(j_))), LIN(h, k)), patterns=[c(j_)]))


def same_below(I, h, h1):
    """The lemma: what hangs below k is as before if the two heaps agree on its ids."""
    d, dj = DIFF(h, h1, k_), DIFFJ(h, h1, k_)
    e = AT(h, d)
    differs = z3.Or(AT(h1, d) != e, IDF(h1, e) != IDF(h, e), z3.And(ISNODE(e), z3.Or(KN(h1, e) != KN(h, e), z3.And(dj >= 0, dj < KN(h, e), KID(h1, e, dj) != KID(h, e, dj)))))
    same = z3.And(TREE(h1, k_), SET(h1, k_) == SET(h, k_), LIN(h1, k_) == LIN(h, k_))
    I.fact(z3.ForAll([k_], z3.Implies(z3.And(TREE(h, k_), CUR(h1) >= CUR(h)), z3.Or(same, z3.And(MEM(SET(h, k_), d), differs))), patterns=[TREE(h, k_), TREE(h1, k_)]))


def untouched(h, h1, inside):
    """Outside of the ids given, the heaps agree on the ids of h."""
    y = IDF(h, x_)
    ok = z3.And(y >= 0, y < CUR(h), AT(h, y) == x_, z3.Not(inside(y)))
    return [z3.ForAll([y_], z3.Implies(z3.And(y_ >= 0, y_ < CUR(h), z3.Not(inside(y_))), AT(h1, y_) == AT(h, y_)), patterns=[AT(h1, y_)]),
            z3.ForAll([x_], z3.Implies(ok, z3.And(IDF(h1, x_) == y, KN(h1, x_) == KN(h, x_))), patterns=[IDF(h1, x_)]),
            z3.ForAll([x_], z3.Implies(ok, z3.And(IDF(h1, x_) == y, KN(h1, x_) == KN(h, x_))), patterns=[KN(h1, x_)]),
            z3.ForAll([x_, j_], z3.Implies(ok, KID(h1, x_, j_) == KID(h, x_, j_)), patterns=[KID(h1, x_, j_), KID(h, x_, j_)])]


def grown(h, h1, r, inside):
    """The ids below r in h1 are ids from inside or new."""
    return z3.ForAll([y_], z3.Implies(MEM(SET(h1, r), y_), z3.Or(inside(y_), y_ >= CUR(h))), patterns=[MEM(SET(h1, r), y_)])


def step(I, h, h1, k, r):
    """The result r in place of k: a tree with the leaves of k, but for articles."""
    mem = lambda y: MEM(SET(h, k), y)
    return [('the result is a tree', TREE(h1, r)),
            ('no leaf is added', z3.Implies(LIN(h1, r), LIN(h, k))),
            ('no leaf but an article is dropped', z3.Implies(z3.And(LIN(h, k), z3.Not(droppable(I))), LIN(h1, r))),
            ('ids are not used again', CUR(h1) >= CUR(h)),
            ('the result has ids of what it replaces, and new ones', grown(h, h1, r, mem))] + [
            ('the rest is as before', c) for c in untouched(h, h1, mem)]


class Surgery(Contract):
    props = ('K03',)

    def heap(self, I):
        axioms(I)
        I.ghost['$h'] = SRef(I.fresh(Heap, 'h0'), HEAP)
        I.ghost['$h0'] = I.ghost['$h']
        I.ghost['$root'] = SInt(I.fresh(Int, 'root'))
        I.ghost['$tree'] = SRef(I.fresh(TreeSort, 'tree'), TREEK)
        return H(I)

    def stage(self, I):
        h = self.heap(I)
        o = I.instantiate(I.find(STG + 'gamma.GammaStage'), [I.ghost['$tree']], {})
        return o

    def prove_all(self, I, cs):
        for name, c in cs:
            I.prove(c, name)

    def assume_all(self, I, cs):
        for name, c in cs:
            I.assume(c)


def ident(v):
    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
        return zi(v)
    raise Unsupported('an id expected, got %r' % (v,))


@register
class CreateNode(Surgery):
    """A new node under a new id, with the given children."""
    qual = ST + 'Tree.create_node'

    def args(self, I):
        t = Obj(I, I.find(ST + 'Tree'), {'root_id': SInt(I.fresh(Int, 'root')), 'cur_id': SInt(I.fresh(Int, 'cur')), 'table': Obj(I, Made)})
        f = I.fresh_fun('ids', Int, Int)
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        I.ghost['$cur'] = t.fields['cur_id']
        l = PyList(I, SSeq('list', SInt(n), lambda j: SInt(f(zi(j)))))
        I.ghost['$list'] = (l, l.items)
        return [t, l]

    def post(self, I, args, r):
        made = I.ghost.get('$made', ())
        I.prove(isinstance(r, Obj) and r.cls is I.find(ST + 'Node'), 'a node')
        I.prove(len(made) == 1 and made[0][1] is r and zb(I.veq(made[0][0], I.ghost['$cur'])), 'is put under the next id, and nothing else is')
        I.prove(zb(I.veq(r.fields.get('id'), I.ghost['$cur'])), 'its id')
        I.prove(zb(I.veq(args[0].fields['cur_id'], mkint(zi(I.ghost['$cur']) + 1))), 'the next id')
        I.prove(r.fields.get('tree') is args[0], 'its tree')
        I.prove(r.fields.get('children_ids') is args[1] and args[1].items is I.ghost['$list'][1], 'its children')
        I.prove(r.fields.get('_Node__compound') is False, 'no compound')

    def use(self, I, f, args):
        if '$h' not in I.ghost or args[0] is not I.ghost['$tree'] and not (isinstance(args[0], SRef) and args[0].t.eq(I.ghost['$tree'].t)):
            raise Unsupported('create_node of another tree')
        l = args[1]
        if not isinstance(l, PyList):
            raise Unsupported('children %r' % (l,))
        n = zi(I.length(l))
        s = I.as_seq(l)
        own(I, l)
        h = H(I)
        N = I.fresh(ElemSort, 'N')
        h1 = new_heap(I)
        if '$grew' in I.ghost:
            I.ghost['$grew'] = True
        c = CUR(h)
        I.assume(z3.And(ISNODE(N), n >= 0))
        I.fact(z3.ForAll([y_], z3.Implies(z3.And(y_ >= 0, y_ < c), AT(h, y_) != N), patterns=[AT(h, y_)]))
        frame_write(I, h, h1, at=(c, N), idf=(N, c), cur=c + 1, kids=(N, n, lambda j: kid_term(I, s, j)))
        return SRef(N, ELEM)


def kid_term(I, s, j):
    items = s.items if isinstance(s, PyList) else None
    if isinstance(s, SSeq) and isinstance(s.n, int):
        items = [s.get(k) for k in range(s.n)]
    if isinstance(items, list):
        t = z3.IntVal(0)
        for k in range(len(items) - 1, -1, -1):
            t = z3.If(j == k, ident(items[k]), t)
        return t
    return ident(s.get(SInt(j)))


def own(I, l):
    """The list is now that of a node: it must not be changed as a list any more."""
    I.ghost['$owned'] = I.ghost.get('$owned', ()) + ((l, l.items if not isinstance(l.items, list) else tuple(l.items)),)


def owned_unchanged(I):
    for l, items in I.ghost.get('$owned', ()):
        now = l.items if not isinstance(l.items, list) else tuple(l.items)
        if not (now is items or isinstance(now, tuple) and isinstance(items, tuple) and len(now) == len(items) and all(a is b for a, b in zip(now, items))):
            raise Unsupported('a list of children is changed under another name')


class Made:
    """A table that records what is put into it."""
    name = 'table'

    @staticmethod
    def setitem(I, o, k, v):
        I.ghost['$made'] = I.ghost.get('$made', ()) + ((k, v),)

    @staticmethod
    def getattr(I, o, name):
        return None


@register
class Enclose(Surgery):
    """The element gets a new id; a new node with it as its only child gets its old id."""
    qual = ST + 'Tree.enclose'

    def args(self, I):
        h = self.heap(I)
        e = SRef(I.fresh(ElemSort, 'e'), ELEM)
        I.ghost['$c'] = IDF(h, e.t)
        return [I.ghost['$tree'], e]

    def pre(self, I, args):
        h, e = H(I), elem(args[1])
        c = IDF(h, e)
        return [('an element of the tree', z3.And(c >= 0, c < CUR(h), AT(h, c) == e))]

    def claims(self, h, h1, e, N):
        c, m = IDF(h, e), CUR(h)
        return [('a node', z3.And(ISNODE(N), N != e)),
                ('its id', IDF(h1, N) == c), ('its child', z3.And(KN(h1, N) == 1, KID(h1, N, 0) == m)),
                ('the element has a new id', IDF(h1, e) == m),
                ('ids are not used again', CUR(h1) == m + 2),
                ('it is new', z3.ForAll([y_], z3.Implies(z3.And(y_ >= 0, y_ < m), AT(h, y_) != N), patterns=[AT(h, y_)])),
                ('the table', z3.ForAll([y_], AT(h1, y_) == z3.If(z3.Or(y_ == c, y_ == m + 1), N, z3.If(y_ == m, e, AT(h, y_))), patterns=[AT(h1, y_)])),
                ('the other ids', z3.ForAll([x_], z3.Implies(z3.And(x_ != e, x_ != N), IDF(h1, x_) == IDF(h, x_)), patterns=[IDF(h1, x_)])),
                ('the numbers of children', z3.ForAll([x_], z3.Implies(x_ != N, KN(h1, x_) == KN(h, x_)), patterns=[KN(h1, x_)])),
                ('the children', z3.ForAll([x_, j_], z3.Implies(x_ != N, KID(h1, x_, j_) == KID(h, x_, j_)), patterns=[KID(h1, x_, j_), KID(h, x_, j_)]))]

    def post(self, I, args, r):
        owned_unchanged(I)
        self.prove_all(I, self.claims(I.ghost['$h0'].t, H(I), args[1].t, elem(r)))

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(c, 'precondition of enclose: ' + name)
        h = H(I)
        N = I.fresh(ElemSort, 'N')
        h1 = new_heap(I)
        if '$grew' in I.ghost:
            I.ghost['$grew'] = True
        self.assume_all(I, self.claims(h, h1, elem(args[1]), N))
        return SRef(N, ELEM)


def merged(I, h, h1, f, k):
    """f was put somewhere into the tree below k."""
    mem = lambda y: MEM(SET(h, k), y)
    both = lambda y: z3.Or(mem(y), MEM(SET(h, f), y))
    return [('a tree', TREE(h1, k)), ('the leaves of both', LIN(h1, k) == z3.Or(LIN(h, f), LIN(h, k))),
            ('ids are not used again', CUR(h1) >= CUR(h)), ('the ids of both, and new ones', grown(h, h1, k, both)),
            ('a node', ISNODE(AT(h1, k)))] + [('the rest is as before', c) for c in untouched(h, h1, mem)]


def two_trees(h, f, k):
    return [('two trees', z3.And(TREE(h, f), TREE(h, k), SEP(SET(h, f), SET(h, k)))), ('a node', ISNODE(AT(h, k)))]


@register
class AddToFirst(Surgery):
    qual = ST + 'Node.add_to_first_child'

    def args(self, I):
        h = self.heap(I)
        e = SRef(I.fresh(ElemSort, 'e'), ELEM)
        I.assume(ISNODE(e.t))
        I.ghost['$k'] = IDF(h, e.t)
        I.ghost['$grew'] = False
        for k in (IDF(h, e.t), KID(h, e.t, z3.IntVal(0))):
            unfold(I, h, k)
        return [e, SInt(I.fresh(Int, 'f')), SInt(I.fresh(Int, 'pos'))]

    def pre(self, I, args):
        h, e = H(I), elem(args[0])
        k = IDF(h, e)
        return [('a node of the tree', z3.And(ISNODE(e), AT(h, k) == e))] + two_trees(h, ident(args[1]), k)

    def post(self, I, args, r):
        owned_unchanged(I)
        h, h1, k, f = I.ghost['$h0'].t, H(I), I.ghost['$k'], zi(args[1])
        same_below(I, h, h1)
        c = KID(h, args[0].t, z3.IntVal(0))
        m = CUR(h)
        apart = lambda y: z3.And(MEM(SET(h, c), y), y != c)
        unfold(I, h1, m)
        unfold(I, h1, c)
        steps = [TREE(h1, f)]
        if I.ghost['$grew']:
            steps += [TREE(h1, m), grown(h, h1, m, apart), LIN(h1, m) == LIN(h, c)]
        steps += [TREE(h1, c), grown(h, h1, c, lambda y: z3.Or(MEM(SET(h, c), y), MEM(SET(h, f), y))), LIN(h1, c) == z3.Or(LIN(h, f), LIN(h, c))]
        for g in steps:
            I.lemma(g)
        unfold(I, h1, k)
        self.prove_all(I, merged(I, h, h1, f, k))
        I.prove(isinstance(r, SRef) and zb(r.t == args[0].t), 'returns the node')

    def use(self, I, fn, args):
        for name, c in self.pre(I, args):
            I.prove(c, 'precondition of add_to_first_child: ' + name)
        h, k, f = H(I), IDF(H(I), elem(args[0])), ident(args[1])
        h1 = new_heap(I)
        self.assume_all(I, merged(I, h, h1, f, k))
        I.fact(AT(h1, k) == args[0].t)
        same_below(I, h, h1)
        return args[0]


GM = STG + 'gamma.GammaStage.'


@register
class IsRelationship(Surgery):
    """Changes nothing and does not fail."""
    qual = GM + 'is_relationship'

    def args(self, I):
        o = self.stage(I)
        k = SInt(I.fresh(Int, 'k'))
        return [o, k, SBool(I.fresh(Bool, 'shallow')), SInt(I.fresh(Int, 'depth'))]

    def pre(self, I, args):
        return [('a tree', TREE(H(I), ident(args[1])))]

    def post(self, I, args, r):
        I.prove(I.ghost['$h'] is I.ghost['$h0'], 'nothing is changed')
        I.truth(r)

    def use(self, I, f, args):
        for name, c in self.pre(I, args):
            I.prove(c, 'precondition of is_relationship: ' + name)
        return SBool(I.fresh(Bool, 'rel'))


@register
class Combine(Surgery):
    qual = GM + 'combine_relationships'

    def args(self, I):
        o = self.stage(I)
        f, s = I.fresh(Int, 'f'), I.fresh(Int, 's')
        h = H(I)
        unfold(I, h, s)
        return [o, SInt(f), SInt(s)]

    def pre(self, I, args):
        return two_trees(H(I), ident(args[1]), ident(args[2]))

    def post(self, I, args, r):
        owned_unchanged(I)
        h, h1, f, s = I.ghost['$h0'].t, H(I), zi(args[1]), zi(args[2])
        same_below(I, h, h1)
        unfold(I, h1, s)
        self.prove_all(I, merged(I, h, h1, f, s))
        I.prove(ident(r) == s, 'returns the second')

    def use(self, I, fn, args):
        for name, c in self.pre(I, args):
            I.prove(c, 'precondition of combine_relationships: ' + name)
        h, f, s = H(I), ident(args[1]), ident(args[2])
        h1 = new_heap(I)
        self.assume_all(I, merged(I, h, h1, f, s))
        same_below(I, h, h1)
        return args[2]


class Step(Surgery):
    def args(self, I):
        o = self.stage(I)
        k = I.fresh(Int, 'k')
        unfold(I, H(I), k)
        return [o, SInt(k)]

    def pre(self, I, args):
        return [('a tree', TREE(H(I), ident(args[1])))]

    def post(self, I, args, r):
        owned_unchanged(I)
        h, h1, k, r = I.ghost['$h0'].t, H(I), zi(args[1]), ident(r)
        same_below(I, h, h1)
        unfold(I, h1, r)
        self.prove_all(I, step(I, h, h1, k, r))

    def use(self, I, fn, args):
        for name, c in self.pre(I, args):
            I.prove(c, 'precondition of %s: %s' % (self.qual.split('.')[-1], name))
        h, k = H(I), ident(args[1])
        h1 = new_heap(I)
        r = I.fresh(Int, 'r')
        self.assume_all(I, step(I, h, h1, k, r))
        same_below(I, h, h1)
        return SInt(r)


@register
class ProcessEntity1(Step):
    qual = GM + 'process_entity1'


@register
class ProcessEntity(Step):
    qual = GM + 'process_entity'

    def prepare(self, I, args):
        k = zi(args[1])
        h0 = H(I)
        e = AT(h0, k)

        def inv(h, i):
            mem = lambda y: MEM(SET(h0, k), y)
            c, c0 = KID(h, e, j_), KID(h0, e, j_)
            kid = z3.And(j_ >= 0, j_ < KN(h0, e))
            return z3.And(AT(h, k) == e, KN(h, e) == KN(h0, e), TREE(h, k), CUR(h) >= CUR(h0), grown(h0, h, k, mem), *untouched(h0, h, mem),
                          z3.ForAll([j_], z3.Implies(kid, z3.And(z3.Implies(LIN(h, c), LIN(h0, c0)), z3.Implies(z3.And(LIN(h0, c0), z3.Not(droppable(I))), LIN(h, c)))),
                                    patterns=[c, c0]))

        def offer(I, loop, cell, v0, ys):
            if cell[0] is loops.GHOST and cell[1] == '$h':
                if I.ghost.get('$iterated'):
                    raise Unsupported('a list of children is changed while it is iterated')

                def known(h, i):
                    return inv(h, i)

                def unfolded(h, i):
                    unfold(I, h, k)
                    return inv(h, i)
                yield HavocRef(I, v0, unfolded, 'the first i children are processed')
        I.form_offers.append(offer)


@register
class GammaProcess(Surgery):
    qual = GM + 'process'

    def args(self, I):
        o = self.stage(I)
        unfold(I, H(I), zi(I.ghost['$root']))
        I.ghost['$root0'] = I.ghost['$root']
        return [o]

    def pre(self, I, args):
        return [('a tree', TREE(H(I), zi(I.ghost['$root'])))]

    def post(self, I, args, r):
        h, h1, k = I.ghost['$h0'].t, H(I), zi(I.ghost['$root0'])
        root = ident(I.ghost['$root'])
        I.prove(isinstance(r, SRef) and zb(r.t == I.ghost['$tree'].t), 'the same tree')
        I.prove(TREE(h1, root), 'the result is a tree: every leaf is in it at most once')
        I.prove(z3.Implies(LIN(h1, root), LIN(h, k)), 'no leaf is added')
        I.prove(z3.Implies(z3.And(LIN(h, k), z3.Not(droppable(I))), LIN(h1, root)), 'no leaf but an article is dropped')
