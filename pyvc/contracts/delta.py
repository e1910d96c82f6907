"""Contracts of the stage that chooses relation structures (K04), gb/knowledge/stages/delta.py, with
the methods of gb/knowledge/semantic_tree.py it uses.

Elements are in a heap h: AT(h, k) is the element with the id k, KL(h, e) the list of the ids of the
children of e.  Candidates share subtrees, so what hangs below an id is not a tree but acyclic: DAG(h, k).
LC(h, k) is how often an arbitrary leaf L occurs below k: 1 or 0 for a leaf, the sum over the children for a node.
SET(h, k): the ids below k and k.  Flags for compounds are in a state of their own ($flags)."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint, mkbool
from .. import refs, loops
from ..externs import raise_
from .nlp import TOKEN
from .tree import ST, STG, ElemSort, ISNODE, TOK
from . import surgery as S
from .surgery import Heap, IdSet, TreeSort, AT, IDF, CUR, MEM, L, HEAP, HavocRef, holds, elem, ident, only, hf

Flags = z3.DeclareSort('Flags')
FLAGS = RefKind('flags', sort=Flags)
FLAGS.described = True
IL = refs.LSeq('IdSeq', Int, lambda t: SInt(t))
IDL = IL.sort
KL = hf('kids_list', ElemSort, IDL)
DAG, DSET, LC = hf('acyclic', Int, Bool), hf('below', Int, IdSet), hf('count', Int, Int)
DAGL, UN, SUML = hf('all_acyclic', IDL, Bool), hf('union', IDL, IdSet), hf('sum', IDL, Int)
SL = z3.Function('IdSeq.slice', IDL, Int, Int, IDL)
CF = z3.Function('compound', Flags, ElemSort, Bool)
x_, y_, k_, j_ = z3.Const('x$d', ElemSort), z3.Int('y$d'), z3.Int('k$d'), z3.Int('j$d')
h_, l_, m_ = z3.Const('h$d', Heap), z3.Const('l$d', IDL), z3.Const('m$d', IDL)
All, Imp, And, Or, Not, MP = z3.ForAll, z3.Implies, z3.And, z3.Or, z3.Not, z3.MultiPattern


# -- lists of ids as terms ------------------------------------------------------------------

def units(ids):
    ts = [IL.UNIT(i) for i in ids]
    if not ts:
        return IL.EMPTY
    t = ts[-1]
    for u in reversed(ts[:-1]):
        t = IL.CAT(u, t)
    return t


def part(I, l, a, b):
    """The term of l[a:b]; l is what comes before, this, and what comes after."""
    a, b = z3.simplify(zi(a)), z3.simplify(zi(b))
    key = (l.get_id(), a.get_id(), b.get_id())
    memo = I.memo.setdefault('part', {})
    if key not in memo:
        memo[key] = (l, a, b) + parts(l, a, b)
    for f in memo[key][4]:
        I.fact(f)
    return memo[key][3]


def parts(l, a, b):
    n = IL.LEN(l)
    before, it, after = SL(l, z3.IntVal(0), a), SL(l, a, b), SL(l, b, n)
    fs = [Imp(And(a >= 0, a <= b, b <= n), And(l == IL.CAT(before, IL.CAT(it, after)), IL.LEN(before) == a, IL.LEN(it) == b - a, IL.LEN(after) == n - b))]
    for p, f, n1 in ((before, z3.IntVal(0), a), (it, a, b - a), (after, b, n - b)):
        k = IL.AT(l, f)
        for g, x in ((SUML(h_, p), LC(h_, k)), (DAGL(h_, p), DAG(h_, k)), (UN(h_, p), DSET(h_, k))):
            fs.append(All([h_], Imp(n1 == 1, g == x), patterns=[g]))
    fs.append(All([j_], Imp(And(j_ >= 0, j_ < b - a), IL.AT(it, j_) == IL.AT(l, a + j_)), patterns=[IL.AT(it, j_)]))
    fs.append(All([j_], Imp(And(j_ >= 0, j_ < n - b), IL.AT(after, j_) == IL.AT(l, b + j_)), patterns=[IL.AT(after, j_)]))
    return it, fs


def term(I, v):
    """The term of a list of ids."""
    if isinstance(v, Obj) and hasattr(v.cls, 'listterm'):
        return v.cls.listterm(I, v)
    if isinstance(v, PyList):
        if isinstance(v.items, list):
            return units([ident(x) for x in v.items])
        v = v.items
    if not isinstance(v, SSeq):
        raise Unsupported('ids expected, got %r' % (v,))
    t = getattr(v, 'lt', None)
    if t is None:
        t = v.lt = made(I, v)
    return t


def made(I, v):
    h = getattr(v, 'hist', None)
    if h is not None:
        return IL.CAT(term(I, h[0]), IL.UNIT(ident(h[1])))
    if v.prov is None:
        if isinstance(v.n, int):
            return units([ident(v.get(j)) for j in range(v.n)])
        raise Unsupported('a list of ids of unknown origin')
    k = v.prov[0]
    if k == 'same':
        return term(I, v.prov[1])
    if k == 'items':
        return units([ident(x) for x in v.prov[1]])
    if k == 'cat':
        return IL.CAT(term(I, v.prov[1]), term(I, v.prov[2]))
    if k == 'slice':
        return part(I, term(I, v.prov[1]), v.prov[2], v.prov[3])
    raise Unsupported('a list of ids')


def seq_of(t):
    s = IL.value(t)
    s.lt = t
    return s


# -- what the functions mean -----------------------------------------------------------------

def axioms(I):
    h, k, y, l, m, j = h_, k_, y_, l_, m_, j_
    IL.axioms(I)
    e = AT(h, k)
    kl = KL(h, e)
    I.fact(Not(ISNODE(L)))
    I.fact(All([h, k], Imp(DAG(h, k), And(k >= 0, k < CUR(h), IDF(h, e) == k,
                                          z3.If(ISNODE(e), And(IL.LEN(kl) >= 1, DAGL(h, kl), Not(MEM(UN(h, kl), k)), LC(h, k) == SUML(h, kl)),
                                                LC(h, k) == z3.If(e == L, 1, 0)))), patterns=[DAG(h, k)]))
    I.fact(All([h, l, j], Imp(And(DAGL(h, l), j >= 0, j < IL.LEN(l)), DAG(h, IL.AT(l, j))), patterns=[MP(DAGL(h, l), IL.AT(l, j))]))
    I.fact(All([h, l, j, y], Imp(And(j >= 0, j < IL.LEN(l), MEM(DSET(h, IL.AT(l, j)), y)), MEM(UN(h, l), y)),
               patterns=[MP(UN(h, l), MEM(DSET(h, IL.AT(l, j)), y))]))
    I.fact(All([h, k, y], Imp(And(DAG(h, k), MEM(DSET(h, k), y)), And(y >= 0, y < CUR(h))), patterns=[MP(DAG(h, k), MEM(DSET(h, k), y))]))
    I.fact(All([h, l, y], Imp(And(DAGL(h, l), MEM(UN(h, l), y)), And(y >= 0, y < CUR(h))), patterns=[MP(DAGL(h, l), MEM(UN(h, l), y))]))
    c = IL.CAT(l, m)
    I.fact(All([h, l, m], SUML(h, c) == SUML(h, l) + SUML(h, m), patterns=[SUML(h, c)]))
    I.fact(All([h, l, m], DAGL(h, c) == And(DAGL(h, l), DAGL(h, m)), patterns=[DAGL(h, c)]))
    I.fact(All([h, l, m, y], MEM(UN(h, c), y) == Or(MEM(UN(h, l), y), MEM(UN(h, m), y)), patterns=[MEM(UN(h, c), y)]))
    I.fact(All([h, l, m, y], Imp(MEM(UN(h, l), y), MEM(UN(h, c), y)), patterns=[MP(UN(h, c), MEM(UN(h, l), y))]))
    I.fact(All([h, l, m, y], Imp(MEM(UN(h, m), y), MEM(UN(h, c), y)), patterns=[MP(UN(h, c), MEM(UN(h, m), y))]))
    I.fact(All([h, k], SUML(h, IL.UNIT(k)) == LC(h, k), patterns=[SUML(h, IL.UNIT(k))]))
    I.fact(All([h, k], DAGL(h, IL.UNIT(k)) == DAG(h, k), patterns=[DAGL(h, IL.UNIT(k))]))
    I.fact(All([h, k], UN(h, IL.UNIT(k)) == DSET(h, k), patterns=[UN(h, IL.UNIT(k))]))
    I.fact(All([h, l], Imp(IL.LEN(l) == 0, SUML(h, l) == 0), patterns=[SUML(h, l)]))
    I.fact(All([h, l], Imp(IL.LEN(l) == 0, DAGL(h, l)), patterns=[DAGL(h, l)]))
    I.fact(All([h, l, y], Imp(MEM(UN(h, l), y), IL.LEN(l) > 0), patterns=[MEM(UN(h, l), y)]))
    I.trusted.add('acyclic structures of elements: what is below an id and how often a leaf occurs there (definitions by recursion), sums over joined lists; what is '
                  'below an id is the same in two heaps that agree on its ids; replacing the children of an element by others with the same '
                  'leaves, from what was below it, changes no count (lemmas/Tree.lean)')


def unfold(I, h, k):
    """The definitions at one id."""
    e = AT(h, k)
    kl = KL(h, e)
    I.fact(Imp(And(k >= 0, k < CUR(h), IDF(h, e) == k, Or(Not(ISNODE(e)), And(IL.LEN(kl) >= 1, DAGL(h, kl), Not(MEM(UN(h, kl), k))))), DAG(h, k)))
    below(I, h, k)


def below(I, h, k):
    e = AT(h, k)
    m = MEM(DSET(h, k), y_)
    u = MEM(UN(h, KL(h, e)), y_)
    I.fact(All([y_], Imp(m, Or(y_ == k, And(ISNODE(e), u))), patterns=[m]))
    I.fact(All([y_], Imp(And(ISNODE(e), u), m), patterns=[u]))
    I.fact(MEM(DSET(h, k), k))


def dag_same(h, h1, k):
    return And(DAG(h1, k), DSET(h1, k) == DSET(h, k), LC(h1, k) == LC(h, k))


def list_same(h, h1, l):
    return And(DAGL(h1, l), UN(h1, l) == UN(h, l), SUML(h1, l) == SUML(h, l))


def only_new(h, h1):
    """Nothing that is in h is changed."""
    y = AT(h, y_)
    old = And(y_ >= 0, y_ < CUR(h))
    return [('what is there stays', All([k_], Imp(DAG(h, k_), And(dag_same(h, h1, k_), AT(h1, k_) == AT(h, k_))), patterns=[DAG(h, k_)])),
            ('lists of what is there stay', All([l_], Imp(DAGL(h, l_), list_same(h, h1, l_)), patterns=[DAGL(h, l_)])),
            ('ids are not used again', CUR(h1) >= CUR(h)),
            ('the table', All([y_], Imp(old, AT(h1, y_) == y), patterns=[AT(h1, y_), y])),
            ('the ids', All([y_], Imp(old, IDF(h1, y) == IDF(h, y)), patterns=[IDF(h1, y)])),
            ('the children', All([y_], Imp(old, KL(h1, y) == KL(h, y)), patterns=[KL(h1, y)]))]


def kept(h, h1, touched):
    """Every id has as many leaves below it as before, from below the same ids; only what is touched has other children."""
    old = And(y_ >= 0, y_ < CUR(h))
    y = AT(h, y_)
    return [('acyclic, with the same leaves', All([k_], Imp(DAG(h, k_), And(DAG(h1, k_), LC(h1, k_) == LC(h, k_), AT(h1, k_) == AT(h, k_))), patterns=[DAG(h, k_)])),
            ('nothing else is below', All([k_, y_], Imp(And(DAG(h, k_), MEM(DSET(h1, k_), y_)), MEM(DSET(h, k_), y_)), patterns=[MP(DAG(h, k_), MEM(DSET(h1, k_), y_))])),
            ('lists of them', All([l_], Imp(DAGL(h, l_), And(DAGL(h1, l_), SUML(h1, l_) == SUML(h, l_))), patterns=[DAGL(h, l_)])),
            ('nothing else is below lists', All([l_, y_], Imp(And(DAGL(h, l_), MEM(UN(h1, l_), y_)), MEM(UN(h, l_), y_)), patterns=[MP(DAGL(h, l_), MEM(UN(h1, l_), y_))])),
            ('ids are not used again', CUR(h1) >= CUR(h)),
            ('the table', All([y_], Imp(old, AT(h1, y_) == y), patterns=[AT(h1, y_), y])),
            ('the ids', All([y_], Imp(old, IDF(h1, y) == IDF(h, y)), patterns=[IDF(h1, y)])),
            ('other children', All([y_], Imp(And(old, IDF(h, y) == y_, Not(touched(y_))), KL(h1, y) == KL(h, y)), patterns=[KL(h1, y)]))]


def forms(cs):
    return [c for n, c in cs]


# -- the heap ------------------------------------------------------------------------------

H = S.H


def frame(I, h, h1, at=None, idf=None, kl=None, cur=None):
    I.fact(All([y_], AT(h1, y_) == (z3.If(y_ == at[0], at[1], AT(h, y_)) if at else AT(h, y_)), patterns=[AT(h1, y_), AT(h, y_)]))
    I.fact(All([x_], IDF(h1, x_) == (z3.If(x_ == idf[0], idf[1], IDF(h, x_)) if idf else IDF(h, x_)), patterns=[IDF(h1, x_)]))
    I.fact(All([x_], KL(h1, x_) == (z3.If(x_ == kl[0], kl[1], KL(h, x_)) if kl else KL(h, x_)), patterns=[KL(h1, x_)]))
    I.fact(CUR(h1) == (CUR(h) if cur is None else cur))


def put_kids(I, e, t):
    """e gets the list t of children."""
    h = H(I)
    k = IDF(h, e)
    h1 = S.new_heap(I)
    frame(I, h, h1, kl=(e, t))
    I.fact(All([k_], Imp(DAG(h, k_), And(DAG(h, k_), Or(MEM(DSET(h, k_), k), dag_same(h, h1, k_)))), patterns=[DAG(h, k_)]))
    I.fact(All([l_], Imp(DAGL(h, l_), Or(MEM(UN(h, l_), k), list_same(h, h1, l_))), patterns=[DAGL(h, l_)]))
    unfold(I, h1, k)
    return h, h1


def change_kids(I, e, t):
    """The list of e is changed in place: only if e was made by this function (then no other element has the list)."""
    h = H(I)
    if not I.valid(IDF(h, e) >= CUR(I.ghost['$h0'].t)):
        raise Unsupported('a list of children that may be shared is changed')
    for x in I.ghost.get('$iterated', ()):
        if not I.valid(x != e):
            raise Unsupported('a list of children is changed while it is iterated')
    put_kids(I, e, t)


def assign_kids(I, o, v):
    """e.children_ids = list"""
    if isinstance(v, Obj) and not isinstance(v, PyList):
        if v.cls is Kids and v.e.eq(o.t):
            return
        raise Unsupported('a list of children is shared')
    if not isinstance(v, PyList):
        raise Unsupported('children %r' % (v,))
    if not I.decide(ISNODE(o.t)):
        raise Unsupported('children of a leaf')
    t = term(I, v)
    own(I, v)
    b, h0, e = I.ghost['$h0'].t, H(I), o.t
    k = IDF(b, e)
    below(I, b, k)
    below(I, h0, k)
    # the lemma: instead of its children, e gets others with the same leaves, from what was below it at first
    m = MEM(UN(h0, t), y_)
    ok = I.valid(And(known(b, e), known(h0, e), IDF(h0, e) == k, IL.LEN(t) >= 1, DAGL(h0, t), SUML(h0, t) == LC(h0, k)))
    ok = ok and I.valid(All([y_], Imp(m, MEM(UN(b, KL(b, e)), y_)), patterns=[m]))
    ok = ok and all(I.valid(c) for c in forms(kept(b, h0, lambda y: z3.BoolVal(True))))
    h, h1 = put_kids(I, e, t)
    if ok:
        for c in forms(kept(b, h1, lambda y: z3.BoolVal(True)))[:4]:
            I.fact(c)


class Kids:
    """Node.children_ids: the list of one node, as it is in the current heap."""
    name = 'children_ids'

    @staticmethod
    def listterm(I, o):
        return KL(H(I), o.e)

    @staticmethod
    def change(I, e, t):
        change_kids(I, e, t)

    @staticmethod
    def look(I, o):
        below(I, H(I), IDF(H(I), o.e))

    @staticmethod
    def index(I, o, k):
        n = IL.LEN(o.cls.listterm(I, o))
        k = zi(k)
        if not holds(I, And(k >= -n, k < n)):
            raise_('IndexError')
        return z3.simplify(k) if holds(I, k >= 0) else z3.simplify(k + n)

    @staticmethod
    def sequence(I, o):
        o.cls.look(I, o)
        return seq_of(o.cls.listterm(I, o))

    frozen = sequence

    @staticmethod
    def getitem(I, o, k):
        if isinstance(k, (int, SInt)) and not isinstance(k, bool):
            o.cls.look(I, o)
            return SInt(IL.AT(o.cls.listterm(I, o), o.cls.index(I, o, k)))
        raise Unsupported('item of children')

    @staticmethod
    def setitem(I, o, k, v):
        if not isinstance(k, (int, SInt)) or isinstance(k, bool):
            raise Unsupported('change of children')
        k = o.cls.index(I, o, k)
        l = o.cls.listterm(I, o)
        n = IL.LEN(l)
        part(I, l, k, k + 1)
        t = IL.CAT(SL(l, z3.IntVal(0), k), IL.CAT(IL.UNIT(ident(v)), SL(l, z3.simplify(k + 1), n)))
        o.cls.change(I, o.e, t)

    @staticmethod
    def len(I, o):
        return SInt(IL.LEN(o.cls.listterm(I, o)))

    @staticmethod
    def iterate(I, o):
        I.ghost['$iterated'] = I.ghost.get('$iterated', ()) + (o.e,)
        return o.cls.sequence(I, o)

    @staticmethod
    def binop(I, op, a, b):
        a, b = [PyList(I, x.cls.sequence(I, x)) if isinstance(x, Obj) and not isinstance(x, PyList) and hasattr(x.cls, 'listterm') else x for x in (a, b)]
        return I.binop(op, a, b)

    @staticmethod
    def iadd(I, o, v):
        o.cls.change(I, o.e, IL.CAT(o.cls.listterm(I, o), term(I, v)))

    @staticmethod
    def getattr(I, o, name):
        def m(f):
            return Builtin('children_ids.' + name, f)

        def insert(I, k, v):
            l = o.cls.listterm(I, o)
            n = IL.LEN(l)
            k = zi(k)
            if holds(I, k == 0):
                t = IL.CAT(IL.UNIT(ident(v)), l)
            elif holds(I, k >= n):
                t = IL.CAT(l, IL.UNIT(ident(v)))
            elif holds(I, k > 0):
                part(I, l, k, n)
                t = IL.CAT(SL(l, z3.IntVal(0), k), IL.CAT(IL.UNIT(ident(v)), SL(l, k, n)))
            else:
                raise Unsupported('insert before the end')
            o.cls.change(I, o.e, t)
        if name == 'append':
            return m(lambda I, v: o.cls.change(I, o.e, IL.CAT(o.cls.listterm(I, o), IL.UNIT(ident(v)))))
        if name == 'insert':
            return m(insert)
        if name == 'extend':
            return m(lambda I, v: o.cls.iadd(I, o, v))
        return None


def kids(I, o):
    k = Obj(I, Kids)
    k.e = o.t
    return k


def own(I, l):
    for o, items in I.ghost.get('$owned', ()):
        if o is l:
            raise Unsupported('a list of children is shared')
    S.own(I, l)


class Table:
    """Tree.table"""
    name = 'table'
    getitem = S.Table.getitem

    @staticmethod
    def getitem(I, o, k):
        if not isinstance(k, (int, SInt)) or isinstance(k, bool):
            raise Unsupported('id of an element')
        h, k = H(I), zi(k)
        if not holds(I, And(k >= 0, k < CUR(h))):
            raise_('KeyError')
        return SRef(AT(h, k), ELEM)

    @staticmethod
    def setitem(I, o, k, v):
        raise Unsupported('the table is changed')

    @staticmethod
    def getattr(I, o, name):
        return None


def get_compound(I, o):
    return SBool(CF(I.ghost['$flags'].t, o.t))


def new_flags(I, known):
    f = I.ghost['$flags'].t
    f1 = I.fresh(Flags, 'flags')
    I.ghost['$flags'] = SRef(f1, FLAGS)
    for c in known(f, f1):
        I.fact(c)


def set_compound(I, o, v):
    b = zb(I.truth(v))
    if not I.decide(ISNODE(o.t)):
        raise Unsupported('a leaf that is a compound')
    new_flags(I, lambda f, f1: [All([x_], CF(f1, x_) == z3.If(x_ == o.t, b, CF(f, x_)), patterns=[CF(f1, x_)])])


ELEM = S.ElemKind('element', None, {
    'type': lambda I, o: I.find(ST + ('NODE' if I.decide(ISNODE(o.t)) else 'LEAF')),
    'tree': lambda I, o: I.ghost['$tree'], 'id': lambda I, o: SInt(IDF(H(I), o.t)),
    'token': only(False, lambda I, o: SRef(TOK(o.t), TOKEN)),
    'children_ids': only(True, kids),
    '_Node__compound': only(True, get_compound),
}, ElemSort, {'children_ids': assign_kids, '_Node__compound': set_compound})

ES = refs.LSeq('Elements', ElemSort, lambda t: SRef(t, ELEM))
ESL = ES.sort
TREEK = refs.InstKind('tree', ST + 'Tree', {
    'root_id': lambda I, o: I.ghost['$root'], 'cur_id': lambda I, o: SInt(CUR(H(I))), 'table': lambda I, o: Obj(I, Table),
}, TreeSort, {'root_id': lambda I, o, v: I.ghost.__setitem__('$root', v)})


# -- invariants of loops -------------------------------------------------------------------

def each(I, g):
    return all(I.valid(c) for c in g.children()) if z3.is_and(g) else I.valid(g)


class Heaps(HavocRef):
    def kept(self, end, i):
        return each(self.I, self.inv(end, i))


class HavocTerm(loops.Havoc):
    """Something given by a term of which only an invariant is known: inv(t, h, i) in the heap h."""
    def __init__(self, I, loop, v0, t0, wrap, unwrap, inv, name):
        self.I, self.loop, self.v0, self.t0, self.wrap, self.unwrap, self.name = I, loop, v0, t0, wrap, unwrap, name
        self.D = I.fresh_fun(name.replace(' ', '_'), Int, t0.sort())
        self.check = False
        self.invariant = inv
        self.dom = lambda i: inv(self.D(zi(i)), self.heap(i), i)

    def heap(self, i):
        for cell, f in self.loop.forms.values():
            if cell[0] is loops.GHOST and cell[1] == '$h':
                return f.D(zi(i))
        return H(self.I)

    def inv(self, v, i):
        return self.invariant(self.unwrap(v), H(self.I), i)

    def at(self, i):
        return self.wrap(self.D(zi(i)))

    def init(self, I):
        return self.D(z3.IntVal(0)) == self.t0

    def define(self, I, i, end):
        try:
            t = self.unwrap(end)
        except AttributeError:
            raise loops.NoShape(self.name)
        g = self.invariant(t, H(I), zi(i) + 1)
        if not each(I, g):
            raise loops.NoShape(self.name)
        return self.D(zi(i) + 1) == t


class Owned(loops.Form):
    """Lists that were given to nodes in an iteration are not used after it."""
    def __init__(self, I, loop, v0):
        loops.Form.__init__(self, lambda i: v0, check=False, name='lists of children')
        self.I, self.loop, self.v0 = I, loop, v0

    def preserved(self, end):
        S.owned_unchanged(self.I)
        old = [o for o in self.loop.heap0]
        for l, items in end[len(self.v0):]:
            if any(o is l for o in old):
                return False
            for o in old:
                if isinstance(o, Env):
                    for k, v in o.vars.items():
                        if v is l and self.loop.v0.get((id(o), k), loops.ABSENT) is not loops.ABSENT and not self.loop.dead(k):
                            return False
        return True

    def define(self, I, i, end):
        if not isinstance(end, tuple) or end[:len(self.v0)] != self.v0 or not self.preserved(end):
            raise loops.NoShape(self.name)


def heap_form(inv, name, flags=None):
    def offer(I, loop, cell, v0, ys):
        if cell[0] is loops.GHOST and cell[1] == '$h':
            yield Heaps(I, v0, inv, name)
        if cell[0] is loops.GHOST and cell[1] == '$flags':
            yield Heaps(I, v0, flags or (lambda f, i: z3.BoolVal(True)), 'flags')
    return offer


def flags_stay(h, f, f1):
    return All([x_], Imp(known(h, x_), CF(f1, x_) == CF(f, x_)), patterns=[CF(f1, x_)])


def id_list_form(inv, name):
    def offer(I, loop, cell, v0, ys):
        if isinstance(cell[0], PyList):
            try:
                t0 = term(I, PyList(I, v0))
            except Unsupported:
                return
            yield HavocTerm(I, loop, v0, t0, seq_of, lambda v: term(I, PyList(I, v)), inv, name)
    return offer


def elements(I, v):
    """The term of a list of elements."""
    if isinstance(v, PyList):
        v = v.items
    if isinstance(v, list):
        ts = [ES.UNIT(elem(x)) for x in v]
        t = ES.EMPTY
        for u in ts:
            t = u if t is ES.EMPTY else ES.CAT(t, u)
        return t
    if not isinstance(v, SSeq):
        raise Unsupported('elements expected, got %r' % (v,))
    t = getattr(v, 'et', None)
    if t is None:
        h = getattr(v, 'hist', None)
        if h is not None:
            t = ES.CAT(elements(I, h[0]), ES.UNIT(elem(h[1])))
        elif v.prov is not None and v.prov[0] == 'same':
            t = elements(I, v.prov[1])
        elif v.prov is not None and v.prov[0] == 'items':
            t = elements(I, list(v.prov[1]))
        elif v.prov is not None and v.prov[0] == 'cat':
            t = ES.CAT(elements(I, v.prov[1]), elements(I, v.prov[2]))
        else:
            raise Unsupported('a list of elements of unknown origin')
        v.et = t
    return t


def eseq(t):
    s = ES.value(t)
    s.et = t
    return s


def element_list_form(inv, name):
    def offer(I, loop, cell, v0, ys):
        if isinstance(cell[0], PyList):
            try:
                t0 = elements(I, v0)
            except Unsupported:
                return
            yield HavocTerm(I, loop, v0, t0, eseq, lambda v: elements(I, v), inv, name)
    return offer


def number_form(inv, name):
    def offer(I, loop, cell, v0, ys):
        if isinstance(cell[0], Env) and isinstance(v0, (int, SInt)) and not isinstance(v0, bool) and all(isinstance(y, (int, SInt)) for y in ys):
            yield HavocTerm(I, loop, v0, zi(v0), lambda t: SInt(t), zi, lambda t, h, i: inv(t, i), name)
    return offer


# -- contracts ----------------------------------------------------------------------------

REG = []


def delta(cls):
    cls.key = 'K04: ' + cls.qual
    register(cls)
    return cls


class Delta(Contract):
    props = ('K04',)
    group = 'delta'

    def heap(self, I):
        CUT[:] = []
        axioms(I)
        ES.axioms(I)
        I.ghost['$h'] = SRef(I.fresh(Heap, 'h0'), HEAP)
        I.ghost['$h0'] = I.ghost['$h']
        I.ghost['$flags'] = I.ghost['$flags0'] = SRef(I.fresh(Flags, 'flags0'), FLAGS)
        I.ghost['$owned'] = ()
        I.ghost['$root'] = SInt(I.fresh(Int, 'root'))
        I.ghost['$tree'] = SRef(I.fresh(TreeSort, 'tree'), TREEK)
        return H(I)

    def stage(self, I):
        self.heap(I)
        return I.instantiate(I.find(STG + 'delta.DeltaStage'), [I.ghost['$tree']], {})

    def element(self, I, name='e', node=None):
        e = I.fresh(ElemSort, name)
        if node is not None:
            I.assume(ISNODE(e) if node else Not(ISNODE(e)))
        below(I, H(I), IDF(H(I), e))
        return SRef(e, ELEM)

    def prove_all(self, I, cs):
        for name, c in cs:
            I.prove(c, name)

    def demand(self, I, args):
        for name, c in self.pre(I, args):
            I.prove(zb(c), 'precondition of %s: %s' % (self.qual.split('.')[-1], name))

    def pure(self, I):
        S.owned_unchanged(I)
        I.prove(I.ghost['$h'] is I.ghost['$h0'] and I.ghost['$flags'] is I.ghost['$flags0'], 'nothing is changed')


def known(h, e):
    """e is an element of h."""
    return And(DAG(h, IDF(h, e)), AT(h, IDF(h, e)) == e)


@delta
class CreateNode(Delta):
    """A new node under a new id, with the given children."""
    qual = ST + 'Tree.create_node'
    args = S.CreateNode.args
    post = S.CreateNode.post

    def use(self, I, f, args):
        l = args[1] if len(args) > 1 else None
        if l is None:
            t = IL.EMPTY
        elif isinstance(l, PyList):
            t = term(I, l)
            own(I, l)
        else:
            raise Unsupported('children %r' % (l,))
        h = H(I)
        N = I.fresh(ElemSort, 'N')
        h1 = S.new_heap(I)
        c = CUR(h)
        I.assume(ISNODE(N))
        I.fact(c >= 0)
        I.fact(All([y_], Imp(And(y_ >= 0, y_ < c), AT(h, y_) != N), patterns=[AT(h, y_)]))
        frame(I, h, h1, at=(c, N), idf=(N, c), cur=c + 1, kl=(N, t))
        for g in forms(only_new(h, h1))[:2]:
            I.fact(g)
        unfold(I, h1, c)
        new_flags(I, lambda f, f1: [Not(CF(f1, N)), All([x_], Imp(x_ != N, CF(f1, x_) == CF(f, x_)), patterns=[CF(f1, x_)])])
        return SRef(N, ELEM)


@delta
class Clone(Delta):
    qual = ST + 'Node.clone'

    def args(self, I):
        self.heap(I)
        return [self.element(I, node=True)]

    def pre(self, I, args):
        return [('a node of the tree', And(known(H(I), elem(args[0])), ISNODE(elem(args[0]))))]

    def claims(self, h, h1, e, r):
        k, kr = IDF(h, e), IDF(h1, r)
        l, lr = KL(h, e), KL(h1, r)
        return only_new(h, h1) + [
            ('a node under a new id', And(ISNODE(r), known(h1, r), kr >= CUR(h))),
            ('its leaves', LC(h1, kr) == LC(h, k)), ('as many children', IL.LEN(lr) == IL.LEN(l)),
            ('the leaves of each', All([j_], Imp(And(j_ >= 0, j_ < IL.LEN(l)), LC(h1, IL.AT(lr, j_)) == LC(h, IL.AT(l, j_))), patterns=[IL.AT(lr, j_)])),
            ('ids from below the original and new ones', All([y_], Imp(MEM(DSET(h1, kr), y_), Or(MEM(UN(h, l), y_), y_ >= CUR(h))), patterns=[MEM(DSET(h1, kr), y_)]))]

    def prepare(self, I, args):
        h0 = H(I)
        l0 = KL(h0, args[0].t)

        def inv(h, i):
            return And(*forms(only_new(h0, h)))

        def made(l, h, i):
            first = part(I, l0, 0, i)
            part(I, l0, i, i + 1)
            I.fact(Imp(And(i >= 0, i < IL.LEN(l0)), SL(l0, z3.IntVal(0), z3.simplify(i + 1)) == IL.CAT(first, IL.UNIT(IL.AT(l0, i)))))
            I.fact(SL(l0, z3.IntVal(0), IL.LEN(l0)) == l0)
            c = IL.AT(l, j_)
            return And(IL.LEN(l) == i, DAGL(h, l), SUML(h, l) == SUML(h0, first),
                       All([j_], Imp(And(j_ >= 0, j_ < i), LC(h, c) == LC(h0, IL.AT(l0, j_))), patterns=[c]),
                       All([y_], Imp(MEM(UN(h, l), y_), Or(MEM(UN(h0, l0), y_), y_ >= CUR(h0))), patterns=[MEM(UN(h, l), y_)]))
        f0 = I.ghost['$flags'].t
        I.form_offers += [heap_form(inv, 'the first i children are cloned', lambda f, i: flags_stay(h0, f0, f)), id_list_form(made, 'clones of the first i children')]

    def post(self, I, args, r):
        S.owned_unchanged(I)
        h, h1 = I.ghost['$h0'].t, H(I)
        e = elem(r)
        self.prove_all(I, self.claims(h, h1, args[0].t, e))
        f, f1 = I.ghost['$flags0'].t, I.ghost['$flags'].t
        I.prove(CF(f1, e) == CF(f, args[0].t), 'the flag is copied')
        I.prove(flags_stay(h, f, f1), 'other flags stay')

    def use(self, I, f, args):
        self.demand(I, args)
        h, e = H(I), elem(args[0])
        below(I, h, IDF(h, e))
        r = I.fresh(ElemSort, 'clone')
        h1 = S.new_heap(I)
        for n, c in self.claims(h, h1, e, r):
            I.assume(c)
        below(I, h1, IDF(h1, r))
        new_flags(I, lambda f, f1: [CF(f1, r) == CF(f, e), flags_stay(h, f, f1)])
        return SRef(r, ELEM)


@delta
class Flatten(Delta):
    """Every element has the leaves below it that it had; nothing but the children of what is below the node changes."""
    qual = ST + 'Node.flatten'

    def args(self, I):
        self.heap(I)
        return [self.element(I, node=True)]

    def pre(self, I, args):
        return [('a node of the tree', And(known(H(I), elem(args[0])), ISNODE(elem(args[0]))))]

    def prepare(self, I, args):
        h0 = H(I)
        e = args[0].t
        l0 = KL(h0, e)

        def inv(h, i):
            return And(*forms(kept(h0, h, lambda y: MEM(UN(h0, l0), y))))

        def made(l, h, i):
            first = prefix(I, l0, i)
            return And(IL.LEN(l) >= i, DAGL(h, l), SUML(h, l) == SUML(h0, first),
                       All([y_], Imp(MEM(UN(h, l), y_), MEM(UN(h0, l0), y_)), patterns=[MEM(UN(h, l), y_)]))
        I.form_offers += [heap_form(inv, 'the first i children are flattened'), id_list_form(made, 'what the first i children are made of')]

    def post(self, I, args, r):
        S.owned_unchanged(I)
        h0 = I.ghost['$h0'].t
        k = IDF(h0, args[0].t)
        self.prove_all(I, kept(h0, H(I), lambda y: MEM(DSET(h0, k), y)))
        I.prove(I.ghost['$flags'] is I.ghost['$flags0'], 'no flag is changed')

    def use(self, I, f, args):
        self.demand(I, args)
        h, e = H(I), elem(args[0])
        below(I, h, IDF(h, e))
        h1 = S.new_heap(I)
        k = IDF(h, e)
        for n, c in kept(h, h1, lambda y: MEM(DSET(h, k), y)):
            I.assume(c)
        below(I, h1, k)


def prefix(I, l, i):
    """The first i items; what one more item makes."""
    first = part(I, l, 0, i)
    part(I, l, i, i + 1)
    I.fact(Imp(And(i >= 0, i < IL.LEN(l)), SL(l, z3.IntVal(0), z3.simplify(i + 1)) == IL.CAT(first, IL.UNIT(IL.AT(l, i)))))
    I.fact(SL(l, z3.IntVal(0), IL.LEN(l)) == l)
    return first


class Pure(Delta):
    """Changes nothing, and does not fail."""
    def args(self, I):
        o = self.stage(I)
        return [o] + [self.element(I) for j in range(self.elements)]

    def pre(self, I, args):
        return [('an element of the tree', known(H(I), elem(a))) for a in args[1:]]

    def post(self, I, args, r):
        self.pure(I)
        self.result(I, args, r)

    def result(self, I, args, r):
        I.truth(r)

    def use(self, I, f, args):
        self.demand(I, args)
        return self.value(I, args)

    def value(self, I, args):
        return SBool(I.fresh(Bool, self.qual.split('.')[-1]))


class PureMethod(Pure):
    def args(self, I):
        self.heap(I)
        return [self.element(I, node=True)]

    def pre(self, I, args):
        return [('a node of the tree', And(known(H(I), elem(args[0])), ISNODE(elem(args[0]))))]


@delta
class FlatLeafs(PureMethod):
    """A list of leaves."""
    qual = ST + 'Node.flat_leafs'

    def prepare(self, I, args):
        def inv(t, h, i):
            return All([j_], Imp(And(j_ >= 0, j_ < ES.LEN(t)), Not(ISNODE(ES.AT(t, j_)))), patterns=[ES.AT(t, j_)])
        I.form_offers.append(element_list_form(inv, 'leaves'))

    def result(self, I, args, r):
        t = elements(I, r)
        I.prove(All([j_], Imp(And(j_ >= 0, j_ < ES.LEN(t)), Not(ISNODE(ES.AT(t, j_)))), patterns=[ES.AT(t, j_)]), 'leaves')

    def value(self, I, args):
        t = I.fresh(ESL, 'leaves')
        I.fact(All([j_], Imp(And(j_ >= 0, j_ < ES.LEN(t)), Not(ISNODE(ES.AT(t, j_)))), patterns=[ES.AT(t, j_)]))
        return PyList(I, eseq(t))


@delta
class NodeEq(PureMethod):
    qual = ST + 'Node.__eq__'

    def args(self, I):
        return PureMethod.args(self, I) + [self.element(I, 'o')]

    def pre(self, I, args):
        if not isinstance(args[1], SRef):
            raise Unsupported('comparison of an element with %r' % (args[1],))
        return PureMethod.pre(self, I, args) + [('an element of the tree', known(H(I), elem(args[1])))]


@delta
class Compound(Delta):
    """Only flags are changed."""
    qual = ST + 'Node.compound.setter'

    def args(self, I):
        self.heap(I)
        return [self.element(I, node=True), SBool(I.fresh(Bool, 'compound'))]

    pre = PureMethod.pre

    def prepare(self, I, args):
        I.form_offers.append(heap_form(lambda h, i: z3.BoolVal(True), 'heap'))

    def post(self, I, args, r):
        S.owned_unchanged(I)
        I.prove(I.ghost['$h'] is I.ghost['$h0'], 'nothing else is changed')

    def use(self, I, f, args):
        self.demand(I, args)
        I.truth(args[1])
        new_flags(I, lambda f, f1: [])


DS = STG + 'delta.DeltaStage.'


@delta
class IsRelationship(Pure):
    qual = DS + 'is_relationship'

    def args(self, I):
        return [self.stage(I), SInt(I.fresh(Int, 'k'))]

    def pre(self, I, args):
        return [('an id of the tree', DAG(H(I), ident(args[1])))]


@delta
class IsPartOfRel(Pure):
    qual = DS + 'is_part_of_rel'
    elements = 2


@delta
class IsDirectlyUnder(Pure):
    qual = DS + 'is_directly_under'
    elements = 3


@delta
class NodeFit(Pure):
    qual = DS + 'node_fit'
    elements = 2

    def prepare(self, I, args):
        I.form_offers.append(number_form(lambda t, i: t >= 0, 'not negative'))

    def result(self, I, args, r):
        I.prove(zi(r) >= 0, 'not negative')

    def value(self, I, args):
        f = I.fresh(Int, 'fit')
        I.assume(f >= 0)
        return SInt(f)


@delta
class IsTerminal(Pure):
    qual = ST + 'Element.is_terminal'

    def args(self, I):
        self.heap(I)
        return [self.element(I)]

    def pre(self, I, args):
        return []

    def term(self, I, args):
        e = elem(args[0])
        return Or(Not(ISNODE(e)), CF(I.ghost['$flags'].t, e))

    def result(self, I, args, r):
        I.prove(zb(I.truth(r)) == self.term(I, args), 'a leaf or a compound')

    def value(self, I, args):
        return SBool(self.term(I, args))


# -- candidates ----------------------------------------------------------------------------

def item_claims(h, t, a, b, total, allowed, new):
    """Items a..b of t: elements of h with the given number of leaves, of what is allowed."""
    x = ES.AT(t, j_)
    k = IDF(h, x)
    r = And(j_ >= a, j_ < b)
    return [('candidates are elements of the tree', All([j_], Imp(r, known(h, x)), patterns=[x])),
            ('made for this', All([j_], Imp(r, new(x, k)), patterns=[x])),
            ('with every leaf', All([j_], Imp(r, LC(h, k) == total), patterns=[x])),
            ('and nothing else', All([j_, y_], Imp(And(r, MEM(DSET(h, k), y_)), allowed(y_)), patterns=[MEM(DSET(h, k), y_)]))]


CUT = []


class Candidates(Delta):
    def prepare(self, I, args):
        pass

    def touched(self, h, args):
        raise NotImplementedError

    def use(self, I, f, args):
        self.demand(I, args)
        h = H(I)
        ts = self.read(I, args)
        h1 = S.new_heap(I)
        new_flags(I, lambda f, f1: [])
        for n, c in kept(h, h1, self.touched(h, ts)):
            I.assume(c)
        r = self.answer(I, h, h1, args, ts)
        if CUT and isinstance(self, Adding):
            CUT[0](I, args[-1])
        return r

    def post(self, I, args, r):
        h0, h1 = I.ghost['$h0'].t, H(I)
        self.prove_all(I, kept(h0, h1, self.touched(h0, self.ts)))
        S.owned_unchanged(I)
        self.claims(I, h0, h1, args, r)


@delta
class FindCandidates(Candidates):
    """At least one candidate; each has the leaves of the original."""
    qual = DS + 'find_candidates'

    def args(self, I):
        return [self.stage(I), self.element(I, 'original')]

    def pre(self, I, args):
        return [('an element of the tree', known(H(I), elem(args[1])))]

    def prepare(self, I, args):
        self.ts = self.read(I, args)
        l = KL(H(I), args[1].t)
        prefix(I, l, z3.IntVal(0))
        prefix(I, l, z3.IntVal(1))

    def read(self, I, args):
        e = elem(args[1])
        below(I, H(I), IDF(H(I), e))
        return [e]

    def touched(self, h, ts):
        k = IDF(h, ts[0])
        return lambda y: MEM(DSET(h, k), y)

    def items(self, h, h1, ts, t):
        k = IDF(h, ts[0])
        return [('candidates', ES.LEN(t) >= 1)] + item_claims(h1, t, 0, ES.LEN(t), LC(h, k), lambda y: Or(MEM(DSET(h, k), y), y >= CUR(h)), lambda x, i: Or(Not(ISNODE(x)), i >= CUR(h)))

    def claims(self, I, h0, h1, args, r):
        self.prove_all(I, self.items(h0, h1, self.ts, elements(I, r)))

    def answer(self, I, h, h1, args, ts):
        t = I.fresh(ESL, 'candidates')
        for n, c in self.items(h, h1, ts, t):
            I.assume(c)
        return PyList(I, eseq(t))


class Adding(Candidates):
    def ids(self, I, name):
        l = I.fresh(IDL, name)
        return PyList(I, seq_of(l)), l

    def items(self, h, h1, ts, t, a, b):
        return [('a candidate is added', b > a)] + item_claims(h1, t, a, b, self.total(h, ts), self.allowed(h, ts), self.new(h, ts))

    def allowed(self, h, ts):
        t = self.touched(h, ts)
        return lambda y: Or(t(y), *self.also(h, ts, y))

    def new(self, h, ts):
        return lambda x, i: Or(*self.also(h, ts, i))

    def claims(self, I, h0, h1, args, r):
        c = args[-1]
        t, t0 = elements(I, c), self.c0
        n0 = ES.LEN(t0)
        self.prove_all(I, [('candidates stay', All([j_], Imp(And(j_ >= 0, j_ < n0), ES.AT(t, j_) == ES.AT(t0, j_)), patterns=[ES.AT(t, j_)]))])
        self.prove_all(I, self.items(h0, h1, self.ts, t, n0, ES.LEN(t)))

    def answer(self, I, h, h1, args, ts):
        c = args[-1]
        t0 = elements(I, c)
        t = I.fresh(ESL, 'added')
        for n, g in self.items(h, h1, ts, t, z3.IntVal(0), ES.LEN(t)):
            I.assume(g)
        c.items = eseq(t if t0 is ES.EMPTY else ES.CAT(t0, t))
        return self.returned(args)


@delta
class FindCandidatesR(Adding):
    """What is left to process is added to the node in every way: candidates with the leaves of both are added to the list."""
    qual = DS + 'find_candidates_r'
    shards, patience = 5, 2.2

    def args(self, I):
        o = self.stage(I)
        w = self.element(I, 'work', node=True)
        l, t = self.ids(I, 'to_process')
        self.c0 = I.fresh(ESL, 'before')
        return [o, self.element(I, 'original'), w, l, PyList(I, eseq(self.c0))]

    def read(self, I, args):
        h, w = H(I), elem(args[2])
        below(I, h, IDF(h, w))
        return [w, term(I, args[3])]

    def pre(self, I, args):
        h = H(I)
        w, t = elem(args[2]), term(I, args[3])
        return [('a node of the tree', And(known(h, w), ISNODE(w))), ('ids of the tree', DAGL(h, t)),
                ('the node is not below them', Not(MEM(UN(h, t), IDF(h, w))))]

    def total(self, h, ts):
        return LC(h, IDF(h, ts[0])) + SUML(h, ts[1])

    def touched(self, h, ts):
        w, t = ts
        return lambda y: Or(MEM(UN(h, KL(h, w)), y), MEM(UN(h, t), y))

    def also(self, h, ts, y):
        return y == IDF(h, ts[0]), y >= CUR(h)

    def returned(self, args):
        return args[-1]

    def prepare(self, I, args):
        self.ts = self.read(I, args)
        h0, t = H(I), self.ts[1]
        prefix(I, t, z3.IntVal(0))
        c0, n0 = self.c0, ES.LEN(self.c0)
        touched = self.touched(h0, self.ts)

        anything = lambda y: z3.BoolVal(True)

        def heaps(I, loop, cell, v0, ys):
            if cell[0] is loops.GHOST and cell[1] == '$h':
                yield Heaps(I, v0, lambda h, i: And(*forms(kept(h0, h, touched)) + forms(kept(v0.t, h, anything))[:6]), 'the first i candidates of the child are done')
            if cell[0] is loops.GHOST and cell[1] == '$flags':
                yield Heaps(I, v0, lambda f, i: z3.BoolVal(True), 'flags')
            if cell[0] is loops.GHOST and cell[1] == '$owned':
                yield Owned(I, loop, v0 if isinstance(v0, tuple) else ())

        def found(c, h, m):
            n = ES.LEN(c)
            return [('candidates are added', n >= n0 + m), ('candidates stay', All([j_], Imp(And(j_ >= 0, j_ < n0), ES.AT(c, j_) == ES.AT(c0, j_)), patterns=[ES.AT(c, j_)]))] + \
                item_claims(h, c, n0, n, self.total(h0, self.ts), self.allowed(h0, self.ts), self.new(h0, self.ts))
        I.form_offers += [heaps, element_list_form(lambda c, h, i: And(*forms(found(c, h, i))), 'candidates of the first i')]

        # after each way to add a child only this is used: what was there at the start of the iteration has kept its leaves; the candidates so far
        start = []

        def on_iteration(loop, i):
            item = loop.seq.get(SInt(zi(i))) if loop.isfor else None
            start[:] = [H(I), i, len(I.created), item.t if isinstance(item, SRef) and item.t.sort() == ElemSort else None]

        def cut(I, c):
            if not start or c is not args[-1]:
                return
            h, i, mark, child = start
            h1 = H(I)
            here = self.touched(h, self.ts)
            if child is None:
                changed = lambda y: Or(here(y), y >= CUR(h0))
            else:
                below(I, h, IDF(h, child))
                changed = lambda y: Or(here(y), And(ISNODE(child), MEM(UN(h, KL(h, child)), y)))
            for name, g in kept(h, h1, changed):
                I.prove(g, 'after candidates: ' + name)
            t = elements(I, c)
            for name, g in found(t, h1, i + 1):
                I.prove(g, 'after candidates: ' + name)
            I.forget([x for x in I.created[mark:] if z3.is_expr(x) and x.sort() == Heap and not x.eq(h1)])
            n = I.fresh(ESL, 'so_far')
            for name, g in found(n, h1, i + 1):
                I.assume(g)
            c.items = eseq(n)
        I.on_iteration = on_iteration
        I.after_loops = False
        I.quick = 20
        I.reuse_loops = True
        I.always = ('$h', '$flags', '$owned', args[-1])
        CUT[:] = [cut]

    def claims(self, I, h0, h1, args, r):
        Adding.claims(self, I, h0, h1, args, r)
        I.prove(r is args[-1], 'the list of candidates is returned')


@delta
class BuildCandidate(Adding):
    """The node with another relation as first child, and with the other children of the child: candidates are added."""
    qual = DS + 'build_candidate'

    def args(self, I):
        o = self.stage(I)
        w, k, c = self.element(I, 'work', node=True), I.fresh(Int, 'rel'), self.element(I, 'child', node=True)
        l, t = self.ids(I, 'to_process')
        self.c0 = I.fresh(ESL, 'before')
        return [o, self.element(I, 'original'), w, SInt(k), c, l, PyList(I, eseq(self.c0))]

    def read(self, I, args):
        h = H(I)
        w, k, c, t = elem(args[2]), ident(args[3]), elem(args[4]), term(I, args[5])
        for x in (k, IDF(h, w), IDF(h, c)):
            below(I, h, x)
        prefix(I, t, z3.IntVal(0))
        prefix(I, t, z3.IntVal(1))
        return [w, k, c, part(I, t, 1, IL.LEN(t))]

    def pre(self, I, args):
        h = H(I)
        w, k, c, t = elem(args[2]), ident(args[3]), elem(args[4]), term(I, args[5])
        return [('nodes of the tree', And(known(h, w), ISNODE(w), known(h, c), ISNODE(c))), ('the relation is in the tree', DAG(h, k)),
                ('ids of the tree', And(IL.LEN(t) >= 1, DAGL(h, t)))]

    def total(self, h, ts):
        w, k, c, t = ts
        return LC(h, k) + LC(h, IDF(h, w)) - LC(h, IL.AT(KL(h, w), 0)) + LC(h, IDF(h, c)) - LC(h, IL.AT(KL(h, c), 0)) + SUML(h, t)

    def touched(self, h, ts):
        w, k, c, t = ts
        return lambda y: Or(MEM(DSET(h, k), y), MEM(UN(h, KL(h, w)), y), MEM(UN(h, KL(h, c)), y), MEM(UN(h, t), y))

    def also(self, h, ts, y):
        return (y >= CUR(h),)

    def returned(self, args):
        return None

    def prepare(self, I, args):
        self.ts = self.read(I, args)
        h = H(I)
        for e in (self.ts[0], self.ts[2]):
            prefix(I, KL(h, e), z3.IntVal(0))
            prefix(I, KL(h, e), z3.IntVal(1))


@delta
class ProcessEntity(Candidates):
    """The element that is chosen has the leaves of the one that was there."""
    qual = DS + 'process_entity'

    def args(self, I):
        return [self.stage(I), SInt(I.fresh(Int, 'k'))]

    def pre(self, I, args):
        return [('an id of the tree', DAG(H(I), ident(args[1])))]

    def read(self, I, args):
        below(I, H(I), ident(args[1]))
        return [ident(args[1])]

    def prepare(self, I, args):
        self.ts = self.read(I, args)
        h0, k = H(I), self.ts[0]

        def best(I, loop, cell, v0, ys):
            if isinstance(cell[0], Env) and v0 is None and all(y is None or isinstance(y, (SRef, SOpt)) for y in ys):
                yield Best(I, loop, lambda x, h: And(known(h, x), LC(h, IDF(h, x)) == LC(h0, k)))
        I.form_offers += [best, number_form(lambda t, i: z3.If(i == 0, t == -1, t >= 0), 'none or not negative')]

    def touched(self, h, ts):
        return lambda y: MEM(DSET(h, ts[0]), y)

    def claims(self, I, h0, h1, args, r):
        I.prove(DAG(h1, ident(r)), 'an id of the tree')
        I.prove(LC(h1, ident(r)) == LC(h0, self.ts[0]), 'every leaf as often as before')

    def answer(self, I, h, h1, args, ts):
        r = I.fresh(Int, 'best')
        I.assume(DAG(h1, r))
        I.assume(LC(h1, r) == LC(h, ts[0]))
        return SInt(r)


class Best(loops.Havoc):
    """None at first, then an element of which an invariant is known."""
    def __init__(self, I, loop, inv):
        self.I, self.loop, self.name = I, loop, 'best'
        self.D = I.fresh_fun('best', Int, ElemSort)
        self.check = False
        self.invariant = inv
        self.dom = lambda i: Imp(zi(i) > 0, inv(self.D(zi(i)), H(I)))

    def at(self, i):
        return SOpt(zi(i) == 0, SRef(self.D(zi(i)), ELEM))

    def inv(self, v, i):
        if v is None:
            return zi(i) == 0
        if isinstance(v, SOpt):
            return And(v.none == (zi(i) == 0), Imp(zi(i) > 0, self.invariant(v.val.t, H(self.I))))
        return And(zi(i) > 0, self.invariant(v.t, H(self.I)))

    def init(self, I):
        return z3.BoolVal(True)

    def define(self, I, i, end):
        if not each(I, self.inv(end, zi(i) + 1)):
            raise loops.NoShape(self.name)
        t = end.val.t if isinstance(end, SOpt) else end.t
        return self.D(zi(i) + 1) == t


@delta
class Process(Delta):
    """The tree that is returned has the leaves of the one that was given."""
    qual = DS + 'process'

    def args(self, I):
        return [self.stage(I)]

    def pre(self, I, args):
        return [('the root is in the tree', DAG(H(I), zi(I.ghost['$root'])))]

    def prepare(self, I, args):
        self.root = I.ghost['$root']

    def post(self, I, args, r):
        h0, h1 = I.ghost['$h0'].t, H(I)
        k = zi(I.ghost['$root'])
        I.prove(r is I.ghost['$tree'], 'the tree is returned')
        I.prove(DAG(h1, k), 'the root is in the tree')
        I.prove(LC(h1, k) == LC(h0, zi(self.root)), 'every leaf as often as before')
