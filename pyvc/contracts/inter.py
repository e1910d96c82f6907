"""Contracts of gb/hypergraph/queries.py (G14): intersections.

Two dictionaries are described by what they say: the map of entities (VM: which entities are in it,
the edges and the neighbours of each) and the map of walk lengths (WM).  Walks are tuples of entities; W(vm, seeds, p, w):
w is a walk without repetition that continues p and ends on first having met all seeds."""
import hashlib
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T, backend as B, loops
from ..engine import zi, mkint, mkbool
from ..externs import raise_, BUILTINS
from .symbol import entity

from .facade import facade, EGO, an_edge
from .surgery import HavocRef, holds

Q = 'gb.hypergraph.queries.'
VMS, WMS = z3.DeclareSort('VM'), z3.DeclareSort('WM')
VMK, WMK = RefKind('map of entities', sort=VMS), RefKind('map of lengths', sort=WMS)
VMK.described = WMK.described = True
F = z3.Function
ELEMT, FIX, TAIL, TIX = F('ELEMT', Ent, Ent, Bool), F('FIX', Ent, Ent, Int), F('TAIL', Ent, Ent, Bool), F('TIX', Ent, Ent, Int)
DEG, INC, BIG = F('DEG', Ent, Int), F('INC', Ent, Bool), F('BIG', Ent, Int)
HAS, EDM, NB = F('VM.has', VMS, Ent, Bool), F('VM.edge', VMS, Ent, Ent, Bool), F('VM.neighbour', VMS, Ent, Ent, Bool)
WHAS, WVAL = F('WM.has', WMS, Ent, Bool), F('WM.value', WMS, Ent, Int)
W = F('WALK', VMS, Ent, Ent, Ent, Bool)
FM, NXT, APP = F('first_missing', Ent, Ent, Int), F('next_step', VMS, Ent, Ent, Ent, Ent), F('APP', Ent, Ent, Ent)
OKW, BADK = F('ok_walk', WMS, Ent, Ent, Bool), F('bad_step', WMS, Ent, Ent, Int)
e_, v_, u_, x_, w_ = [z3.Const(n + '$i', Ent) for n in 'evuxw']
j_ = z3.Int('j$i')
All, Imp, And, Or, Not, MP = z3.ForAll, z3.Implies, z3.And, z3.Or, z3.Not, z3.MultiPattern


def elements(I, s):
    """Membership in a sequence that is (the rest of) an edge."""
    if getattr(s, 'ent', None) is not None:
        return lambda y: ELEMT(s.ent, y)
    if s.base is not None and getattr(s.base[0], 'ent', None) is not None:
        off = z3.simplify(zi(s.base[1]))
        if z3.is_int_value(off) and off.as_long() == 1:
            return lambda y: TAIL(s.base[0].ent, y)
    return None


def axioms(I):
    """What it means to be an element and a non-first element (definitions, with the index as a function)."""
    e, v, j = e_, v_, j_
    I.element_of = elements
    I.lengths, I.within = [], []
    I.fact(All([e, v], Imp(ELEMT(e, v), And(FIX(e, v) >= 0, FIX(e, v) < ELEN(e), EL(e, FIX(e, v)) == v)), patterns=[ELEMT(e, v)]))
    I.fact(All([e, j], Imp(And(j >= 0, j < ELEN(e)), And(ELEMT(e, EL(e, j)), FIX(e, EL(e, j)) <= j)), patterns=[EL(e, j)]))
    I.fact(All([e, v], Imp(TAIL(e, v), And(TIX(e, v) >= 1, TIX(e, v) < ELEN(e), EL(e, TIX(e, v)) == v)), patterns=[TAIL(e, v)]))
    I.fact(All([e, j], Imp(And(j >= 1, j < ELEN(e)), TAIL(e, EL(e, j))), patterns=[EL(e, j)]))


def inc_axioms(I):
    e, j = e_, j_
    I.fact(All([e], Imp(Not(INC(e)), And(BIG(e) >= 1, BIG(e) < ELEN(e), DEG(EL(e, BIG(e))) > 250)), patterns=[INC(e)]))
    I.fact(All([e, j], Imp(And(INC(e), j >= 1, j < ELEN(e)), DEG(EL(e, j)) <= 250), patterns=[MP(INC(e), EL(e, j))]))


def store(I):
    b = B.Abstract.make(I)
    b.fields['$degree'] = DEG
    axioms(I)
    inc_axioms(I)
    return facade(I, b)


def before(e, i, v):
    """v is one of the first i elements of e."""
    return And(ELEMT(e, v), FIX(e, v) < i)


# -- dictionaries --------------------------------------------------------------------------

def vwrite(I, o, key=None, edges=None, nbs=None):
    """The map with the key, and with other edges or neighbours of it."""
    if getattr(o, 'shared', False):
        raise Unsupported('a change of records that are known under another name')
    vm = o.fields['$'].t
    vm1 = I.fresh(VMS, 'vm')
    I.fact(All([v_], HAS(vm1, v_) == Or(HAS(vm, v_), v_ == key), patterns=[HAS(vm1, v_)]))
    I.fact(All([v_, x_], EDM(vm1, v_, x_) == (z3.If(v_ == key, zb(edges(x_)), EDM(vm, v_, x_)) if edges else EDM(vm, v_, x_)), patterns=[EDM(vm1, v_, x_)]))
    I.fact(All([v_, x_], NB(vm1, v_, x_) == (z3.If(v_ == key, zb(nbs(x_)), NB(vm, v_, x_)) if nbs else NB(vm, v_, x_)), patterns=[NB(vm1, v_, x_)]))
    o.fields['$'] = SRef(vm1, VMK)


def members(I, v):
    """What is in a list or set of entities, as a predicate."""
    if isinstance(v, PySet):
        sv = I.set_value(v)
    elif isinstance(v, PyList) and isinstance(v.items, SBag):
        sv = v.items
    elif isinstance(v, (SBag, SSetV)):
        sv = v
    else:
        sv = I.set_value(BUILTINS['set'].fn(I, v) if isinstance(BUILTINS['set'], Builtin) else I.call(BUILTINS['set'], [v]))
    if sv is None:
        return lambda y: z3.BoolVal(False)
    if sv.sort != Ent:
        raise Unsupported('not entities')
    return sv.mem


class ViewSet(PySet):
    """The neighbours of one entity in the map, as it is now."""
    def __init__(self, I, o, k):
        self.I, self.o, self.k = I, o, k

    @property
    def items(self):
        vm = self.o.fields['$'].t
        return B.edge_set(lambda y: NB(vm, self.k, y))

    @items.setter
    def items(self, v):
        vwrite(self.I, self.o, self.k, nbs=v.mem)

    def share(self):
        self.o.shared = True


class ViewList(PyList):
    """The edges of one entity in the map."""
    def __init__(self, I, o, k):
        self.I, self.o, self.k, self.opaque = I, o, k, None

    @property
    def items(self):
        vm = self.o.fields['$'].t
        return SBag(Ent, lambda y: EDM(vm, self.k, y), lambda y: SEnt(y))

    @items.setter
    def items(self, v):
        if not isinstance(v, SBag):
            raise Unsupported('change of a list of edges')
        vwrite(self.I, self.o, self.k, edges=v.mem)

    def share(self):
        self.o.shared = True


class VRec:
    name = 'dict'

    @staticmethod
    def of(I, o, k):
        r = Obj(I, VRec)
        r.o, r.k = o, k
        return r

    @staticmethod
    def getitem(I, r, k):
        if k == 'edges':
            return ViewList(I, r.o, r.k)
        if k == 'neighbours':
            return ViewSet(I, r.o, r.k)
        raise_('KeyError')

    @staticmethod
    def setitem(I, r, k, v):
        if k == 'edges' and (isinstance(v, PyList) and not isinstance(v, ViewList) or isinstance(v, ViewList) and v.o is r.o and v.k.eq(r.k)):
            vwrite(I, r.o, r.k, edges=members(I, v))
        elif k == 'neighbours' and (isinstance(v, PySet) and not isinstance(v, ViewSet) or isinstance(v, ViewSet) and v.o is r.o and v.k.eq(r.k)):
            vwrite(I, r.o, r.k, nbs=members(I, v))
        else:
            raise Unsupported('change of a record of an entity')
        hold(I, v)

    @staticmethod
    def getattr(I, r, name):
        if name == 'get':
            return Builtin('get', lambda I, k, d=None: VRec.getitem(I, r, k) if k in ('edges', 'neighbours') else d)
        return None


def hold(I, v):
    if isinstance(v, (ViewList, ViewSet)):
        return
    d = PyDict(I, {'x': v})
    d.freeze(I)


class VMap:
    name = 'dict'

    @staticmethod
    def make(I, name='vm'):
        return Obj(I, VMap, {'$': SRef(I.fresh(VMS, name), VMK)})

    @staticmethod
    def key(I, k):
        if isinstance(k, (PyList, PySet, PyDict)):
            raise_('TypeError')
        return I.ent_of(k)

    @staticmethod
    def getitem(I, o, k):
        t = VMap.key(I, k)
        if not holds(I, HAS(o.fields['$'].t, t)):
            raise_('KeyError')
        return VRec.of(I, o, t)

    @staticmethod
    def setitem(I, o, k, v):
        t = VMap.key(I, k)
        if isinstance(v, Obj) and v.cls is VRec and v.o is o and v.k.eq(t):
            return
        if not (isinstance(v, PyDict) and set(v.items) == {'edges', 'neighbours'}):
            raise Unsupported('a record of an entity: %r' % (v,))
        e, n = v.items['edges'], v.items['neighbours']
        if not isinstance(e, PyList) or not isinstance(n, PySet) or isinstance(e, ViewList) or isinstance(n, ViewSet):
            raise Unsupported('a record of an entity')
        vwrite(I, o, t, edges=members(I, e), nbs=members(I, n))
        v.freeze(I)

    @staticmethod
    def contains(I, o, k):
        return HAS(o.fields['$'].t, VMap.key(I, k))

    @staticmethod
    def asset(I, o):
        vm = o.fields['$'].t
        return B.edge_set(lambda y: HAS(vm, y))

    @staticmethod
    def iterate(I, o):
        return loops.enumeration(I, VMap.asset(I, o))

    @staticmethod
    def getattr(I, o, name):
        def seq(f):
            s = VMap.iterate(I, o)
            return SSeq('list', s.n, lambda j: f(s.get(j)))
        if name == 'keys':
            return Builtin(name, lambda I: PySet(I, VMap.asset(I, o)))
        if name == 'values':
            return Builtin(name, lambda I: seq(lambda k: VRec.of(I, o, I.ent_of(k))))
        if name == 'items':
            return Builtin(name, lambda I: seq(lambda k: (k, VRec.of(I, o, I.ent_of(k)))))
        if name == 'get':
            def get(I, k, d=None):
                return VMap.getitem(I, o, k) if I.decide(VMap.contains(I, o, k)) else d
            return Builtin(name, get)
        if name == 'setdefault':
            def setdefault(I, k, d=None):
                if not I.decide(VMap.contains(I, o, k)):
                    VMap.setitem(I, o, k, d)
                return VMap.getitem(I, o, k)
            return Builtin(name, setdefault)
        return None


def new_vmap(I, pairs):
    """A dictionary display with entities as keys."""
    if pairs and all(isinstance(k, (str, SStr)) for k, v in pairs):
        return None
    o = VMap.make(I)
    vm = o.fields['$'].t
    I.fact(All([v_], Not(HAS(vm, v_)), patterns=[HAS(vm, v_)]))
    I.fact(All([v_, x_], Not(EDM(vm, v_, x_)), patterns=[EDM(vm, v_, x_)]))
    I.fact(All([v_, x_], Not(NB(vm, v_, x_)), patterns=[NB(vm, v_, x_)]))
    for k, v in pairs:
        VMap.setitem(I, o, k, v)
    return o


class WMap:
    name = 'dict'

    @staticmethod
    def make(I, name='wm'):
        return Obj(I, WMap, {'$': SRef(I.fresh(WMS, name), WMK)})

    @staticmethod
    def getitem(I, o, k):
        t = VMap.key(I, k)
        if not holds(I, WHAS(o.fields['$'].t, t)):
            raise_('KeyError')
        return SInt(WVAL(o.fields['$'].t, t))

    @staticmethod
    def setitem(I, o, k, v):
        t = VMap.key(I, k)
        wm, wm1 = o.fields['$'].t, I.fresh(WMS, 'wm')
        I.fact(All([v_], And(WHAS(wm1, v_) == Or(WHAS(wm, v_), v_ == t), WVAL(wm1, v_) == z3.If(v_ == t, zi(v), WVAL(wm, v_))), patterns=[WHAS(wm1, v_)]))
        I.fact(All([v_], WVAL(wm1, v_) == z3.If(v_ == t, zi(v), WVAL(wm, v_)), patterns=[WVAL(wm1, v_)]))
        o.fields['$'] = SRef(wm1, WMK)

    @staticmethod
    def contains(I, o, k):
        return WHAS(o.fields['$'].t, VMap.key(I, k))

    @staticmethod
    def getattr(I, o, name):
        if name == 'get':
            def get(I, k, d=None):
                return WMap.getitem(I, o, k) if I.decide(WMap.contains(I, o, k)) else d
            return Builtin(name, get)
        if name == 'setdefault':
            def setdefault(I, k, d=None):
                if not I.decide(WMap.contains(I, o, k)):
                    WMap.setitem(I, o, k, d)
                return WMap.getitem(I, o, k)
            return Builtin(name, setdefault)
        return None


def new_wmap(I, pairs):
    if pairs:
        return None
    o = WMap.make(I)
    I.fact(All([v_], Not(WHAS(o.fields['$'].t, v_)), patterns=[WHAS(o.fields['$'].t, v_)]))
    return o


# -- edges of a neighbourhood ----------------------------------------------------------------

class Query(Contract):
    props = ('G14',)


@register
class ExcludeEdge(Query):
    """An element other than the first has a degree above 250."""
    qual = Q + 'exclude_edge'

    def args(self, I):
        return [store(I), an_edge(I)]

    def post(self, I, args, r):
        e = args[1].t
        I.prove(zb(I.truth(r)) == Not(INC(e)), 'excluded exactly if a non-first element has a degree above 250', [BIG(e) - 1])

    def spec(self, I, args):
        return SBool(Not(INC(I.ent_of(args[1]))))


@register
class IncludeEdge(ExcludeEdge):
    qual = Q + 'include_edge'

    def post(self, I, args, r):
        e = args[1].t
        I.prove(zb(I.truth(r)) == INC(e), 'included exactly if no non-first element has a degree above 250', [BIG(e) - 1])

    def spec(self, I, args):
        return SBool(INC(I.ent_of(args[1])))


@register
class Node2Edges(Query):
    qual = Q + 'node2edges'

    def args(self, I):
        hg = store(I)
        a = entity(I, 'node')
        ego_edges(I, a.t)
        return [hg, a]

    def post(self, I, args, r):
        if not isinstance(r, PyList):
            raise Unsupported('edges of an entity: %r' % (r,))
        x = I.fresh(Ent, 'x')
        got = zb(members(I, r)(x))
        want = And(EGO(2, args[1].t, x), INC(x))
        I.prove(Imp(got, want), 'only edges of the neighbourhood')
        hints = [pos(x) for sv, pos, item in I.ghost.get('$enums', ())]
        I.prove(Imp(want, got), 'all of them', hints)

    def spec(self, I, args):
        c = I.ent_of(args[1])
        ego_edges(I, c)
        return PyList(I, SBag(Ent, lambda y: And(EGO(2, c, y), INC(y)), lambda y: SEnt(y)))


def ego_edges(I, c):
    I.fact(All([x_], Imp(EGO(2, c, x_), And(KIND(x_) == 0, ELEN(x_) >= 1)), patterns=[EGO(2, c, x_)]))


@register
class Interedge(Query):
    """Every element but the first is in the set."""
    qual = Q + 'interedge'

    def args(self, I):
        axioms(I)
        f = I.fresh_fun('vertices', Ent, Bool)
        return [an_edge(I), PySet(I, B.edge_set(lambda y: f(y)))]

    def spec(self, I, args):
        m = members(I, args[1])
        I.within = I.within[-3:] + [m]
        return SBool(all_within(I, m)[0](I.ent_of(args[0])))

    def post(self, I, args, r):
        ok, bad = all_within(I, members(I, args[1]))
        e = args[0].t
        I.prove(zb(I.truth(r)) == ok(e), 'exactly if every non-first element is in the set', [bad(e) - 1])


def all_within(I, m):
    """The edges whose non-first elements are all in a set, and the index of an element that is not."""
    body = zb(m(v_))
    key = hashlib.sha256(body.sexpr().encode()).hexdigest()[:16]     # one predicate per set
    ok, bad = F('all_within:' + key, Ent, Bool), F('outside:' + key, Ent, Int)
    in_ = lambda t: z3.substitute(body, (v_, t))
    I.fact(All([e_], Imp(Not(ok(e_)), And(bad(e_) >= 1, bad(e_) < ELEN(e_), Not(in_(EL(e_, bad(e_)))))), patterns=[ok(e_)]))
    I.fact(All([e_, j_], Imp(And(ok(e_), j_ >= 1, j_ < ELEN(e_)), in_(EL(e_, j_))), patterns=[MP(ok(e_), EL(e_, j_))]))
    return ok, bad


# -- the map of entities ---------------------------------------------------------------------

class OfVMap(Query):
    def returned(self, I, args, r):
        if r is not args[0]:
            raise Unsupported('returns something else than the map')

    def grow(self, I, o, has, edm, nb):
        """The map after has, edm, nb were added to it."""
        if getattr(o, 'shared', False):
            raise Unsupported('a change of records that are known under another name')
        vm = o.fields['$'].t
        vm1 = I.fresh(VMS, 'vm')
        self.grown(I, vm, vm1, has, edm, nb)
        o.fields['$'] = SRef(vm1, VMK)

    def grown(self, I, vm, vm1, has, edm, nb):
        I.fact(All([v_], HAS(vm1, v_) == Or(HAS(vm, v_), has(v_)), patterns=[HAS(vm1, v_)]))
        I.fact(All([v_, x_], EDM(vm1, v_, x_) == Or(EDM(vm, v_, x_), edm(v_, x_)), patterns=[EDM(vm1, v_, x_)]))
        I.fact(All([v_, x_], NB(vm1, v_, x_) == Or(NB(vm, v_, x_), nb(v_, x_)), patterns=[NB(vm1, v_, x_)]))

    def start(self, I):
        axioms(I)
        o = VMap.make(I)
        vm = o.fields['$'].t
        I.ghost['$vm0'] = o.fields['$']
        I.fact(All([v_, x_], Imp(Not(HAS(vm, v_)), Not(EDM(vm, v_, x_))), patterns=[EDM(vm, v_, x_)]))
        I.fact(All([v_, x_], Imp(Not(HAS(vm, v_)), Not(NB(vm, v_, x_))), patterns=[NB(vm, v_, x_)]))
        return o

    def compare(self, I, o, has, edm, nb):
        vm, vm1 = I.ghost['$vm0'].t, o.fields['$'].t
        v, x = I.fresh(Ent, 'v'), I.fresh(Ent, 'x')
        I.prove(HAS(vm1, v) == Or(HAS(vm, v), has(v)), 'the entities of the map')
        I.prove(EDM(vm1, v, x) == Or(EDM(vm, v, x), edm(v, x)), 'the edges of each')
        I.prove(NB(vm1, v, x) == Or(NB(vm, v, x), nb(v, x)), 'the neighbours of each')


def under_elements(I):
    """An offer for the loops over the elements of an edge that put it under each."""
    def offer(I, loop, cell, v0, ys):
        o = cell[0]
        if not (isinstance(o, Obj) and o.cls is VMap and cell[1] == '$' and loop.isfor):
            return
        sv = getattr(loop.seq, 'from_set', None)
        e = getattr(loop.seq, 'ent', None)
        if e is not None:
            some = lambda i, v: before(e, i, v)
        elif sv is not None and sv.sort == Ent and I.ghost.get('$edge') is not None:
            e = I.ghost['$edge'].t
            some = lambda i, v: And(zb(sv.mem(v)), loop.seq.pos(v) < i)
        else:
            return
        vm0 = v0.t

        def inv(vm, i):
            return And(All([v_], HAS(vm, v_) == Or(HAS(vm0, v_), some(i, v_)), patterns=[HAS(vm, v_)]),
                       All([v_, x_], EDM(vm, v_, x_) == Or(EDM(vm0, v_, x_), And(x_ == e, some(i, v_))), patterns=[EDM(vm, v_, x_)]),
                       All([v_, x_], NB(vm, v_, x_) == Or(NB(vm0, v_, x_), And(some(i, v_), TAIL(e, x_))), patterns=[NB(vm, v_, x_)]))
        yield HavocRef(I, v0, inv, 'the edge under its first i elements')
    I.form_offers.append(offer)


def vm_form(I, o, has, edm, nb, name, ready=None):
    """An offer: the map after i iterations, by what was added to it."""
    def offer(I, loop, cell, v0, ys):
        if cell[0] is o and cell[1] == '$':
            vm0 = v0.t
            if ready is not None:
                ready(loop)

            def inv(vm, i):
                return And(All([v_], HAS(vm, v_) == Or(HAS(vm0, v_), has(loop, i, v_)), patterns=[HAS(vm, v_)]),
                           All([v_, x_], EDM(vm, v_, x_) == Or(EDM(vm0, v_, x_), edm(loop, i, v_, x_)), patterns=[EDM(vm, v_, x_)]),
                           All([v_, x_], NB(vm, v_, x_) == Or(NB(vm0, v_, x_), nb(loop, i, v_, x_)), patterns=[NB(vm, v_, x_)]))
            yield HavocRef(I, v0, inv, name)
    I.form_offers.append(offer)


@register
class AssocEdge(OfVMap):
    qual = Q + 'vemap_assoc_id_edge'

    def args(self, I):
        return [self.start(I), entity(I, 'vertex'), an_edge(I)]

    def added(self, k, e):
        return lambda v: v == k, lambda v, x: And(v == k, x == e), lambda v, u: And(v == k, TAIL(e, u))

    def post(self, I, args, r):
        self.returned(I, args, r)
        self.compare(I, args[0], *self.added(args[1].t, args[2].t))

    def use(self, I, f, args):
        self.grow(I, args[0], *self.added(I.ent_of(args[1]), I.ent_of(args[2])))
        return args[0]


@register
class PlusEdge(OfVMap):
    qual = Q + 'vemap_plus_edge'

    def args(self, I):
        return [self.start(I), an_edge(I)]

    def prepare(self, I, args):
        I.ghost['$edge'] = args[1]
        under_elements(I)

    def added(self, e):
        return lambda v: ELEMT(e, v), lambda v, x: And(x == e, ELEMT(e, v)), lambda v, u: And(ELEMT(e, v), TAIL(e, u))

    def post(self, I, args, r):
        self.returned(I, args, r)
        self.compare(I, args[0], *self.added(args[1].t))

    def use(self, I, f, args):
        self.grow(I, args[0], *self.added(I.ent_of(args[1])))
        return args[0]


def added_edges(I, mem):
    """What the edges of a set add to the map; a witness for every existential."""
    hx, nx = I.fresh_fun('edge_with', Ent, Ent), I.fresh_fun('edge_between', Ent, Ent, Ent)

    def has(v):
        return And(zb(mem(hx(v))), ELEMT(hx(v), v))

    def nb(v, u):
        w = nx(v, u)
        return And(zb(mem(w)), ELEMT(w, v), TAIL(w, u))
    I.fact(All([x_, v_], Imp(And(zb(mem(x_)), ELEMT(x_, v_)), has(v_)), patterns=[MP(hx(v_), ELEMT(x_, v_))]))
    I.fact(All([x_, v_, u_], Imp(And(zb(mem(x_)), ELEMT(x_, v_), TAIL(x_, u_)), nb(v_, u_)), patterns=[MP(nx(v_, u_), ELEMT(x_, v_), TAIL(x_, u_))]))
    return has, lambda v, x: And(zb(mem(x)), ELEMT(x, v)), nb


@register
class Edges2VMap(OfVMap):
    qual = Q + 'edges2vemap'

    def args(self, I):
        f = I.fresh_fun('edges', Ent, Bool)
        o = self.start(I)
        I.fact(All([x_], Imp(f(x_), And(KIND(x_) == 0, ELEN(x_) >= 1)), patterns=[f(x_)]))
        return [o, PyList(I, SBag(Ent, lambda y: f(y), lambda y: SEnt(y)))]

    def prepare(self, I, args):
        made = {}

        def funs(loop):
            """The first edge with v, the first place of x, the first edge from v to u."""
            if id(loop) not in made:
                it = lambda k: I.ent_of(loop.seq.get(SInt(k)))
                a, b, c = I.fresh_fun('first', Ent, Int), I.fresh_fun('place', Ent, Int), I.fresh_fun('first2', Ent, Ent, Int)
                rng = And(j_ >= 0, j_ < loop.n)
                e = it(j_)
                I.fact(All([j_, v_], Imp(And(rng, ELEMT(e, v_)), And(a(v_) >= 0, a(v_) <= j_, ELEMT(it(a(v_)), v_))), patterns=[ELEMT(e, v_)]))
                I.fact(All([j_], Imp(rng, And(b(e) >= 0, b(e) <= j_, it(b(e)) == e)), patterns=[e]))
                I.fact(All([j_, v_, u_], Imp(And(rng, ELEMT(e, v_), TAIL(e, u_)), And(c(v_, u_) >= 0, c(v_, u_) <= j_, ELEMT(it(c(v_, u_)), v_), TAIL(it(c(v_, u_)), u_))),
                           patterns=[MP(ELEMT(e, v_), TAIL(e, u_))]))
                made[id(loop)] = (it, a, b, c, loop)
            return made[id(loop)][:4]

        def has(loop, i, v):
            it, a, b, c = funs(loop)
            return And(a(v) >= 0, a(v) < i, ELEMT(it(a(v)), v))

        def edm(loop, i, v, x):
            it, a, b, c = funs(loop)
            return And(b(x) >= 0, b(x) < i, it(b(x)) == x, ELEMT(x, v))

        def nb(loop, i, v, u):
            it, a, b, c = funs(loop)
            k = c(v, u)
            return And(k >= 0, k < i, ELEMT(it(k), v), TAIL(it(k), u))
        under_elements(I)
        vm_form(I, args[0], has, edm, nb, 'the first i edges', funs)

    def post(self, I, args, r):
        self.returned(I, args, r)
        self.compare(I, args[0], *added_edges(I, members(I, args[1])))

    def use(self, I, f, args):
        self.grow(I, args[0], *added_edges(I, members(I, args[1])))
        return args[0]


# -- walks -------------------------------------------------------------------------------------

def seeds(I):
    SD = I.fresh(Ent, 'seeds')
    I.assume(And(KIND(SD) == 0, ELEN(SD) >= 1))
    s = SSeq('list', SInt(ELEN(SD)), lambda j: SEnt(EL(SD, zi(j))))
    s.ent = SD
    return SD, PyList(I, s)


def ent_list(I, l):
    s = I.as_seq(l)
    if getattr(s, 'ent', None) is None:
        raise Unsupported('seeds: %r' % (l,))
    return s.ent


def missing(I, SD, p):
    """The first seed that is not in p (the number of seeds if there is none)."""
    f = FM(SD, p)
    I.fact(And(f >= 0, f <= ELEN(SD), Imp(f < ELEN(SD), Not(ELEMT(p, EL(SD, f))))))
    I.fact(All([j_], Imp(And(j_ >= 0, j_ < f), ELEMT(p, EL(SD, j_))), patterns=[EL(SD, j_)]))
    return f


def last(p):
    return EL(p, ELEN(p) - 1)


def walk_def(I, vm, SD, p):
    """The definition of the walks that continue p."""
    done = missing(I, SD, p) == ELEN(SD)
    n = NXT(vm, SD, p, w_)
    I.fact(Imp(done, All([w_], W(vm, SD, p, w_) == (w_ == p), patterns=[W(vm, SD, p, w_)])))
    I.fact(Imp(Not(done), All([w_], Imp(W(vm, SD, p, w_), And(NB(vm, last(p), n), Not(ELEMT(p, n)), W(vm, SD, APP(p, n), w_))), patterns=[W(vm, SD, p, w_)])))
    I.fact(Imp(Not(done), All([w_, u_], Imp(And(NB(vm, last(p), u_), Not(ELEMT(p, u_)), W(vm, SD, APP(p, u_), w_)), W(vm, SD, p, w_)), patterns=[W(vm, SD, APP(p, u_), w_)])))
    I.fact(Imp(And(KIND(p) == 0), All([w_], Imp(W(vm, SD, p, w_), KIND(w_) == 0), patterns=[W(vm, SD, p, w_)])))
    I.fact(All([u_], And(KIND(APP(p, u_)) == 0, ELEN(APP(p, u_)) == ELEN(p) + 1), patterns=[APP(p, u_)]))
    I.fact(All([u_, j_], Imp(And(j_ >= 0, j_ <= ELEN(p)), EL(APP(p, u_), j_) == z3.If(j_ < ELEN(p), EL(p, j_), u_)), patterns=[EL(APP(p, u_), j_)]))
    I.trusted.add('walks: the walks that continue one are its continuations by one step (definition by recursion on a finite graph)')


def closed(vm):
    """Neighbours are entities of the map."""
    return All([v_, x_], Imp(NB(vm, v_, x_), HAS(vm, x_)), patterns=[NB(vm, v_, x_)])


def least_step(I, loop, vm, SD, P):
    """The first step of the loop by which a walk continues P."""
    st = lambda k: I.ent_of(loop.seq.get(SInt(k)))
    lf = I.fresh_fun('first_step', Ent, Int)
    good = lambda u, y: And(NB(vm, last(P), u), Not(ELEMT(P, u)), W(vm, SD, APP(P, u), y))
    I.fact(All([j_, w_], Imp(And(j_ >= 0, j_ < loop.n, good(st(j_), w_)), And(lf(w_) >= 0, lf(w_) <= j_, good(st(lf(w_)), w_))),
               patterns=[W(vm, SD, APP(P, st(j_)), w_)]))
    return good, lf, st


@register
class Walks(Query):
    qual = Q + 'walks'

    def args(self, I):
        axioms(I)
        o = VMap.make(I)
        I.ghost['$vm0'] = o.fields['$']
        SD, nodes = seeds(I)
        P = I.fresh(Ent, 'walk')
        I.assume(And(KIND(P) == 0, ELEN(P) >= 1))
        s = SSeq('list', SInt(ELEN(P)), lambda j: SEnt(EL(P, zi(j))))
        s.ent = P
        I.ghost['$P'], I.ghost['$SD'] = SEnt(P), SEnt(SD)
        f = I.fresh_fun('walks', Ent, Bool)
        I.ghost['$old'] = f
        walk_def(I, o.fields['$'].t, SD, P)
        return [o, nodes, PyList(I, s), PySet(I, B.edge_set(lambda y: f(y)))]

    def pre(self, I, args):
        vm = args[0].fields['$'].t
        p = self.walk(I, args[2])
        return [('the walk ends in an entity of the map', And(ELEN(p) >= 1, HAS(vm, last(p)))), ('neighbours are in the map', closed(vm))]

    def walk(self, I, l):
        s = I.as_seq(l)
        if getattr(s, 'ent', None) is not None:
            return s.ent
        t = I.ent_of(SSeq('tuple', s.n, s.get) if not isinstance(s.n, int) else tuple(s.get(k) for k in range(s.n)))
        s.ent = t
        if isinstance(l, PyList) and isinstance(l.items, list):
            pass
        P = I.ghost.get('$P')
        if P is not None:
            T.ent_ext(I, t, APP(P.t, last(t)))
            last(t)
        return t

    def prepare(self, I, args):
        o, nodes, walk, aw = args
        SD, P, vm, old = I.ghost['$SD'].t, I.ghost['$P'].t, I.ghost['$vm0'].t, I.ghost['$old']

        def offer(I, loop, cell, v0, ys):
            if isinstance(cell[0], Env) and v0 is True and loop.isfor and getattr(loop.seq, 'ent', None) is SD:
                yield loops.Form(lambda i: SBool(FM(SD, P) >= i), name='no seed so far is missing')
            if cell[0] is aw and loop.isfor:
                sv0 = I.set_value(PySet(I, v0))
                old0 = (lambda y: z3.BoolVal(False)) if sv0 is None else (lambda y: zb(sv0.mem(y)))
                sv = getattr(loop.seq, 'from_set', None)
                if sv is not None and sv.sort == Ent:
                    yield loops.Form(lambda i: B.edge_set(lambda y: Or(old0(y), And(zb(sv.mem(y)), loop.seq.pos(y) < zi(i)))), name='the first i are added')
                if id(loop) not in made:
                    made[id(loop)] = (loop, least_step(I, loop, vm, SD, P))
                good, lf, st = made[id(loop)][1]

                def mem(i):
                    return lambda y: Or(old0(y), And(lf(y) >= 0, lf(y) < zi(i), good(st(lf(y)), y)))
                yield loops.Form(lambda i: B.edge_set(mem(i)), name='the walks by the first i steps')
        made = {}
        I.form_offers.append(offer)

    def post(self, I, args, r):
        o, nodes, walk, aw = args
        SD, P, vm, old = I.ghost['$SD'].t, I.ghost['$P'].t, I.ghost['$vm0'].t, I.ghost['$old']
        I.prove(o.fields['$'].t.eq(vm), 'the map is not changed')
        I.prove(getattr(I.as_seq(walk), 'ent', None) is P and getattr(I.as_seq(nodes), 'ent', None) is SD, 'nor the walk or the seeds')
        w = I.fresh(Ent, 'w')
        got = zb(members(I, aw)(w))
        hints = []
        n = NXT(vm, SD, P, w)
        for sv, pos, item in I.ghost.get('$enums', ()):
            if sv.sort == Ent:
                hints.append(pos(n))
        I.prove(Imp(got, Or(old(w), W(vm, SD, P, w))), 'only walks are added')
        I.prove(Imp(Or(old(w), W(vm, SD, P, w)), got), 'every walk is added', hints)

    def use(self, I, f, args):
        o, nodes, walk, aw = args
        if not (isinstance(o, Obj) and o.cls is VMap):
            raise Unsupported('walks on %r' % (o,))
        for name, c in self.pre(I, args):
            I.prove(c, 'precondition of walks: ' + name)
        SD, p, vm = ent_list(I, nodes), self.walk(I, walk), o.fields['$'].t
        I.walked = SD, p, vm
        m0 = members(I, aw)
        I.fact(Imp(KIND(p) == 0, All([w_], Imp(W(vm, SD, p, w_), KIND(w_) == 0), patterns=[W(vm, SD, p, w_)])))
        aw.items = B.edge_set(lambda y: Or(zb(m0(y)), W(vm, SD, p, y)))
        return None


# -- lengths of walks ------------------------------------------------------------------------

def of_steps(I, o, w=None):
    """An offer for the loops over the steps of a walk that note its length."""
    def offer(I, loop, cell, v0, ys):
        c = cell[0]
        if isinstance(c, Obj) and c.cls is WMap and cell[1] == '$' and loop.isfor:
            e = getattr(loop.seq, 'ent', None)
            sv = getattr(loop.seq, 'from_set', None)
            if e is not None:
                some, n = lambda i, v: before(e, i, v), ELEN(e)
            elif sv is not None and sv.sort == Ent and w is not None:
                some, n = lambda i, v: And(zb(sv.mem(v)), loop.seq.pos(v) < i), ELEN(w)
            else:
                return
            yield HavocRef(I, v0, lambda wm, i: shorter(v0.t, wm, lambda v: some(i, v), n), 'the first i steps')
    I.form_offers.append(offer)


def shorter(wm0, wm, has, n):
    """The map wm is wm0 with n for every entity that has, unless it has less already."""
    return And(All([v_], WHAS(wm, v_) == Or(WHAS(wm0, v_), has(v_)), patterns=[WHAS(wm, v_)]),
               All([v_], WVAL(wm, v_) == z3.If(And(has(v_), Or(Not(WHAS(wm0, v_)), n < WVAL(wm0, v_))), n, WVAL(wm0, v_)), patterns=[WVAL(wm, v_)]))


@register
class Walk2WMap(Query):
    qual = Q + 'walk2wmap'

    def args(self, I):
        axioms(I)
        o = WMap.make(I)
        I.ghost['$wm0'] = o.fields['$']
        w = an_edge(I)
        return [o, w]

    def prepare(self, I, args):
        of_steps(I, args[0], args[1].t)

    def post(self, I, args, r):
        wm0, wm, w = I.ghost['$wm0'].t, args[0].fields['$'].t, args[1].t
        v = I.fresh(Ent, 'v')
        has = ELEMT(w, v)
        I.prove(WHAS(wm, v) == Or(WHAS(wm0, v), has), 'the entities of the map')
        I.prove(Imp(WHAS(wm, v), WVAL(wm, v) == z3.If(And(has, Or(Not(WHAS(wm0, v)), ELEN(w) < WVAL(wm0, v))), ELEN(w), WVAL(wm0, v))), 'the length of the shortest walk')

    def use(self, I, f, args):
        o, w = args[0], I.ent_of(args[1])
        wm0, wm = o.fields['$'].t, I.fresh(WMS, 'wm')
        I.fact(shorter(wm0, wm, lambda v: ELEMT(w, v), ELEN(w)))
        o.fields['$'] = SRef(wm, WMK)
        return None


def lengths(I, wm, mem):
    """What the map of lengths of a set of walks is."""
    bw = I.fresh_fun('shortest', Ent, Ent)
    b = bw(v_)
    I.fact(All([v_], Imp(WHAS(wm, v_), And(zb(mem(b)), ELEMT(b, v_), WVAL(wm, v_) == ELEN(b))), patterns=[WHAS(wm, v_)]))
    I.fact(All([w_, v_], Imp(And(zb(mem(w_)), ELEMT(w_, v_)), And(WHAS(wm, v_), WVAL(wm, v_) <= ELEN(w_))), patterns=[ELEMT(w_, v_)]))


@register
class Walks2WMap(Query):
    qual = Q + 'walks2wmap'

    def args(self, I):
        axioms(I)
        I.dict_hook = new_wmap
        f = I.fresh_fun('walks', Ent, Bool)
        I.fact(All([w_], Imp(f(w_), KIND(w_) == 0), patterns=[f(w_)]))
        I.ghost['$walks'] = f
        return [PySet(I, B.edge_set(lambda y: f(y)))]

    def prepare(self, I, args):
        of_steps(I, None)
        made = {}

        def offer(I, loop, cell, v0, ys):
            o = cell[0]
            if not (isinstance(o, Obj) and o.cls is WMap and cell[1] == '$' and loop.isfor):
                return
            if id(loop) not in made:
                it = lambda k: I.ent_of(loop.seq.get(SInt(k)))
                first, best = I.fresh_fun('first', Ent, Int), I.fresh_fun('best', Int, Ent, Int)
                rng = And(j_ >= 0, j_ < loop.n)
                m_ = z3.Int('m$i')
                e = it(j_)
                I.fact(All([j_, v_], Imp(And(rng, ELEMT(e, v_)), And(first(v_) >= 0, first(v_) <= j_, ELEMT(it(first(v_)), v_))), patterns=[ELEMT(e, v_)]))
                b = best(m_, v_)
                I.fact(All([m_, v_], Imp(And(first(v_) >= 0, first(v_) < m_, ELEMT(it(first(v_)), v_)), And(b >= 0, b < m_, ELEMT(it(b), v_))), patterns=[b]))
                I.fact(All([m_, j_, v_], Imp(And(rng, j_ < m_, ELEMT(e, v_)), ELEN(it(b)) <= ELEN(e)), patterns=[MP(b, ELEMT(e, v_))]))
                made[id(loop)] = loop, it, first, best
            loop, it, first, best = made[id(loop)]

            def inv(wm, i):
                has = And(first(v_) >= 0, first(v_) < i, ELEMT(it(first(v_)), v_))
                return And(All([v_], WHAS(wm, v_) == has, patterns=[WHAS(wm, v_)]),
                           All([v_], Imp(has, WVAL(wm, v_) == ELEN(it(best(i, v_)))), patterns=[WVAL(wm, v_)]))
            yield HavocRef(I, v0, inv, 'the first i walks')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        if not (isinstance(r, Obj) and r.cls is WMap):
            raise Unsupported('lengths: %r' % (r,))
        S, wm = I.ghost['$walks'], r.fields['$'].t
        v, w = I.fresh(Ent, 'v'), I.fresh(Ent, 'w')
        enums = I.ghost.get('$enums', ())
        I.prove(Imp(And(S(w), ELEMT(w, v)), And(WHAS(wm, v), WVAL(wm, v) <= ELEN(w))), 'no walk is shorter', [pos(w) for sv, pos, item in enums])
        x = z3.Const('x$w', Ent)
        I.prove(Imp(WHAS(wm, v), z3.Exists([x], And(S(x), ELEMT(x, v), WVAL(wm, v) == ELEN(x)))), 'the length of a walk')

    def use(self, I, f, args):
        o = WMap.make(I)
        lengths(I, o.fields['$'].t, members(I, args[0]))
        return o


def valid_axioms(I):
    e, v, s = w_, v_, e_
    m = z3.Const('m$i', WMS)
    I.fact(All([m, s, e, v], Imp(And(OKW(m, s, e), ELEMT(e, v)), Or(ELEMT(s, v), ELEN(e) == WVAL(m, v))), patterns=[MP(OKW(m, s, e), ELEMT(e, v))]))
    k = BADK(m, s, e)
    I.fact(All([m, s, e], Imp(Not(OKW(m, s, e)), And(k >= 0, k < ELEN(e), Not(ELEMT(s, EL(e, k))), ELEN(e) != WVAL(m, EL(e, k)))), patterns=[OKW(m, s, e)]))


@register
class ValidWalk(Query):
    """Every step is a seed, or its shortest walk is as long as this one."""
    qual = Q + 'valid_walk'

    def args(self, I):
        axioms(I)
        valid_axioms(I)
        SD, nodes = seeds(I)
        return [WMap.make(I), nodes, an_edge(I)]

    def pre(self, I, args):
        return [('every step is a seed or has a length', All([v_], Imp(ELEMT(args[2].t, v_), Or(ELEMT(ent_list(I, args[1]), v_), WHAS(args[0].fields['$'].t, v_))), patterns=[ELEMT(args[2].t, v_)]))]

    def post(self, I, args, r):
        wm, SD, w = args[0].fields['$'].t, ent_list(I, args[1]), args[2].t
        I.prove(zb(I.truth(r)) == OKW(wm, SD, w), 'exactly if it counts', [BADK(wm, SD, w)])

    def use(self, I, f, args):
        valid_axioms(I)
        wm, SD, w = args[0].fields['$'].t, ent_list(I, args[1]), I.ent_of(args[2])
        v = I.fresh(Ent, 'v')
        I.prove(Imp(ELEMT(w, v), Or(ELEMT(SD, v), WHAS(wm, v))), 'precondition of valid_walk: every step is a seed or has a length')
        if not any(a.eq(wm) and b.eq(SD) for a, b in I.lengths):
            I.lengths = I.lengths + [(wm, SD)]
        return SBool(OKW(wm, SD, w))


# -- intersect ---------------------------------------------------------------------------------

@register
class Intersect(Query):
    qual = Q + 'intersect'

    def args(self, I):
        hg = store(I)
        I.dict_hook, I.bags = new_vmap, True
        I.walked, I.lengths, I.within = None, [], []
        I.retry = 2000
        SD, nodes = seeds(I)
        I.ghost['$SD'] = SEnt(SD)
        I.fact(All([x_, v_], Imp(EGO(2, v_, x_), And(KIND(x_) == 0, ELEN(x_) >= 1)), patterns=[EGO(2, v_, x_)]))
        return [hg, nodes]

    def found(self, SD):
        return lambda k, x: And(EGO(2, EL(SD, k), x), INC(x))

    def prepare(self, I, args):
        SD = I.ghost['$SD'].t
        F_ = self.found(SD)
        hk, hx = I.fresh_fun('first', Ent, Int), I.fresh_fun('edge_with', Ent, Ent)
        nk, nx = I.fresh_fun('first2', Ent, Ent, Int), I.fresh_fun('edge_between', Ent, Ent, Ent)
        ek = I.fresh_fun('seed_of', Ent, Int)
        I.ghost['$ek'] = ek
        rng = And(j_ >= 0, j_ < ELEN(SD))
        trig = EGO(2, EL(SD, j_), x_)
        I.fact(All([j_, x_], Imp(And(rng, F_(j_, x_)), And(ek(x_) >= 0, ek(x_) <= j_, F_(ek(x_), x_))), patterns=[trig]))
        I.fact(All([j_, x_, v_], Imp(And(rng, F_(j_, x_), ELEMT(x_, v_)), And(hk(v_) >= 0, hk(v_) <= j_, F_(hk(v_), hx(v_)), ELEMT(hx(v_), v_))), patterns=[MP(hk(v_), trig, ELEMT(x_, v_))]))
        w = nx(v_, u_)
        I.fact(All([j_, x_, v_, u_], Imp(And(rng, F_(j_, x_), ELEMT(x_, v_), TAIL(x_, u_)), And(nk(v_, u_) >= 0, nk(v_, u_) <= j_, F_(nk(v_, u_), w), ELEMT(w, v_), TAIL(w, u_))),
                   patterns=[MP(nk(v_, u_), trig, ELEMT(x_, v_), TAIL(x_, u_))]))

        def offer(I, loop, cell, v0, ys):
            o = cell[0]
            if isinstance(o, Obj) and o.cls is VMap and cell[1] == '$' and loop.isfor:
                vm0 = v0.t

                def inv(vm, i):
                    return And(
                        All([v_], HAS(vm, v_) == Or(HAS(vm0, v_), And(hk(v_) >= 0, hk(v_) < i, F_(hk(v_), hx(v_)), ELEMT(hx(v_), v_))), patterns=[HAS(vm, v_)]),
                        All([v_, x_], EDM(vm, v_, x_) == Or(EDM(vm0, v_, x_), And(ek(x_) >= 0, ek(x_) < i, F_(ek(x_), x_), ELEMT(x_, v_))), patterns=[EDM(vm, v_, x_)]),
                        All([v_, u_], NB(vm, v_, u_) == Or(NB(vm0, v_, u_), And(nk(v_, u_) >= 0, nk(v_, u_) < i, F_(nk(v_, u_), w), ELEMT(w, v_), TAIL(w, u_))), patterns=[NB(vm, v_, u_)]))
                yield HavocRef(I, v0, inv, 'the edges of the first i seeds')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        if I.walked is None or not isinstance(r, PyList):
            raise Unsupported('no walks')
        SD, (seeds_, p, vm) = I.ghost['$SD'].t, I.walked
        F_, ek = self.found(SD), I.ghost['$ek']
        E = lambda x: And(ek(x) >= 0, ek(x) < ELEN(SD), F_(ek(x), x))
        S = lambda w: W(vm, SD, p, w)
        I.prove(And(seeds_ == SD, ELEN(p) == 1, EL(p, 0) == EL(SD, 0)), 'the walks start at the first seed and end on having met the seeds')
        # steps go along the edges that were found
        v, u, x = I.fresh(Ent, 'v'), I.fresh(Ent, 'u'), I.fresh(Ent, 'x')
        I.prove(Imp(And(E(x), ELEMT(x, v), TAIL(x, u)), NB(vm, v, u)), 'a step along every edge of a neighbourhood')
        y = z3.Const('y$w', Ent)
        I.prove(Imp(NB(vm, v, u), z3.Exists([y], And(E(y), ELEMT(y, v), TAIL(y, u)))), 'no other steps')
        # which walks count, which entities are on them, which edges are within
        cnt, cv, cw = I.fresh_fun('counts', Ent, Bool), I.fresh_fun('step', Ent, Ent), I.fresh_fun('shorter', Ent, Ent)
        I.fact(All([w_], Imp(cnt(w_), S(w_)), patterns=[cnt(w_)]))
        I.fact(All([w_, v_, u_], Imp(And(cnt(w_), ELEMT(w_, v_), Not(ELEMT(SD, v_)), S(u_), ELEMT(u_, v_)), ELEN(w_) <= ELEN(u_)), patterns=[MP(cnt(w_), ELEMT(w_, v_), ELEMT(u_, v_))]))
        I.fact(All([w_], Imp(And(S(w_), Not(cnt(w_))), And(ELEMT(w_, cv(w_)), Not(ELEMT(SD, cv(w_))), S(cw(w_)), ELEMT(cw(w_), cv(w_)), ELEN(cw(w_)) < ELEN(w_))), patterns=[cnt(w_)]))
        on, ow = I.fresh_fun('on_a_walk', Ent, Bool), I.fresh_fun('walk_of', Ent, Ent)
        I.fact(All([v_], Imp(on(v_), And(cnt(ow(v_)), ELEMT(ow(v_), v_))), patterns=[on(v_)]))
        I.fact(All([w_, v_], Imp(And(cnt(w_), ELEMT(w_, v_)), on(v_)), patterns=[MP(cnt(w_), ELEMT(w_, v_))]))
        ok, bad = all_within(I, lambda t: on(t))
        got = zb(members(I, r)(x))
        w = I.fresh(Ent, 'w')
        valid_axioms(I)
        for wm, s_ in I.lengths:
            self.same(I, w, w_, lambda t: And(S(t), OKW(wm, s_, t)), lambda t: And(S(t), cnt(t)), [OKW(wm, s_, w_), cnt(w_)])
        for m in I.within:
            all_within(I, m)
            self.same(I, v, v_, lambda t: zb(m(t)), on, [on(v_)] + [t for t in [zb(m(v_))] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED])
        I.prove(Imp(got, E(x)), 'only edges of the neighbourhoods')
        I.prove(Imp(got, ok(x)), 'only edges between entities on walks that count')
        I.lemma(Imp(E(x), And(HAS(vm, EL(x, 0)), EDM(vm, EL(x, 0), x))))
        I.prove(Imp(And(E(x), ok(x)), got), 'every such edge')

    def same(self, I, c, var, f, g, patterns):
        """Two predicates that are seen to be the same are taken to be the same."""
        for a, b in ((f, g), (g, f)):
            if I.valid(Imp(a(c), b(c))):
                I.fact(All([var], Imp(a(var), b(var)), patterns=patterns))
