"""Contracts of the stages on trees: gb/knowledge/stages/epsilon.py (K05), beta.py (K02),
with the methods of gb/knowledge/semantic_tree.py they use."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint, mkbool
from .. import backend as B
from .. import refs
from .. import theory as T
from .nlp import TOKEN, TokSort, WORD, DEP, ETYPE, NOETYPE

ST = 'gb.knowledge.semantic_tree.'
STG = 'gb.knowledge.stages.'
ElemSort = z3.DeclareSort('Elem')


def efun(name, *sorts):
    return z3.Function('Elem.' + name, ElemSort, *sorts)


ISNODE, NCH, CHID, TOK = efun('isnode', Bool), efun('children', Int), efun('child_id', Int, Int), efun('token', TokSort)
NS, COMP = efun('namespace', Str), efun('compound', Bool)
AT = z3.Function('Elem.at', Int, ElemSort)                 # the element of an id


class ElemKind(refs.InstKind):
    def __init__(self, name, attrs, sort, sets):
        refs.InstKind.__init__(self, name, None, attrs, sort, sets)

    def cls_of(self, I, o):
        c = I.find(ST + ('Node' if I.decide(ISNODE(o.t)) else 'Leaf'))
        if not isinstance(c, ClassVal):
            raise Unsupported('no class of elements')
        return c


def only(node, f):
    """A field that only nodes (only leaves) have."""
    def g(I, o):
        from ..externs import raise_
        if I.decide(ISNODE(o.t)) != node:
            raise_('AttributeError')
        return f(I, o)
    return g


def elem_type(I, o):
    return I.find(ST + ('NODE' if I.decide(ISNODE(o.t)) else 'LEAF'))


def set_namespace(I, o, v):
    f = I.ghost['$ns']
    v = I.unopt(v) if isinstance(v, SOpt) else v
    good = isinstance(v, (str, SStr)) and I.valid(zi(I.length(v)) >= 1)
    I.ghost['$ns'] = SFun([ElemSort], lambda x: z3.If(x == o.t, z3.BoolVal(good), zb(f(x))))


def set_compound(I, o, v):
    f = I.ghost['$comp']
    b = zb(I.truth(v))
    if not I.decide(ISNODE(o.t)):
        raise Unsupported('a leaf that is a compound')
    I.ghost['$comp'] = SFun([ElemSort], lambda x: z3.If(x == o.t, b, zb(f(x))))


def get_namespace(I, o):
    if '$ns' in I.ghost:
        raise Unsupported('the namespace is read')
    return SStr([NS(o.t)])


ELEM = ElemKind('element', {
    'type': elem_type, 'tree': lambda I, o: I.ghost['$tree'], 'id': lambda I, o: Opaque('the id of an element'),
    'namespace': get_namespace, 'token': only(False, lambda I, o: SRef(TOK(o.t), TOKEN)),
    'children_ids': only(True, lambda I, o: SSeq('list', SInt(NCH(o.t)), lambda j: SInt(CHID(o.t, zi(j))))),
    '_Node__compound': only(True, lambda I, o: mkbool(zb(I.ghost['$comp'](o.t)))),
}, ElemSort, {'namespace': set_namespace, '_Node__compound': set_compound})

LS = refs.LSeq('ElemSeq', ElemSort, lambda t: SRef(t, ELEM))
LEAVES, PRE = efun('leaves', LS.sort), efun('leaves_of_first', Int, LS.sort)
WORDSQ = efun('words', T.SSQ)


class Table:
    """The elements by their ids."""
    name = 'table'

    @staticmethod
    def getitem(I, o, k):
        if not isinstance(k, (int, SInt)):
            raise Unsupported('id of an element')
        return SRef(AT(zi(k)), ELEM)

    @staticmethod
    def getattr(I, o, name):
        return None


x_, y_, j_ = z3.Const('x$', ElemSort), z3.Const('y$', ElemSort), z3.Int('j$')


def kid(x, j):
    return AT(CHID(x, j))


def a_tree(I):
    I.fact(z3.ForAll([x_], NCH(x_) >= 0, patterns=[NCH(x_)]))
    t = Obj(I, I.find(ST + 'Tree'), {'root_id': SInt(I.fresh(Int, 'root')), 'cur_id': SInt(I.fresh(Int, 'cur')), 'table': Obj(I, Table)})
    I.ghost['$tree'] = t
    I.ghost['$comp'] = SFun([ElemSort], lambda x: COMP(x))
    I.trusted.add('trees: every child id of a node is the id of an element; the fields of an element are what its constructor and the stages set (type: contracts of the constructors)')
    return t


class Made(Contract):
    """The constructors of elements: the kind of the element, and what it holds."""
    props = ('K02', 'K03', 'K05')
    cls, const = None, None

    def args(self, I):
        o = Obj(I, I.find(ST + self.cls), {})
        return [o, self.arg(I)]

    def post(self, I, args, r):
        o = args[0]
        I.prove(zb(I.veq(o.fields.get('type'), I.find(ST + self.const))), 'the kind')
        I.prove(o.fields.get(self.holds) is args[1], 'what it holds')
        I.prove(I.find(ST + 'LEAF') != I.find(ST + 'NODE'), 'two kinds')


@register
class LeafInit(Made):
    qual = ST + 'Leaf.__init__'
    cls, const, holds = 'Leaf', 'LEAF', 'token'

    def arg(self, I):
        return SRef(I.fresh(TokSort, 't'), TOKEN)


@register
class NodeInit(Made):
    qual = ST + 'Node.__init__'
    cls, const, holds = 'Node', 'NODE', 'children_ids'

    def arg(self, I):
        f = I.fresh_fun('ids', Int, Int)
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        return PyList(I, SSeq('list', SInt(n), lambda j: SInt(f(zi(j)))))

    def post(self, I, args, r):
        Made.post(self, I, args, r)
        c = args[0].fields.get('_Node__compound')
        I.prove(c is False, 'no compound')


# -- the edge of a tree (K05) -----------------------------------------------------------

EP = STG + 'epsilon.EpsilonStage.'
RES = efun('edge', z3.DeclareSort('EdgeOf'))               # what an element becomes
RESULT = RefKind('edge of an element', sort=RES.range())


def leaves_axioms(I):
    LS.axioms(I)
    I.fact(z3.ForAll([x_], PRE(x_, 0) == LS.EMPTY, patterns=[PRE(x_, 0)]))
    I.fact(z3.ForAll([x_], LEAVES(x_) == z3.If(ISNODE(x_), PRE(x_, NCH(x_)), LS.UNIT(x_)), patterns=[LEAVES(x_)]))


def are_leaves(q):
    return z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < LS.LEN(q)), z3.Not(ISNODE(LS.AT(q, j_)))), patterns=[LS.AT(q, j_)])


def stage(I, q):
    t = a_tree(I)
    o = I.instantiate(I.find(q.rstrip('.')), [B.token(I), t], {})
    I.ghost['$frame'] = tuple((x, dict(x.fields)) for x in (o, t))
    return o


def frame(I):
    """The stage and the tree object are as before."""
    for x, fields in I.ghost['$frame']:
        I.prove(set(x.fields) == set(fields) and all(x.fields[k] is fields[k] for k in fields), 'the stage and the tree keep their fields')


@register
class CompoundLeaves(Contract):
    qual = EP + 'compound_entity_to_leafs'
    props = ('K05',)

    def args(self, I):
        leaves_axioms(I)
        return [stage(I, EP), ELEM.fresh(I)]

    def prepare(self, I, args):
        e = args[1].t

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if isinstance(cell[0], PyList):
                def at(i):
                    I.fact(z3.Implies(zi(i) >= 0, PRE(e, zi(i) + 1) == LS.CAT(PRE(e, zi(i)), LEAVES(kid(e, zi(i))))))
                    return LS.value(PRE(e, zi(i)))
                yield loops.Form(at, dom=lambda i: are_leaves(PRE(e, zi(i))), name='the leaves of the first i children')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        q = LEAVES(args[1].t)
        frame(I)
        I.prove(zb(I.veq(r, PyList(I, LS.value(q)))), 'the leaves in order')
        I.prove(are_leaves(q), 'leaves only')

    def use(self, I, f, args):
        leaves_axioms(I)
        q = LEAVES(args[1].t)
        I.assume(z3.And(are_leaves(q), LS.LEN(q) >= 0))
        return PyList(I, LS.value(q))


@register
class BuildEdges(Contract):
    qual = EP + 'build_hyperedges'
    props = ('K05',)

    def args(self, I):
        return [stage(I, EP), ELEM.fresh(I)]

    def prepare(self, I, args):
        e = args[1].t
        q = WORDSQ(e)
        leaves_axioms(I)
        I.fact(SQL_words(e))
        I.fact(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < T.SQL(q)), T.SQA(q, j_) == WORD(TOK(LS.AT(LEAVES(e), j_)))), patterns=[T.SQA(q, j_)]))
        I.ghost['$ssq'] = (q,)

    def post(self, I, args, r):
        e = args[1].t
        frame(I)
        if not (isinstance(r, PyDict) and 'main_edge' in r.items):
            raise Unsupported('how an edge is returned')
        v = r.items['main_edge']
        if not I.decide(ISNODE(e)):
            I.prove(isinstance(v, (str, SStr)) and zb(I.veq(v, SStr([WORD(TOK(e)), '/', NS(e)]))), 'a leaf becomes the symbol of its word and namespace')
        elif I.decide(COMP(e)):
            want = SStr([T.join_term(I, '_', WORDSQ(e)), '/?'])
            I.prove(isinstance(v, (str, SStr)) and zb(I.veq(v, want)), 'a compound becomes the symbol of its words in order')
        else:
            want = SSeq('tuple', SInt(NCH(e)), lambda j: SRef(RES(kid(e, zi(j))), RESULT))
            I.prove(isinstance(v, (tuple, SSeq)) and zb(I.veq(v, want)), 'a node becomes the tuple of what its children become')

    def use(self, I, f, args):
        return PyDict(I, {'main_edge': SRef(RES(args[1].t), RESULT)})


def SQL_words(e):
    return T.SQL(WORDSQ(e)) == LS.LEN(LEAVES(e))


@register
class EdgeOfTree(Contract):
    qual = EP + 'process'
    props = ('K05',)

    def args(self, I):
        return [stage(I, EP)]

    def post(self, I, args, r):
        root = AT(zi(I.ghost['$tree'].fields['root_id']))
        I.prove(isinstance(r, SRef) and zb(I.veq(r, SRef(RES(root), RESULT))), 'what the root becomes')


# -- marking compounds (K02) ----------------------------------------------------------

BT = STG + 'beta.BetaStage.'
BELOW = efun('below', ElemSort, Bool)           # reflexive: the elements of the subtree
WHICH = efun('which_child', ElemSort, Int)      # the first child below which it is
DEPS = efun('only_compound_dependencies', Bool)
NOTDEP = efun('child_without', Int)
COMPOUND_DEPS = ('pobj', 'compound', 'dobj', 'nsubj')


def below_axioms(I):
    """The definition of the subtree, and the first child with an element."""
    w = WHICH(x_, y_)
    I.fact(z3.ForAll([x_, y_], BELOW(x_, y_) == z3.Or(x_ == y_, z3.And(ISNODE(x_), w >= 0, w < NCH(x_), BELOW(kid(x_, w), y_))), patterns=[BELOW(x_, y_)]))


def first_child(I, e):
    """An element below a child of e is below the first child that has it."""
    below_axioms(I)
    I.fact(z3.ForAll([y_, j_], z3.Implies(z3.And(ISNODE(e), j_ >= 0, j_ < NCH(e), BELOW(kid(e, j_), y_)),
                                          z3.And(WHICH(e, y_) >= 0, WHICH(e, y_) <= j_, BELOW(kid(e, WHICH(e, y_)), y_))), patterns=[BELOW(kid(e, j_), y_)]))


def deps_def(I, e):
    """Every leaf below has a dependency of compounds."""
    leaf = z3.Or(*[DEP(TOK(x_)) == I.sterm(s) for s in COMPOUND_DEPS])
    w = NOTDEP(e)
    I.fact(z3.ForAll([x_], z3.Implies(z3.Not(ISNODE(x_)), DEPS(x_) == leaf), patterns=[DEPS(x_)]))
    I.fact(z3.Implies(z3.And(ISNODE(e), z3.Not(DEPS(e))), z3.And(w >= 0, w < NCH(e), z3.Not(DEPS(kid(e, w))))))
    I.fact(z3.ForAll([j_], z3.Implies(z3.And(ISNODE(e), DEPS(e), j_ >= 0, j_ < NCH(e)), DEPS(kid(e, j_))), patterns=[CHID(e, j_)]))


def one_type(I, e, w):
    """The children of the node are leaves with the same non-empty type; w: the first that is not."""
    def has(j):
        t = TOK(kid(e, j))
        return z3.And(z3.Not(ISNODE(kid(e, j))), z3.Not(NOETYPE(t)), LEN(ETYPE(t)) > 0, ETYPE(t) == ETYPE(TOK(kid(e, z3.IntVal(0)))))
    r = ONETYPE(e)
    I.fact(z3.ForAll([j_], z3.Implies(z3.And(r, j_ >= 0, j_ < NCH(e)), has(j_)), patterns=[CHID(e, j_)]))
    I.fact(z3.Implies(z3.Not(r), z3.And(w >= 0, w < NCH(e), z3.Not(has(w)))))
    return r


ONETYPE = efun('one_entity_type', Bool)
OTHER = efun('child_of_other_type', Int)
MARKED = efun('marked', Bool)


def marked(e):
    return z3.Or(ONETYPE(e), DEPS(e))


def a_node(I):
    e = ELEM.fresh(I)
    I.assume(z3.And(ISNODE(e.t), NCH(e.t) >= 1))
    return e


NODES = 'no node of the tree is empty'


def nodes_have_children(I):
    I.fact(z3.ForAll([x_], z3.Implies(ISNODE(x_), NCH(x_) >= 1), patterns=[ISNODE(x_)]))
    I.trusted.add(NODES)


def beta(I):
    o = stage(I, BT)
    nodes_have_children(I)
    return o


@register
class ByDeps(Contract):
    qual = BT + 'is_compound_by_deps'
    props = ('K02',)

    def args(self, I):
        o = beta(I)
        e = a_node(I)
        deps_def(I, e.t)
        return [o, e]

    def pre(self, I, args):
        return [('a node', ISNODE(args[1].t))]

    def spec(self, I, args):
        return mkbool(DEPS(args[1].t))

    def post(self, I, args, r):
        e = args[1].t
        frame(I)
        I.prove(zb(I.truth(r)) == DEPS(e), 'every leaf below has a dependency of compounds')


@register
class ByType(Contract):
    qual = STG + 'beta.is_compound_by_entity_type'
    props = ('K02',)

    def args(self, I):
        a_tree(I)
        nodes_have_children(I)
        e = a_node(I)
        one_type(I, e.t, OTHER(e.t))
        return [e]

    def pre(self, I, args):
        return [('a node with children', z3.And(ISNODE(args[0].t), NCH(args[0].t) >= 1))]

    def spec(self, I, args):
        return mkbool(ONETYPE(args[0].t))

    def post(self, I, args, r):
        I.prove(zb(I.truth(r)) == ONETYPE(args[0].t), 'the children are leaves of one entity type')


@register
class CompoundSetter(Contract):
    qual = ST + 'Node.compound.setter'
    props = ('K02', 'K03')

    def args(self, I):
        beta(I)
        e = a_node(I)
        first_child(I, e.t)
        return [e, SBool(I.fresh(Bool, 'c'))]

    def prepare(self, I, args):
        e, b = args[0].t, args[1].t
        f0 = I.ghost['$comp']

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is loops.GHOST and cell[1] == '$comp':
                yield loops.Havoc(I, v0, Bool, lambda f, i: spread(e, b, f0, f, i), 'compounds below the first i children')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        e, b = args[0].t, args[1].t
        f0, f = SFun([ElemSort], lambda x: COMP(x)), I.ghost['$comp']
        I.prove(below_set(e, b, f0, f), 'the nodes below it, and no others, are set')

    def use(self, I, f, args):
        e, v = args
        I.prove(ISNODE(e.t), 'precondition of compound: a node')
        if '$h' in I.ghost:
            return               # K03: only the marks change, and they are not looked at
        f0 = I.ghost['$comp']
        g = I.fresh_fun('comp', ElemSort, Bool)
        f1 = SFun([ElemSort], lambda x: g(x))
        I.assume(below_set(e.t, zb(I.truth(v)), f0, f1))
        I.ghost['$comp'] = f1


def values(f):
    """The value at x as a pattern, where it is one."""
    t = zb(f(x_))
    return [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() else []


def below_set(e, b, f0, f):
    return z3.ForAll([x_], z3.Implies(ISNODE(x_), zb(f(x_)) == z3.If(BELOW(e, x_), b, zb(f0(x_)))), patterns=[BELOW(e, x_)] + values(f))


def spread(e, b, f0, f, i):
    """The node, and the nodes below its first i children, are set; what is not below it is as before."""
    w = WHICH(e, x_)
    done = z3.Or(x_ == e, z3.And(w >= 0, w < i, BELOW(kid(e, w), x_)))
    return z3.ForAll([x_], z3.Implies(ISNODE(x_), zb(f(x_)) == z3.If(done, b, zb(f0(x_)))), patterns=[BELOW(e, x_), w] + values(f))


@register
class Process(Contract):
    qual = BT + 'process_entity'
    props = ('K02',)

    def args(self, I):
        o = beta(I)
        k = I.fresh(Int, 'id')
        e = AT(k)
        first_child(I, e)
        g = I.fresh_fun('named', ElemSort, Bool)
        I.ghost['$ns'] = SFun([ElemSort], lambda x: g(x))
        I.ghost['$before'] = (I.ghost['$ns'], I.ghost['$comp'])
        return [o, SInt(k)]

    def prepare(self, I, args):
        e = AT(zi(args[1]))
        n0, c0 = I.ghost['$before']

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is loops.GHOST and cell[1] == '$ns':
                yield loops.Havoc(I, v0, Bool, lambda f, i: so_far(e, z3.BoolVal(True), n0, f, i), 'named are those below the first i children')
            if cell[0] is loops.GHOST and cell[1] == '$comp':
                yield loops.Havoc(I, v0, Bool, lambda f, i: marked_so_far(e, c0, f, i), 'marked are those below the first i children')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        e = AT(zi(args[1]))
        n0, c0 = I.ghost['$before']
        frame(I)
        a, b = result(e, n0, I.ghost['$ns'], c0, I.ghost['$comp'])
        I.prove(a, 'every element below has a namespace, no other changes')
        I.prove(b, 'the nodes below are marked if they are compounds, no other changes')

    def use(self, I, f, args):
        e = AT(zi(args[1]))
        first_child(I, e)
        n0, c0 = I.ghost['$ns'], I.ghost['$comp']
        g, h = I.fresh_fun('named', ElemSort, Bool), I.fresh_fun('comp', ElemSort, Bool)
        n1, c1 = SFun([ElemSort], lambda x: g(x)), SFun([ElemSort], lambda x: h(x))
        for c in result(e, n0, n1, c0, c1):
            I.assume(c)
        I.ghost['$ns'], I.ghost['$comp'] = n1, c1


def done(e, i):
    w = WHICH(e, x_)
    return z3.Or(x_ == e, z3.And(w >= 0, w < i, BELOW(kid(e, w), x_)))


def so_far(e, b, f0, f, i):
    return z3.ForAll([x_], zb(f(x_)) == z3.If(done(e, i), b, zb(f0(x_))), patterns=[BELOW(e, x_), WHICH(e, x_)] + values(f))


def marked_so_far(e, f0, f, i):
    """Marked right: the node, and the nodes below its first i children; below the others anything; what is not below it is as before."""
    return z3.ForAll([x_], z3.Implies(ISNODE(x_), z3.And(z3.Implies(done(e, i), zb(f(x_)) == marked(x_)),
                                                         z3.Implies(z3.Not(BELOW(e, x_)), zb(f(x_)) == zb(f0(x_))))), patterns=[BELOW(e, x_), WHICH(e, x_)] + values(f))


def result(e, n0, n, c0, c):
    return (z3.ForAll([x_], zb(n(x_)) == z3.If(BELOW(e, x_), True, zb(n0(x_))), patterns=[BELOW(e, x_)] + values(n)),
            z3.ForAll([x_], z3.Implies(ISNODE(x_), zb(c(x_)) == z3.If(BELOW(e, x_), marked(x_), zb(c0(x_)))), patterns=[BELOW(e, x_)] + values(c)))


@register
class Beta(Contract):
    qual = BT + 'process'
    props = ('K02',)

    def args(self, I):
        o = beta(I)
        g = I.fresh_fun('named', ElemSort, Bool)
        I.ghost['$ns'] = SFun([ElemSort], lambda x: g(x))
        t = I.ghost['$tree']
        I.ghost['$root'] = t.fields['root_id']
        return [o]

    def post(self, I, args, r):
        t = I.ghost['$tree']
        I.prove(r is t, 'the same tree')
        I.prove(t.fields['root_id'] is I.ghost['$root'], 'the same root')
        root = AT(zi(I.ghost['$root']))
        n, c = I.ghost['$ns'], I.ghost['$comp']
        I.prove(z3.ForAll([x_], z3.Implies(BELOW(root, x_), zb(n(x_)))), 'every element has a namespace')
        I.prove(z3.ForAll([x_], z3.Implies(z3.And(BELOW(root, x_), ISNODE(x_)), zb(c(x_)) == marked(x_))), 'a node is marked exactly if it is a compound')
