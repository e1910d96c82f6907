"""Contracts of the WordNet reader (R01): gb/readers/wordnet.py.

The beliefs recorded so far are a set of edges, $said; $stored is what does not wait in a buffer."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint
from ..externs import lib, LIB
from .. import theory as T

W = 'gb.readers.wordnet.'
SynSort, LemSort = z3.DeclareSort('Synset'), z3.DeclareSort('Lemma')
SREL = {'hypernyms': 'hypernym/gb', 'instance_hypernyms': 'instance_hypernym/gb', 'member_meronyms': 'member_meronym/gb', 'attributes': 'attribute/gb',
        'entailments': 'entailment/gb', 'causes': 'cause/gb', 'also_sees': 'also_see/gb', 'verb_groups': 'verb_group/gb', 'similar_tos': 'similar_to/gb'}
LREL = {'antonyms': 'antonym/gb', 'pertainyms': 'pertainym/gb', 'derivationally_related_forms': 'derivationally_related_form/gb'}
OTHERS = ('hyponyms', 'instance_hyponyms', 'part_meronyms', 'substance_meronyms', 'member_holonyms', 'part_holonyms', 'substance_holonyms')
OTHERL = ('hypernyms', 'hyponyms', 'verb_groups', 'also_sees', 'similar_tos')
POSS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}

NLEM, LEM = z3.Function('Synset.n_lemmas', SynSort, Int), z3.Function('Synset.lemma', SynSort, Int, LemSort)
SNAME, SPOS = z3.Function('Synset.name', SynSort, Str), z3.Function('Synset.pos', SynSort, Str)
LNAME, LSYN = z3.Function('Lemma.name', LemSort, Str), z3.Function('Lemma.synset', LemSort, SynSort)
SN = {r: z3.Function('Synset.n_' + r, SynSort, Int) for r in list(SREL) + list(OTHERS)}
SR = {r: z3.Function('Synset.' + r, SynSort, Int, SynSort) for r in list(SREL) + list(OTHERS)}
LN = {r: z3.Function('Lemma.n_' + r, LemSort, Int) for r in list(LREL) + list(OTHERL)}
LR = {r: z3.Function('Lemma.' + r, LemSort, Int, LemSort) for r in list(LREL) + list(OTHERL)}
POSSYM = z3.Function('POSSYM', Str, Str)
SAYS = z3.Function('Synset.says', SynSort, Ent, Bool)      # the edges a synset gives
LSAYS = z3.Function('Lemma.says', LemSort, Ent, Bool)      # the edges of the relations of a lemma
NALL, ALL = z3.Const('n_synsets', Int), z3.Function('synset_at', Int, SynSort)
s_, l_, x_, j_ = z3.Const('s$', SynSort), z3.Const('l$', LemSort), z3.Const('x$', Ent), z3.Int('j$')


def items(n, at, wrap):
    return lambda I, o: Builtin('items', lambda I: SSeq('list', SInt(n(o.t)), lambda j: wrap(at(o.t, zi(j)))))


def text_of(f):
    return lambda I, o: Builtin('text', lambda I: SStr([f(o.t)]))


class Kind(RefKind):
    def getattr(self, I, o, name):
        r = RefKind.getattr(self, I, o, name)
        if r is None:
            raise Unsupported('%s of a %s' % (name, self.name))
        return r


LEMMA = Kind('lemma', sort=LemSort)
SYNSET = Kind('synset', sort=SynSort)
syn = lambda t: SRef(t, SYNSET)
lem = lambda t: SRef(t, LEMMA)
LEMMA.attrs.update({'name': text_of(LNAME), 'synset': lambda I, o: Builtin('synset', lambda I: syn(LSYN(o.t)))})
LEMMA.attrs.update({r: items(LN[r], LR[r], lem) for r in LN})
SYNSET.attrs.update({'name': text_of(SNAME), 'pos': text_of(SPOS), 'lemmas': items(NLEM, LEM, lem)})
SYNSET.attrs.update({r: items(SN[r], SR[r], syn) for r in SN})


@lib('nltk.corpus.wordnet.all_synsets')
def all_synsets(I, pos=None):
    if pos is not None:
        raise Unsupported('some synsets')
    return SSeq('list', SInt(NALL), lambda j: syn(ALL(zi(j))))


# -- the edges -------------------------------------------------------------------------

L2S = z3.Function('Lemma.symbol', LemSort, Str)
TUP3 = z3.Function('TUP3', Ent, Ent, Ent, Ent)


def lsym(l):
    return SStr([LNAME(l), '/wn.', SNAME(LSYN(l))])


def symbols(I):
    """The symbol of a lemma: its name and its synset."""
    I.binder += 1
    t = I.sterm(lsym(l_))
    I.binder -= 1
    I.fact(z3.ForAll([l_], L2S(l_) == t, patterns=[L2S(l_)]))


def edge(I, rel, l1, l2):
    return TUP3(SYM(I.sterm(rel)), SYM(L2S(l1)), SYM(L2S(l2)))


def pos_edge(I, s):
    return TUP3(SYM(I.sterm('pos/gb')), SYM(L2S(LEM(s, z3.IntVal(0)))), SYM(POSSYM(SPOS(s))))


class Family:
    """Edges by an index: in them is x if it is the edge of its first index W(x)."""
    def __init__(self, name, rel, sort, owner, n, edge, lo=0):
        self.rel, self.n, self.edge, self.lo = rel, n, edge, lo
        self.W = z3.Function('first.' + name, sort, Ent, Int)
        self.var = owner

    def at(self, I, o, j):
        return self.edge(I, self.rel, o, j)

    def has(self, I, o, x, hi=None):
        w = self.W(o, x)
        return z3.And(w >= self.lo, w < (self.n(o) if hi is None else hi), self.at(I, o, w) == x)

    def axiom(self, I):
        o, j = self.var, j_
        mark = len(I.facts)
        I.binder += 1
        try:
            e = self.at(I, o, j)
            w = self.W(o, e)
            again = self.at(I, o, w)
        finally:
            I.binder -= 1
        I.fact(z3.ForAll([o, j], z3.Implies(z3.And(j >= self.lo, j < self.n(o)), z3.And(w >= self.lo, w <= j, again == e)), patterns=[e]))


ZERO = z3.IntVal(0)
SFAM = [Family(r, rel, SynSort, s_, SN[r], lambda I, rel, o, j, r=r: edge(I, rel, LEM(o, ZERO), LEM(SR[r](o, j), ZERO))) for r, rel in SREL.items()]
SYNONYM = Family('synonyms', 'synonym/gb', SynSort, s_, NLEM, lambda I, rel, o, j: edge(I, rel, LEM(o, ZERO), LEM(o, j)), lo=1)
LFAM = [Family(r, rel, LemSort, l_, LN[r], lambda I, rel, o, j, r=r: edge(I, rel, o, LR[r](o, j))) for r, rel in LREL.items()]
WLEM = z3.Function('first.lemma', SynSort, Ent, Int)
WSYN = z3.Function('first.synset', Ent, Int)


def lsays(I, l, x):
    return z3.Or(*[f.has(I, l, x) for f in LFAM])


def says(I, s, x):
    w = WLEM(s, x)
    return z3.Or(x == pos_edge(I, s), SYNONYM.has(I, s, x), *([f.has(I, s, x) for f in SFAM] + [z3.And(w >= 0, w < NLEM(s), LSAYS(LEM(s, w), x))]))


def wordnet(I, families=True):
    for n, o in [(f, s_) for f in SN.values()] + [(f, l_) for f in LN.values()]:
        I.fact(z3.ForAll([o], n(o) >= 0, patterns=[n(o)]))
    I.fact(z3.ForAll([s_], NLEM(s_) >= 1, patterns=[NLEM(s_)]))
    I.fact(NALL >= 0)
    symbols(I)
    if families:
        for f in SFAM + LFAM + [SYNONYM]:
            f.axiom(I)
        w = WLEM(s_, x_)
        I.fact(z3.ForAll([s_, x_, j_], z3.Implies(z3.And(j_ >= 0, j_ < NLEM(s_), LSAYS(LEM(s_, j_), x_)), z3.And(w >= 0, w <= j_, LSAYS(LEM(s_, w), x_))),
                         patterns=[LSAYS(LEM(s_, j_), x_)]))
    I.trusted.add('nltk WordNet: lemmas, relations, names and parts of speech of a synset are functions of it; every synset has a lemma and one of the parts of speech n, v, a, s, r')


# -- what is recorded -----------------------------------------------------------------------

def believe(I, source, e):
    I.prove(isinstance(source, (str, SStr)) and zb(I.veq(source, 'wordnet/gb')), 'WordNet is the source')
    t = I.ent_of(e)
    f = I.ghost['$said']
    I.ghost['$said'] = SFun([Ent], lambda x: z3.Or(zb(f(x)), x == t))


class Recorder:
    name = 'hypergraph'

    @staticmethod
    def getattr(I, o, name):
        if name == 'add_belief':
            return Builtin('add_belief', lambda I, source, edge, timestamp=-1: believe(I, source, edge))
        return None


def begin(I):
    f = I.fresh_fun('said', Ent, Bool)
    I.ghost['$said'] = I.ghost['$stored'] = SFun([Ent], lambda x: f(x))
    I.ghost['$said0'] = I.ghost['$said']
    I.trusted.add('in the contracts of the WordNet reader, add_belief records the belief (G11) and flush stores what waits (G14)')


@register
class Pos(Contract):
    qual = W + 'pos2symbol'
    props = ('R01',)

    def args(self, I):
        p = I.fresh(Str, 'pos')
        self.define(I, p)
        return [SStr([p])]

    def define(self, I, p):
        for k, v in POSS.items():
            I.fact(z3.Implies(p == I.sterm(k), POSSYM(p) == I.sterm(v)))

    def pre(self, I, args):
        p = I.sterm(args[0])
        return [('a part of speech', z3.Or(*[p == I.sterm(k) for k in POSS]))]

    def spec(self, I, args):
        return SStr([POSSYM(I.sterm(args[0]))])


@register
class LemmaSymbol(Contract):
    qual = W + 'lemma2symbol'
    props = ('R01',)

    def args(self, I):
        wordnet(I, False)
        return [LEMMA.fresh(I)]

    def spec(self, I, args):
        return SStr([L2S(args[0].t)])

    def post(self, I, args, r):
        I.prove(zb(I.veq(r, lsym(args[0].t))), 'the name and the synset of the lemma')


@register
class ProcessSynset(Contract):
    qual = W + 'process_synset'
    props = ('R01',)

    def args(self, I):
        wordnet(I)
        begin(I)
        s = SYNSET.fresh(I)
        I.assume(z3.And(NLEM(s.t) >= 1, z3.Or(*[SPOS(s.t) == I.sterm(k) for k in POSS])))
        return [Obj(I, Recorder), s]

    def prepare(self, I, args):
        s = args[1].t

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is not loops.GHOST or cell[1] != '$said':
                return
            first = loop.seq.get(mkint(0)) if loop.seq is not None else None
            t = first.t if isinstance(first, SRef) else None
            for f in SFAM + [SYNONYM]:
                if t is None or t.decl().eq(LEM if f is SYNONYM else SR[NAMES[f.rel]]):
                    yield loops.Form(lambda i, f=f: SFun([Ent], lambda x: z3.Or(zb(v0(x)), f.has(I, s, x, zi(i) + f.lo))), name='the first i of ' + f.rel)
            for f in LFAM:
                if t is not None and t.decl().eq(LR[NAMES[f.rel]]):
                    yield loops.Form(lambda i, f=f, l=t.arg(0): SFun([Ent], lambda x: z3.Or(zb(v0(x)), f.has(I, l, x, zi(i)))), name='the first i of ' + f.rel)

            def so_far(i):
                i = zi(i)
                w = lambda x: WLEM(s, x)

                def at(x):
                    l = LEM(s, i - 1)
                    I.fact(LSAYS(l, x) == lsays(I, l, x))
                    lw = LEM(s, w(x))
                    I.fact(LSAYS(lw, x) == lsays(I, lw, x))
                    return z3.Or(zb(v0(x)), z3.And(w(x) >= 0, w(x) < i, LSAYS(lw, x)))
                return SFun([Ent], at)
            yield loops.Form(so_far, name='the relations of the first i lemmas')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        s = args[1].t
        f, f0 = I.ghost['$said'], I.ghost['$said0']
        x = I.fresh(Ent, 'x')
        I.prove(zb(f(x)) == z3.Or(zb(f0(x)), says(I, s, x)), 'the beliefs of the synset, and no others')

    def use(self, I, f, args):
        s = args[1].t
        I.prove(I.ghost['$open'](args[0]) if '$open' in I.ghost else True, 'the buffered hypergraph is used')
        f0 = I.ghost['$said']
        I.ghost['$said'] = SFun([Ent], lambda x: z3.Or(zb(f0(x)), SAYS(s, x)))


NAMES = {rel: r for d in (SREL, LREL) for r, rel in d.items()}


@register
class Read(Contract):
    qual = W + 'read'
    props = ('R01',)

    def args(self, I):
        wordnet(I, False)
        begin(I)
        w = WSYN(x_)
        I.fact(z3.ForAll([x_, j_], z3.Implies(z3.And(j_ >= 0, j_ < NALL, SAYS(ALL(j_), x_)), z3.And(w >= 0, w <= j_, SAYS(ALL(w), x_))), patterns=[SAYS(ALL(j_), x_)]))
        return [Obj(I, Recorder)]

    def prepare(self, I, args):
        BH = 'gb.hypergraph.batch_hypergraph.BatchHyperGraph.'

        def init(I, f, b):
            I.prove(b[1] is args[0], 'the buffer is in front of the hypergraph')
            I.ghost['$buffer'] = I.ghost.get('$buffer', ()) + (b[0],)

        def flush(I, f, b):
            I.ghost['$stored'] = I.ghost['$said']
        I.ghost['$open'] = lambda o: o is args[0] or any(o is x for x in I.ghost.get('$buffer', ()))
        I.ghost_models['call:%s__init__' % BH] = init
        I.ghost_models['call:%sflush' % BH] = flush
        I.ghost_models['call:gb.hypergraph.hypergraph.HyperGraph.add_belief'] = lambda I, f, b: believe(I, b[1], b[2])

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is loops.GHOST and cell[1] in ('$said', '$stored'):
                base = I.ghost['$said0']
                yield loops.Form(lambda i: SFun([Ent], lambda x: z3.Or(zb(base(x)), z3.And(WSYN(x) >= 0, WSYN(x) < zi(i), SAYS(ALL(WSYN(x)), x)))), name='the beliefs of the first i synsets')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        f, f0 = I.ghost['$said'], I.ghost['$said0']
        x = I.fresh(Ent, 'x')
        want = z3.Or(zb(f0(x)), z3.And(WSYN(x) >= 0, WSYN(x) < NALL, SAYS(ALL(WSYN(x)), x)))
        I.prove(zb(f(x)) == want, 'the beliefs of the synsets, and no others')
        I.prove(zb(I.ghost['$stored'](x)) == want, 'none of them waits')
