"""Contracts of gb/nlp: nlp_token.py (N01), parser.py and sentence.py (N02)."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint, mkbool
from .. import refs, theory as T
from .symbol import a_text

TK = 'gb.nlp.nlp_token.Token'
TokSort = z3.DeclareSort('Tok')


def tfun(name, *sorts):
    return z3.Function('Tok.' + name, TokSort, *sorts)


NL, NR = tfun('lefts', Int), tfun('rights', Int)
LCH, RCH = tfun('left', Int, TokSort), tfun('right', Int, TokSort)
WORD, POS, DEP = tfun('word', Str), tfun('pos', Str), tfun('dep', Str)
NOPOS, SEP = tfun('nopos', Bool), tfun('separator', Bool)
ETYPE, NOETYPE = tfun('etype', Str), tfun('noetype', Bool)
LEMMA = tfun('lemma', Str)


def kids(n, ch):
    return lambda I, o: SSeq('list', SInt(n(o.t)), lambda j: SRef(ch(o.t, zi(j)), TOKEN))


TOKEN = refs.InstKind('token', TK, {
    'left_children': kids(NL, LCH), 'right_children': kids(NR, RCH),
    'word': lambda I, o: SStr([WORD(o.t)]), 'dep': lambda I, o: SStr([DEP(o.t)]), 'lemma': lambda I, o: SStr([LEMMA(o.t)]),
    'pos': lambda I, o: SOpt(NOPOS(o.t), SStr([POS(o.t)])), 'separator': lambda I, o: mkbool(SEP(o.t)),
    'entity_type': lambda I, o: SOpt(NOETYPE(o.t), SStr([ETYPE(o.t)]))}, sort=TokSort)

TL = refs.LSeq('TokSeq', TokSort, lambda t: SRef(t, TOKEN))
ALL = tfun('all', TL.sort)                      # the tokens of the tree in order
LEFT, RIGHT = tfun('fromleft', Int, TL.sort), tfun('fromright', Int, TL.sort)   # those of the first k children


def token_axioms(I):
    TL.axioms(I)
    t, k = z3.Const('t$', TokSort), z3.Int('k$')
    I.fact(z3.ForAll([t], z3.And(NL(t) >= 0, NR(t) >= 0), patterns=[z3.MultiPattern(NL(t), NR(t))]))
    for side, ch in ((LEFT, LCH), (RIGHT, RCH)):
        I.fact(z3.ForAll([t], side(t, 0) == TL.EMPTY, patterns=[side(t, 0)]))
    # the definition: left children, itself, right children
    I.fact(z3.ForAll([t], ALL(t) == TL.CAT(TL.CAT(LEFT(t, NL(t)), TL.UNIT(t)), RIGHT(t, NR(t))), patterns=[ALL(t)]))


def one_more(I, side, ch, t, i):
    """The definition of side: the tokens of one more child."""
    I.fact(z3.Implies(i >= 0, side(t, i + 1) == TL.CAT(side(t, i), ALL(ch(t, i)))))


def a_token(I):
    token_axioms(I)
    t = I.fresh(TokSort, 'token')
    I.assume(z3.And(NL(t) >= 0, NR(t) >= 0))
    return SRef(t, TOKEN)


def list_at(term_at):
    return lambda i: TL.value(term_at(i))


@register
class ToList(Contract):
    qual = TK + '.to_list'
    props = ('N01',)

    def args(self, I):
        return [a_token(I)]

    def prepare(self, I, args):
        t = args[0].t

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if isinstance(cell[0], PyList):
                lt = TL.CAT(LEFT(t, NL(t)), TL.UNIT(t))

                def at(side, ch, whole):
                    def f(i):
                        one_more(I, side, ch, t, i)
                        return TL.value(whole(side(t, i)))
                    return f
                yield loops.Form(at(LEFT, LCH, lambda x: x), name='the tokens of the first i left children')
                yield loops.Form(at(RIGHT, RCH, lambda x: TL.CAT(lt, x)), name='all up to the first i right children')
                yield loops.Form(at(RIGHT, RCH, lambda x: x), name='the tokens of the first i right children')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        I.prove(zb(I.veq(r, PyList(I, TL.value(ALL(args[0].t))))), 'left children, the token, right children, in order')

    def use(self, I, f, args):
        return PyList(I, TL.value(ALL(args[0].t)))


@register
class IsWord(Contract):
    qual = TK + '.is_word'
    props = ('N01',)

    def args(self, I):
        return [a_token(I)]

    def spec(self, I, args):
        return mkbool(word(I, args[0].t))


def word(I, t):
    return z3.Not(z3.Or(SEP(t), z3.And(z3.Not(NOPOS(t)), z3.Or(POS(t) == I.sterm('PUNCT'), POS(t) == I.sterm('SPACE')))))


NWORDS = tfun('nwords', Int, Int)               # words among the first k tokens of the tree
WSEL = tfun('wsel', Int, Int)                   # index of word number q


def word_axioms(I, t):
    q = z3.Int('q$')
    n = TL.LEN(ALL(t))
    I.fact(NWORDS(t, 0) == 0)
    I.fact(z3.ForAll([q], z3.And(NWORDS(t, q) >= 0, z3.Implies(q >= 0, NWORDS(t, q) <= q)), patterns=[NWORDS(t, q)]))


def next_word(I, t, k):
    """The definition of the words: one more token."""
    w = word(I, TL.AT(ALL(t), k))
    I.fact(z3.Implies(z3.And(k >= 0, k < TL.LEN(ALL(t))), z3.And(NWORDS(t, k + 1) == NWORDS(t, k) + z3.If(w, 1, 0), z3.Implies(w, WSEL(t, NWORDS(t, k)) == k))))


def words_value(t, n):
    return SSeq('list', SInt(n), lambda j: SRef(TL.AT(ALL(t), WSEL(t, zi(j))), TOKEN))


@register
class WordTokens(Contract):
    qual = TK + '.to_word_token_list'
    props = ('N01',)

    def args(self, I):
        t = a_token(I)
        word_axioms(I, t.t)
        return [t]

    def prepare(self, I, args):
        t = args[0].t

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if isinstance(cell[0], PyList):
                def at(i):
                    next_word(I, t, i)
                    return words_value(t, NWORDS(t, i))
                yield loops.Form(at, name='the words among the first i tokens')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        t = args[0].t
        I.prove(zb(I.veq(r, PyList(I, words_value(t, NWORDS(t, TL.LEN(ALL(t))))))), 'the words in order')

    def use(self, I, f, args):
        t = args[0].t
        word_axioms(I, t)
        I.assume(NWORDS(t, TL.LEN(ALL(t))) >= 0)
        return PyList(I, words_value(t, NWORDS(t, TL.LEN(ALL(t)))))


@register
class ChunkStr(Contract):
    qual = TK + '.chunk_str'
    props = ('N01',)

    def args(self, I):
        return [a_token(I)]

    def spec(self, I, args):
        t = args[0].t
        word_axioms(I, t)
        n = NWORDS(t, TL.LEN(ALL(t)))
        I.assume(n >= 0)
        return T.join(I, ' ', SSeq('list', SInt(n), lambda j: SStr([WORD(TL.AT(ALL(t), WSEL(t, zi(j))))])))


# -- the parser (N02) ---------------------------------------------------------------

PQ = 'gb.nlp.parser.Parser.'
SPSort = z3.DeclareSort('SpacyTok')


def sfun(name, *sorts):
    return z3.Function('Spacy.' + name, SPSort, *sorts)


SNL, SNR = sfun('n_lefts', Int), sfun('n_rights', Int)
SLC, SRC = sfun('lefts', Int, SPSort), sfun('rights', Int, SPSort)
HEAD, RANK = sfun('head', SPSort), sfun('rank', Int)
REF = z3.Function('TokenOf', SPSort, TokSort)
STEXT = {a: sfun(a, Str) for a in ('orth_', 'lemma_', 'shape_', 'pos_', 'dep_', 'ent_type_')}
SPROB = sfun('prob', Ent)
FIELDS = {'lemma': 'lemma_', 'shape': 'shape_', 'pos': 'pos_', 'dep': 'dep_', 'entity_type': 'ent_type_'}


def skids(n, ch):
    return lambda I, o: SSeq('list', SInt(n(o.t)), lambda j: SRef(ch(o.t, zi(j)), STOK))


STOK = RefKind('parsed token', dict({a: (lambda f: lambda I, o: SStr([f(o.t)]))(f) for a, f in STEXT.items()},
                                    prob=lambda I, o: SFlt(SPROB(o.t)), lefts=skids(SNL, SLC), rights=skids(SNR, SRC)), sort=SPSort)


class Made(RefKind):
    """A token that was made before: of it only the parent may be set."""
    def setattr(self, I, o, name, v):
        if name != 'parent' or not (isinstance(v, Obj) and I.ghost.get('$making') is not None and v.cls is I.find(TK)):
            raise Unsupported('change of a token')
        s = I.ghost['$making']
        c = SPOF(o.t)
        I.prove(HEAD(c) == s, 'the parent of a token is the token of its head')
        I.prove(v is I.ghost.get('$this'), 'the parent is the token that is made')
        f = I.ghost['$ST']
        I.ghost['$ST'] = SFun([SPSort, Int], lambda x, k: z3.Or(zb(f(x, k)), z3.And(x == c, k == 1)))


MADE = Made('made token', sort=TokSort)
SPOF = z3.Function('SpacyOf', TokSort, SPSort)


class Table:
    """The memo: $ST(s, 0) tells for which parsed tokens it has their token; $ST(s, 1) which have their parent."""
    name = 'table'

    @staticmethod
    def contains(I, o, k):
        return zb(I.ghost['$ST'](k.t, z3.IntVal(0)))

    @staticmethod
    def getitem(I, o, k):
        from ..externs import raise_
        if not I.decide(zb(I.ghost['$ST'](k.t, z3.IntVal(0)))):
            raise_('KeyError')
        return SRef(REF(k.t), MADE)

    @staticmethod
    def getattr(I, o, name):
        if name == 'get':
            def get(I, k, d=None):
                return SOpt(z3.Not(zb(I.ghost['$ST'](k.t, z3.IntVal(0)))), SRef(REF(k.t), MADE)) if d is None else None
            return Builtin('get', get)
        return None

    @staticmethod
    def setitem(I, o, k, v):
        if not (isinstance(v, Obj) and not isinstance(v, SRef) and isinstance(v.cls, ClassVal)):
            raise Unsupported('what is put into the table')
        f = I.ghost['$ST']
        I.prove(z3.Not(zb(f(k.t, z3.IntVal(0)))), 'a token is made once')
        I.ghost['$published'] = I.ghost.get('$published', ()) + ((k.t, v),)
        I.ghost['$ST'] = SFun([SPSort, Int], lambda x, n: z3.Or(zb(f(x, n)), z3.And(x == k.t, n == 0)))


x_, j_, k_ = z3.Const('x$', SPSort), z3.Int('j$'), z3.Int('k$')


def closed(f, but=None):
    """The children of every token made are made and have their parent."""
    def side(n, ch):
        c = ch(x_, j_)
        g = z3.And(zb(f(x_, z3.IntVal(0))), j_ >= 0, j_ < n(x_))
        return z3.ForAll([x_, j_], z3.Implies(g, z3.And(zb(f(c, z3.IntVal(0))), zb(f(c, z3.IntVal(1))))), patterns=[c])
    return z3.And(side(SNL, SLC), side(SNR, SRC))


def grows(f0, f, s=None):
    """Nothing is lost; what is new is below s."""
    a = z3.ForAll([x_, k_], z3.Implies(zb(f0(x_, k_)), zb(f(x_, k_))))
    if s is None:
        return a
    n = z3.ForAll([x_], z3.Implies(zb(f(x_, z3.IntVal(0))), z3.Or(zb(f0(x_, z3.IntVal(0))), s(x_))))
    return z3.And(a, n)


def spacy_axioms(I):
    for n, ch in ((SNL, SLC), (SNR, SRC)):
        c = ch(x_, j_)
        I.fact(z3.ForAll([x_, j_], z3.Implies(z3.And(j_ >= 0, j_ < n(x_)), z3.And(HEAD(c) == x_, RANK(c) < RANK(x_))), patterns=[c]))
        I.fact(z3.ForAll([x_], n(x_) >= 0, patterns=[n(x_)]))
    I.fact(z3.ForAll([x_], SPOF(REF(x_)) == x_, patterns=[REF(x_)]))
    I.trusted.add('spaCy: the parse is a forest (every child has one head, no cycles), lefts and rights are the children of a token in order')


def start(I):
    spacy_axioms(I)
    g = I.fresh_fun('ST', SPSort, Int, Bool)
    I.ghost['$ST'] = f = SFun([SPSort, Int], lambda x, k: g(x, k))
    I.assume(closed(f))
    I.ghost['$ST0'] = f
    return Obj(I, I.find(PQ.rstrip('.')), {'token_table': Obj(I, Table), 'parser': None})


@register
class Convert(Contract):
    qual = PQ + '__spacy2token'
    props = ('N02',)

    def args(self, I):
        p = start(I)
        s = STOK.fresh(I)
        I.ghost['$making'] = s.t
        return [p, s]

    def prepare(self, I, args):
        s = args[1].t

        def made(I, f, b):
            I.prove(I.ghost.get('$this') is None, 'one token is made')
            I.ghost['$this'] = b[0]
            return I.call_source(f, list(b))
        I.ghost_models['call:%s.__init__' % TK] = made
        kinds = [(SNL, SLC, 1), (SNR, SRC, 1), (SNL, SLC, 0), (SNR, SRC, 0)]

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is loops.GHOST and cell[1] == '$ST':
                for n, ch, k in kinds:
                    def inv(f, i, n=n, ch=ch, k=k):
                        c = ch(s, j_)
                        return z3.And(closed(f), grows(v0, f, lambda x: RANK(x) < RANK(s)),
                                      z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < i), zb(f(c, z3.IntVal(k)))), patterns=[c]))
                    yield loops.Havoc(I, v0, Bool, inv, 'the first i children are %s' % ('made', 'linked')[k])
        I.form_offers.append(offer)

    def post(self, I, args, r):
        s, f0 = args[1].t, I.ghost['$ST0']
        f = I.ghost['$ST']
        I.prove(zb(f(s, z3.IntVal(0))), 'the token is in the table')
        I.prove(isinstance(r, SRef) and r.cls is MADE and r.t.eq(REF(s)) or isinstance(r, Obj) and not isinstance(r, SRef) and [p for p in I.ghost.get('$published', ()) if p[1] is r] != [], 'the token in the table is returned')
        for k, v in I.ghost.get('$published', ()):
            I.prove(k == s, 'the token of the argument is made')
            self.filled(I, k, v)
            I.prove(v is I.ghost.get('$this'), 'it goes into the table')
        I.prove(closed(f), 'the children of every token are made and have their parent')
        I.prove(grows(f0, f), 'nothing is lost')
        I.prove(grows(f0, f, lambda x: RANK(x) <= RANK(s)), 'only the token and those below it are made')

    def filled(self, I, s, v):
        F = v.fields
        from .. import externs
        w = I.call(I.getattr(I.call(I.getattr(SStr([STEXT['orth_'](s)]), 'lower'), []), 'strip'), [])
        I.prove(zb(I.veq(F.get('word'), w)), 'the word in lower case and stripped')
        for a, b in FIELDS.items():
            I.prove(F.get(a) is not None and zb(I.veq(F[a], SStr([STEXT[b](s)]))), 'the %s' % a)
        I.prove(isinstance(F.get('logprob'), SFlt) and F['logprob'].t == SPROB(s), 'the probability')
        for a, n, ch in (('left_children', SNL, SLC), ('right_children', SNR, SRC)):
            I.prove(F.get(a) is not None and zb(I.veq(F[a], PyList(I, SSeq('list', SInt(n(s)), lambda j: SRef(REF(ch(s, zi(j))), MADE))))), 'the %s in order' % a)

    def use(self, I, f, args):
        if args[1] is None:
            return None
        s = args[1].t
        f0 = I.ghost['$ST']
        I.prove(closed(f0), 'the children of every token are made and have their parent')
        g = I.fresh_fun('ST', SPSort, Int, Bool)
        I.ghost['$ST'] = f1 = SFun([SPSort, Int], lambda x, k: g(x, k))
        I.assume(z3.And(zb(f1(s, z3.IntVal(0))), closed(f1), grows(f0, f1), grows(f0, f1, lambda x: RANK(x) <= RANK(s))))
        return SRef(REF(s), MADE)


@register
class ConvertNone(Contract):
    qual = PQ + '__spacy2token'
    key = 'no token'
    props = ('N02',)

    def args(self, I):
        return [start(I), None]

    def post(self, I, args, r):
        I.prove(r is None, 'no token for none')
        I.prove(I.ghost['$ST'] is I.ghost['$ST0'], 'nothing is made')


@register
class SentenceRoot(Contract):
    qual = 'gb.nlp.sentence.Sentence.root'
    props = ('N02',)

    def args(self, I):
        n = I.fresh(Int, 'n')
        f = I.fresh_fun('tokens', Int, TokSort)
        I.assume(n >= 0)
        I.ghost['$toks'] = (n, f)
        o = Obj(I, I.find('gb.nlp.sentence.Sentence'), {'tokens': PyList(I, SSeq('list', SInt(n), lambda j: SRef(f(zi(j)), TOKEN)))})
        return [o]

    def post(self, I, args, r):
        n, f = I.ghost['$toks']
        j = z3.Int('j$')
        root = lambda k: DEP(f(k)) == I.sterm('ROOT')
        if r is None:
            I.prove(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(root(j)))), 'none only if there is none')
            return
        I.prove(isinstance(r, SRef), 'a token')
        k = z3.Int('k$')
        I.prove(z3.Exists([k], z3.And(k >= 0, k < n, r.t == f(k), root(k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(root(j)))))), 'the first root',
                [x for x in I.created if z3.is_expr(x) and x.sort() == Int])


DOC = z3.Function('DocToken', Int, SPSort)
SpanSort = z3.DeclareSort('Span')
FROM, TO = z3.Function('Span.start', SpanSort, Int), z3.Function('Span.end', SpanSort, Int)
SPAN = RefKind('span', {'start': lambda I, o: SInt(FROM(o.t)), 'end': lambda I, o: SInt(TO(o.t))}, sort=SpanSort)


class Nlp:
    name = 'language'

    @staticmethod
    def getattr(I, o, name):
        return None

    @staticmethod
    def call(I, o, args, kw):
        I.prove(len(args) == 1 and args[0] is I.ghost['$text'] and not kw, 'the text is parsed')
        return Obj(I, Doc)


class Doc:
    name = 'document'

    @staticmethod
    def getattr(I, o, name):
        if name == 'sents':
            n, f = I.ghost['$spans']
            return SSeq('list', SInt(n), lambda j: SRef(f(zi(j)), SPAN))
        return None

    @staticmethod
    def getitem(I, o, k):
        return SRef(DOC(zi(k)), STOK)


@register
class ParseText(Contract):
    qual = PQ + 'parse_text'
    props = ('N02',)

    def args(self, I):
        p = start(I)
        p.fields['parser'] = Obj(I, Nlp)
        n = I.fresh(Int, 'n')
        f = I.fresh_fun('span', Int, SpanSort)
        j, x = z3.Int('j$'), z3.Const('x$', SpanSort)
        I.assume(n >= 0)
        I.assume(z3.ForAll([x], z3.And(FROM(x) >= 0, FROM(x) <= TO(x)), patterns=[FROM(x)]))
        I.ghost['$spans'] = (n, f)
        I.ghost['$text'] = a_text(I, 'text')
        return [p, I.ghost['$text']]

    def prepare(self, I, args):
        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if cell[0] is loops.GHOST and cell[1] == '$ST':
                yield loops.Havoc(I, v0, Bool, lambda f, i: z3.And(closed(f), grows(v0, f)), 'tokens are made')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        n, f = I.ghost['$spans']

        def row(j):
            s = f(zi(j))
            return SSeq('list', SInt(TO(s) - FROM(s)), lambda i: SRef(REF(DOC(FROM(s) + zi(i))), MADE))
        I.prove(zb(I.veq(I.length(r), mkint(n))), 'a list for each sentence')
        I.prove(zb(I.veq(r, PyList(I, SSeq('list', SInt(n), row)))), 'its tokens, in order')
        I.prove(closed(I.ghost['$ST']), 'the children of every token are made and have their parent')


@register
class ParserInit(Contract):
    qual = PQ + '__init__'
    props = ('N02',)

    def args(self, I):
        return [Obj(I, I.find(PQ.rstrip('.')))]

    def post(self, I, args, r):
        t = args[0].fields.get('token_table')
        I.prove(isinstance(t, PyDict) and t.items == {}, 'nothing is made yet')
        I.prove(isinstance(args[0].fields.get('parser'), Obj), 'the language parser')
