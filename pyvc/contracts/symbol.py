"""Contracts of gb/hypergraph/symbol.py (S01-S06)."""
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T
from ..engine import zi, mkint

M = 'gb.hypergraph.symbol.'
SEED = 1125899906842597


def starts(I, s, lit):
    n = I.slen(s)
    n = z3.IntVal(n) if isinstance(n, int) else n
    return z3.And(n >= len(lit), *[I.code_at(s, k) == ord(c) for k, c in enumerate(lit)])


def is_url(I, s):
    return z3.Or(starts(I, s, 'http://'), starts(I, s, 'https://'))


def a_text(I, name='txt'):
    return SStr([I.fresh(Str, name)])


# hash: the value after the first i characters
HSTEP = z3.Function('HSTEP', Str, Int, Int)


def hstep_facts(I, t, i):
    I.fact(HSTEP(t, z3.IntVal(0)) == SEED)
    I.fact(HSTEP(t, i + 1) == ((HSTEP(t, i) + CH(t, i)) * 31) % 2 ** 64)
    I.fact(z3.And(HSTEP(t, i) >= 0, HSTEP(t, i) < 2 ** 64))


@register
class Hashed(Contract):
    qual = M + 'hashed'
    props = ('S04', 'S05')

    def args(self, I):
        return [a_text(I)]

    def prepare(self, I, args):
        from .. import loops, externs
        t = I.sterm(args[0])

        def offer(I, loop, cell, v0, ys):
            if isinstance(v0, Obj) and v0.cls is externs.U64:
                def at(i):
                    i = z3.IntVal(i) if isinstance(i, int) else i
                    hstep_facts(I, t, i)
                    return externs.U64.make(I, HSTEP(t, i), v0.fields['dims'])
                yield loops.Form(at, name='hash of the first i characters')
        I.form_offers.append(offer)

    def spec(self, I, args):
        from .. import externs
        t = I.sterm(args[0])
        I.ghost['hashed'] = t
        hstep_facts(I, t, LEN(t))
        return SStr([externs.HEXS(I, HSTEP(t, LEN(t)))])


def entity(I, name='sym'):
    t = I.fresh(Ent, name)
    return SEnt(t)


def types(I):
    return I.find(M + 'SymbolType')


def kind_name(I, x):
    """The type of a symbol, by its definition."""
    x = I.unopt(x)
    if isinstance(x, (tuple, PyList, SSeq)):
        return 'EDGE'
    if isinstance(x, SEnt):
        k = I.ent_kind(x)
        if k == 'edge':
            return 'EDGE'
        x = I.ent_value(x, k)
    if isinstance(x, (str, SStr)):
        return 'URL' if I.decide(is_url(I, x)) else 'CONCEPT'
    if isinstance(x, (int, SInt, bool, SBool)):
        return 'INTEGER'
    if isinstance(x, (float, SFlt)):
        return 'FLOAT'
    return 'UNKNOWN'


def as_text(I, x):
    return I.ent_value(x, 'sym') if isinstance(x, SEnt) else x


class OneSymbol(Contract):
    def args(self, I):
        return [entity(I)]


@register
class SymType(OneSymbol):
    qual = M + 'sym_type'
    props = ('S02', 'S06', 'E01', 'C01x')

    def spec(self, I, args):
        return I.getattr(types(I), kind_name(I, args[0]))


@register
class SymTypeNames(Contract):
    """The types are told apart."""
    key = 'symbol types are distinct'
    qual = M + 'SymbolType'
    props = ('S02', 'S06')

    def args(self, I):
        return []

    def run(self, I, f, args):
        return [I.getattr(f, n) for n in ('CONCEPT', 'EDGE', 'INTEGER', 'FLOAT', 'URL', 'UNKNOWN')]

    def post(self, I, args, r):
        I.prove(len(set(r)) == len(r), 'distinct constants')


def parts_of(I, x):
    if kind_name(I, x) == 'CONCEPT':
        return PyList(I, T.texts(I, T.split_term(I, I.sterm(as_text(I, x)), '/')))
    return PyList(I, [x])


@register
class Parts(OneSymbol):
    qual = M + 'parts'
    props = ('S02', 'S06')

    def spec(self, I, args):
        return parts_of(I, args[0])


@register
class Root(OneSymbol):
    qual = M + 'root'
    props = ('S02', 'S05', 'S06')

    def spec(self, I, args):
        return I.getitem(parts_of(I, args[0]), 0)


@register
class Nspace(OneSymbol):
    qual = M + 'nspace'
    props = ('S02',)

    def spec(self, I, args):
        ps = parts_of(I, args[0])
        if I.decide(zi(I.length(ps)) > 1):
            return I.getitem(ps, 1)
        return None


@register
class IsRoot(OneSymbol):
    qual = M + 'is_root'
    props = ('S02', 'S05')

    def spec(self, I, args):
        from ..engine import mkbool
        return mkbool(I.veq(args[0], I.getitem(parts_of(I, args[0]), 0)))


def slashless(I, q):
    """Sequence q of texts without slashes."""
    j = z3.Int('j$')
    i = z3.Int('i$')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < T.SQL(q)), z3.Not(S_HASC(T.SQA(q, j), z3.IntVal(47)))), patterns=[T.SQA(q, j)])


from ..strings import HASC as S_HASC  # noqa: E402


@register
class Build(Contract):
    qual = M + 'build'
    props = ('S02', 'S05')

    def args(self, I):
        q = I.fresh(T.SSQ, 'pts')
        return [PyList(I, T.texts(I, q))]

    def spec(self, I, args):
        items = I.concrete_items(args[0])
        if items is not None:
            out = []
            for k, x in enumerate(items):
                out += ['/', x] if k else [x]
            return I.concat(out)
        return SStr([T.join_term(I, '/', T.seq_term(I, I.as_seq(args[0])))])


@register
class PartsJoin(Contract):
    key = 'the parts of a text symbol join up to it'
    qual = M + 'parts'
    props = ('S02',)

    def args(self, I):
        return [a_text(I, 'sym')]

    def pre(self, I, args):
        return [('no URL', z3.Not(is_url(I, args[0])))]

    def run(self, I, f, args):
        return I.call(I.find(M + 'build'), [I.call(I.find(M + 'parts'), args)])

    def spec(self, I, args):
        return args[0]


@register
class BuildParts(Contract):
    key = 'a symbol built from texts without slashes takes apart into them'
    qual = M + 'build'
    props = ('S02',)

    def args(self, I):
        q = I.fresh(T.SSQ, 'pts')
        return [PyList(I, T.texts(I, q))]

    def pre(self, I, args):
        q = args[0].items.term
        b = T.join_term(I, '/', q)
        return [('texts without slashes', z3.And(T.SQL(q) >= 1, slashless(I, q))), ('no URL', z3.Not(is_url(I, SStr([b]))))]

    def run(self, I, f, args):
        return I.call(I.find(M + 'parts'), [I.call(f, args)])

    def spec(self, I, args):
        return args[0]


# -- S03

@register
class Str2Symbol(Contract):
    qual = M + 'str2symbol'
    props = ('S03',)

    def args(self, I):
        return [a_text(I)]

    def spec(self, I, args):
        from ..strings import LOWER, ISWS
        t = LOWER(I.sterm(args[0]))
        I.fact(LEN(t) >= 0)
        return SStr([Mapped(t, lambda c: z3.If(z3.Or(c == 47, c == 40, c == 41, ISWS(c)), z3.IntVal(95), c))])


@register
class Str2SymbolValid(Contract):
    key = 'symbols made from texts are valid roots and fixed'
    qual = M + 'str2symbol'
    props = ('S03',)

    def args(self, I):
        return [a_text(I)]

    def run(self, I, f, args):
        a = I.call(f, args)
        return a, I.call(f, [a])

    def post(self, I, args, r):
        from ..strings import ISWS, LOWER
        a, b = r
        t = I.sterm(a)
        k = I.fresh(Int, 'k')
        c = CH(t, k)
        I.prove(z3.Implies(z3.And(k >= 0, k < LEN(t)), z3.Not(z3.Or(c == 47, c == 40, c == 41, ISWS(c)))), 'no slash, parenthesis or white space')
        # assumed of str.lower: lowering is idempotent on characters already lowered, and it commutes with the replacement
        s = LOWER(I.sterm(args[0]))
        I.trusted.add('str.lower is idempotent, also after some characters were replaced by underscores')
        I.assume(LOWER(t) == t)
        I.prove(zb(I.veq(a, b)), 'converting it again changes nothing')
        I.prove(zb(I.truth(I.call(I.find(M + 'is_root'), [a]))), 'a root')


# -- S06

STROF = z3.Function('STROF', Ent, Str)


@register
class Symbol2Str(OneSymbol):
    qual = M + 'symbol2str'
    props = ('S06',)

    def prepare(self, I, args):
        def model(I, x):
            if isinstance(x, (SEnt, SFlt)):
                return SStr([STROF(x.t)])
            if isinstance(x, SInt) and x.t.decl().eq(IVAL):
                return SStr([STROF(x.t.arg(0))])
            return None
        I.ghost_models['str'] = model

    def spec(self, I, args):
        x = args[0]
        k = kind_name(I, x)
        if k == 'CONCEPT':
            r = I.getitem(parts_of(I, x), 0)
            return SStr([Mapped(I.sterm(r), lambda c: z3.If(c == 95, z3.IntVal(32), c))])
        if k == 'URL':
            return x
        return SStr([STROF(x.t)])


# -- S05

@register
class RandomHash(Contract):
    qual = M + 'random_hash'
    props = ('S05',)

    def args(self, I):
        return []

    def prepare(self, I, args):
        I.ghost['hashed'] = None

    def post(self, I, args, r):
        t = I.ghost.get('hashed')
        if t is None:
            I.prove(False, 'the hash of a random text')
        I.prove(LEN(t) == 100, 'the text has 100 characters')
        from .. import externs
        I.prove(zb(I.veq(r, SStr([externs.HEXS(I, HSTEP(t, LEN(t)))]))), 'its hash')

    def use(self, I, f, args):
        from .. import externs
        t = I.fresh(Str, 'random')
        I.ghost['random'] = t
        hstep_facts(I, t, LEN(t))
        return SStr([externs.HEXS(I, HSTEP(t, LEN(t)))])


@register
class NewMeaning(Contract):
    qual = M + 'new_meaning'
    props = ('S05',)

    def args(self, I):
        return [a_text(I, 'symb'), a_text(I, 'prefix')]

    def pre(self, I, args):
        return [('no URL', z3.Not(is_url(I, args[0])))]

    def prepare(self, I, args):
        I.ghost['random'] = None

    def post(self, I, args, r):
        from .. import externs
        ps = parts_of(I, args[0])
        if I.decide(zi(I.length(ps)) > 1):
            I.prove(zb(I.veq(r, args[0])), 'a symbol with a namespace is unchanged')
            return
        t = I.ghost.get('random')
        if t is None:
            I.prove(False, 'a new hash is made')
        want = I.concat([args[0], '/', args[1], SStr([externs.HEXS(I, HSTEP(t, LEN(t)))])])
        I.prove(zb(I.veq(r, want)), 'root, slash, prefix and a new hash')


# -- S01

def tilde(I, s):
    n = zi(I.slen(s)) if not isinstance(I.slen(s), int) else z3.IntVal(I.slen(s))
    return z3.And(n >= 1, I.code_at(s, 0) == 126)


class NonEmpty(Contract):
    def args(self, I):
        return [a_text(I, 'symb')]

    def pre(self, I, args):
        return [('not empty', zi(I.slen(as_text(I, args[0]))) >= 1)]


def text_arg(I, x):
    if isinstance(x, SEnt):
        I.prove(isSym(x.t), 'the argument is a text')
        return SStr([TXT(x.t)])
    return x


@register
class IsNegative(NonEmpty):
    qual = M + 'is_negative'
    props = ('S01',)

    def spec(self, I, args):
        from ..engine import mkbool
        return mkbool(tilde(I, text_arg(I, args[0])))


def negated(I, s):
    s = text_arg(I, s)
    if I.decide(tilde(I, s)):
        return I.slice(s, 1, None)
    return I.concat(['~', s])


@register
class Negative(NonEmpty):
    qual = M + 'negative'
    props = ('S01',)

    def spec(self, I, args):
        return negated(I, args[0])


@register
class NegativeTwice(NonEmpty):
    key = 'negating a symbol twice gives it back'
    qual = M + 'negative'
    props = ('S01',)

    def pre(self, I, args):
        return super().pre(I, args) + [('not negative', z3.Not(tilde(I, args[0])))]

    def run(self, I, f, args):
        a = I.call(f, args)
        return a, I.call(I.find(M + 'is_negative'), [a]), I.call(f, [a])

    def post(self, I, args, r):
        a, n, b = r
        I.prove(zb(I.truth(n)), 'the negative is negative')
        I.prove(zb(I.veq(b, args[0])), 'the negative of the negative is the symbol')
        m = I.call(I.find(M + 'negative'), [b])
        I.prove(zb(I.veq(m, a)), 'the other way round')


E_ = 'gb.hypergraph.edge.'


class AnEdge(Contract):
    """An edge whose first element is a non-empty symbol."""
    def args(self, I):
        return [entity(I, 'edge')]

    def pre(self, I, args):
        e = args[0]
        if not isinstance(e, SEnt):
            e = SEnt(I.ent_of(e))
        t = e.t
        return [('an edge', z3.And(isEdge(t), ELEN(t) >= 1)), ('its first element is a symbol', z3.And(isSym(EL(t, 0)), LEN(TXT(EL(t, 0))) >= 1))]


@register
class EdgeIsNegative(AnEdge):
    qual = E_ + 'is_negative'
    props = ('S01',)

    def spec(self, I, args):
        from ..engine import mkbool
        return mkbool(tilde(I, SStr([TXT(EL(I.ent_of(args[0]), 0))])))


@register
class EdgeNegative(AnEdge):
    qual = E_ + 'negative'
    props = ('S01',)

    def spec(self, I, args):
        t = I.ent_of(args[0])
        s = I.as_seq(SEnt(t))
        first = negated(I, SStr([TXT(EL(t, 0))]))
        return I.seq_concat(SSeq('tuple', 1, lambda j: first), SSeq('tuple', mkint(ELEN(t) - 1), lambda j: I.el(t, mkint(zi(j) + 1))))


@register
class EdgeNegativeTwice(AnEdge):
    key = 'negating an edge twice gives it back'
    qual = E_ + 'negative'
    props = ('S01',)

    def pre(self, I, args):
        return super().pre(I, args) + [('not negative', z3.Not(tilde(I, SStr([TXT(EL(args[0].t, 0))]))))]

    def run(self, I, f, args):
        a = I.call(f, args)
        return a, I.call(I.find(E_ + 'is_negative'), [a]), I.call(f, [a])

    def post(self, I, args, r):
        a, n, b = r
        I.prove(zb(I.truth(n)), 'the negative is negative')
        x, y, z = [SStr([TXT(EL(I.ent_of(v), 0))]) for v in (args[0], a, b)]
        I.prove(zb(I.veq(y, SStr(['~', x.parts[0]]))), 'the first element of the negative')
        I.prove(zb(I.veq(z, I.slice(y, 1, None))), 'the first element of the negative of the negative')
        I.prove(zb(I.veq(z, x)), 'the first elements are the same')
        I.prove(zb(I.veq(b, args[0])), 'the negative of the negative is the edge')
