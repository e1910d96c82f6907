"""The mathematical vocabulary of the contracts: sequences of texts, entities and
their texts, numbers as texts, orderings.  Facts about the functions here are
definitions, assumed contracts of Python or numpy functions (named in
ASSUMED), or lemmas proved elsewhere (named in LEMMAS)."""
import z3
from .values import *
from .strings import ISWS, HASC, lit
from . import strings as S

SSQ = z3.DeclareSort('SSQ')                       # finite sequences of texts
SQL = z3.Function('SQL', SSQ, Int)
SQA = z3.Function('SQA', SSQ, Int, Str)
JOIN = z3.Function('JOIN', Str, SSQ, Str)         # sep.join(q)
SPLIT = z3.Function('SPLIT', Str, Str, SSQ)       # s.split(sep), one character
WSPLIT = z3.Function('WSPLIT', Str, SSQ)          # s.split()
QDIFF = z3.Function('QDIFF', SSQ, SSQ, Int)
EDIFF = z3.Function('EDIFF', Ent, Ent, Int)
E2S = z3.Function('E2S', Ent, Str)                # the text of an entity
NSEQ = z3.Function('NSEQ', Ent, SSQ)              # the texts of the elements of an edge
FMT = z3.Function('FMT', Ent, Str)                # text of a float
F2E = z3.Function('F2E', Str, Ent)                # float(text)


def I_zi(x):
    from .engine import zi
    return zi(x)


BACKGROUND = []


def background():
    """Axioms every proof starts from: ranges of lengths and kinds, symbols and
    integers are determined by their text and value."""
    if not BACKGROUND:
        e, s, q = z3.Const('e$', Ent), z3.Const('s$', Str), z3.Const('q$', SSQ)
        n = z3.Int('n$')
        BACKGROUND.extend([
            z3.ForAll([s], LEN(s) >= 0, patterns=[LEN(s)]),
            z3.ForAll([e], z3.And(KIND(e) >= 0, KIND(e) <= 3), patterns=[KIND(e)]),
            z3.ForAll([e], ELEN(e) >= 0, patterns=[ELEN(e)]),
            z3.ForAll([q], SQL(q) >= 0, patterns=[SQL(q)]),
            z3.ForAll([s], z3.And(KIND(SYM(s)) == 1, TXT(SYM(s)) == s), patterns=[SYM(s)]),
            z3.ForAll([n], z3.And(KIND(NUM(n)) == 2, IVAL(NUM(n)) == n), patterns=[NUM(n)]),
            z3.ForAll([e], z3.Implies(KIND(e) == 1, SYM(TXT(e)) == e), patterns=[TXT(e)]),
            z3.ForAll([e], z3.Implies(KIND(e) == 2, NUM(IVAL(e)) == e), patterns=[IVAL(e)]),
        ])
    return BACKGROUND


# -- entities ------------------------------------------------------------------

BUILT = set()


def mk_ent(I, v):
    if isinstance(v, SOpt):
        v = I.unopt(v)
    if isinstance(v, (SEnt, SFlt)):
        return v.t
    if isinstance(v, (str, SStr)):
        p = v.parts if isinstance(v, SStr) else ()
        if len(p) == 1 and z3.is_expr(p[0]) and p[0].decl().eq(TXT) and I.valid(KIND(p[0].arg(0)) == 1):
            return p[0].arg(0)
        return SYM(I.sterm(v))
    if isinstance(v, bool) or v is None or isinstance(v, (float, PyList)):
        raise Unsupported('entity %r' % (v,))
    if isinstance(v, (int, SInt)):
        t = z3.simplify(I_zi(v))
        if t.decl().eq(IVAL) and I.valid(KIND(t.arg(0)) == 2):
            return t.arg(0)
        return NUM(t)
    if isinstance(v, SSeq) and getattr(v, 'ent', None) is not None:
        return v.ent
    if isinstance(v, tuple):
        ts = [mk_ent(I, x) for x in v]
        f = z3.Function('TUP%d' % len(ts), *([Ent] * len(ts) + [Ent]))
        t = f(*ts)
        I.fact(z3.And(KIND(t) == 0, ELEN(t) == len(ts), *[EL(t, k) == x for k, x in enumerate(ts)]))
        I.built[t.get_id()] = t
        return t
    if isinstance(v, SSeq):
        if v.kind == 'list':
            raise Unsupported('a list as an entity')
        t = I.fresh(Ent, 'tup')
        j = z3.Int('j$e')
        n = I_zi(v.n)
        x = under_binder(I, j, z3.And(j >= 0, j < n), lambda: mk_ent(I, v.get(SInt(j))))
        I.assume(z3.And(KIND(t) == 0, ELEN(t) == n))
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), EL(t, j) == x), patterns=[EL(t, j)]))
        v.ent = t
        I.built[t.get_id()] = t
        return t
    raise Unsupported('entity %r' % (v,))


def under_binder(I, j, rng, thunk):
    """Evaluates a term with a bound index; facts about it must not escape, so
    everything asserted meanwhile is closed over the index."""
    mark = len(I.facts)
    I.solver.push()
    known = set(I.known_facts)
    I.binder += 1
    try:
        I.assume(rng)
        k0 = len(I.facts)
        r = thunk()
        extra = list(I.facts[k0:])
    finally:
        I.binder -= 1
        I.solver.pop()
        del I.facts[mark:]
        I.known_facts = known
    for f in extra:
        if not mentions(f, j) and f.get_id() not in I.bg:
            # known if there is an index at all
            I.assume(z3.Implies(z3.substitute(rng, (j, z3.IntVal(0))), f))
        elif mentions(f, j):
            I.assume(z3.ForAll([j], z3.Implies(rng, f)))
        else:
            I.fact(f)
    return r


def mentions(f, j):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(j):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False


def ent_ext(I, a, b):
    """Ground extensionality of edges."""
    k = EDIFF(a, b)
    I.fact(z3.Implies(z3.And(KIND(a) == 0, KIND(b) == 0, ELEN(a) == ELEN(b), z3.Implies(z3.And(k >= 0, k < ELEN(a)), EL(a, k) == EL(b, k))), a == b))


# -- numbers as texts ---------------------------------------------------------------

def int_text(t):
    """t reads -?[0-9]+"""
    j = z3.Int('j$')
    return z3.And(LEN(t) >= 1, z3.Or(CH(t, 0) == 45, dig(CH(t, 0))), z3.Implies(CH(t, 0) == 45, LEN(t) >= 2),
                  z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < LEN(t)), dig(CH(t, j))), patterns=[CH(t, j)]))


def dig(c):
    return z3.And(c >= 48, c <= 57)


def flt_text(t, p):
    """t reads -?[0-9]*.[0-9]* with at least one digit, the point at p"""
    j = z3.Int('j$')
    return z3.And(p >= 0, p < LEN(t), CH(t, p) == 46, z3.Or(CH(t, 0) == 45, CH(t, 0) == 46, dig(CH(t, 0))),
                  z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < LEN(t), j != p), dig(CH(t, j))), patterns=[CH(t, j)]),
                  LEN(t) >= z3.If(CH(t, 0) == 45, 3, 2))


ISINT = z3.Function('ISINT', Str, Bool)
ISFLT = z3.Function('ISFLT', Str, Bool)


def is_int(I, t):
    """The text is an optional minus and one or more digits."""
    I.fact(ISINT(t) == int_text(t))
    return ISINT(t)


def is_flt(I, t):
    """The text is an optional minus and one or more digits with one point."""
    I.fact(ISFLT(t) == flt_text(t, FLTPT(t)))
    pt_facts(I, t)
    return ISFLT(t)


def i2s_facts(I, r, t):
    I.fact(z3.And(is_int(I, r), S2I(r) == t, z3.Implies(t >= 0, CH(r, 0) != 45)))


def int_of(I, x):
    """int(text): assumed for texts of ASCII digits with an optional minus only."""
    from .externs import raise_
    t = I.sterm(x)
    j = z3.Int('j$')
    if I.valid(is_int(I, t)):
        I.trusted.add('int(text) for texts of the form -?[0-9]+')
        return SInt(S2I(t))
    raise Unsupported('int() of a text that may not be a plain number')


def float_of(I, x):
    t = I.sterm(x)
    p = FLTPT(t)
    if I.valid(is_flt(I, t)):
        I.trusted.add('float(text) for texts of the form -?[0-9]*.[0-9]*')
        r = F2E(t)
        I.fact(KIND(r) == 3)
        return SFlt(r)
    raise Unsupported('float() of a text that may not be a plain number')


FLTPT = z3.Function('FLTPT', Str, Int)            # where the point is


def fmt(I, t):
    r = FMT(t)
    I.trusted.add('numpy.format_float_positional(x, trim="0") is of the form -?[0-9]+.[0-9]+ and reads back as x')
    I.fact(z3.And(is_flt(I, r), F2E(r) == t, CH(r, 0) != 46))
    return r


# -- sequences of texts ------------------------------------------------------------------

def seq_term(I, s):
    """A sequence of texts as a term."""
    t = getattr(s, 'term', None)
    if t is not None:
        return t
    q = I.fresh(SSQ, 'texts')
    n = I_zi(s.n)
    j = z3.Int('j$q')
    if isinstance(s.n, int):
        I.assume(z3.And(SQL(q) == n, *[SQA(q, k) == I.sterm(text(I, s.get(k))) for k in range(s.n)]))
    else:
        x = under_binder(I, j, z3.And(j >= 0, j < n), lambda: I.sterm(text(I, s.get(SInt(j)))))
        I.assume(SQL(q) == n)
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), SQA(q, j) == x), patterns=[SQA(q, j)]))
    for o in I.ghost.get('$ssq', ()):
        if callable(o):
            o(I, q)
        else:
            ssq_ext(I, q, o)
    s.term = q
    return q


def text(I, v):
    from .externs import raise_
    if isinstance(v, SEnt):
        v = I.ent_value(v, I.ent_kind(v))
    if not isinstance(v, (str, SStr)):
        raise_('TypeError')
    return v


def ssq_ext(I, a, b):
    k = QDIFF(a, b)
    I.fact(z3.Implies(z3.And(SQL(a) == SQL(b), z3.Implies(z3.And(k >= 0, k < SQL(a)), SQA(a, k) == SQA(b, k))), a == b))


def texts(I, q, kind='list'):
    """The sequence of texts q as a value."""
    s = SSeq(kind, SInt(SQL(q)), lambda j: SStr([SQA(q, I_zi(j))]))
    s.term = q
    return s


def join(I, sep, s):
    if not isinstance(sep, str):
        raise Unsupported('join')
    q = seq_term(I, s)
    return SStr([join_term(I, sep, q)])


def join_term(I, sep, q):
    t = JOIN(I.lit(sep), q)
    if len(sep) == 1:
        # the result of splitting it again, if no part has the separator
        j = z3.Int('j$')
        c = ord(sep)
        w = z3.Function('BADPART', SSQ, Int, Int)(q, z3.IntVal(c))
        I.trusted.add('str.join and str.split with the same one-character separator are inverse')
        p = SQA(q, w)
        I.fact(z3.Implies(z3.And(SQL(q) >= 1, z3.Not(z3.And(w >= 0, w < SQL(q), I.hasc(p, c)))), SPLIT(t, I.lit(sep)) == q))
        q0 = SQA(q, z3.IntVal(0))
        I.fact(z3.And(z3.Implies(SQL(q) == 1, t == q0), z3.Implies(SQL(q) == 0, LEN(t) == 0), z3.Implies(SQL(q) >= 1, LEN(t) >= LEN(q0)),
                      z3.Implies(SQL(q) >= 2, z3.And(LEN(t) >= LEN(q0) + 1, CH(t, LEN(q0)) == c))))
        I.fact(z3.Implies(SQL(q) >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(q0)), CH(t, j) == CH(q0, j)), patterns=[CH(t, j)])))
        I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < SQL(q), z3.Not(I.hasc(t, c)) if c else True), SQL(q) <= 1), patterns=[SQA(q, j)]))
    return t


def split(I, s, sep):
    if sep is None:
        h = I.ghost_models.get('split')
        if h is not None:
            return h(I, s)
        raise Unsupported('split at white space')
    if not (isinstance(sep, str) and len(sep) == 1):
        raise Unsupported('split')
    t = I.sterm(s)
    return PyList(I, texts(I, split_term(I, t, sep)))


def split_term(I, t, sep):
    q = SPLIT(t, I.lit(sep))
    c = ord(sep)
    j = z3.Int('j$')
    I.trusted.add('str.join and str.split with the same one-character separator are inverse')
    has = I.hasc(t, c)
    q0 = SQA(q, z3.IntVal(0))
    I.fact(z3.And(SQL(q) >= 1, JOIN(I.lit(sep), q) == t, (SQL(q) == 1) == z3.Not(has), z3.Implies(SQL(q) == 1, q0 == t)))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < SQL(q)), z3.Not(HASC(SQA(q, j), c))), patterns=[SQA(q, j)]))
    join_term(I, sep, q)
    return q


# -- orderings ------------------------------------------------------------------------

FACT = z3.Function('FACT', Int, Int)
PI = z3.Function('PI', Int, Int, Int, Int)        # position i of ordering k of n positions
PIV = z3.Function('PIV', Int, Int, Int, Int)      # its inverse


def pi_facts(I):
    """itertools.permutations: the orderings are bijections of the positions."""
    n, k, i = z3.Ints('n$ k$ i$')
    I.trusted.add('itertools.permutations yields the n! orderings of the positions, each once, in lexicographic order; math.factorial(n) is their number')
    c = z3.And(k >= 0, k < FACT(n), i >= 0, i < n)
    I.fact(z3.ForAll([n, k, i], z3.Implies(c, z3.And(PI(n, k, i) >= 0, PI(n, k, i) < n, PIV(n, k, PI(n, k, i)) == i)), patterns=[PI(n, k, i)]))
    I.fact(z3.ForAll([n, k, i], z3.Implies(c, z3.And(PIV(n, k, i) >= 0, PIV(n, k, i) < n, PI(n, k, PIV(n, k, i)) == i)), patterns=[PIV(n, k, i)]))
    I.fact(z3.ForAll([n], z3.Implies(n >= 0, FACT(n) >= 1), patterns=[FACT(n)]))


def factorial(I, n):
    import math
    n = I.unopt(n)
    if isinstance(n, int):
        return math.factorial(n)
    pi_facts(I)
    return SInt(FACT(n.t))


def permutations(I, x):
    from .engine import mkint
    s = I.as_seq(x)
    n = I_zi(s.n)
    pi_facts(I)
    r = SSeq('list', mkint(FACT(n)), lambda k: SSeq('tuple', s.n, lambda i: s.get(mkint(PI(n, I_zi(k), I_zi(i))))))
    return r


# -- texts of entities -------------------------------------------------------------------
# WF(e): a well-formed entity, TEXTOK(s): s is the text of one, GOODQ(q): all of q are.

WF = z3.Function('WF', Ent, Bool)
TEXTOK = z3.Function('TEXTOK', Str, Bool)
GOODQ = z3.Function('GOODQ', SSQ, Bool)
NP = z3.Function('NP', Str, Int)                  # number of pieces without white space
PIECE = z3.Function('PIECE', Str, Int, Str)
DEPTH = z3.Function('DEPTH', Str, Int, Int)       # open parentheses after the first m pieces
PREF = z3.Function('PREF', Str, Int, Str)         # the first m pieces joined by spaces
OPN = z3.Function('OPN', Str, Int)                # leading opening parentheses
CLS = z3.Function('CLS', Str, Int)                # trailing closing parentheses
START = z3.Function('START', SSQ, Int, Int)       # pieces before element k of a sequence of texts
OWN = z3.Function('OWN', SSQ, Int, Int)           # element to which piece p belongs
INNER = z3.Function('INNER', Ent, Str)            # text without the outer parentheses
PAR = z3.Function('PAR', Str, Str)                # ( text )


def blank(I):
    return I.lit(' ')


def wf_axioms(I):
    """What well-formed means (the definition the properties give)."""
    e = z3.Const('e$w', Ent)
    j = z3.Int('j$w')
    q = z3.Const('q$w', SSQ)
    I.fact(z3.ForAll([e], z3.Implies(z3.And(WF(e), KIND(e) == 0), ELEN(e) >= 2), patterns=[z3.MultiPattern(WF(e), ELEN(e))]))
    I.fact(z3.ForAll([e, j], z3.Implies(z3.And(WF(e), KIND(e) == 0, j >= 0, j < ELEN(e)), WF(EL(e, j))), patterns=[z3.MultiPattern(WF(e), EL(e, j))]))
    I.fact(z3.ForAll([e], z3.Implies(WF(e), z3.And(TEXTOK(E2S(e)), LEN(E2S(e)) >= 1)), patterns=[E2S(e)]))
    I.fact(z3.ForAll([q, j], z3.Implies(z3.And(GOODQ(q), j >= 0, j < SQL(q)), TEXTOK(SQA(q, j))), patterns=[z3.MultiPattern(GOODQ(q), SQA(q, j))]))
    I.fact(z3.ForAll([e], z3.Implies(WF(e), atom_text(e)), patterns=[E2S(e)]))
    I.fact(z3.ForAll([e], z3.Implies(KIND(e) == 0, z3.And(LEN(E2S(e)) >= 2, CH(E2S(e), 0) == 40)), patterns=[E2S(e)]))
    b = z3.Function('BADTEXT', SSQ, Int)
    I.fact(z3.ForAll([q], z3.Or(GOODQ(q), z3.And(b(q) >= 0, b(q) < SQL(q), z3.Not(TEXTOK(SQA(q, b(q)))))), patterns=[GOODQ(q)]))


def atom_text(e):
    """What the texts of atoms are read as (proved from the definition of E2S: contract 'texts of atoms')."""
    t = E2S(e)
    return z3.And(z3.Implies(KIND(e) != 0, z3.And(LEN(t) >= 1, CH(t, 0) != 40)),
                  z3.Implies(KIND(e) == 1, z3.And(t == TXT(e), z3.Not(ISINT(t)), z3.Not(ISFLT(t)))),
                  z3.Implies(KIND(e) == 2, z3.And(ISINT(t), S2I(t) == IVAL(e))),
                  z3.Implies(KIND(e) == 3, z3.And(ISFLT(t), z3.Not(ISINT(t)), F2E(t) == e)))


def nseq_axioms(I):
    e = z3.Const('e$w', Ent)
    j = z3.Int('j$w')
    I.fact(z3.ForAll([e], z3.Implies(KIND(e) == 0, SQL(NSEQ(e)) == ELEN(e)), patterns=[NSEQ(e)]))
    I.fact(z3.ForAll([e, j], z3.Implies(z3.And(KIND(e) == 0, j >= 0, j < ELEN(e)), SQA(NSEQ(e), j) == E2S(EL(e, j))), patterns=[SQA(NSEQ(e), j)]))
    I.fact(z3.ForAll([e], z3.Implies(z3.And(KIND(e) == 0, WF(e)), GOODQ(NSEQ(e))), patterns=[NSEQ(e)]))


def plain(t):
    """No white space and no parentheses."""
    j = z3.Int('j$')
    c = CH(t, j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(t)), z3.Not(z3.Or(ISWS(c), c == 40, c == 41))), patterns=[CH(t, j)])


def inner_text(I, e):
    """The text of the edge e without the outer parentheses, as a value."""
    t = JOIN(blank(I), NSEQ(e))
    I.fact(t == INNER(e))
    nseq_axioms(I)
    return SStr([t])


def wrapped(I, s):
    """( s ) as a value, and the name PAR for it."""
    t = I.sterm(s)
    v = SStr(['(', t, ')'])
    p = PAR(t)
    I.fact(I.sterm(v) == p)
    return v


def ent_text(I, e, kind=None):
    """E2S(e) unfolded, as a value; kind: what e is (decided if not given)."""
    k = kind or I.ent_kind(SEnt(e))
    wf_axioms(I)
    if k == 'edge':
        v = wrapped(I, inner_text(I, e))
        I.fact(I.sterm(v) == E2S(e))
        return v
    if k == 'sym':
        I.fact(z3.Implies(KIND(e) == 1, E2S(e) == TXT(e)))
        I.fact(z3.Implies(z3.And(WF(e), KIND(e) == 1), z3.And(LEN(TXT(e)) >= 1, plain(TXT(e)), z3.Not(is_int(I, TXT(e))), z3.Not(is_flt(I, TXT(e))))))
        return SStr([TXT(e)])
    if k == 'int':
        r = I.i2s(IVAL(e))
        I.fact(z3.Implies(KIND(e) == 2, E2S(e) == r))
        return SStr([r])
    r = fmt(I, e)
    I.fact(z3.Implies(KIND(e) == 3, E2S(e) == r))
    return SStr([r])


def pt_facts(I, t):
    """FLTPT: the index of the first point (the length if there is none); FIRSTDIG the same for digits."""
    j = z3.Int('j$')
    for f, test in ((FLTPT, lambda c: c == 46), (FIRSTDIG, dig)):
        p = f(t)
        I.fact(z3.And(p >= 0, p <= LEN(t), z3.Implies(p < LEN(t), test(CH(t, p)))))
        I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Not(test(CH(t, j)))), patterns=[CH(t, j)]))


FIRSTDIG = z3.Function('FIRSTDIG', Str, Int)


def pars_facts(I, t):
    """OPN and CLS, for texts with a character that is no parenthesis."""
    j = z3.Int('j$')
    o, c = OPN(t), CLS(t)
    I.fact(z3.And(o >= 0, c >= 0, o <= LEN(t), c <= LEN(t), z3.Implies(o < LEN(t), CH(t, o) != 40), z3.Implies(c < LEN(t), CH(t, LEN(t) - 1 - c) != 41)))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o), CH(t, j) == 40), patterns=[CH(t, j)]))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(t), j > LEN(t) - 1 - c), CH(t, j) == 41), patterns=[CH(t, j)]))


TEXT_LEMMAS = 'lemmas on the pieces of texts of entities (lemmas/Text.lean)'


def pieces_of(I, x, m):
    """Lemma, for texts x of entities: depth and prefix after m and m+1 pieces."""
    I.trusted.add(TEXT_LEMMAS)
    p = PIECE(x, m)
    w = z3.Function('SOLID', Str, Int)(p)
    I.fact(z3.Implies(TEXTOK(x), z3.And(
        NP(x) >= 1, DEPTH(x, 0) == 0, DEPTH(x, NP(x)) == 0, PREF(x, NP(x)) == x,
        z3.Implies(z3.And(m > 0, m < NP(x)), DEPTH(x, m) > 0),
        z3.Implies(z3.And(m + 1 > 0, m + 1 < NP(x)), DEPTH(x, m + 1) > 0),
        z3.Implies(z3.And(m >= 0, m < NP(x)), z3.And(
            DEPTH(x, m + 1) == DEPTH(x, m) + OPN(p) - CLS(p), LEN(p) >= 1, w >= 0, w < LEN(p), CH(p, w) != 40, CH(p, w) != 41)),
        z3.Implies(m == 0, PREF(x, m + 1) == p),
        z3.Implies(z3.And(m >= 1, m < NP(x)), PREF(x, m + 1) == I.sterm(SStr([PREF(x, m), ' ', p]))))))


def pieces_of_seq(I, q, i):
    """Lemma: the pieces of the texts q joined by spaces are those of the texts in order; piece i."""
    I.trusted.add(TEXT_LEMMAS)
    t = JOIN(blank(I), q)
    k = OWN(q, i)
    n = START(q, SQL(q))
    x = SQA(q, k)
    m = i - START(q, k)
    w = WSPLIT(t)
    I.fact(z3.Implies(z3.And(GOODQ(q), i >= 0, i <= n), z3.And(
        SQL(w) == n, k >= 0, k <= SQL(q), START(q, 0) == 0, m >= 0,
        z3.Implies(k == SQL(q), i == n),
        z3.Implies(k < SQL(q), z3.And(START(q, k + 1) == START(q, k) + NP(x), i < START(q, k + 1), i < n, SQA(w, i) == PIECE(x, m), TEXTOK(x))),
        z3.Implies(z3.And(k < SQL(q)), OWN(q, i + 1) == z3.If(i + 1 == START(q, k + 1), k + 1, k)))))
    I.fact(z3.Implies(GOODQ(q), z3.And(SQL(w) == n, OWN(q, 0) == 0, START(q, 0) == 0, n >= 0)))
    pieces_of(I, x, m)
