"""Bounded concrete search for E01-E03 and S01-S06."""
import itertools, math
from common import *
import gb.hypergraph.edge as ed
import gb.hypergraph.symbol as sy
import gb.hypergraph.sql as sql


# -- E01 ----------------------------------------------------------------------

def trip(e):
    t = ed.edge2str(e)
    check(isinstance(t, str), 'edge2str gives no text', edge=e)
    x = ed.str2edge(t)
    check(same(x, e), 'the edge changes on its way through text', edge=e, text=t, got=x)
    check(t[:1] == '(' and t[-1:] == ')', 'no outer parentheses', edge=e, text=t)
    x = ed.str2edge(t[1:-1])
    check(same(x, e), 'the edge changes on its way through text without parentheses', edge=e, text=t[1:-1], got=x)
    t2 = ed.nodes2str(e)
    check(same(ed.str2edge(t2), e), 'the edge changes on its way through nodes2str', edge=e, text=t2, got=ed.str2edge(t2))
    for s in (t, t[1:-1]):
        toks = ed.split_edge_str(s)
        want = [ed.edge2str(x) for x in e]
        check(list(toks) == want, 'the parts of the text are wrong', edge=e, text=s, got=toks, expected=want)
    sp = '  '.join(t.split(' ')) + ' '
    for s in (sp,):
        pass
    return t


def trip_atom(a):
    t = ed.edge2str(a)
    x = ed.str2edge(t)
    check(same(x, a), 'the entity changes on its way through text', entity=a, text=t, got=x)


def E01(c):
    texts = {}
    r = c.rng
    for a in SYMS + INTS + FLTS + BIGF + [-0.0, 0.0]:
        if isinstance(a, str) and reads_as_number(a):
            continue
        c.case(trip_atom, a)
        for e in [(a, a), (a, 'b'), ('b', a), ((a, a), 'b'), ((a, 'b'), (a, 'b')), (((a, a), a), a)]:
            c.case(trip, e)
    while c.more():
        x = r.random()
        if x < .1:
            e = 'a'
            for _ in range(r.randint(1, 30)):
                e = (e, ratom(r)) if r.random() < .5 else (ratom(r), e)
        elif x < .2:
            e = tuple(ratom(r) for _ in range(r.randint(2, 30)))
        else:
            e = redge(r, r.choice([0, 1, 2, 3]), r.choice([2, 3, 6]), float_or_atom)
        t = c.case(trip, e)
        k = key(e)
        if texts.setdefault(t, k) != k:
            raise Violation('two edges have the same text', text=t, edges=[texts[t], k])
        if len(texts) > 200000:
            texts = {}


def float_or_atom(r):
    if r.random() < .1:
        import struct
        f = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
        if f == f and abs(f) != float('inf'):
            return f
    a = ratom(r)
    return a if not (isinstance(a, str) and reads_as_number(a)) else 'x'


# -- E02 ----------------------------------------------------------------------

def ref_type(t):
    b = t[1:] if t[:1] == '-' else t
    if b and all(ch in '0123456789' for ch in b):
        return ed.TokenType.INTEGER
    if b.count('.') == 1 and len(b) > 1 and all(ch in '0123456789.' for ch in b):
        return ed.TokenType.DOUBLE
    return ed.TokenType.STRING


def token(t):
    want = ref_type(t)
    got = ed.token_type(t)
    check(got == want, 'the type of the token is wrong', token=t, got=got, expected=want)
    if t == '':
        return
    v = ed.parsed_token(t)
    if want == ed.TokenType.INTEGER:
        check(type(v) is int and v == int(t), 'the integer is wrong', token=t, got=v)
    elif want == ed.TokenType.DOUBLE:
        check(type(v) is float and v == float(t), 'the float is wrong', token=t, got=v)
    else:
        check(type(v) is str and v == t, 'the symbol is wrong', token=t, got=v)


def E02(c):
    al = '-.019/:ae'
    for n in range(0, 6):
        for p in itertools.product(al, repeat=n):
            c.case(token, ''.join(p))
            if not c.more(.6):
                break
    others = ['٣', '\uff11', '²', '+', '_', ' 1'.strip(), 'e', 'x', '½', '\x00', ',', '−', 'E5', 'inf', 'nan', '０']
    while c.more():
        t = ''.join(c.rng.choice('-.0123456789') if c.rng.random() < .85 else c.rng.choice(others) for _ in range(c.rng.randint(1, 40)))
        c.case(token, t)


# -- E03 ----------------------------------------------------------------------

class Opaque:
    def __eq__(self, o):
        return True
    __hash__ = None


def perms(n):
    want = itertools.permutations(range(n))
    k = -1
    for k, w in enumerate(want):
        x = sql.nthperm(list(range(n)), k)
        check(tuple(x) == w, 'an ordering is wrong', n=n, number=k, got=x, expected=w)
        li = [Opaque() for _ in range(n)]
        y = sql.nthperm(li, k)
        check(len(y) == n and all(a is li[i] for a, i in zip(y, w)), 'an ordering of equal elements is wrong', n=n, number=k)
        z = sql.unpermutate(y, k)
        check(isinstance(z, tuple) and len(z) == n and all(a is b for a, b in zip(z, li)), 'undoing an ordering is wrong', n=n, number=k, indices=[li.index(b) if b in li else None for b in z])
    check(k + 1 == math.factorial(n), 'harness')
    calls = []
    li = tuple('x%d' % i for i in range(n))
    sql.do_with_edge_permutations(li, calls.append)
    want = ['%s %d' % (' '.join(li[i] for i in w), k) for k, w in enumerate(itertools.permutations(range(n)))]
    check(calls == want, 'the orderings written are wrong', n=n, got=calls[:10], expected=want[:10])


def perm_one(n, k, seed):
    r = random.Random(seed)
    pos = list(range(n))
    rest, kk, w = pos[:], k, []
    for i in range(n, 0, -1):
        f = math.factorial(i - 1)
        w.append(rest.pop(kk // f))
        kk %= f
    li = [r.choice([1, 'a', (1, 2), None]) for _ in range(n)]
    y = sql.nthperm(li, k)
    check(len(y) == n and all(a is li[i] for a, i in zip(y, w)), 'an ordering is wrong', n=n, number=k, got=y, expected=[li[i] for i in w])
    z = sql.unpermutate(y, k)
    check(isinstance(z, tuple) and list(z) == li, 'undoing an ordering is wrong', n=n, number=k, list=li, got=z)


def E03(c):
    for n in range(0, 6):
        c.case(perms, n)
    while c.more():
        n = c.rng.choice([6, 6, 7, 7, 8]) if c.rng.random() < .95 else 9
        k = c.rng.randrange(math.factorial(n))
        if c.rng.random() < .2:
            k = c.rng.choice([0, 1, math.factorial(n) - 1])
        if c.rng.random() < .1:
            # longer sequences: orderings with a small number
            n, k = c.rng.randint(10, 16), c.rng.randrange(2000)
        c.case(perm_one, n, k, c.rng.randrange(2 ** 30))


# -- symbols -------------------------------------------------------------------

def rtext(r, extra=''):
    al = 'abAB/_ ~()\t\n:.-0' + 'éßİΣσς中ǅ\u00a0\u2003\u3000\x1c\x85\u200b\u2028' + extra
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 20])
    s = ''.join(r.choice(al) if r.random() < .8 else chr(r.choice([r.randrange(32, 0x250), r.randrange(0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(n))
    if r.random() < .25:
        s = r.choice(['http://', 'https://', 'http:/', 'https:/', 'HTTP://', 'http', '~http://', 'xhttp://', 'http//', 'https//', 'httpx://']) + s
    return s


def is_url(s):
    return s.startswith('http://') or s.startswith('https://')


def neg_sym(s):
    n = sy.is_negative(s)
    check(n == (s[0] == '~') and isinstance(n, bool), 'is_negative is wrong', symbol=s, got=n)
    m = sy.negative(s)
    check(m == (s[1:] if n else '~' + s), 'the negative is wrong', symbol=s, got=m)
    if not n:
        check(sy.is_negative(m), 'the negative is not negative', symbol=s, got=m)
        check(sy.negative(m) == s, 'negating twice changes the symbol', symbol=s, got=sy.negative(m))
    elif len(s) > 1 and s[1] != '~':
        check(not sy.is_negative(m) and sy.negative(m) == s, 'negating twice changes the symbol', symbol=s, got=sy.negative(m))


def neg_edge(e):
    s = e[0]
    n = ed.is_negative(e)
    check(n == (s[0] == '~') and isinstance(n, bool), 'is_negative of the edge is wrong', edge=e, got=n)
    m = ed.negative(e)
    want = ((s[1:] if n else '~' + s),) + e[1:]
    check(same(m, want), 'the negative edge is wrong', edge=e, got=m, expected=want)
    if not n or (len(s) > 1 and s[1] != '~'):
        check(same(ed.negative(m), e), 'negating twice changes the edge', edge=e, got=ed.negative(m))


def S01(c):
    r = c.rng
    while c.more():
        s = rtext(r) or 'a'
        if r.random() < .4:
            s = '~' + s
        c.case(neg_sym, s)
        c.case(neg_edge, (s,) + tuple(redge(r, 1, 5)[:r.randint(0, 4)]))


def parts_case(s):
    ps = sy.parts(s)
    want = [s] if not isinstance(s, str) or is_url(s) else s.split('/')
    check(len(ps) == len(want) and all(same(a, b) for a, b in zip(ps, want)), 'the parts are wrong', symbol=s, got=ps, expected=want)
    check(same(sy.root(s), want[0]), 'the root is wrong', symbol=s, got=sy.root(s))
    ns = want[1] if len(want) > 1 else None
    check(same(sy.nspace(s), ns), 'the namespace is wrong', symbol=s, got=sy.nspace(s), expected=ns)
    ir = sy.is_root(s)
    check(bool(ir) == (s == want[0]), 'is_root is wrong', symbol=s, got=ir)
    if isinstance(s, str) and not is_url(s):
        check(sy.build(ps) == s, 'the parts do not join up to the symbol', symbol=s, got=sy.build(ps))
    ty = sy.sym_type(s)
    want = (sy.SymbolType.EDGE if isinstance(s, (list, tuple)) else sy.SymbolType.URL if isinstance(s, str) and is_url(s) else sy.SymbolType.CONCEPT if isinstance(s, str)
            else sy.SymbolType.INTEGER if isinstance(s, int) else sy.SymbolType.FLOAT if isinstance(s, float) else sy.SymbolType.UNKNOWN)
    check(ty == want, 'the type of the symbol is wrong', symbol=s, got=ty, expected=want)


def build_case(ps):
    s = sy.build(list(ps))
    check(s == '/'.join(ps), 'build is wrong', parts=ps, got=s)
    check(sy.build(tuple(ps)) == s, 'build is wrong', parts=ps)
    if not is_url(s):
        check(list(sy.parts(s)) == list(ps), 'the symbol does not come apart into its parts', parts=ps, got=sy.parts(s))


def S02(c):
    r = c.rng
    for s in SYMS + INTS + FLTS + [(1, 2), ['a', 'b'], None, ('a/b', 'c')]:
        c.case(parts_case, s)
    while c.more():
        c.case(parts_case, rtext(r, '////'))
        c.case(build_case, [rtext(r).replace('/', r.choice(['', 'x'])) for _ in range(r.randint(1, 4))])
        if r.random() < .1:
            c.case(build_case, [r.choice(['http:', 'https:', 'http', 'a']), '', 'b'])


def s2s(s):
    x = sy.str2symbol(s)
    want = ''.join('_' if ch in '/()' or ch.isspace() else ch for ch in s.lower())
    check(x == want, 'str2symbol is wrong', text=s, got=x, expected=want)
    check(sy.str2symbol(x) == x, 'converting again changes the symbol', text=s, got=sy.str2symbol(x))
    check(sy.is_root(x), 'the symbol is no root', text=s, got=x)


def S03(c):
    for i in range(0, 0x110000):
        if 0xd800 <= i < 0xe000:
            continue
        if i < 0x3100 or i % 37 == c.rng.randrange(37):
            c.case(s2s, chr(i))
    while c.more():
        c.case(s2s, rtext(c.rng))


def ref_hash(t):
    h = 1125899906842597
    for ch in t:
        h = ((h + ord(ch)) * 31) % 2 ** 64
    return '%x' % h


def hash_case(t):
    x = sy.hashed(t)
    check(x == ref_hash(t), 'the hash is wrong', text=t, got=x, expected=ref_hash(t))


def S04(c):
    for t in ['', 'a', '\x00', '\U0010ffff', 'graphbrain']:
        c.case(hash_case, t)
    while c.more(.9):
        c.case(hash_case, rtext(c.rng) * c.rng.choice([1, 1, 1, 20]))
    found = small_hashes(c)
    for t in found:
        c.case(hash_case, t)


def small_hashes(c):
    """Texts whose hash has leading zeros (padding) or a set top bit."""
    out = []
    while c.more():
        t = ''.join(chr(c.rng.randrange(0x20, 0x110000 if c.rng.random() < .1 else 0x500)) for _ in range(c.rng.randint(2, 6)))
        if any(0xd800 <= ord(x) < 0xe000 for x in t):
            continue
        if len(ref_hash(t)) < 15:
            out.append(t)
    return out


def nm_case(s, p):
    x = sy.new_meaning(s, p) if p is not None else sy.new_meaning(s)
    if '/' in s:
        check(x == s, 'a symbol with a meaning is changed', symbol=s, got=x)
        return
    pre = s + '/' + (p or '')
    check(isinstance(x, str) and x.startswith(pre), 'the new meaning is built wrong', symbol=s, prefix=p, got=x)
    h = x[len(pre):]
    check(0 < len(h) <= 16 and all(ch in '0123456789abcdef' for ch in h), 'the namespace is no hash', symbol=s, prefix=p, got=x)
    y = sy.new_meaning(s, p) if p is not None else sy.new_meaning(s)
    check(x != y, 'two new meanings are the same', symbol=s, got=[x, y])


def nm_stub(s, p, seed):
    """The hash is that of the random text."""
    import gb.hypergraph.symbol as S
    old = S.random_hash
    S.random_hash = lambda: 'cafe%d' % seed
    try:
        x = S.new_meaning(s, p)
        if '/' not in s:
            check(x == '%s/%scafe%d' % (s, p, seed), 'the new meaning is built wrong', symbol=s, prefix=p, got=x)
    finally:
        S.random_hash = old


def S05(c):
    r = c.rng
    n = 0
    while c.more():
        s = rtext(r)
        if is_url(s):
            continue
        if r.random() < .5:
            s = s.replace('/', '')
        c.case(nm_case, s, r.choice([None, '', 'x', 'wn.', '%s', 'é', 'Wn', '007', ' x ', '_', 'a_B-c', rtext(r)]))
        if not hasattr(sy, 'random_hash'):
            continue


def s2str(s):
    x = sy.symbol2str(s)
    if isinstance(s, str):
        want = s if is_url(s) else s.split('/')[0].replace('_', ' ')
    else:
        want = str(s)
    check(x == want, 'symbol2str is wrong', symbol=s, got=x, expected=want)


def S06(c):
    for s in INTS + FLTS + BIGF + [('a', 'b_c')]:
        c.case(s2str, s)
    while c.more():
        c.case(s2str, rtext(c.rng, '___//'))
