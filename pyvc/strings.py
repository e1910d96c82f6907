"""Strings: ropes over the uninterpreted sort Str.  Every fact used about LEN,
CH, CAT, SUB is a ground instance (or a per-term quantified instance) of the
definitions: strings are finite sequences of code points, equal exactly if they
have the same length and the same code points (Python's str)."""
import z3
from .values import *

DIFF = z3.Function('DIFF', Str, Str, Int)     # index at which two strings of equal length differ, if any
HASC = z3.Function('HASC', Str, Int, Bool)
WHERE = z3.Function('WHERE', Str, Int, Int)
LOWER = z3.Function('LOWER', Str, Str)
DIGITS = z3.Function('DIGITS', Str, Bool)     # only digits, at least one


def ISWS(c):
    """White space, as str.split, str.strip and \\s see it (the code points CPython calls space)."""
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 31), c == 133, c == 160, c == 5760, z3.And(c >= 8192, c <= 8202), c == 8232, c == 8233,
                 c == 8239, c == 8287, c == 12288)


LITS = {}


def lit(s):
    """z3 constant for a literal."""
    if s not in LITS:
        LITS[s] = z3.Const('lit:' + repr(s), Str)
    return LITS[s]


LIT_OF = {}


def m_lit(I, s):
    t = lit(s)
    LIT_OF[t.get_id()] = s
    I.fact(LEN(t) == len(s))
    if len(s) <= 80:
        for k, c in enumerate(s):
            I.fact(CH(t, k) == ord(c))
    # distinct literals differ
    for o in list(I.lits):
        if o != s and len(o) == len(s) and len(s) > 80:
            I.fact(lit(o) != t)
    I.lits[s] = t
    return t


def m_atom(I, t):
    I.fact(LEN(t) >= 0)
    return t


def m_slen(I, v):
    if isinstance(v, str):
        return len(v)
    n = 0
    sym = None
    for p in v.parts:
        if isinstance(p, str):
            n += len(p)
        elif isinstance(p, Char):
            n += 1
        else:
            if isinstance(p, Slice):
                x = p.hi - p.lo
            elif isinstance(p, Mapped):
                I.fact(LEN(p.t) >= 0)
                x = LEN(p.t)
            else:
                I.fact(LEN(p) >= 0)
                x = LEN(p)
            sym = x if sym is None else sym + x
    if sym is None:
        return n
    return z3.simplify(sym + n)


def part_len(I, p):
    return m_slen(I, SStr([p]))


def part_code(I, p, j):
    """Code point j of a part (j in range)."""
    if isinstance(p, str):
        if isinstance(j, int):
            return z3.IntVal(ord(p[j])) if 0 <= j < len(p) else z3.IntVal(-1)
        if z3.is_int_value(j):
            return part_code(I, p, j.as_long())
        r = z3.IntVal(ord(p[-1]))
        if len(p) > 60:
            return CH(m_lit(I, p), j)
        for k in range(len(p) - 2, -1, -1):
            r = z3.If(j == k, z3.IntVal(ord(p[k])), r)
        return r
    if isinstance(p, Char):
        return p.code
    j = z3.IntVal(j) if isinstance(j, int) else j
    if isinstance(p, Slice):
        return CH(p.t, z3.simplify(p.lo + j))
    if isinstance(p, Mapped):
        return p.fn(CH(p.t, j))
    return CH(p, z3.simplify(j))


def m_code_at(I, v, j):
    """z3 term of code point j, for j in range."""
    if isinstance(v, str):
        v = SStr([v])
    j = z3.IntVal(j) if isinstance(j, int) else j.t if isinstance(j, SInt) else j
    off = z3.IntVal(0)
    pieces = []
    for p in v.parts:
        n = part_len(I, p)
        n = z3.IntVal(n) if isinstance(n, int) else n
        pieces.append((p, off, n))
        off = z3.simplify(off + n)
    r = None
    for p, o, n in reversed(pieces):
        jj = z3.simplify(j - o)
        if z3.is_int_value(jj) and jj.as_long() < 0 and r is not None:
            continue
        c = part_code(I, p, jj)
        if r is None:
            r = c
        else:
            r = z3.If(jj < n, c, r)
    return z3.simplify(r) if r is not None else z3.IntVal(-1)


def m_char_at(I, v, k, noraise=False):
    n = m_slen(I, v)
    nn = n if isinstance(n, int) else SInt(n)
    if not noraise:
        k = I.index(k, nn)
    if isinstance(v, str):
        if isinstance(k, int):
            return v[k]
    return SStr([Char(m_code_at(I, v, k))]) if not isinstance(k, int) or not isinstance(v, str) else v[k]


def m_part_term(I, p):
    if isinstance(p, str):
        return m_lit(I, p)
    if isinstance(p, Char):
        c = p.code if z3.is_expr(p.code) else z3.IntVal(p.code)
        if z3.is_int_value(c) and 0 <= c.as_long() < 0x110000:
            return m_lit(I, chr(c.as_long()))
        t = CHR(c)
        I.fact(z3.And(LEN(t) == 1, CH(t, 0) == c))
        return t
    if isinstance(p, Slice):
        t = SUB(p.t, p.lo, p.hi)
        j = z3.Int('j$')
        I.fact(LEN(t) == p.hi - p.lo)
        I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.hi - p.lo), CH(t, j) == CH(p.t, p.lo + j)), patterns=[CH(t, j)]))
        return t
    if isinstance(p, Mapped):
        x = z3.Int('x$')
        e = z3.simplify(p.fn(x))
        f = z3.Function(map_name(e), Str, Str)
        t = f(p.t)
        j = z3.Int('j$')
        I.fact(LEN(t) == LEN(p.t))
        I.fact(z3.ForAll([j], CH(t, j) == p.fn(CH(p.t, j)), patterns=[CH(t, j)]))
        return t
    I.fact(LEN(p) >= 0)
    return p


MAPS = []


def map_name(e):
    """A name per function on code points (equal functions get the same)."""
    for n, x in enumerate(MAPS):
        if x.eq(e):
            return 'MAP%d' % n
        sv = z3.Solver()
        sv.set('timeout', 2000)
        sv.add(x != e)
        if sv.check() == z3.unsat:
            return 'MAP%d' % n
    MAPS.append(e)
    return 'MAP%d' % (len(MAPS) - 1)


def cat_facts(I, t, a, b):
    j = z3.Int('j$')
    I.fact(z3.And(LEN(t) == LEN(a) + LEN(b), LEN(a) >= 0, LEN(b) >= 0))
    I.fact(z3.ForAll([j], z3.Implies(j >= 0, CH(t, j) == z3.If(j < LEN(a), CH(a, j), CH(b, j - LEN(a)))), patterns=[CH(t, j)]))


def m_sterm(I, v):
    """One z3 term of sort Str."""
    if isinstance(v, SOpt):
        v = I.unopt(v)
    if isinstance(v, str):
        return m_lit(I, v)
    if isinstance(v, SEnt):
        v = I.ent_value(v, I.ent_kind(v))
    if not isinstance(v, SStr):
        raise Unsupported('text expected, got %r' % (v,))
    if not v.parts:
        return m_lit(I, '')
    ts = [m_part_term(I, p) for p in v.parts]
    r = ts[-1]
    for t in reversed(ts[:-1]):
        c = CAT(t, r)
        cat_facts(I, c, t, r)
        r = c
    return r


def same_part(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, Char) and isinstance(b, Char):
        return z3.is_true(z3.simplify(a.code == b.code))
    if isinstance(a, Slice) and isinstance(b, Slice):
        return a.t.eq(b.t) and z3.is_true(z3.simplify(z3.And(a.lo == b.lo, a.hi == b.hi)))
    if isinstance(a, Mapped) and isinstance(b, Mapped):
        x = z3.Int('x$')
        return a.t.eq(b.t) and map_name(z3.simplify(a.fn(x))) == map_name(z3.simplify(b.fn(x)))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def strip_common(I, a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if same_part(x, y):
            a.pop(0)
            b.pop(0)
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None
            a[0], b[0] = x[n:], y[n:]
            a = [p for p in a if p != '' or not isinstance(p, str)]
            b = [p for p in b if p != '' or not isinstance(p, str)]
            continue
        break
    while a and b:
        x, y = a[-1], b[-1]
        if same_part(x, y):
            a.pop()
            b.pop()
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[len(x) - n:] != y[len(y) - n:]:
                return None
            a[-1], b[-1] = x[:len(x) - n], y[:len(y) - n]
            a = [p for p in a if p != '' or not isinstance(p, str)]
            b = [p for p in b if p != '' or not isinstance(p, str)]
            continue
        break
    return a, b


def m_streq(I, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa = (a,) if isinstance(a, str) else a.parts
    pb = (b,) if isinstance(b, str) else b.parts
    r = strip_common(I, SStr(pa).parts, SStr(pb).parts)
    if r is None:
        return False
    x, y = SStr(r[0]), SStr(r[1])
    if not x.parts and not y.parts:
        return True
    if not x.parts or not y.parts:
        n = m_slen(I, y if not x.parts else x)
        return n == 0 if isinstance(n, int) else I.simp(n == 0)
    if len(x.parts) == 1 and len(y.parts) == 1:
        p, q = x.parts[0], y.parts[0]
        for u, w in ((p, q), (q, p)):
            if isinstance(u, Char) and isinstance(w, str):
                return I.simp(u.code == ord(w)) if len(w) == 1 else False
        if isinstance(p, Char) and isinstance(q, Char):
            return I.simp(p.code == q.code)
    for u, w in ((x, y), (y, x)):
        # a text against a short literal: length and code points
        if len(w.parts) == 1 and isinstance(w.parts[0], str) and len(w.parts[0]) <= 12 and not (len(u.parts) == 1 and z3.is_expr(u.parts[0])):
            s = w.parts[0]
            n = m_slen(I, u)
            cs = [n == len(s)] if not isinstance(n, int) else [n == len(s)]
            if cs[0] is False:
                return False
            cs = [c for c in cs if c is not True] + [m_code_at(I, u, k) == ord(ch) for k, ch in enumerate(s)]
            return I.simp(z3.And(*cs))
    ta, tb = m_sterm(I, x), m_sterm(I, y)
    if ta.eq(tb):
        return True
    ext(I, ta, tb, x, y)
    return I.simp(ta == tb)


def ext(I, ta, tb, x, y):
    """Ground instance of extensionality."""
    from . import theory
    if ta.decl().eq(theory.JOIN) and tb.decl().eq(theory.JOIN):
        theory.ssq_ext(I, ta.arg(1), tb.arg(1))
    k = DIFF(ta, tb)
    na, nb = m_slen(I, x), m_slen(I, y)
    ca, cb = m_code_at(I, x, k), m_code_at(I, y, k)
    I.fact(z3.Implies(z3.And(na == nb, z3.Implies(z3.And(k >= 0, k < na), ca == cb)), ta == tb))


def m_concat(I, parts):
    out = []
    for p in parts:
        if isinstance(p, SOpt):
            p = I.unopt(p)
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, SStr):
            out += list(p.parts)
        elif isinstance(p, SEnt):
            out += list(m_strof(I, p).parts)
        else:
            raise Unsupported('text of %r' % (p,))
    res = []
    for p in out:
        if res and isinstance(p, Slice) and isinstance(res[-1], Slice) and p.t.eq(res[-1].t) and z3.is_true(z3.simplify(p.lo == res[-1].hi)):
            q = mkslice(I, p.t, res[-1].lo, p.hi)
            res.pop()
            p = q
        res.append(p)
    r = SStr(res)
    if not r.parts:
        return ''
    if len(r.parts) == 1 and isinstance(r.parts[0], str):
        return r.parts[0]
    return r


def mkslice(I, t, lo, hi):
    lo = z3.simplify(z3.IntVal(lo) if isinstance(lo, int) else lo)
    hi = z3.simplify(z3.IntVal(hi) if isinstance(hi, int) else hi)
    if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(LEN(t)):
        return t
    if lo.eq(hi):
        return ''
    return Slice(t, lo, hi)


def m_strof(I, v):
    """str(v)"""
    if isinstance(v, SOpt):
        v = I.unopt(v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, SInt):
        return SStr([I.i2s(v.t)])
    if isinstance(v, SEnt):
        k = I.ent_kind(v)
        if k == 'edge' or k == 'float' or k == 'other':
            raise Unsupported('str() of an edge or a float')
        return m_strof(I, I.ent_value(v, k))
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        f = v.cls.lookup('__str__')
        if f is not None:
            return I.call(f, [v])
    if isinstance(v, Obj) and hasattr(v.cls, 'strof'):
        return v.cls.strof(I, v)
    raise Unsupported('str() of %r' % (v,))


def m_i2s(I, t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return m_lit(I, str(t.as_long()))
    r = I2S(t)
    from . import theory
    theory.i2s_facts(I, r, t)
    return r


def m_percent(I, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('format')
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    args = list(args)
    k = 0
    while k < len(fmt):
        c = fmt[k]
        if c != '%':
            out.append(c)
            k += 1
            continue
        d = fmt[k + 1:k + 2]
        if d == '%':
            out.append('%')
        elif d in ('s', 'd'):
            if not args:
                from .engine import PyRaise
                raise PyRaise(ExcVal('TypeError'))
            v = args.pop(0)
            if d == 'd' and not isinstance(v, (int, SInt)):
                raise Unsupported('%d')
            out.append(m_strof(I, v))
        else:
            raise Unsupported('format %s' % d)
        k += 2
    if args:
        from .engine import PyRaise
        raise PyRaise(ExcVal('TypeError'))
    return m_concat(I, out)


def m_single_code(I, v):
    if isinstance(v, str):
        return z3.IntVal(ord(v)) if len(v) == 1 else None
    if len(v.parts) == 1 and isinstance(v.parts[0], Char):
        return v.parts[0].code
    if I.valid(m_slen(I, v) == 1 if not isinstance(m_slen(I, v), int) else z3.BoolVal(m_slen(I, v) == 1)):
        return m_code_at(I, v, 0)
    return None


def m_str_slice(I, o, lo, hi):
    lo, hi = I.unopt(lo), I.unopt(hi)
    if isinstance(o, str):
        if all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        o = SStr([o])
    parts = list(o.parts)
    if not parts:
        return ''
    # peel literal ends
    if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        a = lo or 0
        b = hi
        if a >= 0 and (b is None or b < 0):
            drop_f, drop_b = a, -(b or 0)
            ps = list(parts)
            ok = True
            while drop_f and ps:
                p = ps[0]
                if isinstance(p, str):
                    k = min(drop_f, len(p))
                    ps[0] = p[k:]
                    drop_f -= k
                    if ps[0] == '':
                        ps.pop(0)
                elif isinstance(p, Char):
                    ps.pop(0)
                    drop_f -= 1
                else:
                    ok = False
                    break
            while ok and drop_b and ps:
                p = ps[-1]
                if isinstance(p, str):
                    k = min(drop_b, len(p))
                    ps[-1] = p[:len(p) - k]
                    drop_b -= k
                    if ps[-1] == '':
                        ps.pop()
                elif isinstance(p, Char):
                    ps.pop()
                    drop_b -= 1
                else:
                    ok = False
                    break
            if ok:
                return m_concat(I, [SStr(ps)])
            if len(ps) == 1:
                r = m_slice1(I, ps[0], drop_f, drop_b)
                if r is not None:
                    return r
            elif not drop_f or not drop_b:
                end = 0 if drop_f else -1
                r = m_slice1(I, ps[end], drop_f, drop_b, True)
                if r is not None:
                    ps[end:(1 if drop_f else None)] = list(r.parts) if isinstance(r, SStr) else [r]
                    return m_concat(I, [SStr(ps)])
    n = m_slen(I, o)
    nn = n if isinstance(n, int) else SInt(n)
    a, b = I.slice_bounds(lo, hi, nn)
    if isinstance(a, int) and isinstance(b, int) and a >= b:
        return ''
    if len(parts) == 1 and isinstance(parts[0], Slice):
        p = parts[0]
        return m_concat(I, [SStr([mkslice(I, p.t, p.lo + I_zi(a), p.lo + I_zi(b))])])
    if len(parts) == 1 and z3.is_expr(parts[0]):
        return m_concat(I, [SStr([mkslice(I, parts[0], I_zi(a), I_zi(b))])])
    if all(isinstance(p, (str, Char)) for p in parts) and isinstance(a, int) and isinstance(b, int):
        out = []
        for p in parts:
            out += list(p) if isinstance(p, str) else [p]
        return m_concat(I, [SStr(out[a:b])])
    t = m_sterm(I, o)
    return m_concat(I, [SStr([mkslice(I, t, I_zi(a), I_zi(b))])])


def I_zi(x):
    from .engine import zi
    return zi(x)


def m_slice1(I, p, f, b, exact=False):
    """One atom without its first f and last b characters, if it is that long."""
    if isinstance(p, Slice):
        n = p.hi - p.lo
        if I.decide(n >= f + b):
            return SStr([mkslice(I, p.t, p.lo + f, p.hi - b)])
    elif z3.is_expr(p):
        I.fact(LEN(p) >= 0)
        if I.decide(LEN(p) >= f + b):
            return SStr([mkslice(I, p, z3.IntVal(f), LEN(p) - b)])
    else:
        return None
    return None if exact else ''


def m_hasc(I, t, c):
    """Does the term t contain the code point c?"""
    c = z3.IntVal(c) if isinstance(c, int) else c
    r = HASC(t, c)
    w = WHERE(t, c)
    j = z3.Int('j$')
    I.fact(z3.Implies(r, z3.And(w >= 0, w < LEN(t), CH(t, w) == c)))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(z3.Not(r), j >= 0, j < LEN(t)), CH(t, j) != c), patterns=[CH(t, j)]))
    return r


def m_str_contains(I, c, x):
    from .engine import Or, PyRaise
    if isinstance(x, SEnt):
        x = I.ent_value(x, I.ent_kind(x))
    if isinstance(x, SOpt):
        x = I.unopt(x)
    if not isinstance(x, (str, SStr)):
        raise PyRaise(ExcVal('TypeError'))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, str):
        code = x.parts[0].code if len(x.parts) == 1 and isinstance(x.parts[0], Char) else None
        if code is not None:
            return Or(*[code == ord(ch) for ch in dict.fromkeys(c)])
        if len(c) > 60:
            raise Unsupported('text in a long literal')
        subs = {c[a:b] for a in range(len(c) + 1) for b in range(a, len(c) + 1)}
        return Or(*[m_streq(I, x, s) for s in sorted(subs)])
    code = m_single_code(I, x)
    if code is None and '$lines' in I.ghost and isinstance(x, str) and len(x) > 1:
        from . import libs
        return libs.CONT(I.sterm(c), I.sterm(x))
    if code is None:
        raise Unsupported('text in a text')
    rs = []
    for p in c.parts:
        if isinstance(p, str):
            rs += [code == ord(ch) for ch in dict.fromkeys(p)]
        elif isinstance(p, Char):
            rs.append(p.code == code)
        elif z3.is_expr(p):
            rs.append(m_hasc(I, p, code))
        else:
            rs.append(m_hasc(I, m_part_term(I, p), code))
    return I.simp(z3.Or(*rs)) if rs else False
