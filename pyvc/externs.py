"""Models of the builtins and library functions the code uses.  What is assumed
about each is its documented behaviour; everything else is unsupported."""
import string as _string
import z3
from .values import *
from .strings import ISWS, LOWER, m_hasc
from . import strings as S

NOARG = object()


def raise_(name, *args):
    from .engine import PyRaise
    raise PyRaise(ExcVal(name, args))


def zi(x):
    from .engine import zi as f
    return f(x)


def mkint(x):
    from .engine import mkint as f
    return f(x)


BUILTINS = {}


def builtin(name):
    def deco(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return deco


class TypeVal(Builtin):
    """int, str, list ... usable in isinstance and as functions"""
    pass


def typeval(name):
    def deco(f):
        BUILTINS[name] = TypeVal(name, f)
        return f
    return deco


@builtin('len')
def b_len(I, x):
    if isinstance(x, Obj) and hasattr(x.cls, 'len'):
        return x.cls.len(I, x)
    n = I.length(x)
    if isinstance(n, SInt):
        n = SInt(n.t)
        n.of = x
    return n


@builtin('print')
def b_print(I, *a, **k):
    if '$out' in I.ghost:
        from . import libs
        if set(k) - {'end', 'sep'} or len(a) > 1:
            raise Unsupported('print')
        for x in list(a) + [k.get('end', '\n')]:
            libs.stdout_write(I, x)
    return None


@builtin('isinstance')
def b_isinstance(I, v, t):
    v = I.unopt(v)
    ts = []

    def flat(t):
        if isinstance(t, tuple):
            for x in t:
                flat(x)
        else:
            ts.append(t)
    flat(t)
    for t in ts:
        if isa(I, v, t):
            return True
    return False


def isa(I, v, t):
    if isinstance(t, ClassVal):
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            return subclass(v.cls, t)
        if isinstance(v, Obj) and hasattr(v.cls, 'isa'):
            return v.cls.isa(I, v, t)
        return False
    if not isinstance(t, TypeVal):
        raise Unsupported('isinstance of %r' % (t,))
    n = t.name
    if isinstance(v, SEnt):
        k = I.ent_kind(v)
        return {'edge': 'tuple', 'sym': 'str', 'int': 'int', 'float': 'float'}.get(k) == n
    if isinstance(v, Opaque):
        raise Unsupported('use of %r' % (v,))
    if isinstance(v, Obj) and hasattr(v.cls, 'isa'):
        return v.cls.isa(I, v, t)
    if isinstance(v, (bool, SBool)):
        return n in ('bool', 'int')
    if isinstance(v, (int, SInt)):
        return n == 'int'
    if isinstance(v, (float, SFlt)):
        return n == 'float'
    if isinstance(v, (str, SStr)):
        return n == 'str'
    if isinstance(v, tuple):
        return n == 'tuple'
    if isinstance(v, SSeq):
        return n == v.kind
    if isinstance(v, PyList):
        return n == 'list'
    if isinstance(v, PyDict):
        return n == 'dict'
    if isinstance(v, PySet):
        return n == 'set'
    return False


def subclass(c, t):
    return c is t or (c.name == t.name and c.module is t.module) or any(isinstance(b, ClassVal) and subclass(b, t) for b in c.bases)


@builtin('range')
def b_range(I, a, b=NOARG, st=1):
    if b is NOARG:
        a, b = 0, a
    a, b = I.unopt(a), I.unopt(b)
    if isinstance(st, int) and st == -1:
        return SSeq('range', I.vite(I.simp(zi(a) > zi(b)), mkint(zi(a) - zi(b)), 0), lambda j: mkint(zi(a) - zi(j)))
    if st != 1:
        raise Unsupported('range step')
    if isinstance(a, int) and isinstance(b, int):
        return SSeq('range', max(0, b - a), lambda j: mkint(a + zi(j)) if not isinstance(j, int) else a + j)
    c = I.simp(zi(b) - zi(a) >= 0)
    n = mkint(zi(b) - zi(a)) if a != 0 or not isinstance(a, int) else mkint(zi(b))
    if c is not True and not I.decide(c):
        n = 0
    s = SSeq('range', n, lambda j: mkint(zi(a) + zi(j)))
    if isinstance(a, int) and a == 0 and isinstance(getattr(b, 'of', None), (tuple, PyList, SSeq, SEnt)) and not (isinstance(b.of, PyList) and isinstance(b.of.items, SBag)):
        s.over = I.as_seq(b.of)     # range(len(x)): what a loop over it goes through, for the invariants that contracts offer
    return s


def seq_of(I, x):
    """A sequence with the items of an iterable (iteration order for sets is arbitrary)."""
    from . import loops
    return loops.sequence(I, x)


@typeval('tuple')
def b_tuple(I, x=()):
    if isinstance(x, SEnt) and I.ent_kind(x) == 'edge':
        return x
    items = I.concrete_items(x)
    if items is not None:
        return tuple(items)
    s = seq_of(I, x)
    r = SSeq('tuple', s.n, s.get)
    if hasattr(s, 'term'):
        r.term = s.term
    if getattr(s, 'ent', None) is not None:
        r.ent = s.ent
    return r


@typeval('list')
def b_list(I, x=()):
    items = I.concrete_items(x)
    if items is not None:
        return PyList(I, items)
    s = seq_of(I, x)
    r = SSeq('list', s.n, s.get)
    for k in ('from_set', 'pos', 'item', 'rows'):
        if hasattr(s, k):
            setattr(r, k, getattr(s, k))
    return PyList(I, r)


@typeval('set')
def b_set(I, x=()):
    if isinstance(x, PySet):
        return PySet(I, list(x.items) if isinstance(x.items, list) else x.items)
    items = I.concrete_items(x)
    if items is not None:
        s = PySet(I, [])
        for v in items:
            set_add(I, s, v)
        return s
    if isinstance(x, PyList) and isinstance(x.items, SBag):
        return PySet(I, SSetV(x.items.sort, x.items.mem, x.items.wrap))
    s = seq_of(I, x)
    if getattr(s, 'from_set', None) is not None:
        return PySet(I, s.from_set)
    if isinstance(s, SSeq):
        return PySet(I, seq_set(I, s))
    raise Unsupported('set of %r' % (x,))


BUILTINS['frozenset'] = BUILTINS['set']


def seq_set(I, s):
    """The set of the items of a sequence."""
    f = I.element_of(I, s) if I.element_of is not None else None
    if f is not None:
        return SSetV(Ent, f, lambda y: SEnt(y))
    j = I.fresh(Int, 'j')
    v = s.get(SInt(j))
    if isinstance(v, (SStr, str)):
        sort, t = Str, I.sterm(v)
        wrap = lambda y: SStr([y])
    else:
        sort, t = Ent, I.ent_of(v)
        wrap = lambda y: SEnt(y)
    n = s.n

    def mem(y):
        f = getattr(s, 'member', None)
        if f is not None:
            return f(y)
        return z3.Exists([j], z3.And(j >= 0, j < zi(n), y == t))
    return SSetV(sort, mem, wrap)


def is_strings(items):
    return all(isinstance(x, (str, SStr)) for x in items)


def set_add(I, s, v):
    if isinstance(v, PyList) or isinstance(v, (PyDict, PySet)) or (isinstance(v, SSeq) and v.kind == 'list'):
        raise_('TypeError')
    if isinstance(s.items, list):
        for x in s.items:
            if I.veq(x, v) is True:
                return
        s.items.append(v)
        return
    sv = s.items
    t = I.sterm(v) if sv.sort == Str else I.ent_of(v)
    r = SSetV(sv.sort, lambda y: z3.Or(S_zb(sv.mem(y)), y == t), sv.wrap)
    r.hist = (sv, v)
    s.items = r


def S_zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def set_update(I, s, x):
    if isinstance(x, PySet):
        a, b = s.items, x.items
        if isinstance(a, list) and isinstance(b, list):
            for v in b:
                set_add(I, s, v)
            return
        va, vb = I.set_value(s), I.set_value(x)
        if va is None:
            s.items = vb
            return
        if vb is None:
            return
        if va.sort != vb.sort:
            raise Unsupported('sets of different kinds')
        s.items = SSetV(va.sort, lambda y: z3.Or(S_zb(va.mem(y)), S_zb(vb.mem(y))), va.wrap)
        return
    t = b_set(I, x)
    set_update(I, s, t)


def set_op(I, op, a, b):
    import ast
    va, vb = I.set_value(a), I.set_value(b)
    if op is ast.BitOr:
        r = b_set(I, a)
        set_update(I, r, b)
        return r
    if va is None:
        return PySet(I, [])
    if vb is None:
        return b_set(I, a) if op is ast.Sub else PySet(I, [])
    if op is ast.Sub:
        return PySet(I, SSetV(va.sort, lambda y: z3.And(S_zb(va.mem(y)), z3.Not(S_zb(vb.mem(y)))), va.wrap))
    return PySet(I, SSetV(va.sort, lambda y: z3.And(S_zb(va.mem(y)), S_zb(vb.mem(y))), va.wrap))


@typeval('dict')
def b_dict(I, x=None, **kw):
    if x is None and not kw:
        return I.new_dict([])
    d = PyDict(I, x.items if isinstance(x, PyDict) else {})
    d.items.update(kw)
    return d


@typeval('str')
def b_str(I, x=''):
    h = I.ghost_models.get('str')
    if h is not None:
        r = h(I, x)
        if r is not None:
            return r
    return I.strof(x)


@typeval('int')
def b_int(I, x=0):
    x = I.unopt(x)
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise_('ValueError')
    if isinstance(x, SStr):
        h = I.ghost_models.get('int')
        if h is not None:
            return h(I, x)
        from . import theory
        return theory.int_of(I, x)
    raise Unsupported('int of %r' % (x,))


@typeval('float')
def b_float(I, x=0.0):
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, SStr):
        h = I.ghost_models.get('float')
        if h is not None:
            return h(I, x)
        from . import theory
        return theory.float_of(I, x)
    raise Unsupported('float of %r' % (x,))


@typeval('bool')
def b_bool(I, x=False):
    from .engine import mkbool
    return mkbool(I.truth(x))


@typeval('object')
def b_object(I):
    raise Unsupported('object()')


@typeval('bytes')
def b_bytes(I, *a):
    raise Unsupported('bytes')


@builtin('chr')
def b_chr(I, x):
    x = I.unopt(x)
    if isinstance(x, int):
        return chr(x)
    if not I.decide(z3.And(zi(x) >= 0, zi(x) < 0x110000)):
        raise_('ValueError')
    return SStr([Char(zi(x))])


@builtin('ord')
def b_ord(I, x):
    if isinstance(x, str):
        if len(x) != 1:
            raise_('TypeError')
        return ord(x)
    if isinstance(x, SEnt):
        x = I.ent_value(x, I.ent_kind(x))
    c = I.single_code(x)
    if c is None:
        raise Unsupported('ord of %r' % (x,))
    c = z3.simplify(c)
    if not z3.is_int_value(c):
        I.fact(z3.And(c >= 0, c < 0x110000))
    return mkint(c)


@builtin('hex')
def b_hex(I, x):
    if isinstance(x, int):
        return hex(x)
    x = u64_int(I, x) if isinstance(x, Obj) else x
    t = zi(x)
    if not I.valid(t >= 0):
        raise Unsupported('hex of a negative number')
    return I.concat(['0x', SStr([HEXS(I, t)])])


_HEX = z3.Function('HEX', Int, Str)


def HEXS(I, t):
    """Lower case hexadecimal form without prefix."""
    r = _HEX(z3.simplify(t))
    I.fact(LEN(r) >= 1)
    return r


@builtin('abs')
def b_abs(I, x):
    if isinstance(x, int):
        return abs(x)
    return I.vite(zi(x) >= 0, x, mkint(-zi(x)))


@builtin('min')
def b_min(I, *a):
    if len(a) == 1:
        a = I.iter_concrete(a[0])
    r = a[0]
    for x in a[1:]:
        r = I.vite(I.simp(zi(x) < zi(r)), x, r)
    return r


@builtin('max')
def b_max(I, *a):
    if len(a) == 1:
        a = I.iter_concrete(a[0])
    r = a[0]
    for x in a[1:]:
        r = I.vite(I.simp(zi(x) > zi(r)), x, r)
    return r


@builtin('enumerate')
def b_enumerate(I, x, start=0):
    items = I.concrete_items(x)
    if items is not None and isinstance(start, int):
        return PyList(I, [(start + k, v) for k, v in enumerate(items)])
    s = seq_of(I, x)
    r = SSeq('list', s.n, lambda j: (mkint(zi(start) + zi(j)), s.get(j)))
    r.over = getattr(s, 'over', s)
    return r


@builtin('zip')
def b_zip(I, *a):
    cs = [I.concrete_items(x) for x in a]
    if all(c is not None for c in cs):
        return PyList(I, [tuple(t) for t in zip(*cs)])
    ss = [seq_of(I, x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        if I.veq(n if isinstance(n, int) else SInt(zi(n)), s.n if isinstance(s.n, int) else SInt(zi(s.n))) is True:
            continue
        n = I.vite(I.simp(zi(n) < zi(s.n)), mkint(zi(n)), mkint(zi(s.n)))
    return SSeq('list', n, lambda j: tuple(s.get(j) for s in ss))


@builtin('reversed')
def b_reversed(I, x):
    return I.reversed(x)


@builtin('iter')
def b_iter(I, x):
    return x


@builtin('sorted')
def b_sorted(I, x, key=None, reverse=False):
    raise Unsupported('sorted')


@builtin('sum')
def b_sum(I, x, start=0):
    items = I.concrete_items(x)
    if items is None:
        raise Unsupported('sum')
    r = start
    import ast
    for v in items:
        r = I.binop(ast.Add(), r, v)
    return r


def quantified(I, x, universal):
    from .engine import mkbool, Or, And
    items = I.concrete_items(x)
    if items is not None:
        r = [I.truth(v) for v in items]
        r = And(*r) if universal else Or(*r)
        return mkbool(r)
    s = seq_of(I, x)
    b = I.fresh(Bool, 'all' if universal else 'any')
    k = I.fresh(Int, 'at')
    j = I.fresh(Int, 'j')
    tk = S_zb(I.truth(s.get(SInt(k))))
    tj = S_zb(I.truth(s.get(SInt(j))))
    rng = lambda u: z3.And(u >= 0, u < zi(s.n))
    if universal:
        I.assume(z3.Implies(z3.Not(b), z3.And(rng(k), z3.Not(tk))))
        I.assume(z3.Implies(b, z3.ForAll([j], z3.Implies(rng(j), tj))))
    else:
        I.assume(z3.Implies(b, z3.And(rng(k), tk)))
        I.assume(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(rng(j), z3.Not(tj)))))
    return SBool(b)


@builtin('any')
def b_any(I, x):
    return quantified(I, x, False)


@builtin('all')
def b_all(I, x):
    return quantified(I, x, True)


@builtin('map')
def b_map(I, f, x):
    import ast
    from .engine import Env as E
    return comp_call(I, f, x, False)


@builtin('filter')
def b_filter(I, f, x):
    return comp_call(I, f, x, True)


_MAPS = {}


def comp_call(I, f, x, flt):
    import ast
    k = 'filter' if flt else 'map'
    if k not in _MAPS:
        src = '[y for y in x if f(y)]' if flt else '[f(y) for y in x]'
        _MAPS[k] = ast.parse(src, mode='eval').body
    env = Env(I, None, ModuleVal('map', {}))
    env.vars['f'] = f
    env.vars['x'] = x
    return I.eval(_MAPS[k], env)


@builtin('getattr')
def b_getattr(I, o, n, d=NOARG):
    from .engine import PyRaise
    try:
        return I.getattr(o, n)
    except PyRaise as e:
        if d is not NOARG and e.exc.name == 'AttributeError':
            return d
        raise


@builtin('hasattr')
def b_hasattr(I, o, n):
    from .engine import PyRaise
    try:
        I.getattr(o, n)
        return True
    except PyRaise:
        return False


@builtin('open')
def b_open(I, name, mode='r', **kw):
    h = I.ghost_models.get('open')
    if h is None:
        raise Unsupported('open')
    return h(I, name, mode)


for _n in ('Exception', 'RuntimeError', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'AttributeError', 'AssertionError', 'NotImplementedError', 'StopIteration',
           'LookupError', 'OSError', 'BaseException'):
    def _mk(n):
        class _E(TypeVal):
            pass
        BUILTINS[n] = TypeVal(n, lambda I, *a: ExcVal(n, a))
    _mk(_n)

BUILTINS['NotImplemented'] = NOTIMPL
BUILTINS['__name__'] = 'module'
BUILTINS['True'] = True
BUILTINS['False'] = False


# -- libraries ---------------------------------------------------------------------

LIB = {}


def lib(name):
    def deco(f):
        LIB[name] = Builtin(name, f)
        return f
    return deco


def lookup(full):
    if full in LIB:
        return LIB[full]
    if any(k.startswith(full + '.') for k in LIB) or '.' not in full:
        return ExtModule(full)
    return Opaque(full)


LIB['string.ascii_lowercase'] = _string.ascii_lowercase
LIB['string.ascii_uppercase'] = _string.ascii_uppercase
LIB['string.ascii_letters'] = _string.ascii_letters
LIB['string.digits'] = _string.digits


class U64:
    """1x1 matrices of 64-bit unsigned integers, and their elements."""
    name = 'uint64'

    @staticmethod
    def make(I, t, dims):
        o = Obj(I, U64)
        o.fields['v'] = z3.simplify(t % 2 ** 64)
        o.fields['dims'] = dims
        return o

    @staticmethod
    def getitem(I, o, k):
        if not o.fields['dims'] or k != 0:
            raise Unsupported('matrix index')
        return U64.make(I, o.fields['v'], o.fields['dims'] - 1)

    @staticmethod
    def getattr(I, o, name):
        return None

    @staticmethod
    def binop(I, op, a, b):
        import ast
        if not (isinstance(a, Obj) and a.cls is U64 and isinstance(b, Obj) and b.cls is U64):
            raise Unsupported('mixed matrix arithmetic')
        if a.fields['dims'] != b.fields['dims']:
            raise Unsupported('matrices of different shape')
        x, y = a.fields['v'], b.fields['v']
        if isinstance(op, ast.Add):
            return U64.make(I, x + y, a.fields['dims'])
        if isinstance(op, ast.Mult):
            return U64.make(I, x * y, a.fields['dims'])
        raise Unsupported('matrix operator')

    @staticmethod
    def shape(I, o):
        return ('u64', o.fields['dims'])

    @staticmethod
    def vite(I, c, a, b):
        return U64.make(I, z3.If(c, a.fields['v'], b.fields['v']), a.fields['dims'])

    @staticmethod
    def eq(I, a, b):
        return a.fields['v'] == b.fields['v']


def u64_int(I, o):
    if isinstance(o, Obj) and o.cls is U64:
        if o.fields['dims']:
            raise Unsupported('matrix used as a number')
        return mkint(o.fields['v'])
    raise Unsupported('number')


@lib('numpy.uint64')
def np_uint64(I, x=0):
    return U64.make(I, zi(x), 0)


@lib('numpy.array')
def np_array(I, x, dtype=None):
    if not (isinstance(dtype, Builtin) and dtype.name == 'numpy.uint64'):
        raise Unsupported('matrix type')
    d = 0
    while isinstance(x, (PyList, tuple)):
        items = I.iter_concrete(x)
        if len(items) != 1:
            raise Unsupported('matrix shape')
        x = items[0]
        d += 1
    return U64.make(I, zi(x), d)


@lib('numpy.dot')
def np_dot(I, a, b):
    if not all(isinstance(x, Obj) and x.cls is U64 and x.fields['dims'] in (0, 2) for x in (a, b)):
        raise Unsupported('dot')
    return U64.make(I, a.fields['v'] * b.fields['v'], 2)


@lib('numpy.format_float_positional')
def np_ffp(I, x, trim='k', **kw):
    from . import theory
    if kw or trim != '0' or not isinstance(x, (SFlt, SEnt)):
        raise Unsupported('format_float_positional')
    return SStr([theory.fmt(I, x.t)])


@lib('math.factorial')
def math_factorial(I, n):
    from . import theory
    return theory.factorial(I, n)


@lib('itertools.permutations')
def it_permutations(I, x):
    from . import theory
    return theory.permutations(I, x)


@lib('random.choice')
def random_choice(I, x):
    s = I.as_seq(x)
    k = I.fresh(Int, 'choice')
    I.assume(z3.And(k >= 0, k < zi(s.n)))
    return s.get(SInt(k))


def regex(I, pat):
    if not isinstance(pat, str):
        raise Unsupported('regular expression')
    return pat


@lib('re.search')
def re_search(I, pat, s):
    from . import libs
    return libs.search(I, regex(I, pat), s)


@lib('re.sub')
def re_sub(I, pat, rep, s):
    if not (isinstance(rep, str) and len(rep) == 1 and rep not in '\\'):
        raise Unsupported('replacement')
    if pat in (r'\s', r'[\s]', '[ ]', ' '):
        f = (lambda c: ISWS(c)) if 's' in pat else (lambda c: c == 32)
        return map_chars(I, s, lambda c: z3.If(f(c), z3.IntVal(ord(rep)), c))
    import re
    m = re.fullmatch(r'\[((?:[^\\\]^-]|\\[s()/\[\]])+)\]', pat) if isinstance(pat, str) else None
    if m:
        # a set of characters
        body = m.group(1)
        tests = []
        k = 0
        while k < len(body):
            if body[k] == '\\':
                ch = body[k + 1]
                tests.append('ws' if ch == 's' else ch)
                k += 2
            else:
                tests.append(body[k])
                k += 1
        return map_chars(I, s, lambda c: z3.If(z3.Or(*[ISWS(c) if t == 'ws' else c == ord(t) for t in tests]), z3.IntVal(ord(rep)), c))
    raise Unsupported('regular expression %r' % (pat,))


class Pattern:
    name = 'pattern'

    @staticmethod
    def getattr(I, o, name):
        h = I.ghost_models.get('pattern')
        if h:
            return h(I, o, name)
        if name == 'search':
            from . import libs
            return Builtin('search', lambda I, s: libs.search(I, o.fields['pat'], s))
        return None

    @staticmethod
    def shape(I, o):
        return ('const', o)


@lib('re.compile')
def re_compile(I, pat, *a):
    o = Obj(I, Pattern)
    o.fields['pat'] = regex(I, pat)
    return o


def map_chars(I, s, f):
    """s with the function f on code points applied to every character."""
    if isinstance(s, str):
        s = SStr([s])
    if isinstance(s, SEnt):
        s = I.ent_value(s, I.ent_kind(s))
    out = []
    for p in s.parts:
        if isinstance(p, str):
            for ch in p:
                out.append(Char(z3.simplify(f(z3.IntVal(ord(ch))))))
        elif isinstance(p, Char):
            out.append(Char(z3.simplify(f(p.code))))
        elif isinstance(p, Mapped):
            out.append(Mapped(p.t, (lambda g: lambda c: f(g(c)))(p.fn)))
        elif isinstance(p, Slice):
            raise Unsupported('replacement in a part')
        else:
            out.append(Mapped(p, f))
    res = []
    for p in out:
        if isinstance(p, Char) and z3.is_int_value(p.code):
            res.append(chr(p.code.as_long()))
        else:
            res.append(p)
    return I.concat([SStr(res)])


# -- methods -----------------------------------------------------------------------

def method(I, o, name):
    t = None
    if isinstance(o, (str, SStr)):
        t = STR
    elif isinstance(o, PyList):
        t = LIST
    elif isinstance(o, PySet):
        t = SET
    elif isinstance(o, PyDict):
        t = DICT
    elif isinstance(o, (tuple, SSeq, SEnt)):
        t = SEQ
    if t is not None and name in t:
        f = t[name]
        return Builtin(name, lambda I, *a, **k: f(I, o, *a, **k))
    if t is SEQ and isinstance(o, SSeq) and o.kind == 'list' and name in LIST:
        raise Unsupported('change of a list inside a list')
    return None


STR, LIST, SET, DICT, SEQ = {}, {}, {}, {}, {}


def meth(t, name):
    def deco(f):
        t[name] = f
        return f
    return deco


@meth(STR, 'lower')
def s_lower(I, s):
    if isinstance(s, str):
        return s.lower()
    return map_str(I, s, LOWER, 'lower')


def map_str(I, s, F, what):
    t = F(I.sterm(s))
    I.fact(LEN(t) >= 0)
    return SStr([t])


_UNARY = {}


def unary(name):
    def f(I, s, *a):
        if isinstance(s, str):
            return getattr(s, name)(*a)
        if a:
            raise Unsupported('str.%s' % name)
        if name not in _UNARY:
            _UNARY[name] = z3.Function('STR_' + name, Str, Str)
        return map_str(I, s, _UNARY[name], name)
    STR[name] = f


for _n in ('upper', 'casefold', 'title', 'capitalize', 'strip', 'lstrip', 'rstrip', 'swapcase'):
    unary(_n)


@meth(STR, 'replace')
def s_replace(I, s, a, b):
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b)
    if not (isinstance(a, str) and isinstance(b, str) and len(a) == 1 and len(b) == 1):
        raise Unsupported('replace')
    return map_chars(I, s, lambda c: z3.If(c == ord(a), z3.IntVal(ord(b)), c))


@meth(STR, 'join')
def s_join(I, sep, x):
    items = I.concrete_items(x)
    if items is not None:
        out = []
        for k, v in enumerate(items):
            if k:
                out.append(sep)
            if isinstance(v, SEnt):
                v = I.ent_value(v, I.ent_kind(v))
            if not isinstance(v, (str, SStr)):
                raise_('TypeError')
            out.append(v)
        return I.concat(out)
    from . import theory
    return theory.join(I, sep, seq_of(I, x))


@meth(STR, 'split')
def s_split(I, s, sep=None, maxsplit=-1):
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return PyList(I, s.split(sep, maxsplit))
    from . import theory
    if maxsplit != -1:
        raise Unsupported('maxsplit')
    return theory.split(I, s, sep)


@meth(STR, 'startswith')
def s_startswith(I, s, p):
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    from .engine import mkbool
    if isinstance(p, tuple):
        from .engine import Or
        return mkbool(Or(*[zbv(s_startswith(I, s, x)) for x in p]))
    n = I.slen(p)
    if not isinstance(p, str):
        raise Unsupported('startswith')
    m = I.slen(s)
    cs = [S_zb(m >= n)] + [I.code_at(s, k) == ord(c) for k, c in enumerate(p)]
    return mkbool(z3.And(*cs))


def zbv(x):
    from .engine import zb
    return zb(x)


@meth(STR, 'endswith')
def s_endswith(I, s, p):
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    from .engine import mkbool
    if not isinstance(p, str):
        raise Unsupported('endswith')
    m = zi(I.slen(s))
    cs = [m >= len(p)] + [I.code_at(s, m - len(p) + k) == ord(c) for k, c in enumerate(p)]
    return mkbool(z3.And(*cs))


@meth(STR, 'isdigit')
def s_isdigit(I, s):
    if isinstance(s, str):
        return s.isdigit()
    raise Unsupported('isdigit')


@meth(STR, 'format')
def s_format(I, s, *a):
    if not isinstance(s, str) or s.count('{}') != len(a) or '{' in s.replace('{}', ''):
        raise Unsupported('format')
    out = []
    ps = s.split('{}')
    for k, p in enumerate(ps):
        out.append(p)
        if k < len(a):
            out.append(I.strof(a[k]))
    return I.concat(out)


@meth(STR, 'count')
def s_count(I, s, x):
    if isinstance(s, str) and isinstance(x, str):
        return s.count(x)
    raise Unsupported('count')


@meth(LIST, 'append')
def l_append(I, o, v):
    I.list_append(o, v)


@meth(LIST, 'extend')
def l_extend(I, o, v):
    I.list_extend(o, v)


@meth(LIST, 'insert')
def l_insert(I, o, k, v):
    if isinstance(o.items, list) and isinstance(k, int):
        o.items.insert(k, v)
        return
    if k == 0:
        s = o.items
        one = I.as_seq((v,))
        r = I.seq_concat(SSeq('list', 1, one.get), s)
        o.items = r
        return
    raise Unsupported('insert')


@meth(LIST, 'pop')
def l_pop(I, o, k=NOARG):
    n = I.length(o)
    if k is NOARG:
        k = mkint(zi(n) - 1) if not isinstance(n, int) else n - 1
        if not I.decide(zi(n) > 0):
            raise_('IndexError')
    if isinstance(o.items, list) and isinstance(k, int):
        if not -len(o.items) <= k < len(o.items):
            raise_('IndexError')
        return o.items.pop(k)
    kk = I.index(k, n)
    s = o.items
    v = s.get(kk)
    if isinstance(kk, int) and kk == 0:
        r = I.slice(s, 1, None)
        o.items = I.as_seq(r)
        return v
    if I.valid(zi(kk) == zi(n) - 1):
        o.items = SSeq('list', mkint(zi(n) - 1), s.get)
        return v
    raise Unsupported('pop')


@meth(LIST, 'reverse')
def l_reverse(I, o):
    r = I.reversed(PyList(I, o.items))
    o.items = r.items if isinstance(r, PyList) else r


@meth(LIST, 'copy')
def l_copy(I, o):
    return PyList(I, list(o.items) if isinstance(o.items, list) else o.items)


@meth(LIST, 'clear')
def l_clear(I, o):
    o.items = []


@meth(SET, 'add')
def st_add(I, o, v):
    set_add(I, o, v)


@meth(SET, 'update')
def st_update(I, o, *xs):
    for x in xs:
        set_update(I, o, x)


@meth(SET, 'union')
def st_union(I, o, *xs):
    r = b_set(I, o)
    for x in xs:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
            union_many(I, r, x[1])
        else:
            set_update(I, r, x)
    return r


def subset(I, a, b):
    """Is every item of a in b?"""
    va, vb = I.set_value(a), I.set_value(b)
    if va is None:
        return True
    if vb is not None and va.sort != vb.sort:
        raise Unsupported('sets of different kinds')
    r, k = I.fresh(Bool, 'subset'), I.fresh(va.sort, 'outside')
    y = z3.Const('y$sub', va.sort)
    inb = lambda t: z3.BoolVal(False) if vb is None else S_zb(vb.mem(t))
    ina = lambda t: S_zb(va.mem(t))
    I.assume(z3.Implies(z3.Not(r), z3.And(ina(k), z3.Not(inb(k)))))
    I.assume(z3.Implies(r, z3.ForAll([y], z3.Implies(ina(y), inb(y)))))
    return SBool(r)


@meth(SET, 'issubset')
def st_issubset(I, o, x):
    return subset(I, o, b_set(I, x))


@meth(SET, 'issuperset')
def st_issuperset(I, o, x):
    return subset(I, b_set(I, x), o)


def union_many(I, r, seq):
    """r |= every set of a sequence of sets"""
    s = seq_of(I, seq)
    j = I.fresh(Int, 'j')
    v = s.get(SInt(j))
    if isinstance(v, PySet):
        v = I.set_value(v)
    if not isinstance(v, SSetV):
        raise Unsupported('union of %r' % (v,))
    old = I.set_value(r)
    n = s.n

    def mem(y):
        e = z3.Exists([j], z3.And(j >= 0, j < zi(n), S_zb(v.mem(y))))
        return e if old is None else z3.Or(S_zb(old.mem(y)), e)
    r.items = SSetV(v.sort, mem, v.wrap)


@meth(SET, 'copy')
def st_copy(I, o):
    return b_set(I, o)


@meth(DICT, 'keys')
def d_keys(I, o):
    return PyList(I, list(o.items.keys()))


@meth(DICT, 'values')
def d_values(I, o):
    return PyList(I, list(o.items.values()))


@meth(DICT, 'items')
def d_items(I, o):
    return PyList(I, [(k, v) for k, v in o.items.items()])


@meth(DICT, 'get')
def d_get(I, o, k, d=None):
    kk = I.dictkey(k)
    return o.items.get(kk, d)

from . import libs    # registers more models
