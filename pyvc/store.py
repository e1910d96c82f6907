"""The SQLite store: SQL statements on ghost tables, connections and cursors; the
states of a hypergraph; and how the tables represent a state.

Ghost: $PERM (ids in the table perms), $VERT (ids in vertices), $DEG and $TS (the
columns of vertices), $dirty (changes that may not be committed), $H (the state).
The tables represent $H when they are canon(I, H)."""
import re
import z3
from .values import *
from .engine import zi, zb, mkint, mkbool
from .externs import raise_, lib
from . import theory as T

# -- states -----------------------------------------------------------------------

State = z3.DeclareSort('State')
STATE = RefKind('state', sort=State)
EX = z3.Function('EX', State, Ent, Bool)            # the edge is stored
KN = z3.Function('KN', State, Ent, Bool)            # the entity is known
CNT = z3.Function('CNT', State, Ent, Int)           # occurrences in the stored edges
TSF = z3.Function('TSF', State, Ent, Int)           # timestamp, -1 if unknown
ADD = z3.Function('ADD', State, Ent, Int, State)
REM = z3.Function('REM', State, Ent, State)
EMPTY = z3.Const('EMPTY', State)
OCC = z3.Function('OCC', Ent, Int, Str, Int)        # elements before i with this text

# -- texts of the rows --------------------------------------------------------------

PSEQ = z3.Function('PSEQ', Ent, Int, T.SSQ)         # texts of the elements in ordering k
FSQ = z3.Function('FSQ', Ent, Int, T.SSQ)           # and then the number of the ordering
PS = z3.Function('PS', Ent, Int, Str)               # the row
DE = z3.Function('DE', Str, Ent)
PK = z3.Function('PK', Str, Int)
S2E = z3.Function('S2E', Str, Ent)                  # the entity with a text
PERMT = z3.Function('PERMT', State, Str, Bool)
VERTT = z3.Function('VERTT', State, Str, Bool)
STARTS = z3.Function('STARTS', Str, Str, Bool)
PLUS1 = z3.Function('PLUS1', Str, Str)
CPL = z3.Function('CPL', Str, Str, Int)             # length of the longest common prefix
PDIFF = z3.Function('PDIFF', Str, Str, Int)
KFIRST = z3.Function('KFIRST', Int, Int, Int)       # an ordering of n that starts with j


def edge(e):
    return z3.And(T.WF(e), KIND(e) == 0)


def perm_ok(e, k):
    return z3.And(edge(e), k >= 0, k < T.FACT(ELEN(e)))


def row_axioms(I, decode=True):
    """The rows of the table perms (definitions); decode: that they can be read back (lemma)."""
    e, k, i = z3.Const('e$p', Ent), z3.Int('k$p'), z3.Int('i$p')
    T.wf_axioms(I)
    T.nseq_axioms(I)
    T.pi_facts(I)
    b = T.blank(I)
    n = ELEN(e)
    p, f = PSEQ(e, k), FSQ(e, k)
    x = T.E2S(EL(e, T.PI(n, k, i)))
    I.fact(z3.ForAll([e, k], z3.Implies(perm_ok(e, k), z3.And(T.SQL(p) == n, T.GOODQ(p))), patterns=[p]))
    I.fact(z3.ForAll([e, k, i], z3.Implies(z3.And(perm_ok(e, k), i >= 0, i < n), T.SQA(p, i) == x), patterns=[T.SQA(p, i)]))
    I.fact(z3.ForAll([e, k], z3.Implies(perm_ok(e, k), z3.And(T.SQL(f) == n + 1, T.GOODQ(f), T.SQA(f, n) == I2S(k), T.ISINT(I2S(k)), S2I(I2S(k)) == k)), patterns=[f]))
    I.fact(z3.ForAll([e, k, i], z3.Implies(z3.And(perm_ok(e, k), i >= 0, i < n), T.SQA(f, i) == x), patterns=[T.SQA(f, i)]))
    I.fact(z3.ForAll([e, k], z3.Implies(perm_ok(e, k), z3.And(PS(e, k) == CAT(T.JOIN(b, p), CAT(b, I2S(k))), T.JOIN(b, f) == PS(e, k), T.JOIN(b, T.NSEQ(e)) == T.INNER(e),
                                                                  T.E2S(e) == T.PAR(T.INNER(e)))), patterns=[PS(e, k)]))
    I.trusted.add('" ".join of a list with one more text is the join, a blank and the text (lemmas/Text.lean)')
    if decode:
        I.fact(z3.ForAll([e, k], z3.Implies(perm_ok(e, k), z3.And(DE(PS(e, k)) == e, PK(PS(e, k)) == k)), patterns=[PS(e, k)]))


def text_axioms(I):
    """S2E: entities are determined by their texts (lemma 'different entities have different texts')."""
    e = z3.Const('e$p', Ent)
    T.wf_axioms(I)
    I.fact(z3.ForAll([e], z3.Implies(T.WF(e), S2E(T.E2S(e)) == e), patterns=[T.E2S(e)]))


def occ_step(I, e, i):
    """The definition of OCC(e, ., .) at i."""
    s = z3.Const('s$o', Str)
    I.fact(z3.ForAll([s], z3.And(OCC(e, i, s) >= 0, OCC(e, i + 1, s) == OCC(e, i, s) + z3.If(T.E2S(EL(e, i)) == s, 1, 0)), patterns=[OCC(e, i + 1, s)]))
    I.fact(z3.ForAll([s], OCC(e, i, s) >= 0, patterns=[OCC(e, i, s)]))
    I.fact(z3.ForAll([s], OCC(e, z3.IntVal(0), s) == 0, patterns=[OCC(e, z3.IntVal(0), s)]))


def state_axioms(I):
    h, e, v, t, j = z3.Const('h$s', State), z3.Const('e$s', Ent), z3.Const('v$s', Ent), z3.Int('t$s'), z3.Int('j$s')
    a, r = ADD(h, e, t), REM(h, e)
    o = OCC(e, ELEN(e), T.E2S(v))
    new = z3.And(edge(e), z3.Not(EX(h, e)))
    I.fact(z3.ForAll([h, e, t], z3.Implies(EX(h, e), a == h), patterns=[a]))
    I.fact(z3.ForAll([h, e, t, v], z3.Implies(edge(e), EX(a, v) == z3.Or(EX(h, v), v == e)), patterns=[EX(a, v)]))
    I.fact(z3.ForAll([h, e, t, v], z3.Implies(new, KN(a, v) == z3.Or(KN(h, v), v == e, z3.And(T.WF(v), o > 0))), patterns=[KN(a, v)]))
    I.fact(z3.ForAll([h, e, t, v], z3.Implies(z3.And(new, T.WF(v)), CNT(a, v) == CNT(h, v) + o), patterns=[CNT(a, v)]))
    I.fact(z3.ForAll([h, e, t, v], z3.Implies(new, TSF(a, v) == z3.If(KN(h, v), TSF(h, v), z3.If(KN(a, v), t, -1))), patterns=[TSF(a, v)]))
    I.fact(z3.ForAll([h, e], z3.Implies(z3.Not(EX(h, e)), r == h), patterns=[r]))
    I.fact(z3.ForAll([h, e, v], EX(r, v) == z3.And(EX(h, v), v != e), patterns=[EX(r, v)]))
    I.fact(z3.ForAll([h, e, v], z3.Implies(EX(h, e), KN(r, v) == z3.And(KN(h, v), z3.Not(z3.And(v == e, CNT(r, v) == 0)))), patterns=[KN(r, v)]))
    I.fact(z3.ForAll([h, e, v], z3.Implies(z3.And(EX(h, e), T.WF(v)), CNT(r, v) == CNT(h, v) - o), patterns=[CNT(r, v)]))
    I.fact(z3.ForAll([h, e, v], z3.Implies(EX(h, e), TSF(r, v) == z3.If(KN(r, v), TSF(h, v), -1)), patterns=[TSF(r, v)]))
    I.fact(z3.ForAll([v], z3.And(z3.Not(EX(EMPTY, v)), z3.Not(KN(EMPTY, v)), CNT(EMPTY, v) == 0, TSF(EMPTY, v) == -1)))
    # lemmas on all states that are reached
    I.trusted.add('lemmas on the states of a hypergraph, by induction over its history (lemmas/Store.lean)')
    I.fact(z3.ForAll([h, v], z3.And(CNT(h, v) >= 0, z3.Implies(z3.Not(KN(h, v)), CNT(h, v) == 0)), patterns=[CNT(h, v)]))
    I.fact(z3.ForAll([h, v], z3.Implies(KN(h, v), T.WF(v)), patterns=[KN(h, v)]))
    I.fact(z3.ForAll([h, v], z3.Implies(z3.Not(KN(h, v)), TSF(h, v) == -1), patterns=[TSF(h, v)]))
    I.fact(z3.ForAll([h, e], z3.Implies(EX(h, e), z3.And(edge(e), KN(h, e))), patterns=[EX(h, e)]))
    I.fact(z3.ForAll([h, e, j], z3.Implies(z3.And(EX(h, e), j >= 0, j < ELEN(e)), KN(h, EL(e, j))), patterns=[z3.MultiPattern(EX(h, e), EL(e, j))]))


def table_axioms(I):
    h, s = z3.Const('h$t', State), z3.Const('s$t', Str)
    I.fact(z3.ForAll([h, s], PERMT(h, s) == z3.And(EX(h, DE(s)), PK(s) >= 0, PK(s) < T.FACT(ELEN(DE(s))), s == PS(DE(s), PK(s))), patterns=[PERMT(h, s)]))
    v = S2E(s)
    I.fact(z3.ForAll([h, s], VERTT(h, s) == z3.And(KN(h, v), T.E2S(v) == s), patterns=[VERTT(h, s)]))


TABLES = ('$PERM', '$VERT', '$DEG', '$TS')


def canon(I, h):
    """The tables that represent the state h."""
    c = I.ghost_models.setdefault('$canon', {})
    k = h.get_id()
    if k not in c:
        fs = (SFun([Str], lambda s: PERMT(h, s)), SFun([Str], lambda s: VERTT(h, s)),
              SFun([Str], lambda s: CNT(h, S2E(s))), SFun([Str], lambda s: TSF(h, S2E(s))))
        for f in fs:
            f.of = h
        c[k] = (h, fs)
    return c[k][1]


def set_state(I, h):
    I.ghost['$H'] = SRef(h, STATE)
    for n, f in zip(TABLES, canon(I, h)):
        I.ghost[n] = f


def state(I):
    return I.ghost['$H'].t


def represented(I):
    """Do the tables represent $H by construction?"""
    h = state(I)
    return all(getattr(I.ghost[n], 'of', None) is not None and I.ghost[n].of.eq(h) for n in TABLES)


def prove_represents(I, h):
    """The tables represent the state h."""
    s = I.fresh(Str, 'row')
    p, v, d, t = canon(I, h)
    P, V, D, S = [I.ghost[n] for n in TABLES]
    I.prove(zb(P(s)) == p(s), 'the rows of perms are the orderings of the stored edges')
    I.prove(zb(V(s)) == v(s), 'the rows of vertices are the known entities')
    I.prove(z3.Implies(v(s), D(s) == d(s)), 'the degrees are the numbers of occurrences')
    I.prove(z3.Implies(v(s), S(s) == t(s)), 'the timestamps are those of the first adding')


# -- texts in order --------------------------------------------------------------------

def before(I, a, b):
    """a < b for texts, as Python and SQLite (binary collation of UTF-8) order them."""
    j = z3.Int('j$')
    c = CPL(a, b)
    I.trusted.add('SQLite compares texts by code points (binary collation of UTF-8)')
    I.fact(z3.And(c >= 0, c <= LEN(a), c <= LEN(b), z3.Implies(z3.And(c < LEN(a), c < LEN(b)), CH(a, c) != CH(b, c))))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), CH(a, j) == CH(b, j)), patterns=[CH(a, j)]))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), CH(a, j) == CH(b, j)), patterns=[CH(b, j)]))
    I.fact(LT(a, b) == z3.Or(z3.And(c == LEN(a), LEN(a) < LEN(b)), z3.And(c < LEN(a), c < LEN(b), CH(a, c) < CH(b, c))))
    return LT(a, b)


def starts_def(I, s, p):
    """STARTS(s, p), unfolded."""
    j = z3.Int('j$')
    w = PDIFF(s, p)
    I.fact(z3.Implies(STARTS(s, p), LEN(s) >= LEN(p)))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(STARTS(s, p), j >= 0, j < LEN(p)), CH(s, j) == CH(p, j)), patterns=[CH(s, j)]))
    I.fact(z3.ForAll([j], z3.Implies(z3.And(STARTS(s, p), j >= 0, j < LEN(p)), CH(s, j) == CH(p, j)), patterns=[CH(p, j)]))
    I.fact(z3.Or(STARTS(s, p), LEN(s) < LEN(p), z3.And(w >= 0, w < LEN(p), CH(s, w) != CH(p, w))))
    return STARTS(s, p)


def range_lemma(I, p):
    """Lemma: the texts from p to before PLUS1(p) are those that start with p (contract 'the texts in the range of a prefix')."""
    s = z3.Const('s$r', Str)
    q = PLUS1(p)
    I.fact(z3.ForAll([s], z3.And(z3.Not(LT(s, p)), LT(s, q)) == STARTS(s, p), patterns=[STARTS(s, p)]))
    I.fact(z3.ForAll([s], z3.And(z3.Not(LT(s, p)), LT(s, q)) == STARTS(s, p), patterns=[z3.MultiPattern(LT(s, p), LT(s, q))]))


def first_axiom(I):
    n, j = z3.Int('n$k'), z3.Int('j$k')
    T.pi_facts(I)
    k = KFIRST(n, j)
    I.fact(z3.ForAll([n, j], z3.Implies(z3.And(j >= 0, j < n), z3.And(k >= 0, k < T.FACT(n), T.PI(n, k, 0) == j)), patterns=[k]))
    I.trusted.add('itertools.permutations yields an ordering that starts with any given positions')


# -- SQL --------------------------------------------------------------------------------

COLUMNS = {'perms': ('id',), 'vertices': ('id', 'degree', 'timestamp')}
MAIN = {'perms': '$PERM', 'vertices': '$VERT'}
COLS = {'degree': '$DEG', 'timestamp': '$TS'}
DEFAULTS = {'degree': 0, 'timestamp': -1}


def sql_tokens(q):
    out = re.findall(r"[A-Za-z_][A-Za-z_0-9]*|-?\d+|>=|<=|<>|!=|==|[=<>(),*;+?-]|%s", q)
    if ''.join(out) != re.sub(r'\s+', '', q):
        raise Unsupported('SQL: %s' % q)
    return out


class Stmt:
    """Parses one statement over the two tables."""
    def __init__(self, q, ph):
        self.q, self.ph = q, ph
        self.t = [x for x in sql_tokens(q)]
        self.p = 0
        self.params = 0

    def bad(self):
        raise Unsupported('SQL: %s' % self.q)

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def next(self):
        x = self.peek()
        self.p += 1
        return x

    def kw(self, *words):
        """The next words, if these."""
        if [x.upper() for x in self.t[self.p:self.p + len(words)]] == list(words):
            self.p += len(words)
            return True
        return False

    def need(self, *words):
        if not self.kw(*words):
            self.bad()

    def table(self):
        x = self.next()
        if x is None or x.lower() not in COLUMNS:
            self.bad()
        return x.lower()

    def column(self, t):
        x = self.next()
        if x is None or x.lower() not in COLUMNS[t]:
            self.bad()
        return x.lower()

    def value(self):
        x = self.next()
        if x == self.ph:
            self.params += 1
            return ('param', self.params - 1)
        if x is not None and re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        self.bad()

    def where(self, t):
        cs = []
        if self.kw('WHERE'):
            while True:
                c = self.column(t)
                op = self.next()
                if op not in ('=', '==', '<', '>', '<=', '>=', '<>', '!='):
                    self.bad()
                cs.append((c, op, self.value()))
                if not self.kw('AND'):
                    break
        return cs

    def end(self):
        while self.peek() == ';':
            self.next()
        if self.peek() is not None:
            self.bad()


class Result:
    """Rows of a SELECT: columns as functions of the id, which ids; key if at most one."""
    def __init__(self, I, mem, cols, key=None):
        self.mem, self.cols, self.key = mem, cols, key

    def row(self, s):
        return tuple(SStr([s]) if f is None else SInt(f(s)) for f in self.cols)


def int_value(I, v):
    if isinstance(v, bool) or not isinstance(v, (int, SInt)):
        raise Unsupported('a number column of %r' % (v,))
    return zi(v)


class Conn:
    name = 'connection'

    @staticmethod
    def make(I, path=None):
        return Obj(I, Conn, {'$path': path})

    @staticmethod
    def getattr(I, o, name):
        if name == 'cursor':
            return Builtin('cursor', lambda I: Cursor.make(I, o))
        if name == 'commit':
            def commit(I):
                I.ghost['$dirty'] = False
            return Builtin('commit', commit)
        raise Unsupported('connection.%s' % name)

    @staticmethod
    def setattr(I, o, name, v):
        raise Unsupported('change of a connection')

    @staticmethod
    def shape(I, o):
        return ('const', o)


class Cursor:
    name = 'cursor'
    PH = '?'

    @staticmethod
    def make(I, conn):
        return Obj(I, Cursor, {'conn': conn, '$rs': None, 'rowcount': -1, '$open': True})

    @staticmethod
    def getattr(I, o, name):
        if name == 'rowcount':
            return o.fields['rowcount']
        if name == 'connection':
            return o.fields['conn']
        if name == 'close':
            def close(I):
                o.fields['$open'] = False
                o.fields['$rs'] = None
            return Builtin('close', close)
        if name == 'execute':
            return Builtin('execute', lambda I, q, params=(): Cursor.execute(I, o, q, params))
        if name == 'fetchone':
            return Builtin('fetchone', lambda I: Cursor.fetchone(I, o))
        if name == 'fetchall':
            def fetchall(I):
                s = Cursor.iterate(I, o)
                r = PyList(I, SSeq('list', s.n, s.get))
                return r
            return Builtin('fetchall', fetchall)
        raise Unsupported('cursor.%s' % name)

    @staticmethod
    def setattr(I, o, name, v):
        raise Unsupported('change of a cursor')

    @staticmethod
    def shape(I, o):
        return ('const', o)

    @staticmethod
    def usable(I, o):
        if o.fields['$open'] is not True:
            if o.fields['$open'] is False:
                raise_('ProgrammingError')
            raise Unsupported('a cursor that may be closed')

    @staticmethod
    def result(I, o):
        Cursor.usable(I, o)
        r = o.fields['$rs']
        if not isinstance(r, Result):
            raise Unsupported('rows of a statement without a result')
        return r

    @staticmethod
    def fetchone(I, o):
        r = Cursor.result(I, o)
        o.fields['$rs'] = None          # what it gives afterwards is not modelled
        if r.key is not None:
            return SOpt(z3.Not(zb(r.mem(r.key))), r.row(r.key))
        s = I.fresh(Str, 'row')
        none = I.fresh(Bool, 'none')
        x = z3.Const('x$f', Str)
        I.assume(z3.Implies(z3.Not(none), zb(r.mem(s))))
        I.assume(z3.Implies(none, z3.ForAll([x], z3.Not(zb(r.mem(x))))))
        return SOpt(none, r.row(s))

    @staticmethod
    def iterate(I, o):
        from . import loops
        r = Cursor.result(I, o)
        o.fields['$rs'] = r

        def same():
            if o.fields['$rs'] is not r:
                raise Unsupported('a cursor used again while its rows are read')
        if r.key is not None:
            def get(j):
                same()
                return r.row(r.key)
            return SSeq('list', mkint(z3.If(zb(r.mem(r.key)), 1, 0)), get)
        e = loops.enumeration(I, SSetV(Str, r.mem, lambda y: SStr([y])))

        def get(j):
            same()
            return r.row(e.item(zi(j)))
        s = SSeq('list', e.n, get)
        s.rows = (r, e)
        return s

    @staticmethod
    def execute(I, o, q, params):
        Cursor.usable(I, o)
        if not isinstance(q, str):
            raise Unsupported('SQL that is not a literal')
        ps = I.concrete_items(params)
        if ps is None:
            raise Unsupported('SQL parameters')
        o.fields['$rs'] = None
        st = Stmt(q, I.ghost.get('$PH', '?'))
        r = None
        if st.kw('SELECT'):
            r = Cursor.select(I, st, ps)
            o.fields['rowcount'] = -1
        elif st.kw('UPDATE'):
            o.fields['rowcount'] = Cursor.update(I, st, ps)
        elif st.kw('INSERT'):
            o.fields['rowcount'] = Cursor.insert(I, st, ps)
        elif st.kw('DELETE'):
            o.fields['rowcount'] = Cursor.delete(I, st, ps)
        elif st.kw('CREATE', 'TABLE'):
            Cursor.create(I, st)
        elif st.kw('ALTER', 'TABLE'):
            Cursor.alter(I, st)
        else:
            st.bad()
        o.fields['$rs'] = r
        return o

    @staticmethod
    def val(I, st, v, ps):
        if v[0] == 'int':
            return v[1]
        if st.params != len(ps):
            raise_('ProgrammingError')
        return ps[v[1]]

    @staticmethod
    def cond(I, st, t, cs, ps):
        """The rows meant as a predicate on ids; the id if it is given."""
        if st.params != len(ps):
            raise_('ProgrammingError')
        key = None
        vs = []
        for c, op, v in cs:
            x = Cursor.val(I, st, v, ps)
            if c == 'id':
                if not isinstance(x, (str, SStr)):
                    raise Unsupported('an id that is not a text')
                x = I.sterm(x)
                if op in ('=', '=='):
                    key = x
            else:
                x = int_value(I, x)
            vs.append((c, op, x, I.ghost[COLS[c]] if c != 'id' else None))

        def mem(s):
            fs = []
            for c, op, x, f in vs:
                y = s if c == 'id' else f(s)
                if op in ('=', '=='):
                    fs.append(y == x)
                elif op in ('<>', '!='):
                    fs.append(y != x)
                elif c == 'id':
                    fs.append({'<': LT(y, x), '>': LT(x, y), '<=': z3.Not(LT(x, y)), '>=': z3.Not(LT(y, x))}[op])
                else:
                    fs.append({'<': y < x, '>': y > x, '<=': y <= x, '>=': y >= x}[op])
            return z3.And(*fs) if fs else z3.BoolVal(True)
        return mem, key

    @staticmethod
    def select(I, st, ps):
        names = []
        if st.kw('*'):
            st.bad()                    # depends on the order of the columns
        else:
            while True:
                x = st.next()
                names.append(x.lower() if x else '')
                if not st.kw(','):
                    break
        st.need('FROM')
        t = st.table()
        if any(n not in COLUMNS[t] for n in names):
            st.bad()
        cs = st.where(t)
        st.end()
        mem, key = Cursor.cond(I, st, t, cs, ps)
        table = I.ghost[MAIN[t]]
        cols = [None if n == 'id' else I.ghost[COLS[n]] for n in names]
        if key is not None:
            return Result(I, lambda s: z3.And(zb(table(s)), mem(s)), cols, key)
        return Result(I, lambda s: z3.And(zb(table(s)), mem(s)) if cs else zb(table(s)), cols)

    @staticmethod
    def count(I, table, mem, key):
        if key is not None:
            return mkint(z3.If(z3.And(zb(table(key)), mem(key)), 1, 0))
        n = I.fresh(Int, 'rowcount')
        I.assume(n >= 0)
        return SInt(n)

    @staticmethod
    def update(I, st, ps):
        t = st.table()
        st.need('SET')
        sets = []
        while True:
            c = st.column(t)
            st.need('=')
            x = st.peek()
            if x is not None and x.lower() in COLUMNS[t] and x.lower() != 'id':
                st.next()
                op = st.peek()
                if op in ('+', '-'):
                    st.next()
                    v = st.value()
                    sets.append((c, x.lower(), v, 1 if op == '+' else -1))
                elif op is not None and re.fullmatch(r'-\d+', op):
                    st.next()
                    sets.append((c, x.lower(), ('int', int(op)), 1))
                else:
                    sets.append((c, x.lower(), ('int', 0), 1))
            else:
                sets.append((c, None, st.value(), 1))
            if not st.kw(','):
                break
        cs = st.where(t)
        st.end()
        mem, key = Cursor.cond(I, st, t, cs, ps)
        table = I.ghost[MAIN[t]]
        new = {}
        for c, base, v, sign in sets:
            x = Cursor.val(I, st, v, ps)
            if c == 'id':
                if key is None or not isinstance(x, (str, SStr)) or not I.valid(I.sterm(x) == key):
                    raise Unsupported('change of an id')
                continue
            x = int_value(I, x)
            f = I.ghost[COLS[c]]
            g = I.ghost[COLS[base]] if base else None
            new[COLS[c]] = SFun([Str], lambda s, f=f, g=g, x=x, sign=sign: z3.If(z3.And(zb(table(s)), mem(s)), (g(s) + sign * x) if g else x, f(s)))
        n = Cursor.count(I, table, mem, key)
        for k, f in new.items():
            I.ghost[k] = f
        I.ghost['$dirty'] = True
        return n

    @staticmethod
    def insert(I, st, ps):
        mode = None
        if st.kw('OR', 'IGNORE'):
            mode = 'ignore'
        elif st.kw('OR', 'REPLACE'):
            mode = 'replace'
        st.need('INTO')
        t = st.table()
        if st.kw('('):
            names = []
            while True:
                names.append(st.column(t))
                if not st.kw(','):
                    break
            st.need(')')
        else:
            names = ['id'] if t == 'perms' else st.bad()
        st.need('VALUES')
        st.need('(')
        vs = []
        while True:
            vs.append(st.value())
            if not st.kw(','):
                break
        st.need(')')
        st.end()
        if len(vs) != len(names) or len(set(names)) != len(names) or 'id' not in names:
            st.bad()
        if st.params != len(ps):
            raise_('ProgrammingError')
        row = {n: Cursor.val(I, st, v, ps) for n, v in zip(names, vs)}
        if not isinstance(row['id'], (str, SStr)):
            raise Unsupported('an id that is not a text')
        k = I.sterm(row['id'])
        table = I.ghost[MAIN[t]]
        if mode != 'replace' and I.decide(zb(table(k))):
            if mode is None:
                raise_('IntegrityError')
            return 0
        I.ghost[MAIN[t]] = SFun([Str], lambda s: z3.Or(zb(table(s)), s == k))
        for c in COLUMNS[t]:
            if c != 'id':
                x = int_value(I, row.get(c, DEFAULTS[c]))
                f = I.ghost[COLS[c]]
                I.ghost[COLS[c]] = SFun([Str], lambda s, f=f, x=x: z3.If(s == k, x, f(s)))
        I.ghost['$dirty'] = True
        return 1

    @staticmethod
    def delete(I, st, ps):
        st.need('FROM')
        t = st.table()
        cs = st.where(t)
        st.end()
        mem, key = Cursor.cond(I, st, t, cs, ps)
        table = I.ghost[MAIN[t]]
        n = Cursor.count(I, table, mem, key)
        I.ghost[MAIN[t]] = SFun([Str], lambda s: z3.And(zb(table(s)), z3.Not(mem(s))))
        I.ghost['$dirty'] = True
        return n

    # tables: $schema is None (not modelled) or the columns each table has

    @staticmethod
    def create(I, st):
        sch = I.ghost.get('$schema')
        if sch is None:
            st.bad()
        soft = st.kw('IF', 'NOT', 'EXISTS')
        t = st.table()
        st.need('(')
        depth, cols, cur = 1, [], []
        while depth:
            x = st.next()
            if x is None:
                st.bad()
            depth += (x == '(') - (x == ')')
            if depth == 1 and x == ',' or depth == 0:
                cols.append(cur)
                cur = []
            else:
                cur.append(x)
        st.end()
        names = []
        for c in cols:
            names.append(Cursor.coldef(st, t, c, True))
        if t in dict(sch):
            if soft:
                return
            raise_('OperationalError')
        if names[0] != 'id' or len(set(names)) != len(names):
            st.bad()
        I.ghost['$schema'] = sch + ((t, tuple(names)),)
        I.ghost[MAIN[t]] = SFun([Str], lambda s: z3.BoolVal(False))
        I.ghost['$dirty'] = True

    @staticmethod
    def coldef(st, t, c, created):
        """The column a definition gives; the kinds and defaults it must have."""
        u = [x.upper() for x in c]
        if len(u) < 2 or u[0].lower() not in COLUMNS[t]:
            st.bad()
        n = u[0].lower()
        if n == 'id':
            if not created or u[1:] not in (['TEXT', 'PRIMARY', 'KEY'], ['TEXT', 'PRIMARY', 'KEY', 'NOT', 'NULL'], ['TEXT', 'NOT', 'NULL', 'PRIMARY', 'KEY']):
                st.bad()
        elif u[1] not in ('INTEGER', 'INT', 'BIGINT') or u[2:] != ['DEFAULT', str(DEFAULTS[n])]:
            st.bad()
        return n

    @staticmethod
    def alter(I, st):
        sch = I.ghost.get('$schema')
        if sch is None:
            st.bad()
        t = st.table()
        st.need('ADD')
        st.kw('COLUMN')
        c = []
        while st.peek() not in (None, ';'):
            c.append(st.next())
        st.end()
        n = Cursor.coldef(st, t, c, False)
        d = dict(sch)
        if t not in d or n in d[t]:
            raise_('OperationalError')
        I.ghost['$schema'] = tuple((a, b + (n,) if a == t else b) for a, b in sch)
        table, f = I.ghost[MAIN[t]], I.ghost[COLS[n]]
        I.ghost[COLS[n]] = SFun([Str], lambda s: z3.If(zb(table(s)), z3.IntVal(DEFAULTS[n]), f(s)))
        I.ghost['$dirty'] = True
