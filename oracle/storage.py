"""Bounded concrete search for the storage properties G01-G15: random
histories on the real store (SQLite), compared with a reference model."""
import os, math, itertools, sqlite3
from collections import Counter
from common import *
from gb.hypergraph.hypergraph import HyperGraph
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
import gb.hypergraph.hypergraph as hgmod
import gb.hypergraph.queries as queries
import gb.hypergraph.constants as const


class Model:
    def __init__(self):
        self.edges = {}
        self.known = {}

    def add1(self, e, ts):
        if e not in self.edges:
            self.edges[e] = True
            for v in e:
                self.known.setdefault(v, ts)
            self.known.setdefault(e, ts)

    def remove1(self, e):
        if e in self.edges:
            del self.edges[e]
            if self.degree(e) == 0:
                self.known.pop(e, None)

    def degree(self, v):
        return sum(1 for e in self.edges for x in e if same(x, v))

    def timestamp(self, v):
        return self.known.get(v, -1)

    def star(self, c):
        return [e for e in self.edges if any(same(x, c) for x in e)]

    def pattern(self, p):
        return [e for e in self.edges if len(e) == len(p) and all(q is None or same(q, x) for q, x in zip(p, e))]

    def root(self, root):
        return sorted({x for e in self.edges for x in e if isinstance(x, str) and x.startswith(root + '/')})

    def sources(self, e):
        return [f[2] for f in self.pattern((const.source, e, None))]

    def ego(self, c, d):
        if d <= 0:
            return set()
        res = set(self.star(c))
        for e in list(res):
            for x in e[1:]:
                res |= self.ego(x, d - 1)
        return res

    def destroy(self):
        self.edges = {}
        self.known = {}


def pool(r, n_atoms=None, n_edges=None, maxlen=4, depth=2, numbers=True):
    base = rsym(r)
    atoms = [base, base + '/1', base + r.choice(['!', 'x', '/', '\U0010ffff', '"'])]
    while len(atoms) < (n_atoms or r.randint(3, 8)):
        atoms.append(ratom(r, numbers))
    atoms = unmix(a for a in atoms if not (isinstance(a, str) and reads_as_number(a)))
    edges = []
    for i in range(n_edges or r.randint(3, 8)):
        x = r.random()
        ml = maxlen if x > .05 else 5 if x > .006 else 6

        def at(rr):
            return rr.choice(atoms)
        e = redge(r, r.choice([0, 0, 1, depth]), ml, at, first_atomic=r.random() < .7)
        if edges and r.random() < .3:
            k = r.randrange(len(e))
            e = e[:k] + (r.choice(edges),) + e[k + 1:]
        if edges and r.random() < .15:
            o = list(r.choice(edges))
            r.shuffle(o)
            e = tuple(o)
        edges.append(e)
    return atoms, edges


def near(r, e, atoms):
    k = r.randrange(6)
    if k == 0:
        o = list(e)
        r.shuffle(o)
        return tuple(o)
    if k == 1 and len(e) > 2:
        return e[:-1]
    if k == 2:
        return e + (r.choice(atoms),)
    i = r.randrange(len(e))
    if k == 3 and isinstance(e[i], tuple):
        return e[:i] + e[i] + e[i + 1:]
    if k == 4:
        return tuple(e[:i] + (e[i:],)) if len(e) - i > 1 and i > 0 else e
    return e[:i] + (r.choice(atoms),) + e[i + 1:]


def universe(atoms, edges):
    out = {}

    def walk(x):
        out[repr(x)] = x
        if isinstance(x, tuple):
            for y in x:
                walk(y)
    for x in list(atoms) + list(edges):
        walk(x)
    return list(out.values())


# -- observers: compare one kind of query with the model ----------------------

def ob_exists(hg, m, r, u):
    atoms, edges, ents = u
    for e in edges + [near(r, r.choice(edges), atoms) for _ in range(4)] + [e for e in ents if isinstance(e, tuple)][:6]:
        x = hg.exists(e)
        check(x is (e in m.edges) or (x == (e in m.edges) and isinstance(x, bool)),
              'exists answers %r for an edge that %s' % (x, 'is stored' if e in m.edges else 'is not stored'), entity=e, stored=list(m.edges))


def ob_star(hg, m, r, u):
    atoms, edges, ents = u
    for c in ents + [near(r, r.choice(edges), atoms), 'zz']:
        x = hg.star(c)
        check(isinstance(x, (set, frozenset)) and same_set(x, m.star(c)), 'star is wrong', center=c, got=sorted(map(repr, x)),
              expected=sorted(map(repr, m.star(c))))


def ob_pattern(hg, m, r, u):
    atoms, edges, ents = u
    for k in range(8):
        base = r.choice(edges) if r.random() < .8 else near(r, r.choice(edges), atoms)
        p = tuple(x if r.random() < .5 else None for x in base)
        if k == 0:
            p = (None,) * r.randint(2, 4)
        if k == 1:
            p = base
        x = hg.pattern2edges(p)
        check(isinstance(x, (set, frozenset)) and same_set(x, m.pattern(p)), 'pattern2edges is wrong', pattern=p, got=sorted(map(repr, x)),
              expected=sorted(map(repr, m.pattern(p))))


def ob_root(hg, m, r, u):
    atoms, edges, ents = u
    roots = {str(a).split('/')[0] for a in ents if not isinstance(a, tuple)} | {'a', 'ab', 'zz'}
    roots |= {x[:-1] for x in roots if len(x) > 1}
    for root in roots:
        if root == '' or any(c in root for c in '/():') or any(c.isspace() for c in root):
            continue
        x = hg.symbols_with_root(root)
        check(sorted(x) == m.root(root) and isinstance(x, (set, frozenset)), 'symbols_with_root is wrong', root=root, got=sorted(x), expected=m.root(root))


def ob_degree(hg, m, r, u):
    for c in u[2] + ['zz', ('zz', 'zz')]:
        x = hg.degree(c)
        check(type(x) is int and x == m.degree(c), 'degree is wrong', entity=c, got=x, expected=m.degree(c))


def ob_timestamp(hg, m, r, u):
    for c in u[2] + ['zz']:
        x = hg.timestamp(c)
        check(type(x) is int and x == m.timestamp(c), 'timestamp is wrong', entity=c, got=x, expected=m.timestamp(c))


def ob_all(hg, m, r, u):
    calls = []

    def f(v):
        calls.append((v['vertex'], v['degree']))
        return (len(calls), v['vertex'])
    x = list(hg.f_all(f))
    exp = sorted(repr((v, m.degree(v))) for v in m.known)
    check(sorted(map(repr, calls)) == exp, 'f_all visits the wrong vertices', got=sorted(map(repr, calls)), expected=exp)
    check(x == [(i + 1, c[0]) for i, c in enumerate(calls)], 'f_all yields something other than the results', got=repr(x)[:500])


def ob_all_mid(hg, m, r, u):
    """Queries between two results of the listing."""
    got = []
    for v in hg.f_all(lambda v: dict(v)):
        got.append((v['vertex'], v['degree']))
        ob_degree(hg, m, r, (u[0], u[1], u[2][:2]))
    exp = sorted(repr((v, m.degree(v))) for v in m.known)
    check(sorted(map(repr, got)) == exp, 'f_all visits the wrong vertices if the hypergraph is queried in between', got=sorted(map(repr, got)), expected=exp)


def ob_sources(hg, m, r, u):
    for e in u[1] + [near(r, r.choice(u[1]), u[0])]:
        x = hg.sources(e)
        check(same_set(x, m.sources(e)) and isinstance(x, (set, frozenset)), 'sources is wrong', edge=e, got=sorted(map(repr, x)), expected=sorted(map(repr, m.sources(e))))


def ob_ego(hg, m, r, u):
    for c in r.sample(u[2], min(3, len(u[2]))):
        for d in (r.choice([-1, 0]), 1, 2, 3):
            x = hg.ego(c, d)
            exp = m.ego(c, d)
            check(isinstance(x, (set, frozenset)) and same_set(x, exp), 'ego is wrong', center=c, depth=d, got=sorted(map(repr, x)), expected=sorted(map(repr, exp)))


EVERY = [ob_exists, ob_star, ob_pattern, ob_root, ob_degree, ob_timestamp, ob_all]


class Boom(Exception):
    pass


class Sim:
    def __init__(self, hg, r, u, obs, log):
        self.hg, self.r, self.u, self.obs, self.log = hg, r, u, obs, log
        self.m = Model()

    def first_atomic(self):
        es = [e for e in self.u[1] if not isinstance(e[0], tuple)]
        return self.r.choice(es) if es else None

    def observe(self, obs=None):
        for o in (obs or self.obs):
            o(self.hg, self.m, self.r, self.u)

    def op_add(self, hg):
        e, ts = self.first_atomic(), self.r.choice([-1, 0, 1, 5, 1000, 2 ** 40])
        if e is None:
            return
        self.log.append(('add', e, ts))
        x = hg.add(e, ts) if ts != -1 or self.r.random() < .5 else hg.add(e)
        check(same(x, e), 'add returns something else', got=x)
        self.m.add1(e, ts)

    def op_addmany(self, hg):
        es = [self.r.choice(self.u[1]) for _ in range(self.r.randint(1, 4))]
        if self.r.random() < .3:
            es = tuple(es)
        ts = self.r.choice([-1, 0, 7, 12])
        self.log.append(('add', es, ts))
        x = hg.add(es, ts)
        check(same(x, es), 'add returns something else', got=x)
        for e in es:
            self.m.add1(e, ts)

    def op_remove(self, hg):
        stored = [e for e in self.m.edges if not isinstance(e[0], tuple)]
        e = self.r.choice(stored) if stored and self.r.random() < .8 else self.first_atomic()
        if e is None:
            return
        self.log.append(('remove', e))
        hg.remove(e)
        self.m.remove1(e)

    def op_removemany(self, hg):
        es = [self.r.choice(list(self.m.edges) or self.u[1]) if self.r.random() < .7 else self.r.choice(self.u[1]) for _ in range(self.r.randint(1, 3))]
        self.log.append(('remove', es))
        hg.remove(es)
        for e in es:
            self.m.remove1(e)

    def op_rmpattern(self, hg):
        if not isinstance(hg, HyperGraph):
            return
        base = self.r.choice(list(self.m.edges) or self.u[1])
        p = tuple(x if self.r.random() < .6 else None for x in base)
        out = self.m.pattern(p)
        if any(same(x, f) for e in out for x in e for f in out):
            return  # whether a removed edge stays known depends on the order, which is not specified
        self.log.append(('remove_by_pattern', p))
        hg.remove_by_pattern(p)
        for e in self.m.pattern(p):
            self.m.remove1(e)

    def src(self):
        return self.r.choice(self.u[0] + [e for e in self.u[1]][:1])

    def op_belief(self, hg):
        if not isinstance(hg, HyperGraph):
            return
        ts = self.r.choice([-1, 3, 9])
        s = self.src()
        if self.r.random() < .5 and self.first_atomic():
            e = self.first_atomic()
            self.log.append(('add_belief', s, e, ts))
            hg.add_belief(s, e, ts)
            es = [e]
        else:
            es = [self.r.choice(self.u[1]) for _ in range(self.r.randint(1, 3))]
            self.log.append(('add_belief', s, es, ts))
            hg.add_belief(s, es, ts)
        for e in es:
            self.m.add1(e, ts)
            self.m.add1((const.source, e, s), ts)
            self.hist = getattr(self, 'hist', set())

    def op_rmbelief(self, hg):
        if not isinstance(hg, HyperGraph):
            return
        bs = [(f[2], f[1]) for f in self.m.edges if len(f) == 3 and f[0] == const.source and isinstance(f[1], tuple)]
        if bs and self.r.random() < .85:
            s, e = self.r.choice(bs)
        else:
            s, e = self.src(), self.r.choice(self.u[1])
        self.log.append(('remove_belief', s, e))
        hg.remove_belief(s, e)
        self.m.remove1((const.source, e, s))
        if not self.m.sources(e):
            self.m.remove1(e)

    def op_destroy(self, hg):
        self.log.append(('destroy',))
        hg.destroy()
        self.m.destroy()

    def op_batch(self, hg, depth=0):
        r = self.r
        n = r.randint(0, 4)
        fail = r.random() < .25
        self.log.append(('batch of', n, 'failing' if fail else ''))
        funs = []

        def fun(k):
            def f(h):
                check(h is self.hg.backend, 'batch_exec passes something else', got=repr(h))
                x = r.random()
                if x < .2 and depth < 2:
                    self.op_batch(h, depth + 1)
                elif x < .3:
                    [y for y in h.f_all(lambda v: h.degree(v['vertex']))]
                else:
                    r.choice([self.op_add, self.op_addmany, self.op_remove, self.op_removemany])(h)
                if r.random() < .7:
                    r.choice(EVERY)(h, self.m, r, self.u)
                self.ran.append((depth, k))
            return f
        funs = [fun(k) for k in range(n)]
        if fail:
            def boom(h):
                raise Boom()
            funs.insert(r.randint(0, n), boom)
        if depth == 0:
            self.ran = []
        try:
            hg.batch_exec(funs)
            check(not fail, 'batch_exec hides the failure of a function')
        except Boom:
            check(fail, 'batch_exec raises the wrong failure')
        self.log.append(('end of batch',))

    def op_failadd(self, hg):
        """A list whose last member cannot be added (not an edge)."""
        es = [self.r.choice(self.u[1]) for _ in range(self.r.randint(1, 2))]
        self.log.append(('add', es + [7], 5))
        try:
            hg.add(es + [7], 5)
        except TypeError:
            pass
        for e in es:
            self.m.add1(e, 5)

    def run(self, ops, n):
        for _ in range(n):
            self.r.choice(ops)(self.hg)
            self.observe()


def sim_case(seed, ops, obs, n, poolargs=None, db=':memory:', after=None):
    r = random.Random(seed)
    atoms, edges = pool(r, **(poolargs or {}))
    u = (atoms, edges, universe(atoms, edges))
    hg = HyperGraph({'backend': 'sqlite', 'db': db})
    log = []
    s = Sim(hg, r, u, obs, log)
    try:
        s.run([getattr(s, o) for o in ops], r.randint(2, n))
        if after:
            after(s)
    except Violation as v:
        v.data['history'] = list(log)
        raise
    except Exception as e:
        import traceback
        tb = [(os.path.relpath(f.filename, REPO), f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO)]
        raise Violation('raises %s: %s' % (type(e).__name__, e), history=list(log), where=tb[-3:])
    finally:
        hg.backend.conn.close()


def sims(c, share, ops, obs, n=10, poolargs=None):
    i = 0
    while c.more(share):
        i += 1
        seed = c.rng.randrange(2 ** 40)
        c.case(sim_case, seed, ops, obs, n, poolargs, show=('history', seed))


ADDREM = ['op_add', 'op_add', 'op_addmany', 'op_remove', 'op_removemany']


def big_edges(c, obs, share):
    """Edges with many elements (all orders are stored)."""
    while c.more(share):
        n = c.rng.choice([5, 6, 6])
        sims_args = dict(n_atoms=3, n_edges=2, maxlen=n, depth=1)
        seed = c.rng.randrange(2 ** 40)
        c.case(sim_case, seed, ADDREM, obs, 3, sims_args, show=('history', seed, n))


def seven_case(what, seed):
    """One edge with seven elements among others."""
    r = random.Random(seed)
    hg = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    m = Model()
    names = ['a', 'ab', 'b/1', 'c', 12, '~d', 'é', ('is', 'a', 'x')]
    big = tuple(r.sample(names, 7))
    small = tuple(r.sample(names, 3))
    for e in (small, big):
        hg.add([e])
        m.add1(e, -1)
    def observe(removed):
        if what == 'exists':
            check(hg.exists(big) == (not removed) and hg.exists(small) and not hg.exists(big[::-1]), 'exists is wrong', edge=big)
        for x in big:
            if what == 'star':
                check(same_set(hg.star(x), m.star(x)), 'star is wrong', center=x, edge=big, removed=removed)
            if what == 'degree':
                check(hg.degree(x) == m.degree(x), 'degree is wrong', entity=x, edge=big, removed=removed, got=hg.degree(x))
        if what == 'pattern':
            for k in range(3):
                p = tuple(x if r.random() < .4 else None for x in big)
                check(same_set(hg.pattern2edges(p), m.pattern(p)), 'pattern2edges is wrong', pattern=p, edge=big, removed=removed)
    observe(False)
    hg.remove([big])
    m.remove1(big)
    observe(True)
    hg.backend.conn.close()


def seven(c, what):
    seed = c.rng.randrange(2 ** 40)
    c.limit, lim = 60, c.limit
    c.case(seven_case, what, seed, show=('edge of seven elements', what, seed))
    c.limit = lim


def G01(c):
    seven(c, 'exists')
    sims(c, .6, ADDREM * 3 + ['op_destroy', 'op_rmpattern', 'op_belief', 'op_rmbelief'], [ob_exists], 12)
    big_edges(c, [ob_exists], .75)
    sims(c, 1, ADDREM, [ob_exists], 25, dict(n_atoms=3, n_edges=3, maxlen=3, depth=1))


def G02(c):
    seven(c, 'star')
    sims(c, .75, ADDREM + ['op_destroy'] * (c.rng.random() < .3), [ob_star], 10)
    big_edges(c, [ob_star], 1)


def G03(c):
    seven(c, 'pattern')
    sims(c, .75, ADDREM, [ob_pattern], 10)
    big_edges(c, [ob_pattern], 1)


def G04(c):
    def roots(cc, share):
        sims(cc, share, ADDREM, [ob_root], 8)
    roots(c, .5)
    while c.more():
        seed = c.rng.randrange(2 ** 40)
        c.case(root_case, seed, show=('roots', seed))


def root_case(seed):
    r = random.Random(seed)
    names = ['a', 'ab', 'é', '%', '_', '-', '1', '.', '~a', 'x!', 'a.', 'A', "'"]
    base = r.sample(names, 3)
    atoms = [b + s for b in base for s in ['', '/1', '/', '//', '/a/b', '/\U0010ffff', '0', '.x', 'x/1'] if not reads_as_number(b + s)]
    atoms = r.sample(atoms, min(8, len(atoms)))
    atoms.append(r.choice(['(', 'r'])[1:] + 'rel')
    hg = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    m = Model()
    hist = []
    for _ in range(r.randint(1, 5)):
        e = redge(r, 1, 4, lambda rr: rr.choice(atoms))
        hg.add([e])
        m.add1(e, -1)
        hist.append(e)
    for b in base + names[:2] + ['a0', 'rel', 'x']:
        x = hg.symbols_with_root(b)
        check(sorted(x) == m.root(b), 'symbols_with_root is wrong', root=b, stored=hist, got=sorted(x), expected=m.root(b))
    hg.backend.conn.close()


def G05(c):
    seven(c, 'degree')
    sims(c, .8, ADDREM * 3 + ['op_destroy', 'op_belief', 'op_rmbelief', 'op_batch', 'op_rmpattern'], [ob_degree], 14)
    big_edges(c, [ob_degree], .9)
    sims(c, 1, ADDREM, [ob_degree], 25, dict(n_atoms=3, n_edges=3, maxlen=3, depth=1))


def G06(c):
    sims(c, .7, ADDREM * 3 + ['op_destroy', 'op_belief', 'op_rmbelief', 'op_batch', 'op_rmpattern'], [ob_timestamp], 14)
    sims(c, 1, ADDREM, [ob_timestamp], 25, dict(n_atoms=3, n_edges=4, maxlen=3, depth=1))


def G07(c):
    sims(c, .7, ADDREM * 2 + ['op_destroy', 'op_belief'], [ob_all, ob_all_mid], 10)
    def mid(s):
        s.hg.batch_exec([lambda h: (s.op_addmany(h), ob_all_mid(h, s.m, s.r, s.u))])
    while c.more():
        seed = c.rng.randrange(2 ** 40)
        c.case(sim_case, seed, ADDREM, [ob_all], 5, None, ':memory:', mid, show=('listing inside a batch', seed))


def G08(c):
    sims(c, .8, ['op_batch', 'op_batch', 'op_add', 'op_addmany', 'op_removemany', 'op_failadd'], EVERY, 8,
         dict(maxlen=3))

    def after(s):
        s.op_failadd(s.hg)
        s.observe()
        s.op_batch(s.hg)
        s.observe()
        s.op_add(s.hg)
        s.observe()
    while c.more():
        seed = c.rng.randrange(2 ** 40)
        c.case(sim_case, seed, ['op_batch', 'op_failadd'], EVERY, 3, dict(maxlen=3), ':memory:', after, show=('batches', seed))


def raw(path):
    conn = sqlite3.connect('file:%s?mode=ro' % path, uri=True, timeout=0.2)
    try:
        v = sorted(conn.execute('SELECT id, degree, timestamp FROM vertices').fetchall())
        p = sorted(conn.execute('SELECT id FROM perms').fetchall())
        return v, p
    finally:
        conn.close()


def own(s):
    c = s.hg.backend.conn
    return (sorted(c.execute('SELECT id, degree, timestamp FROM vertices').fetchall()),
            sorted(c.execute('SELECT id FROM perms').fetchall()))


def durable_case(seed):
    r = random.Random(seed)
    with Scratch() as d:
        path = os.path.join(d, 'x.db')

        def visible(hg, m, rr, u):
            try:
                other = raw(path)
            except sqlite3.OperationalError as e:
                raise Violation('another connection cannot read the finished changes: %s' % e)
            mine = (sorted(hg.backend.conn.execute('SELECT id, degree, timestamp FROM vertices').fetchall()),
                    sorted(hg.backend.conn.execute('SELECT id FROM perms').fetchall()))
            check(other == mine, 'another connection sees something else', other=repr(other)[:800], own=repr(mine)[:800])
            check(not hg.backend.conn.in_transaction, 'a transaction stays open after the operation')

        def reopen(s):
            before = raw(path)
            h2 = HyperGraph({'backend': 'sqlite', 'db': path})
            try:
                for o in EVERY:
                    o(h2, s.m, s.r, s.u)
                check(raw(path) == before, 'opening changes the contents')
            finally:
                h2.backend.conn.close()
            s.hg.backend.conn.close()
            h3 = HyperGraph({'backend': 'sqlite', 'db': path})
            try:
                for o in EVERY:
                    o(h3, s.m, s.r, s.u)
                check(raw(path) == before, 'opening changes the contents')
            finally:
                h3.backend.conn.close()
        sim_case(r.randrange(2 ** 40), ['op_add', 'op_addmany', 'op_remove', 'op_removemany', 'op_batch', 'op_belief', 'op_rmbelief', 'op_rmpattern', 'op_destroy', 'op_failadd'],
                 [visible], 6, dict(maxlen=3), path, reopen)


def G09(c):
    while c.more():
        seed = c.rng.randrange(2 ** 40)
        c.case(durable_case, seed, show=('history on a file', seed))


class Beliefs:
    """Who supports what, from the history alone."""
    def __init__(self):
        self.b = {}


def belief_case(seed):
    r = random.Random(seed)
    atoms, edges = pool(r, maxlen=3, depth=1)
    facts = [e for e in edges if e[0] != const.source][:4]     # no records of sources
    if not facts:
        return
    srcs = list(dict.fromkeys(atoms[:4] + [const.source]))
    hg = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    sup = {}
    hist = []
    other = ('unrelated/rel', atoms[0], 'zz/1')
    hg.add([other])
    for _ in range(r.randint(2, 10)):
        k = r.random()
        s = r.choice(srcs)
        if k < .35:
            e = r.choice(facts)
            if isinstance(e[0], tuple):
                continue
            hist.append(('add_belief', s, e))
            hg.add_belief(s, e, r.choice([-1, 4]))
            sup.setdefault(e, set()).add(s)
        elif k < .6:
            es = [r.choice(facts) for _ in range(r.randint(1, 4))]
            hist.append(('add_belief', s, es))
            hg.add_belief(s, es)
            for e in es:
                sup.setdefault(e, set()).add(s)
        else:
            e = r.choice(facts)
            hist.append(('remove_belief', s, e))
            hg.remove_belief(s, e)
            sup.setdefault(e, set()).discard(s)
        inner = {x for f in facts for x in f}
        for e in facts:
            want = sup.get(e, set())
            got = hg.sources(e)
            check(same_set(got, want), 'sources are wrong', fact=e, got=sorted(map(repr, got)), expected=sorted(map(repr, want)), history=hist)
            check(hg.exists(e) == (len(want) > 0), 'a fact exists without a source or is missing', fact=e, sources=sorted(map(repr, want)), history=hist)
        check(hg.exists(other), 'an unrelated edge is gone', history=hist)
    hg.backend.conn.close()


def G10(c):
    while c.more(.6):
        seed = c.rng.randrange(2 ** 40)
        c.case(belief_case, seed, show=('beliefs', seed))
    sims(c, 1, ['op_belief', 'op_belief', 'op_rmbelief', 'op_rmbelief', 'op_add', 'op_addmany'], [ob_sources, ob_exists, ob_degree, ob_timestamp], 10, dict(maxlen=3, depth=1))


def G11(c):
    sims(c, 1, ['op_rmpattern', 'op_addmany', 'op_addmany', 'op_add'], [ob_exists, ob_pattern], 10)


def state(hg):
    c = hg.backend.conn
    return (sorted(c.execute('SELECT id, degree, timestamp FROM vertices').fetchall()), sorted(c.execute('SELECT id FROM perms').fetchall()))


def buffered_case(seed):
    r = random.Random(seed)
    atoms, edges = pool(r, maxlen=3, depth=1)
    a = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    b = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    mx = r.choice([0, 1, 2, 3, 5, 1000])
    bhg = BatchHyperGraph(a, mx) if mx != 1000 or r.random() < .5 else BatchHyperGraph(a)
    hist = [('limit', mx)]
    tss = r.sample([-1, 0, 3, 4, 99], 3)
    for _ in range(r.randint(1, 12)):
        k = r.random()
        ts = r.choice(tss)
        fa = [e for e in edges if not isinstance(e[0], tuple)]
        if k < .3 and fa:
            e = r.choice(fa)
            hist.append(('add', e, ts))
            x = bhg.add(e, ts) if ts != -1 else bhg.add(e)
            check(same(x, e), 'add returns something else', got=x, history=hist)
            b.add(e, ts)
        elif k < .6:
            es = [r.choice(edges) for _ in range(r.randint(1, 4))]
            if r.random() < .3:
                es = tuple(es)
            cp = list(es)
            hist.append(('add', es, ts))
            x = bhg.add(es, ts)
            check(same(x, es) and list(es) == cp, 'add returns something else', got=x, history=hist)
            b.add(es, ts)
        elif k < .85:
            s = r.choice(atoms)
            if fa and r.random() < .5:
                es = r.choice(fa)
            else:
                es = [r.choice(edges) for _ in range(r.randint(1, 3))]
            hist.append(('add_belief', s, es, ts))
            bhg.add_belief(s, es, ts)
            b.add_belief(s, es, ts)
        else:
            hist.append(('flush',))
            bhg.flush()
            check(state(a) == state(b), 'flushing does not store what was added', history=hist)
            if r.random() < .5:
                bhg.flush()
                check(state(a) == state(b), 'flushing with nothing waiting changes something', history=hist)
        n = len(bhg.buffer)
        check(n <= mx, 'more edges are waiting than the limit', waiting=n, history=hist)
    bhg.flush()
    hist.append(('flush',))
    check(state(a) == state(b), 'the buffered hypergraph differs from the direct one', history=hist, buffered=repr(state(a)[0])[:600], direct=repr(state(b)[0])[:600])
    check(len(bhg.buffer) == 0, 'edges are waiting after a flush', history=hist)
    a.backend.conn.close()
    b.backend.conn.close()


def order_case(seed):
    """The order in which edges reach the backend."""
    r = random.Random(seed)
    log, direct = [], []

    class B:
        def add(self, edges, timestamp=-1):
            if isinstance(edges[0], (list, tuple)):
                log.extend((e, timestamp) for e in edges)
            else:
                log.append((edges, timestamp))
            return edges
    hg = HyperGraph({'backend': 'none'})
    hg.backend = B()
    mx = r.randint(0, 5)
    bhg = BatchHyperGraph(hg, mx)
    hist = []
    for i in range(r.randint(1, 20)):
        ts = r.choice([-1, 3, 4])
        if r.random() < .5:
            e = ('e%d' % i, 'x')
            bhg.add(e, ts)
            direct.append((e, ts))
            hist.append((e, ts))
        else:
            es = [('e%d.%d' % (i, j), 'x') for j in range(r.randint(1, 7))]
            bhg.add(es, ts)
            direct += [(e, ts) for e in es]
            hist.append((es, ts))
        if r.random() < .15:
            bhg.flush()
        check(len(bhg.buffer) <= mx, 'more edges are waiting than the limit', history=hist)
        check(log == direct[:len(log)], 'edges reach the hypergraph in another order or with another timestamp', history=hist, got=log, expected=direct[:len(log)])
    bhg.flush()
    check(log == direct, 'edges are lost or repeated', history=hist, got=log, expected=direct)


def G12(c):
    while c.more(.7):
        seed = c.rng.randrange(2 ** 40)
        c.case(buffered_case, seed, show=('buffered', seed))
    while c.more():
        seed = c.rng.randrange(2 ** 40)
        c.case(order_case, seed, show=('order', seed))


def G13(c):
    sims(c, 1, ['op_addmany', 'op_addmany', 'op_add', 'op_remove'], [ob_ego], 5, dict(maxlen=4, depth=1))


class FakeHG:
    def __init__(self, m, degs):
        self.m, self.degs = m, degs

    def star(self, c):
        return set(self.m.star(c))

    def ego(self, c, d):
        return set(self.m.ego(c, d))

    def degree(self, v):
        return self.degs.get(v, self.m.degree(v))


def ref_intersect(hg, m, seeds):
    es = []
    for s in seeds:
        for e in m.ego(s, 2):
            if all(hg.degree(x) <= 250 for x in e[1:]) and e not in es:
                es.append(e)
    nb = {}
    for e in es:
        for v in e:
            nb.setdefault(v, set()).update(e[1:])
    good = []

    def go(w):
        if all(s in w for s in seeds):
            good.append(tuple(w))
            return
        for x in nb.get(w[-1], ()):
            if x not in w:
                go(w + [x])
    go([seeds[0]])
    best = {}
    for w in good:
        for x in w:
            best[x] = min(best.get(x, len(w)), len(w))
    cnt = [w for w in good if all(x in seeds or best[x] == len(w) for x in w)]
    on = {x for w in cnt for x in w}
    return {e for e in es if all(x in on for x in e[1:])}


def inter_case(seed, real):
    r = random.Random(seed)
    atoms = ['n%d' % i for i in range(r.randint(2, 6))]
    rels = ['r%d' % i for i in range(3)]
    m = Model()
    edges = []
    for _ in range(r.randint(1, 8)):
        k = r.choice([2, 3, 3, 3, 4])
        e = (r.choice(rels + atoms[:1]),) + tuple(r.choice(atoms) for _ in range(k - 1))
        if r.random() < .12 and edges:
            e = e[:-1] + (r.choice(edges),)
        edges.append(e)
        m.add1(e, -1)
    seeds = r.sample(atoms, r.randint(1, min(3, len(atoms))))
    if r.random() < .15:
        seeds = [r.choice(edges)] + seeds[1:]
    if real:
        hg = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
        hg.add(edges)
        if r.random() < .1:
            v = r.choice(atoms)
            k = r.choice([250, 251]) - m.degree(v)
            extra = [('many', v, 'k%d' % i) for i in range(k)]
            hg.add(extra)
            for e in extra:
                m.add1(e, -1)
        f = hg
    else:
        f = FakeHG(m, {a: r.choice([250, 251, 300]) for a in atoms if r.random() < .2})
    show = dict(edges=[repr(e) for e in list(m.edges)[:20]], seeds=seeds)
    exp = ref_intersect(f, m, seeds)
    got = queries.intersect(f, list(seeds))
    check(same_set(set(got), exp), 'intersect is wrong', got=sorted({repr(x) for x in got}), expected=sorted(map(repr, exp)), **show)
    if real:
        hg.backend.conn.close()


def G14(c):
    while c.more(.7):
        seed = c.rng.randrange(2 ** 40)
        c.case(inter_case, seed, False, show=('intersect', seed))
    while c.more():
        seed = c.rng.randrange(2 ** 40)
        c.case(inter_case, seed, True, show=('intersect on a store', seed))


class Recorder:
    def __init__(self):
        self.log = []

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def f(*a, **k):
            res = ('result of', name, len(self.log))
            self.log.append((name, a, k, res))
            return res
        return f


def facade_case(seed):
    r = random.Random(seed)
    hg = HyperGraph({'backend': 'none'})
    rec = Recorder()
    hg.backend = rec
    e = redge(r, 2)
    ts = r.choice([-1, 0, 5])
    f = lambda v: v
    calls = [('exists', (e,), {}, (e,)), ('add', (e, ts), {}, (e, ts)), ('add', (e,), {}, (e, -1)), ('add', ([e, e], ts), {}, ([e, e], ts)),
             ('add', (e,), {'timestamp': ts}, (e, ts)),
             ('remove', (e,), {}, (e,)), ('remove', ([e],), {}, ([e],)), ('pattern2edges', (e,), {}, (e,)), ('star', (e[0],), {}, (e[0],)), ('symbols_with_root', ('a',), {}, ('a',)),
             ('destroy', (), {}, ()), ('degree', (e,), {}, (e,)), ('timestamp', (e,), {}, (e,)), ('batch_exec', ([f],), {}, ([f],)), ('f_all', (f,), {}, (f,))]
    r.shuffle(calls)
    for name, a, k, want in calls:
        n = len(rec.log)
        x = getattr(hg, name)(*a, **k)
        new = rec.log[n:]
        check(len(new) == 1 and new[0][0] == name, 'the facade calls something else', operation=name, calls=repr(new))
        args = list(new[0][1]) + list(new[0][2].values())
        if name == 'add' and len(args) == 1:
            args.append(-1)
        check(len(args) == len(want) and all(p is q or same(p, q) for p, q in zip(args, want)), 'the facade changes the arguments', operation=name, got=repr(args), expected=repr(want))
        if name not in ('remove', 'destroy', 'batch_exec'):
            check(x is new[0][3] or x == new[0][3], 'the facade changes the result', operation=name, got=repr(x))


def null_case(seed):
    r = random.Random(seed)
    hg = HyperGraph({'backend': 'null'})
    for _ in range(4):
        e = redge(r, 1, first_atomic=True)
        es = [e, redge(r, 1)]
        check(hg.add(e, 5) is e, 'add on the null backend returns something else', edge=e)
        check(hg.add(es) is es, 'add on the null backend returns something else', edge=es)
        hg.add_belief('s', e)
        r.choice([lambda: hg.remove(e), lambda: hg.destroy(), lambda: None, lambda: hg.remove_by_pattern(e), lambda: hg.remove_belief('s', e)])()
        for x in (e, e[0], es[1], (None,) * 3):
            check(hg.exists(x) is False, 'an edge exists on the null backend', entity=x)
            check(hg.pattern2edges(x) == set(), 'the null backend answers a pattern')
            check(hg.star(x) == set() and hg.symbols_with_root('a') == set(), 'the null backend answers a query')
            check(hg.degree(x) == 0 and hg.timestamp(x) == -1, 'the null backend knows an entity')
            check(hg.ego(x, 2) == set() and hg.sources(e) == set(), 'the null backend answers a query')
        fa = hg.f_all(lambda v: v)
        check(fa is None or list(fa) == [], 'the null backend lists something')
        hg.batch_exec([])


def backend_case(name):
    import gb.hypergraph.hypergraph as H
    made = []

    class Fake:
        def __init__(self, kind):
            self.kind = kind

        def __call__(self, *a, **k):
            made.append((self.kind, a, k))
            return self
    old = (H.Null, H.SQLite, H.MySQL)
    H.Null, H.SQLite, H.MySQL = Fake('null'), Fake('sqlite'), Fake('mysql')
    try:
        p = {'backend': name, 'db': 'x', 'host': 'h', 'user': 'u', 'password': 'p'}
        try:
            hg = H.HyperGraph(p)
        except (RuntimeError, ValueError, KeyError):
            check(name not in ('null', 'sqlite', 'mysql', 'none'), 'a known backend is refused', name=name)
            return
        check(name in ('null', 'sqlite', 'mysql', 'none'), 'an unknown backend is accepted', name=name)
        if name != 'none':
            check(len(made) == 1 and made[0][0] == name and hg.backend.kind == name, 'another backend is created', name=name, got=repr(made))
            if name != 'null':
                check(made[0][1] == (p,) or p in made[0][2].values(), 'the parameters are lost', name=name, got=repr(made))
    finally:
        H.Null, H.SQLite, H.MySQL = old


def G15(c):
    for n in ('null', 'sqlite', 'mysql', 'none', '', 'Sqlite', 'sqlite3', 'nul', 'postgres', 'mysql '):
        c.case(backend_case, n)
    while c.more(.5):
        seed = c.rng.randrange(2 ** 40)
        c.case(facade_case, seed, show=('facade', seed))
    while c.more(.8):
        seed = c.rng.randrange(2 ** 40)
        c.case(null_case, seed, show=('null', seed))
    sims(c, 1, ADDREM + ['op_destroy', 'op_batch'], EVERY, 4, dict(maxlen=3))
