"""Bounded concrete search for R01, R02 and C01."""
import io, os, contextlib, re
from common import *
import gb.readers.wordnet as wnr
from gb.hypergraph.hypergraph import HyperGraph


class L:
    def __init__(self, syn, name):
        self._s, self._n = syn, name
        self.rels = {'antonyms': [], 'pertainyms': [], 'derivationally_related_forms': []}

    def name(self):
        return self._n

    def synset(self):
        return self._s

    def __getattr__(self, n):
        if n in self.__dict__.get('rels', ()):
            return lambda: list(self.rels[n])
        raise AttributeError(n)


SREL = {'hypernyms': 'hypernym/gb', 'instance_hypernyms': 'instance_hypernym/gb', 'member_meronyms': 'member_meronym/gb', 'attributes': 'attribute/gb',
        'entailments': 'entailment/gb', 'causes': 'cause/gb', 'also_sees': 'also_see/gb', 'verb_groups': 'verb_group/gb', 'similar_tos': 'similar_to/gb'}
LREL = {'antonyms': 'antonym/gb', 'pertainyms': 'pertainym/gb', 'derivationally_related_forms': 'derivationally_related_form/gb'}
POSS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}


class S:
    def __init__(self, name, pos):
        self._n, self._p = name, pos
        self._l = []
        self.rels = {k: [] for k in SREL}

    def name(self):
        return self._n

    def pos(self):
        return self._p

    def lemmas(self):
        return list(self._l)

    def lemma_names(self):
        return [l.name() for l in self._l]

    def __getattr__(self, n):
        if n in self.__dict__.get('rels', ()):
            return lambda: list(self.rels[n])
        raise AttributeError(n)


class WN:
    def __init__(self, syns):
        self.syns = syns

    def all_synsets(self, pos=None):
        return iter(self.syns)


def world(r):
    n = r.choice([1, 2, 4, 8])
    syns = []
    for i in range(n):
        p = r.choice('nvasr')
        s = S('%s.%s.%02d' % (r.choice(['dog', 'cat', 'e']) + str(i), p, i), p)
        for k in range(r.choice([1, 1, 2, 3])):
            s._l.append(L(s, r.choice(['Dog', 'hot_dog', 'x', "o'k", 'é']) + str(k)))
        syns.append(s)
    lem = [l for s in syns for l in s._l]
    for s in syns:
        for k in SREL:
            if r.random() < .3:
                s.rels[k] = [r.choice(syns) for _ in range(r.randint(1, 3))]
    for l in lem:
        for k in LREL:
            if r.random() < .3:
                l.rels[k] = [r.choice(lem) for _ in range(r.randint(1, 3))]
    return syns


def sym(l):
    return '%s/wn.%s' % (l.name(), l.synset().name())


def expected(syns):
    out = []
    for s in syns:
        root = s._l[0]
        out.append(('pos/gb', sym(root), POSS[s.pos()]))
        for l in s._l[1:]:
            out.append(('synonym/gb', sym(root), sym(l)))
        for k, rel in SREL.items():
            for t in s.rels[k]:
                out.append((rel, sym(root), sym(t._l[0])))
        for l in s._l:
            for k, rel in LREL.items():
                for t in l.rels[k]:
                    out.append((rel, sym(l), sym(t)))
    return out


def wn_case(seed):
    r = random.Random(seed)
    syns = world(r)
    want = set(expected(syns))
    hg = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    old = wnr.wn
    wnr.wn = WN(syns)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            wnr.read(hg)
    finally:
        wnr.wn = old
    got = set(hg.pattern2edges((None, None, None)))
    exp = want | {('src/1', e, 'wordnet/gb') for e in want}
    show = dict(synsets=[(s.name(), [l.name() for l in s._l], {k: [t.name() for t in v] for k, v in s.rels.items() if v}) for s in syns])
    check(same_set(got, exp), 'reading WordNet records the wrong edges', missing=sorted(map(repr, exp - got))[:8], extra=sorted(map(repr, got - exp))[:8], **show)
    n = hg.backend.conn.execute('SELECT count(*) FROM perms').fetchone()[0]
    check(n == 6 * len(exp), 'reading WordNet records other edges', rows=n, expected=6 * len(exp), **show)
    hg.backend.conn.close()


def wn_record(seed):
    """What reaches the hypergraph, in a large world."""
    r = random.Random(seed)
    syns = world(r)
    for _ in range(r.choice([0, 1])):
        k = len(syns)
        more = world(r)
        for i, s in enumerate(more):
            s._n = 'm%d.%s' % (k + i, s._n)
        syns += more
    log = []

    class B:
        def add(self, edges, timestamp=-1):
            log.extend((edges, ) if isinstance(edges[0], str) else edges)
            return edges
    hg = HyperGraph({'backend': 'none'})
    hg.backend = B()
    old = wnr.wn
    wnr.wn = WN(syns)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            wnr.read(hg)
    finally:
        wnr.wn = old
    want = expected(syns)
    exp = set(want) | {('src/1', e, 'wordnet/gb') for e in want}
    got = set(log)
    check(same_set(got, exp), 'reading WordNet records the wrong edges', missing=sorted(map(repr, exp - got))[:8], extra=sorted(map(repr, got - exp))[:8])


def R01(c):
    while c.more(.6):
        c.case(wn_record, c.rng.randrange(2 ** 40))
    while c.more():
        c.case(wn_case, c.rng.randrange(2 ** 40))


# -- R02 --------------------------------------------------------------------------

def load_filter():
    import importlib.util
    sp = importlib.util.spec_from_file_location('filter_wikidump', os.path.join(REPO, 'python', 'filter_wikidump.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def dump(r):
    lines, want = [], []

    def outside():
        for _ in range(r.choice([0, 0, 1, 2])):
            l = r.choice(['<mediawiki>\n', '  <siteinfo: x>\n', '\n', ' text : <pag>\n', '</mediawiki>\n', '<title>Talk:x</title>\n', '</page\n', '  é\n', 'x\r\n'.replace('\r', ' ')])
            lines.append(l)
            want.append(l)
    outside()
    for _ in range(r.randint(0, 5)):
        ttl = r.choice(['A', 'Talk:A', ':', 'a b', 'User talk:x', '', 'é', 'x&lt;', 'a:b:c', '</title', '<title>x'])
        pg = [r.choice(['  <page>\n', '<page>\n', '<page> \n'])]
        for _ in range(r.choice([0, 0, 1, 2])):
            pg.append(r.choice(['    <ns>0</ns>\n', '  <id:1>\n', '<page>\n', ' <title>\n', '\n']))
        pg.append('    <title>%s</title>\n' % ttl)
        for _ in range(r.choice([0, 1, 3])):
            pg.append(r.choice(['   <text>a: b\n', ' c </text>\n', '<title>Talk:y</title>\n', '\n', ' </pag>\n', ':x\n', '<title>y</title>\n']))
        pg.append(r.choice(['  </page>\n', '</page>\n']))
        lines.extend(pg)
        if ':' not in ttl:
            want.extend(pg)
        outside()
    if lines and r.random() < .2 and '<' not in lines[-1]:
        if want and want[-1] is lines[-1]:
            want[-1] = lines[-1].rstrip('\n')
        lines[-1] = lines[-1].rstrip('\n')
    return lines, want


def filter_case(seed):
    r = random.Random(seed)
    lines, want = dump(r)
    m = load_filter()
    with Scratch() as d:
        p = os.path.join(d, 'dump.xml')
        with open(p, 'w') as f:
            f.write(''.join(lines))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            m.main([p])
    check(out.getvalue() == ''.join(want), 'the filtered dump is wrong', dump=lines, got=out.getvalue(), expected=''.join(want))


def R02(c):
    while c.more():
        c.case(filter_case, c.rng.randrange(2 ** 40))


# -- C01 --------------------------------------------------------------------------

def cli_case(seed):
    r = random.Random(seed)
    from click.testing import CliRunner
    import gb.gbrain as g
    vals = {'backend': 'sqlite', 'db': 'gb.db', 'dbhost': 'localhost', 'dbuser': 'gb', 'dbpass': 'gb'}
    args = []
    for k in list(vals):
        if r.random() < .5:
            vals[k] = r.choice(['sqlite', 'mysql', 'null']) if k == 'backend' else r.choice(['x.db', 'h1', 'h2', 'root', 'se cret', '%s', ''])
            if r.random() < .5:
                args += ['--' + k, vals[k]]
            else:
                args.append('--%s=%s' % (k, vals[k]))
    cmd = r.choice(['create', 'wordnet', 'shell'])
    opened, read = [], []

    class HG:
        def __init__(self, params):
            opened.append(dict(params))
            self.backend = None
    saved = g.HyperGraph, g.wn.read
    g.HyperGraph, g.wn.read = HG, lambda hg: read.append(hg)
    try:
        with Scratch() as d:
            cwd = os.getcwd()
            os.chdir(d)
            try:
                res = CliRunner().invoke(g.cli, args + [cmd])
            finally:
                os.chdir(cwd)
    finally:
        g.HyperGraph, g.wn.read = saved
    show = dict(command=args + [cmd], exception=repr(res.exception))
    check(res.exit_code == 0, 'the command fails', output=res.output[-500:], **show)
    check(len(opened) == 1, 'the command does not open one hypergraph', opened=opened, **show)
    want = {'backend': vals['backend'], 'db': vals['db'], 'host': vals['dbhost'], 'user': vals['dbuser'], 'password': vals['dbpass']}
    got = {k: opened[0].get(k) for k in want}
    need = want if vals['backend'] == 'mysql' else {k: want[k] for k in ('backend', 'db')}
    check(all(got[k] == need[k] for k in need), 'the options do not reach the backend', got=opened[0], expected=need, **show)
    if cmd == 'wordnet':
        check(len(read) == 1, 'WordNet is not read', **show)


def cli_real(name):
    """The real backends behind the command line."""
    from click.testing import CliRunner
    import gb.gbrain as g
    import gb.hypergraph.mysql as my
    calls = []

    class Cur:
        rowcount = 0

        def execute(self, *a):
            pass

        def close(self):
            pass

    class Conn:
        def autocommit(self, x):
            pass

        def cursor(self):
            return Cur()

        def commit(self):
            pass

    def connect(*a, **k):
        calls.append((a, k))
        return Conn()
    with Scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        saved = my.MySQLdb.connect
        try:
            my.MySQLdb.connect = connect
            if name == 'mysql':
                res = CliRunner().invoke(g.cli, ['--backend', 'mysql', '--db', 'D', '--dbhost', 'H', '--dbuser', 'U', '--dbpass', 'P', 'create'])
                check(res.exit_code == 0, 'the command fails', exception=repr(res.exception))
                check(len(calls) == 1 and not calls[0][0], 'no connection is made', got=repr(calls))
                k = calls[0][1]
                got = (k.get('host'), k.get('user'), k.get('passwd', k.get('password')), k.get('db', k.get('database')))
                check(got == ('H', 'U', 'P', 'D'), 'the connection is made with other parameters', got=repr(k))
            elif name == 'sqlite':
                res = CliRunner().invoke(g.cli, ['create'])
                check(res.exit_code == 0 and os.path.exists('gb.db') and not calls, 'the default database is not made', exception=repr(res.exception), files=os.listdir('.'))
                res = CliRunner().invoke(g.cli, ['--db', 'other.db', 'create'])
                check(res.exit_code == 0 and os.path.exists('other.db') and not calls, 'the database is not made', exception=repr(res.exception), files=os.listdir('.'))
            else:
                res = CliRunner().invoke(g.cli, ['--backend', 'null', 'create'])
                check(res.exit_code == 0 and os.listdir('.') == [] and not calls, 'the null backend makes something', exception=repr(res.exception), files=os.listdir('.'))
        finally:
            my.MySQLdb.connect = saved
            os.chdir(cwd)


def C01(c):
    for n in ('mysql', 'sqlite', 'null'):
        c.case(cli_real, n)
    while c.more():
        c.case(cli_case, c.rng.randrange(2 ** 40))
