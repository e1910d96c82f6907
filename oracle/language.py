"""Bounded concrete search for N01-N02 (parser output) and K01-K06 (stages)."""
import io, contextlib
from collections import Counter
from common import *
import spacy
from gb.nlp.nlp_token import Token
from gb.nlp.sentence import Sentence
import gb.nlp.parser as parser_mod
import gb.knowledge.extractor as ex
from gb.knowledge.stages.alpha import AlphaStage
from gb.knowledge.stages.beta import BetaStage
from gb.knowledge.stages.gamma import GammaStage
from gb.knowledge.stages.delta import DeltaStage
from gb.knowledge.stages.epsilon import EpsilonStage
from gb.knowledge.semantic_tree import Tree, Leaf, Node

DEPS = ['aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod', 'pcomp', 'compound', 'prep', 'punct', '', 'nsubj', 'dobj', 'pobj', 'conj', 'ROOT', 'nsubjpass', 'xx']
POS = ['VERB', 'ADV', 'ADP', 'PART', 'DET', 'NOUN', 'PROPN', 'ADJ', 'PUNCT', 'SPACE', '', None]
ENT = ['', '', None, 'GPE', 'ORG']


def gen(r, n, deps=DEPS, pos=POS, words=None, sep=True):
    """A random parse tree of n tokens, each with a mark that tells it apart."""
    toks = []
    for i in range(n):
        t = Token(r.choice(words) if words else 'w%d' % i)
        t.pos = r.choice(pos)
        t.dep = r.choice(deps)
        t.lemma = r.choice(['the', 'a', 'an', 'x', 'The', ''])
        t.entity_type = r.choice(ENT)
        t.left_children, t.right_children = [], []
        t.separator = sep and r.random() < .15
        if i:
            p = r.choice(toks[-4:]) if r.random() < .6 else r.choice(toks)
            ch = p.left_children if r.random() < .5 else p.right_children
            ch.insert(r.randint(0, len(ch)), t)
            t.parent = p
        toks.append(t)
    for i, t in enumerate(toks):
        t.mark = i
    toks[0].dep = 'ROOT'
    return toks


def focus(r):
    """Restricts labels so that particular paths are dense."""
    k = r.random()
    deps = DEPS if k < .4 else r.sample(DEPS, r.randint(1, 5))
    pos = POS if r.random() < .4 else r.sample(POS, r.randint(1, 3))
    if r.random() < .3:
        pos = ['VERB', 'ADP', 'PART', 'NOUN']
    words = r.choice([None, None, ['w', 'v'], ['w']])
    return deps, pos, words


def show(t):
    return (t.mark, t.word, t.pos, t.dep, t.lemma, t.entity_type, [show(c) for c in t.left_children], [show(c) for c in t.right_children])


def marks(ts):
    return [getattr(t, 'mark', None) for t in ts]


# -- N01 ------------------------------------------------------------------------

def in_order(t):
    out = []
    for c in t.left_children:
        out += in_order(c)
    out.append(t)
    for c in t.right_children:
        out += in_order(c)
    return out


def lin_case(seed, n):
    r = random.Random(seed)
    deps, pos, words = focus(r)
    toks = gen(r, n, deps, pos, words)
    t = toks[0]
    want = in_order(t)
    got = t.to_list()
    check(isinstance(got, list) and len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'the token list is wrong', tree=show(t), got=marks(got), expected=marks(want))
    words_ = [x for x in want if not x.separator and x.pos not in ('PUNCT', 'SPACE')]
    got = t.to_word_token_list()
    check(len(got) == len(words_) and all(a is b for a, b in zip(got, words_)), 'the word list is wrong', tree=show(t), got=marks(got), expected=marks(words_))
    s = t.chunk_str()
    check(s == ' '.join(x.word for x in words_), 'the phrase text is wrong', tree=show(t), got=s)
    for x in toks:
        check(bool(x.is_word()) == any(y is x for y in words_), 'is_word is wrong', token=show(x))
    again = t.to_list()
    check(marks(again) == marks(want), 'the token list changes on the second call', tree=show(t), got=marks(again))


def N01(c):
    while c.more():
        c.case(lin_case, c.rng.randrange(2 ** 40), c.rng.choice([1, 2, 3, 5, 8, 20]), )


# -- N02 ------------------------------------------------------------------------

class STok:
    """Stands for a spaCy token: proxies compare by position, like spaCy's."""
    def __init__(self, doc, i):
        self.doc, self.i = doc, i

    def __eq__(self, o):
        return isinstance(o, STok) and o.i == self.i and o.doc is self.doc

    def __hash__(self):
        return hash((id(self.doc), self.i))

    def __getattr__(self, n):
        if n in ('lefts', 'rights'):
            return iter([STok(self.doc, j) for j in self.doc.kids[self.i] if (j < self.i) == (n == 'lefts')])
        if n == 'children':
            return iter([STok(self.doc, j) for j in self.doc.kids[self.i]])
        if n == 'head':
            return STok(self.doc, self.doc.heads[self.i])
        d = self.doc.data[self.i]
        if n in d:
            return d[n]
        raise AttributeError(n)


class SDoc:
    def __init__(self, r, lens):
        self.data, self.kids, self.heads, self.spans = [], [], [], []
        base = 0
        for k in lens:
            self.spans.append((base, base + k))
            root = base + r.randrange(k) if k else base
            self.kids += [[] for _ in range(k)]
            self.heads += [root] * k
            for i in range(base, base + k):
                w = r.choice(['Word', ' Sp ', 'ÀB', 'x', '\n', 'the', 'İ', 'ǅ', ''])
                self.data.append({'orth_': w, 'lemma_': r.choice(['l1', 'l2', '']), 'shape_': r.choice(['Xx', 'x']), 'prob': r.choice([-1.0, -2.5]),
                                  'pos_': r.choice(['NOUN', 'VERB', 'PUNCT']), 'dep_': r.choice(['nsubj', 'dobj', '', 'punct']), 'ent_type_': r.choice(['', 'ORG']),
                                  'text': w, 'lower_': w.lower(), 'orth': 7, 'lemma': 8, 'shape': 9, 'pos': 10, 'dep': 11, 'ent_type': 12})
            if k and r.random() < .9:
                self.data[root]['dep_'] = 'ROOT'
            self._span(r, base, base + k, root)
            base += k

    def _span(self, r, lo, hi, root):
        """Projective tree over [lo, hi) with the given root."""
        def split(a, b):
            parts = []
            while a < b:
                e = r.randint(a + 1, b)
                parts.append((a, e))
                a = e
            return parts
        for a, b in split(lo, root) + split(root + 1, hi):
            k = r.randrange(a, b)
            self.kids[root].append(k)
            self.heads[k] = root
            self._span(r, a, b, k)

    @property
    def sents(self):
        return iter([type('Span', (), {'start': a, 'end': b, '__iter__': lambda s: iter([STok(self, i) for i in range(s.start, s.end)]), '__len__': lambda s: s.end - s.start})() for a, b in self.spans])

    def __getitem__(self, i):
        return STok(self, i)

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter([STok(self, i) for i in range(len(self.data))])


def with_parser(docs):
    it = iter(docs)
    old = spacy.load
    spacy.load = lambda *a, **k: (lambda text: next(it))
    try:
        return parser_mod.Parser()
    finally:
        spacy.load = old


def parse_case(seed):
    r = random.Random(seed)
    docs = [SDoc(r, [r.choice([1, 1, 2, 3, 6]) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(1, 2))]
    p = with_parser(docs)
    alltok = []
    for doc in docs:
        sents = p.parse_text('text')
        d = dict(heads=doc.heads, kids=doc.kids, spans=doc.spans)
        check(isinstance(sents, list) and [len(s) for s in sents] == [b - a for a, b in doc.spans], 'the sentences have the wrong lengths', got=[len(s) for s in sents], **d)
        toks = [t for s in sents for t in s]
        check(len({id(t) for t in toks}) == len(toks) and not any(any(t is o for o in alltok) for t in toks), 'a token appears twice', **d)
        alltok += toks
        for i, t in enumerate(toks):
            s = doc.data[i]
            got = dict(word=t.word, lemma=t.lemma, shape=t.shape, logprob=t.logprob, pos=t.pos, dep=t.dep, entity_type=t.entity_type, separator=t.separator)
            want = dict(word=s['orth_'].lower().strip(), lemma=s['lemma_'], shape=s['shape_'], logprob=s['prob'], pos=s['pos_'], dep=s['dep_'], entity_type=s['ent_type_'], separator=False)
            check(got == want, 'the attributes of a token are wrong', token=i, got=got, expected=want, **d)
            for side, ks in (('left', [k for k in doc.kids[i] if k < i]), ('right', [k for k in doc.kids[i] if k > i])):
                ch = getattr(t, side + '_children')
                check(len(ch) == len(ks) and all(a is toks[k] for a, k in zip(ch, ks)), 'the %s children are wrong' % side, token=i, got=[toks.index(x) if any(x is y for y in toks) else None for x in ch], expected=ks, **d)
            head = doc.heads[i]
            check(t.parent is (toks[head] if head != i else None), 'the parent is wrong', token=i, **d)
        for s in sents:
            want = next((t for t in s if t.dep == 'ROOT'), None)
            check(Sentence(s).root() is want, 'the root of the sentence is wrong', **d)
    check(p._Parser__spacy2token(None) is None, 'no token becomes something') if hasattr(p, '_Parser__spacy2token') else None


def root_case(seed):
    r = random.Random(seed)
    toks = gen(r, r.randint(1, 8), ['ROOT', 'x', 'root', ''])
    toks[0].dep = r.choice(['ROOT', 'x'])
    r.shuffle(toks)
    want = next((t for t in toks if t.dep == 'ROOT'), None)
    got = Sentence(toks).root()
    check(got is want, 'the root of the sentence is wrong', tokens=[t.dep for t in toks])


def N02(c):
    c.case(lambda: check(Sentence([]).root() is None, 'an empty sentence has a root'))
    while c.more(.85):
        c.case(parse_case, c.rng.randrange(2 ** 40))
    while c.more():
        c.case(root_case, c.rng.randrange(2 ** 40))


# -- trees ------------------------------------------------------------------------

def reach(t, top=True):
    if not top and t.dep in ('', 'punct'):
        return []
    return [t] + [x for c in t.left_children + t.right_children for x in reach(c, False)]


def walk(tree, elem, depth=0):
    """Leaves of a tree in order, read from its table."""
    if elem.is_leaf():
        return [elem]
    out = []
    for cid in elem.children_ids:
        check(depth < 200, 'the tree contains itself')
        out += walk(tree, tree.table[cid], depth + 1)
    return out


def lmarks(tree):
    return marks(x.token for x in walk(tree, tree.root()))


def shape(tree, elem, depth=0):
    check(depth < 200, 'the tree contains itself')
    if elem.is_leaf():
        return (elem.token.mark,)
    return [shape(tree, tree.table[cid], depth + 1) for cid in elem.children_ids]


def sentence(seed, n):
    r = random.Random(seed)
    deps, pos, words = focus(r)
    toks = gen(r, n, deps, pos, words)
    toks[0].dep = 'ROOT'
    for t in toks[1:]:
        if t.dep == 'ROOT' and r.random() < .5:
            t.dep = 'nsubj'
    return r, toks


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def nonempty(tree, elem):
    if elem.is_leaf():
        return True
    return len(elem.children_ids) > 0 and all(nonempty(tree, tree.table[i]) for i in elem.children_ids)


def alpha_case(seed, n):
    r, toks = sentence(seed, n)
    T = quiet(AlphaStage().process_sentence, Sentence(toks))
    want = marks(reach(toks[0]))
    got = lmarks(T)
    check(sorted(got) == sorted(want), 'the tree has the wrong leaves', sentence=show(toks[0]), tree=str(T), got=sorted(got), expected=sorted(want))
    check(marks(x.token for x in T.root().flat_leafs()) == got, 'flat_leafs is wrong', sentence=show(toks[0]))


SIZES = [1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 9, 12]


def K01(c):
    for d1 in DEPS[:-1]:
        for d2 in DEPS[:-1]:
            for p in ('VERB', 'NOUN'):
                for geom in range(6):
                    if c.more(.5):
                        c.case(alpha_small, d1, d2, p, geom)
    while c.more():
        c.case(alpha_case, c.rng.randrange(2 ** 40), c.rng.choice(SIZES))


def alpha_small(d1, d2, p, geom):
    toks = []
    for i in range(3):
        t = Token('w%d' % i)
        t.mark, t.pos, t.dep, t.lemma, t.entity_type = i, p if i == 0 else 'NOUN', ['ROOT', d1, d2][i], 'x', ''
        t.left_children, t.right_children = [], []
        toks.append(t)
    a, b, d = toks
    (a.left_children if geom % 2 else a.right_children).append(b)
    [a.left_children, a.right_children, b.right_children][geom // 2].append(d)
    T = quiet(AlphaStage().process_sentence, Sentence(toks))
    want = marks(reach(a))
    got = lmarks(T)
    check(sorted(got) == sorted(want), 'the tree has the wrong leaves', sentence=show(a), tree=str(T), got=sorted(got), expected=sorted(want))


def rtree(r, n, deps, pos, words=None):
    """A random semantic tree (not only those the first stage makes)."""
    T = Tree()
    toks = gen(r, n, deps, pos, words)
    for i, t in enumerate(toks):
        t.mark = i

    def build(ts, depth):
        if len(ts) == 1 and (r.random() < .8 or depth > 3):
            return T.create_leaf(ts[0]).id
        kids, a = [], 0
        while a < len(ts):
            b = r.randint(a + 1, min(len(ts), a + r.choice([1, 1, 2, 4, 6])))
            if b - a == len(ts):
                b = max(a + 1, b - 1)
            kids.append((a, b))
            a = b
        ids = [build(ts[a:b], depth + 1) for a, b in kids]
        return T.create_node(ids).id
    T.root_id = build(toks, 0)
    return T


def some_tree(seed, n, upto=0):
    """A tree as the stages before would leave it, or any tree."""
    r = random.Random(seed)
    if r.random() < .6:
        r2, toks = sentence(seed, n)
        T = quiet(AlphaStage().process_sentence, Sentence(toks))
    else:
        deps, pos, words = focus(r)
        T = rtree(r, n, deps, pos, words)
    return r, T


def leafdep(tree, e):
    return all(x.token.dep in ('pobj', 'compound', 'dobj', 'nsubj') for x in walk(tree, e))


def marked(tree, e):
    kids = [tree.table[i] for i in e.children_ids]
    if all(k.is_leaf() for k in kids):
        ty = kids[0].token.entity_type
        if ty and all(k.token.entity_type == ty for k in kids):
            return True
    return leafdep(tree, e)


def elems(tree, e):
    out = [e]
    if e.is_node():
        for i in e.children_ids:
            out += elems(tree, tree.table[i])
    return out


def describe(T):
    def d(e):
        if e.is_leaf():
            t = e.token
            return (t.mark, t.pos, t.dep, t.lemma, t.entity_type)
        return [('C' if e.compound else 'N')] + [d(T.table[i]) for i in e.children_ids]
    return d(T.root())


def beta_case(seed, n):
    r, T = some_tree(seed, n)
    if r.random() < .3:
        for e in elems(T, T.root()):
            if e.is_node():
                e.compound = r.random() < .5
    before = (shape(T, T.root()), [id(x) for x in walk(T, T.root())], describe(T))
    T2 = quiet(BetaStage(None, T).process)
    check(T2 is T or isinstance(T2, Tree), 'the stage returns no tree')
    check(shape(T2, T2.root()) == before[0] and [id(x) for x in walk(T2, T2.root())] == before[1], 'marking compounds changes the structure', before=before[2], after=describe(T2))
    for e in elems(T2, T2.root()):
        check(e.namespace is not None and isinstance(e.namespace, str) and e.namespace != '', 'an element has no namespace', tree=before[2])
        if e.is_node():
            check(bool(e.compound) == marked(T2, e), 'a node is marked wrong', tree=before[2], node=str(e), got=e.compound)


def K02(c):
    while c.more():
        c.case(beta_case, c.rng.randrange(2 ** 40), c.rng.choice(SIZES))


def prepared(seed, n, stages):
    r, T = some_tree(seed, n)
    for S in stages:
        if S is BetaStage:
            T = quiet(BetaStage(None, T).process)
        else:
            T = quiet(S(T).process)
    return r, T


def gamma_case(seed, n):
    r, T = prepared(seed, n, [BetaStage] if seed % 5 else [])
    before, desc = lmarks(T), describe(T)
    ls = {x.token.mark: x.token for x in walk(T, T.root())}
    T2 = quiet(GammaStage(T).process)
    after = lmarks(T2)
    new = Counter(after) - Counter(before)
    check(not new, 'leaves are added or repeated', before=desc, after=describe(T2), which=list(new))
    gone = Counter(before) - Counter(after)
    for m in gone:
        t = ls[m]
        check(t.pos == 'DET' and t.lemma in ('the', 'a', 'an'), 'a leaf that is no article is dropped', before=desc, after=describe(T2), which=m)
    check(nonempty(T2, T2.root()), 'an empty node is left', before=desc, after=describe(T2))


def K03(c):
    while c.more():
        c.case(gamma_case, c.rng.randrange(2 ** 40), c.rng.choice(SIZES))


def delta_case(seed, n):
    k = seed % 5
    r, T = prepared(seed, n, [BetaStage, GammaStage] if k > 1 else [BetaStage] if k else [])
    before, desc = Counter(lmarks(T)), describe(T)
    T2 = quiet(DeltaStage(T).process)
    after = Counter(lmarks(T2))
    check(before == after, 'the leaves change', before=desc, after=describe(T2), lost=list(before - after), added=list(after - before))


def chain(seed):
    """Relations under relations: many alternatives."""
    r = random.Random(seed)
    T = Tree()
    cnt = [0]

    def leaf(pos):
        t = Token(r.choice(['w%d' % cnt[0], 'w']))
        t.mark, t.pos, t.dep, t.lemma, t.entity_type, t.left_children, t.right_children = cnt[0], pos, 'x', 'x', '', [], []
        cnt[0] += 1
        return T.create_leaf(t).id

    def rel(d):
        if d > 0 and r.random() < .4:
            e = T.create_node([rel(d - 1) for _ in range(r.randint(1, 3))])
            e.compound = r.random() < .5
            return e.id
        return leaf(r.choice(['VERB', 'ADP', 'PART', 'ADV']))

    def arg(d):
        if d > 0 and r.random() < .6:
            e = T.create_node([rel(1) if r.random() < .85 else arg(d - 1)] + [arg(d - 1) for _ in range(r.randint(1 if d < 2 else 0, 2))])
            e.compound = r.random() < .15
            return e.id
        return leaf('NOUN')
    e = T.create_node([rel(2)] + [arg(2) for _ in range(r.randint(1, 2))])
    T.root_id = e.id
    return T


def delta_chain(seed):
    T = chain(seed)
    before, desc = Counter(lmarks(T)), describe(T)
    if sum(before.values()) > 13:
        return
    T2 = quiet(DeltaStage(T).process)
    after = Counter(lmarks(T2))
    check(before == after, 'the leaves change', before=desc, after=describe(T2), lost=list(before - after), added=list(after - before))


def gamma_chain(seed):
    T = chain(seed)
    before, desc = lmarks(T), describe(T)
    T2 = quiet(GammaStage(T).process)
    check(sorted(lmarks(T2)) == sorted(before), 'a leaf that is no article is dropped or repeated', before=desc, after=describe(T2))


def K04(c):
    while c.more(.5):
        c.case(delta_case, c.rng.randrange(2 ** 40), c.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]))
    while c.more():
        c.case(delta_chain, c.rng.randrange(2 ** 40))


def expect_edge(T, e):
    if e.is_leaf():
        return '%s/%s' % (e.token.word, e.namespace)
    if e.compound:
        return '_'.join(x.token.word for x in walk(T, e)) + '/?'
    return tuple(expect_edge(T, T.table[i]) for i in e.children_ids)


def epsilon_case(seed, n):
    r = random.Random(seed)
    if seed % 3:
        r, T = prepared(seed, n, [BetaStage, GammaStage, DeltaStage][:1 + seed % 3])
    else:
        T = rtree(r, n, DEPS, POS, r.choice([None, ['w', 'v']]))
        for e in elems(T, T.root()):
            e.namespace = r.choice(['1', 'x', '?'])
            if e.is_node() and r.random() < .3:
                e.compound = True
    want, desc = expect_edge(T, T.root()), describe(T)
    x = quiet(EpsilonStage(None, T).process)
    check(same_edge(x, want), 'the edge does not mirror the tree', tree=desc, got=x, expected=want)


def same_edge(x, want):
    """The name of a compound and its namespace: the words joined by underscores."""
    if isinstance(want, tuple):
        return isinstance(x, tuple) and len(x) == len(want) and all(same_edge(a, b) for a, b in zip(x, want))
    return isinstance(x, str) and x == want


def K05(c):
    while c.more():
        c.case(epsilon_case, c.rng.randrange(2 ** 40), c.rng.choice([1, 2, 3, 4, 5, 6, 7, 8]))


def pipeline_case(seed):
    r = random.Random(seed)
    names = ['alpha', 'beta', 'gamma', 'delta', 'epsilon']
    log = []

    class Out:
        def __init__(self, k):
            self.k = k

        def __str__(self):
            return 'out%d' % self.k
    cnt = [0]

    def out():
        cnt[0] += 1
        return Out(cnt[0])

    def stage(name):
        class S:
            def __init__(self, *a):
                log.append((name, 'init', a))

            def process(self):
                o = out()
                log.append((name, 'process', o))
                return o

            def process_sentence(self, s):
                o = out()
                log.append((name, 'sentence', s, o))
                return o
        return S
    attrs = {n: n.capitalize() + 'Stage' for n in names}
    old = {a: getattr(ex, a) for a in attrs.values()}
    hg = object()
    try:
        for n, a in attrs.items():
            setattr(ex, a, stage(n))
        st = ['alpha'] + [r.choice(names[1:]) for _ in range(r.randint(0, 6))]
        e = ex.Extractor(hg, tuple(st) if r.random() < .5 else st)
        sents = [['s%d' % i] for i in range(r.randint(0, 3))]

        class P:
            def parse_text(self, text):
                return [gen(random.Random(i), 2) for i in range(len(sents))]
        e.debug = False
        e.parser = P()
        single = Sentence(gen(r, 2))
        for _ in range(2):
            del log[:]
            x = e.read_sentence(single)
            runs = [l for l in log if l[1] != 'init']
            check([l[0] for l in runs] == st, 'the wrong stages run', stages=st, got=[l[0] for l in runs])
            check(runs[0][1] == 'sentence' and runs[0][2] is single, 'the first stage does not get the sentence', stages=st)
            inits = {}
            prev = None
            seq = [l for l in log]
            last = None
            for l in seq:
                if l[1] == 'init':
                    last = l
                    args = [a for a in l[2] if isinstance(a, Out)]
                    if prev is not None:
                        check(args == [prev], 'a stage does not work on the result of the one before', stages=st, stage=l[0])
                    if l[0] in ('beta', 'epsilon'):
                        check(any(a is hg for a in l[2]), 'a stage does not get the hypergraph', stages=st, stage=l[0])
                else:
                    check(l[0] == last[0], 'another stage runs than was made', stages=st)
                    prev = l[-1]
            check(x is runs[-1][-1], 'the result is not that of the last stage', stages=st)
            check(e.outputs == [str(l[-1]) for l in runs], 'the outputs recorded are wrong', stages=st, got=e.outputs)
        del log[:]
        res = e.read_text('t')
        finals = []
        for l in log:
            if l[1] == 'sentence':
                finals.append(l[-1])
            elif l[1] == 'process':
                finals[-1] = l[-1]
        check(isinstance(res, list) and len(res) == len(sents) and all(a is b for a, b in zip(res, finals)), 'reading a text gives other results', stages=st, got=[str(x) for x in res])
        heads = [l[2].tokens for l in log if l[1] == 'sentence']
        check([[t.word for t in h] for h in heads] == [[t.word for t in gen(random.Random(i), 2)] for i in range(len(sents))], 'the sentences are read in another order', stages=st)
    finally:
        for a, v in old.items():
            setattr(ex, a, v)
    bad = r.choice(['zeta', '', 'Alpha', 'alpha ', None])
    st2 = r.choice([[bad], ['alpha', bad], ['alpha', 'beta', bad]])
    e = ex.Extractor(None, st2)
    try:
        e.read_sentence(Sentence(gen(random.Random(seed), 2, ['nsubj'], ['NOUN'])))
        ok = False
    except Exception as x:
        ok = isinstance(x, (RuntimeError, ValueError, KeyError))
    check(ok, 'an unknown stage name is accepted', stages=st2)


def whole_case(seed, n):
    r, toks = sentence(seed, n)
    e = ex.Extractor(None)
    x = quiet(e.read_sentence, Sentence(toks))
    r, toks2 = sentence(seed, n)
    T = quiet(AlphaStage().process_sentence, Sentence(toks2))
    outs = [str(T)]
    for S in (lambda T: BetaStage(None, T), GammaStage, DeltaStage, lambda T: EpsilonStage(None, T)):
        T = quiet(S(T).process)
        outs.append(str(T))
    check(same(x, T), 'the extractor gives another edge than its stages', sentence=show(toks[0]), got=x, expected=T)
    check(e.outputs == outs, 'the outputs recorded are wrong', sentence=show(toks[0]), got=e.outputs, expected=outs)


def K06(c):
    while c.more(.6):
        c.case(pipeline_case, c.rng.randrange(2 ** 40))
    while c.more():
        c.case(whole_case, c.rng.randrange(2 ** 40), c.rng.choice([1, 2, 3, 4, 5, 6, 7]))
