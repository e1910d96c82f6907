"""Planted bugs: see plant.py."""
SY, ED, SQL, HG = 'gb/hypergraph/symbol.py', 'gb/hypergraph/edge.py', 'gb/hypergraph/sql.py', 'gb/hypergraph/hypergraph.py'
BAT, QU = 'gb/hypergraph/batch_hypergraph.py', 'gb/hypergraph/queries.py'
STORE = '''
from gb.hypergraph.hypergraph import HyperGraph


def store():
    return HyperGraph({'backend': 'sqlite', 'db': ':memory:'})

'''
B = {}


def bug(i, prop, edits, needs, breaks, demo):
    B[i] = {'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo}


bug('hash-astral', 'S04', [(SY, 'c = ord(s[0])', 'c = ord(s[0]) & 0xffff')],
    'a text with a character above U+FFFF', 'the hash ignores the upper bits of code points',
    '''
from gb.hypergraph.symbol import hashed
h = 1125899906842597
for c in 'a\\U0001f600':
    h = (h + ord(c)) * 31 % 2 ** 64
assert hashed('a\\U0001f600') == '%x' % h
''')
bug('star-astral', 'G02', [(SQL, "start_str = '%s ' % center_id\n        end_str = str_plus_1(start_str)", "start_str = '%s ' % center_id\n        end_str = start_str + '\\uffff'")],
    'an edge whose other elements all start with a character above U+FFFF', 'star misses such edges',
    STORE + '''
hg = store()
hg.add(('\\U0001f600', 'a'))
assert hg.star('a') == {('\\U0001f600', 'a')}
''')
bug('remove-repeated', 'G05', [(SQL, "for vert in edge:\n                self.dec_degree", "for vert in set(edge):\n                self.dec_degree")],
    'removing an edge that has an element twice', 'the degree of the repeated element is decremented once only',
    STORE + '''
hg = store()
hg.add(('likes', 'a', 'a'))
hg.remove(('likes', 'a', 'a'))
assert hg.degree('a') == 0
''')
bug('perm-seven', 'G02', [(SQL, "nperms = math.factorial(len(edge))", "nperms = math.factorial(min(len(edge), 6))")],
    'an edge of seven or more elements', 'only the first 720 permutations of long edges are stored, so star misses edges around most elements',
    '''
from gb.hypergraph import sql
got = []
sql.nthperm = lambda li, n: (got.append(n), tuple(li))[1]
sql.do_with_edge_permutations(tuple('abcdefg'), lambda s: None)
assert got == list(range(5040)), len(got)
''')
bug('remove-nocommit', 'G09', [(SQL, "(eid,))\n        self.conn.commit()\n        cur.close()", "(eid,))\n        cur.close()")],
    'removing an edge that is an element of another stored edge, then reading through a second connection', 'the removal is not committed',
    '''
import os, tempfile
from gb.hypergraph.hypergraph import HyperGraph
with tempfile.TemporaryDirectory() as d:
    p = {'backend': 'sqlite', 'db': os.path.join(d, 'x.db')}
    hg = HyperGraph(p)
    f = ('is', 'sky', 'blue')
    hg.add(f)
    hg.add(('says', f, 'mary'))
    hg.remove(f)
    other = HyperGraph.__new__(HyperGraph)
    import sqlite3
    rows = sqlite3.connect(p['db']).execute("select count(*) from perms where id like 'is sky blue %'").fetchone()[0]
    assert not hg.exists(f)
    assert rows == 0, rows
''')
bug('sources-star', 'G10', [(HG, "edges = self.pattern2edges((const.source, edge, None))", "edges = [e for e in self.star(edge) if e[0] == const.source and len(e) == 3]")],
    'a fact that is also the source of another fact', 'the fact is reported as a source of itself, so that it stays after its last belief is removed',
    STORE + '''
hg = store()
f, g = ('is', 'sky', 'blue'), ('is', 'grass', 'green')
hg.add_belief('mary', f)
hg.add_belief(f, g)
assert hg.sources(f) == {'mary'}
hg.remove_belief('mary', f)
assert not hg.exists(f)
''')
bug('buffer-skip', 'G12', [(BAT, "if len(self.buffer) > self.buffer_max:", "if len(self.buffer) == self.buffer_max + 1:")],
    'a belief (two edges at once) that steps over the limit of the buffer', 'the buffer is not flushed and grows without limit',
    STORE + '''
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
b = BatchHyperGraph(store(), buffer_max=2)
b.add_belief('s', ('is', 'a', 'b'))
b.add_belief('s', ('is', 'a', 'c'))
assert len(b.buffer) <= 2
''')
bug('interedge-three', 'G14', [(QU, "def interedge(edge, interverts):\n    for vertex in edge[1:]:", "def interedge(edge, interverts):\n    for vertex in edge[1:3]:")],
    'an edge of four or more elements whose last elements are not on a connection', 'such edges are kept in the intersection',
    STORE + '''
from gb.hypergraph.queries import intersect
hg = store()
hg.add(('r', 'a', 'p'))
hg.add(('r', 'p', 'b', 'x'))
assert set(intersect(hg, ['a', 'b'])) == {('r', 'a', 'p')}, intersect(hg, ['a', 'b'])
''')
bug('token-digits', 'E02', [(ED, "elif c < '0' or c > '9':", "elif not c.isdigit():")],
    'a token of digits that are not ASCII digits', 'tokens such as Arabic-Indic digits are read as integers, superscripts fail',
    '''
from gb.hypergraph.edge import str2edge
assert str2edge('(a \\u0663)') == ('a', '\\u0663')
''')
bug('nspace-rest', 'S02', [(SY, "return parts(sym)[1]", "return sym.split('/', 1)[1]")],
    'a symbol with more than two parts', 'the namespace holds all the rest of the symbol',
    '''
from gb.hypergraph.symbol import nspace
assert nspace('a/b/c') == 'b'
''')
bug('symbol-casefold', 'S03', [(SY, "sym = s.lower()", "sym = s.casefold()")],
    'a text with a character whose case folding is not its lower case', 'such characters are changed',
    '''
from gb.hypergraph.symbol import str2symbol
assert str2symbol('Stra\\u00dfe') == 'stra\\u00dfe'
''')
bug('all-degree', 'G07', [(SQL, "'SELECT id, degree FROM vertices')", "\"SELECT id, degree FROM vertices WHERE degree > 0 OR id LIKE '(%'\")")],
    'an atom all of whose edges were removed', 'the listing leaves out known atoms with degree 0',
    STORE + '''
hg = store()
hg.add(('is', 'a', 'b'))
hg.remove(('is', 'a', 'b'))
assert {v for v in hg.f_all(lambda m: m['vertex'])} == {'is', 'a', 'b'}
''')
bug('stamp-again', 'G06', [(SQL, "if not self.inc_degree(vert_str):", "if self.degree(vert) == 0 or not self.inc_degree(vert_str):")],
    'an edge added with an element that is known but in no stored edge', 'the timestamp of the element is overwritten',
    STORE + '''
hg = store()
hg.add(('is', 'a', 'b'), timestamp=1)
hg.remove(('is', 'a', 'b'))
hg.add(('was', 'a', 'c'), timestamp=2)
assert hg.timestamp('a') == 1
''')
bug('root-parts', 'G04', [(SQL, "            symbs.append(symb)", "            if symb.count('/') == 1:\n                symbs.append(symb)")],
    'a symbol with more than two parts', 'the symbols of a root with several slashes are not found',
    STORE + '''
hg = store()
hg.add(('is', 'a/1/x', 'b'))
assert hg.symbols_with_root('a') == {'a/1/x'}
''')
bug('pattern-zero', 'G03', [(SQL, "if (pattern[i] is not None) and (pattern[i] != edge[i]):", "if pattern[i] and (pattern[i] != edge[i]):")],
    'a pattern with the number 0 and an edge with the 0 at another position', 'the 0 matches anything',
    STORE + '''
hg = store()
hg.add(('is', 'a', 0))
assert hg.pattern2edges(('is', 0, None)) == set()
''')
bug('det-substring', 'K03', [('gb/knowledge/stages/gamma.py', "(first.token.lemma in ('the', 'an', 'a'))", "(first.token.lemma in 'the an a')")],
    'a determiner whose lemma is part of the text "the an a", such as "he" or an empty lemma', 'other determiners are dropped',
    '''
import sys, types
m = types.ModuleType('spacy')
sys.modules.setdefault('spacy', m)
sys.modules.setdefault('asciitree', types.ModuleType('asciitree'))
sys.modules['asciitree'].LeftAligned = object
from gb.nlp.nlp_token import Token
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.gamma import GammaStage
t = Tree()


def leaf(w, pos, lemma):
    k = Token(w)
    k.pos, k.lemma, k.dep = pos, lemma, 'det'
    return t.create_leaf(k).id


t.root_id = t.create_node([leaf('he', 'DET', 'he'), leaf('man', 'NOUN', 'man')]).id
assert str(GammaStage(t).process()) == '(he man)'
''')
bug('title-colon', 'R02', [('python/filter_wikidump.py', "return ':' not in title", "return title.find(':') < 1")],
    'a page title that starts with a colon', 'such pages are kept',
    '''
import sys
sys.path.insert(0, 'python')
import filter_wikidump
assert not filter_wikidump.check_title(':x')
''')
bug('sentence-root', 'N02', [('gb/nlp/sentence.py', "for token in self.tokens:\n            if token.dep == 'ROOT':", "for token in reversed(self.tokens):\n            if token.dep == 'ROOT':")],
    'a sentence with two tokens that have the root dependency', 'the last of them is the root',
    '''
import sys, types
m = types.ModuleType('asciitree')
m.LeftAligned = object
sys.modules['asciitree'] = m
from gb.nlp.nlp_token import Token
from gb.nlp.sentence import Sentence
a, b = Token('a'), Token('b')
a.dep = b.dep = 'ROOT'
assert Sentence([a, b]).root() is a
''')
bug('wn-lemma', 'R01', [('gb/readers/wordnet.py', "process_lemma_relationships(hg, lemma, lemma.pertainyms()", "process_lemma_relationships(hg, root_lemma, lemma.pertainyms()")],
    'a pertainym of a lemma that is not the first of its synset', 'the relation is recorded for the first lemma of the synset',
    '''
import sys, types
for n in ('nltk', 'nltk.corpus'):
    sys.modules[n] = types.ModuleType(n)
sys.modules['nltk.corpus'].wordnet = None
import gb.readers.wordnet as r


class S:
    def __init__(self): self.ls = []
    def name(self): return 's.n.01'
    def pos(self): return 'n'
    def lemmas(self): return self.ls
    def __getattr__(self, n): return lambda: []


class L:
    def __init__(self, s, n, p=()): self.s, self.n, self.p = s, n, p
    def synset(self): return self.s
    def name(self): return self.n
    def pertainyms(self): return self.p
    def antonyms(self): return []
    def derivationally_related_forms(self): return []


s = S()
x = L(s, 'x')
s.ls = [x, L(s, 'y', [x])]
got = []


class H:
    def add_belief(self, src, e): got.append(e)


r.process_synset(H(), s)
assert ('pertainym/gb', 'y/wn.s.n.01', 'x/wn.s.n.01') in got, got
''')
bug('candidate-long', 'K04', [('gb/knowledge/stages/delta.py', "new_node.children_ids += child.children_ids[1:]", "new_node.children_ids += child.children_ids[1:4]")],
    'a relation with four or more parameters that is merged into the relation above it', 'the words of the last parameters are lost',
    '''
import sys, types
sys.modules['spacy'] = types.ModuleType('spacy')
sys.modules['asciitree'] = types.ModuleType('asciitree')
sys.modules['asciitree'].LeftAligned = object
from gb.nlp.nlp_token import Token
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.delta import DeltaStage
t = Tree()


def leaf(w, pos):
    k = Token(w)
    k.pos, k.dep = pos, 'x'
    return t.create_leaf(k).id


c = t.create_node([leaf('s', 'VERB')] + [leaf(w, 'NOUN') for w in 'abcd']).id
t.root_id = t.create_node([leaf('r', 'VERB'), c]).id
out = DeltaStage(t).process()
n = sorted(l.token.word for l in out.root().flat_leafs())
assert n == list('abcdrs'), n
''')
STUBS = '''
import sys, types
sys.modules['spacy'] = types.ModuleType('spacy')
sys.modules['asciitree'] = types.ModuleType('asciitree')
sys.modules['asciitree'].LeftAligned = object
from gb.nlp.nlp_token import Token
from gb.knowledge.semantic_tree import Tree


def token(word, dep='x', left=(), right=(), pos='NOUN', entity_type=''):
    t = Token(word)
    t.pos, t.dep, t.lemma, t.entity_type, t.left_children, t.right_children = pos, dep, word, entity_type, list(left), list(right)
    return t

'''
bug('ego-visited', 'G13', [(HG, "    def ego(self, center, depth):\n", "    def ego(self, center, depth, visited=None):\n"),
                           (HG, "            edges = self.star(center)\n            ids", "            visited = set() if visited is None else visited\n            visited.add(center)\n            edges = self.star(center)\n            ids"),
                           (HG, "next_edges = [self.ego(vid, depth - 1) for vid in ids]", "next_edges = [self.ego(vid, depth - 1, visited) for vid in ids if vid not in visited]")],
    'an entity that is reached by a longer way first, and by a shorter one later', 'the neighbourhood misses edges behind entities that were first visited with little depth left',
    STORE + '''
hg = store()
es = {('r', 'a', 'b'), ('r', 'a', 'c'), ('r', 'b', 'c'), ('r', 'c', 'd'), ('r', 'd', 'e'), ('r', 'b', 'f'), ('r', 'f', 'g')}
for e in es:
    hg.add(e)
assert hg.ego('a', 3) == es, es - hg.ego('a', 3)
''')
bug('pattern-used', 'G11', [(HG, "        edges = self.pattern2edges(pattern)\n        for edge in edges:", "        edges = [edge for edge in self.pattern2edges(pattern) if self.degree(edge) == 0]\n        for edge in edges:")],
    'a matching edge that is an element of another edge', 'it is not removed',
    STORE + '''
hg = store()
hg.add(('is', 'sky', 'blue'))
hg.add(('says', 'mary', ('is', 'sky', 'blue')))
hg.remove_by_pattern(('is', None, None))
assert not hg.exists(('is', 'sky', 'blue'))
''')
bug('add-epoch', 'G15', [(HG, "return self.backend.add(edges, timestamp)", "return self.backend.add(edges, timestamp or -1)")],
    'an edge added with the timestamp 0', 'the backend is given another timestamp',
    STORE + '''
hg = store()
hg.add(('is', 'sky', 'blue'), timestamp=0)
assert hg.timestamp(('is', 'sky', 'blue')) == 0
''')
bug('nest-rest', 'K01', [('gb/knowledge/semantic_tree.py', "rest = elem.children_ids[1:]", "rest = elem.children_ids[1:4]")],
    'a modifier with four or more children of its own', 'the words of the last of them are lost',
    STUBS + '''
from gb.knowledge.stages.alpha import transform


class S:
    def root(self):
        return token('r', 'ROOT', [token('m', 'amod', [], [token(w, 'dobj') for w in 'abcd'])])


n = sorted(l.token.word for l in transform(S()).root().flat_leafs())
assert n == list('abcdmr'), n
''')
bug('compound-within', 'K02', [('gb/knowledge/stages/beta.py', "if child.token.entity_type != entity_type:", "if child.token.entity_type not in entity_type:")],
    'a node with a first child of some entity type and others without one', 'it is marked as a compound',
    STUBS + '''
from gb.knowledge.stages.beta import BetaStage
t = Tree()
a, b = t.create_leaf(token('Berlin', entity_type='GPE')), t.create_leaf(token('wall'))
t.root_id = t.create_node([a.id, b.id]).id
BetaStage(None, t).process()
assert not t.root().compound
''')
bug('compound-single', 'K05', [('gb/knowledge/stages/epsilon.py', "elif entity.is_compound():", "elif entity.is_compound() and not entity.is_singleton():")],
    'a compound with one child', 'it becomes an edge of one element',
    STUBS + '''
from gb.knowledge.stages.epsilon import EpsilonStage
t = Tree()
a = t.create_leaf(token('Berlin'))
n = t.create_node([a.id])
a.namespace = n.namespace = '1'
n.compound = True
t.root_id = n.id
e = EpsilonStage(None, t).process()
assert isinstance(e, str), e
''')
bug('output-same', 'K06', [('gb/knowledge/extractor.py', "            output = str(last_stage_output)\n            self.outputs.append(output)", "            output = str(last_stage_output)\n            if output != self.outputs[-1]:\n                self.outputs.append(output)")],
    'a stage that leaves the text of the tree as it is', 'the output of the stage is not recorded',
    STUBS + '''
sys.modules['spacy'].load = None
from gb.knowledge.extractor import Extractor


class S:
    def root(self):
        return token('r', 'ROOT')


x = Extractor(None)
x.read_sentence(S())
assert len(x.outputs) == 5, x.outputs
''')
bug('token-repeated', 'N01', [('gb/nlp/nlp_token.py', "        tokens += [self]\n", "        if self not in tokens:\n            tokens += [self]\n")],
    'a token with the same word, part of speech and dependency as one on its left', 'it is missing from the list',
    STUBS + '''
a = token('very')
b = token('very', left=[a])
assert [t is x for t, x in zip(b.to_list(), (a, b))] == [True, True]
''')
bug('readable-strip', 'S06', [(SY, "return root(sym).replace('_', ' ')", "return root(sym).replace('_', ' ').strip()")],
    'a symbol that starts or ends with an underscore', 'the spaces there are lost',
    '''
from gb.hypergraph.symbol import symbol2str
assert symbol2str('_a/1') == ' a'
''')
bug('float-short', 'E01', [(ED, "return float(token)", "return float(np.float32(token))")],
    'a float with more than seven digits', 'it is read with less precision',
    '''
from gb.hypergraph.edge import str2edge, edge2str
e = ('is', 'pi/1', 3.141592653589793)
assert str2edge(edge2str(e)) == e
''')
bug('delete-like', 'G01', [(SQL, "cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))", "cur.execute('DELETE FROM perms WHERE id LIKE %s' % (self.ph,), (eid,))")],
    'two stored edges that differ in upper and lower case only, or in a character where one has an underscore', 'removing one removes the other, too',
    STORE + '''
hg = store()
hg.add(('is', 'Sky', 'blue'))
hg.add(('is', 'sky', 'blue'))
hg.remove(('is', 'Sky', 'blue'))
assert hg.exists(('is', 'sky', 'blue'))
''')
bug('remove-used', 'G08', [(SQL, "            for edge in edges:\n                self.remove_raw(edge)", "            for edge in edges:\n                if self.degree(edge) == 0:\n                    self.remove_raw(edge)")],
    'removing several edges at once, one of them an element of another stored edge', 'that edge stays, while removing it alone removes it',
    STORE + '''
hg = store()
f = ('is', 'sky', 'blue')
hg.add(f)
hg.add(('says', 'mary', f))
hg.remove((f, ('is', 'a', 'b')))
assert not hg.exists(f)
''')
bug('db-suffix', 'C01', [('gb/gbrain.py', "        'db': db,", "        'db': db if backend == 'sqlite' else db.split('.')[0],")],
    'the MySQL backend with a database name that has a dot', 'another database is opened',
    '''
from click.testing import CliRunner
import gb.gbrain as g
seen = []
g.HyperGraph = seen.append
CliRunner().invoke(g.cli, ['--backend', 'mysql', '--db', 'graph.v2', 'create'])
assert seen[0]['db'] == 'graph.v2', seen
''')
bug('negative-tilde', 'S01', [(SY, "return symb[1:]\n    else:\n        return '~%s'", "return symb.replace('~', '')\n    else:\n        return '~%s'")],
    'a symbol with a tilde in the middle', 'negating twice drops the other tildes',
    '''
from gb.hypergraph.symbol import negative
assert negative(negative('a~b')) == 'a~b'
''')
bug('meaning-prefix', 'S05', [(SY, "'%s%s' % (prefix, random_hash())", "'%s%s' % (prefix.lower(), random_hash())")],
    'a prefix with a capital letter', 'the prefix of the namespace is not the given one',
    '''
from gb.hypergraph.symbol import new_meaning
assert new_meaning('a', 'Wn').startswith('a/Wn')
''')
bug('perm-order', 'E03', [(SQL, "for perm in itertools.permutations(indices)", "for perm in itertools.permutations(sorted(indices, key=str))")],
    'a sequence of more than ten elements', 'the orderings are not in lexicographic order of positions',
    '''
from gb.hypergraph.sql import nthperm
assert nthperm(tuple('abcdefghijk'), 0) == tuple('abcdefghijk')
''')

BUGS = B
