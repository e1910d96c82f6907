"""Contracts of the extractor (K06): gb/knowledge/extractor.py."""
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import zi, mkint, PyRaise
from .. import backend as B
from .facade import cls

X = 'gb.knowledge.extractor.Extractor.'
ST = 'gb.knowledge.stages.'
STAGES = {'alpha': ST + 'alpha.AlphaStage', 'beta': ST + 'beta.BetaStage', 'gamma': ST + 'gamma.GammaStage', 'delta': ST + 'delta.DeltaStage', 'epsilon': ST + 'epsilon.EpsilonStage'}
OutSort = z3.DeclareSort('Out')
SentSort = z3.DeclareSort('Sent')
OUTTEXT = z3.Function('OUTTEXT', OutSort, Str)
FIRST = z3.Function('FIRST', SentSort, OutSort)            # what the alpha stage makes of a sentence
NEXT = z3.Function('NEXT', Str, OutSort, OutSort)          # what a later stage makes of a result
RES = z3.Function('RES', SentSort, Int, OutSort)           # the result after stage k of the list
OUT = RefKind('result', sort=OutSort, text=OUTTEXT)
SENT = RefKind('sentence', sort=SentSort, text=z3.Function('SENTTEXT', SentSort, Str))


def stage_models(I, hg):
    """The stages by what goes in and out; what they do is K01-K05."""
    for name, q in STAGES.items():
        def init(I, f, b, q=q):
            b[0].fields['$made'] = tuple(b[1:])

        def process(I, f, b, name=name):
            made = b[0].fields.get('$made', ())
            trees = [x for x in made if isinstance(x, SRef)]
            I.prove(len(trees) == 1, 'a stage works on one result')
            if name in ('beta', 'epsilon'):
                I.prove(any(x is hg for x in made), 'with the hypergraph')
            return SRef(NEXT(I.sterm(name), trees[0].t), OUT)

        def first(I, f, b):
            I.prove(isinstance(b[1], SRef) and b[1].cls is SENT, 'the first stage reads the sentence')
            return SRef(FIRST(b[1].t), OUT)
        I.ghost_models['call:%s.__init__' % q] = init
        I.ghost_models['call:%s.process' % q] = process
        I.ghost_models['call:%s.process_sentence' % q] = first
    I.trusted.add('each stage is a function of what it is given (what the stages do is decided in K01-K05)')


def known(t, I):
    return z3.Or(*[t == I.sterm(n) for n in STAGES])


@register
class ReadSentence(Contract):
    qual = X + 'read_sentence'
    props = ('K06',)

    def args(self, I):
        hg = B.token(I)
        n = I.fresh(Int, 'n')
        name = I.fresh_fun('stage', Int, Str)
        j, s = z3.Int('j$'), z3.Const('s$', SentSort)
        I.assume(n >= 1)
        I.ghost['$stages'] = (n, name)
        I.assume(name(0) == I.sterm('alpha'))
        # alpha is the first stage only: the others work on trees
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < n), name(j) != I.sterm('alpha')), patterns=[name(j)]))
        I.assume(z3.ForAll([s], RES(s, 0) == FIRST(s), patterns=[RES(s, 0)]))
        I.assume(z3.ForAll([s, j], z3.Implies(j >= 0, RES(s, j + 1) == NEXT(name(j + 1), RES(s, j))), patterns=[RES(s, j)]))
        stages = SSeq('tuple', SInt(n), lambda k: SStr([name(zi(k))]))
        st = stages if I.choose() else PyList(I, SSeq('list', stages.n, stages.get))
        before = PyList(I, [])
        o = Obj(I, cls(I, X), {'hg': hg, 'stages': st, 'parser': None, 'debug': False, 'outputs': before})
        I.ghost['$hg'] = hg
        return [o, SENT.fresh(I)]

    def prepare(self, I, args):
        stage_models(I, I.ghost['$hg'])
        s = args[1].t

        def offer(I, loop, cell, v0, ys):
            from .. import loops
            if isinstance(v0, SRef) and v0.cls is OUT:
                for d in (0, 1):
                    yield loops.Form(lambda i, d=d: SRef(RES(s, i + d), OUT), name='the result of stage i')
        I.form_offers.append(offer)

    def post(self, I, args, r):
        n, name = I.ghost['$stages']
        o, s = args[0], args[1].t
        k = I.fresh(Int, 'k')
        I.prove(z3.Implies(z3.And(k >= 0, k < n), known(name(k), I)), 'unknown stages are refused')
        I.prove(isinstance(r, SRef) and zb(I.veq(r, SRef(RES(s, n - 1), OUT))), 'the result is that of the last stage')
        outs = o.fields['outputs']
        I.prove(zb(I.veq(I.length(outs), mkint(n))), 'one output for each stage')
        want = SSeq('list', mkint(n), lambda j: SStr([OUTTEXT(RES(s, zi(j)))]))
        I.prove(zb(I.veq(outs, PyList(I, want))), 'the texts of the results, in order')

    def on_raise(self, I, args, exc):
        n, name = I.ghost['$stages']
        I.prove(exc.name == 'RuntimeError', 'refused with an error')
        j = z3.Int('j$u')
        I.prove(z3.Exists([j], z3.And(j >= 0, j < n, z3.Not(known(name(j), I)))), 'only unknown stages are refused')


@register
class ReadText(Contract):
    qual = X + 'read_text'
    props = ('K06',)

    def args(self, I):
        o = Obj(I, cls(I, X), {'hg': B.token(I), 'stages': ('alpha',), 'parser': None, 'debug': False, 'outputs': PyList(I, [])})
        if I.choose():
            o.fields['parser'] = Obj(I, I.find('gb.nlp.parser.Parser'), {})
        n = I.fresh(Int, 'n')
        sent = I.fresh_fun('tokens', Int, SentSort)
        I.assume(n >= 0)
        I.ghost['$sents'] = (n, sent)
        return [o, B.token(I)]

    TOK = RefKind('token list', sort=SentSort)

    def prepare(self, I, args):
        n, sent = I.ghost['$sents']
        I.ghost_models['call:gb.nlp.parser.Parser.__init__'] = lambda I, f, b: None

        def parse(I, f, b):
            I.prove(b[1] is args[1], 'the text is parsed')
            return PyList(I, SSeq('list', SInt(n), lambda j: SRef(sent(zi(j)), self.TOK)))
        I.ghost_models['call:gb.nlp.parser.Parser.parse_text'] = parse

        def read(I, f, b):
            x = b[1]
            I.prove(isinstance(x, Obj) and x.cls is I.find('gb.nlp.sentence.Sentence') and isinstance(x.fields.get('tokens'), SRef), 'a sentence is read')
            return SRef(RES(x.fields['tokens'].t, z3.IntVal(-1)), OUT)
        I.ghost_models['call:%sread_sentence' % X] = read
        I.trusted.add('in the contract of read_text, read_sentence by its contract: a function of the sentence')

    def post(self, I, args, r):
        n, sent = I.ghost['$sents']
        I.prove(zb(I.veq(I.length(r), mkint(n))), 'one result for each sentence')
        want = SSeq('list', mkint(n), lambda j: SRef(RES(sent(zi(j)), z3.IntVal(-1)), OUT))
        I.prove(zb(I.veq(r, PyList(I, want))), 'the results in order')
