"""Contract of the dump filter (R02): python/filter_wikidump.py.

IN(i) says where line i starts: 0 outside of pages, 1 in a page before its title,
2 in a page that is kept, 3 in one that is dropped.  KEPT(i): is line i output;
FILT(i): the output for the first i lines."""
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T, libs
from ..engine import zi, mkint, ContinueLoop
from .symbol import a_text
from .sql import is0

LINE = z3.Function('LINE', Int, Str)
IN = z3.Function('INPAGE', Int, Int)
OKAY = z3.Function('OKAY', Int, Bool)               # the next title, from line i on, has no colon
FILT = z3.Function('FILT', Int, Str)
FS = z3.Function('FSTART', Int, Str)                # the output when the page began
BUF = z3.Function('BUFFER', Int, Str)               # the lines of the page so far


def tests(I, i):
    l = LINE(i)
    page, close = [libs.CONT(l, I.sterm(x)) for x in ('<page>', '</page>')]
    a, b = I.sterm('<title>'), I.sterm('</title>')
    return page, close, libs.BETWEEN(l, a, b), zb(I.contains(SStr([libs.INSIDE(l, a, b)]), ':'))


def kept(I, i):
    page = tests(I, i)[0]
    return z3.If(IN(i) == 0, z3.Or(z3.Not(page), OKAY(i + 1)), z3.If(IN(i) == 1, OKAY(i), IN(i) == 2))


def unfold(I, i):
    """The definitions, for line i."""
    i = z3.IntVal(i) if isinstance(i, int) else i
    page, close, title, colon = tests(I, i)
    l = LINE(i)
    starts = z3.And(IN(i) == 0, page)
    I.fact(z3.And(IN(0) == 0, FILT(0) == I.sterm('')))
    I.fact(z3.Implies(i >= 0, IN(i + 1) == z3.If(IN(i) == 0, z3.If(page, 1, 0), z3.If(IN(i) == 1, z3.If(title, z3.If(colon, 3, 2), 1), z3.If(close, 0, IN(i))))))
    I.fact(OKAY(i) == z3.If(title, z3.Not(colon), OKAY(i + 1)))
    k = kept(I, i)
    I.fact(z3.Implies(i >= 0, z3.And(FILT(i + 1) == z3.If(k, CAT(FILT(i), l), FILT(i)),
                                     FS(i + 1) == z3.If(starts, FILT(i), FS(i)), BUF(i + 1) == z3.If(starts, l, CAT(BUF(i), l)))))
    I.fact(CAT(CAT(FS(i), BUF(i)), l) == CAT(FS(i), CAT(BUF(i), l)))


class File:
    """A text file: its lines."""
    name = 'file'
    context = True

    @staticmethod
    def seq(I):
        return SSeq('list', I.ghost['$lines'], lambda j: SStr([LINE(zi(j))]))

    @staticmethod
    def iterate(I, o):
        return File.seq(I)

    @staticmethod
    def getattr(I, o, name):
        if name == 'readlines':
            return Builtin('readlines', lambda I: PyList(I, File.seq(I)))
        if name == 'close':
            return Builtin('close', lambda I: None)
        return None

    @staticmethod
    def shape(I, o):
        return ('const', o)


CONSTS = (str, int, bool, type(None))


def places(I, loop):
    """The constants that variables hold in the different places, found by running the body."""
    m = I.ghost_models.get(('places', id(loop)))
    if m is not None:
        return m
    env = loop.env
    names = [k for k, v in env.vars.items() if isinstance(v, CONSTS)]
    m = {0: {k: env.vars[k] for k in names}}
    I.ghost_models[('places', id(loop))] = m
    I.ghost_models[('places', id(loop), 'keep')] = loop
    for s, t, cond in ((0, 1, lambda p, c, t, k: p), (1, 2, lambda p, c, t, k: z3.And(t, z3.Not(k))), (1, 3, lambda p, c, t, k: z3.And(t, k))):
        found = []

        def thunk():
            i = I.fresh(Int, 'i')
            I.assume(z3.And(i >= 0, i < loop.n))
            page, close, title, colon = tests(I, i)
            I.assume(z3.And(IN(i) == s, cond(page, close, title, colon)))
            I.assume(z3.Not(close))
            if s == 1:
                I.assume(z3.Not(page))
            else:
                I.assume(z3.Not(title))
            for k in names:
                env.vars[k] = m[s].get(k, '')
            try:
                loop.start(i)
                I.exec_block(loop.st.body, env)
            except ContinueLoop:
                pass
            found.append({k: env.vars.get(k) for k in names})
            return True
        I.probing += 1
        try:
            I.explore(thunk)
        except (Unsupported, TypeError, KeyError):
            pass
        finally:
            I.probing -= 1
        m[t] = {k: found[0][k] for k in names if found and all(isinstance(f[k], CONSTS) and type(f[k]) is type(found[0][k]) and f[k] == found[0][k] for f in found)}
    return m


def place(I, i):
    for p in (0, 1, 2):
        if I.decide(IN(i) == p):
            return p
    return 3


def offer(I, loop, cell, v0, ys):
    from .. import loops
    if loop.seq is None:
        return
    if cell[0] is loops.GHOST and cell[1] == '$out':
        def at(i):
            unfold(I, i)
            i = z3.IntVal(i) if isinstance(i, int) else i
            return SStr([FS(i) if place(I, i) == 1 else FILT(i)])

        def dom(i):
            unfold(I, i)
            return z3.And(IN(i) >= 0, IN(i) <= 3, z3.Implies(IN(i) == 1, FILT(i) == z3.If(OKAY(i), CAT(FS(i), BUF(i)), FS(i))))
        yield loops.Form(at, dom=dom, name='the lines before that are kept, without those of a page whose title was not met')
    if isinstance(cell[0], Env) and isinstance(v0, CONSTS):
        m = places(I, loop)
        k = cell[1]
        if all(k in m[p] for p in (0, 1, 2, 3)):
            def at(i):
                unfold(I, i)
                return m[place(I, i)][k]
            yield loops.Form(at, name='one value for each of: outside, before a title, kept page, dropped page')
        if isinstance(v0, str) or v0 is None:
            for rest in (v0, Opaque('the lines of an earlier page')):
                def at(i, rest=rest):
                    unfold(I, i)
                    if is0(i):
                        return v0
                    return SStr([BUF(i)]) if place(I, i) == 1 else rest
                yield loops.Form(at, name='the lines of a page whose title was not met')


@register
class Main(Contract):
    qual = 'python.filter_wikidump.main'
    props = ('R02',)

    def args(self, I):
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        I.ghost['$lines'] = SInt(n)
        I.ghost['$out'] = ''
        path = a_text(I, 'path')
        i = z3.Int('i$d')
        page, close, title, colon = tests(I, i)
        # pages are complete, and page start, title and page end are on separate lines in that order
        I.assume(IN(n) == 0)
        I.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
            z3.Implies(IN(i) != 0, z3.Not(page)), z3.Implies(page, z3.And(z3.Not(title), z3.Not(close))),
            z3.Implies(IN(i) == 1, z3.Not(close)), z3.Implies(z3.And(IN(i) >= 2, IN(i) <= 3), z3.Not(title)))), patterns=[IN(i)]))
        I.trusted.add('text files: iterating gives the lines in order; what is written to sys.stdout is output in order')
        I.trusted.add('re: a pattern without special characters is found where it is contained; A(.*)B is found where A is followed by B on the line, the group is what is between the first A and the last B')

        def opened(I, name, mode):
            I.prove(zb(I.veq(name, path)) and mode in ('r', 'rt'), 'the file named is read')
            return Obj(I, File)
        I.ghost_models['open'] = opened
        I.form_offers.append(offer)
        return [PyList(I, [path])]

    def post(self, I, args, r):
        n = zi(I.ghost['$lines'])
        unfold(I, z3.IntVal(0))
        I.prove(I.sterm(I.ghost['$out']) == FILT(n), 'the lines outside of pages and of pages whose title has no colon are output, in order')
