"""Contracts of the orderings in gb/hypergraph/sql.py (E03)."""
import z3
from . import Contract, register, zb
from ..values import *
from .. import theory as T
from ..engine import zi, mkint

M = 'gb.hypergraph.sql.'


def a_list(I, name='li'):
    """A list of any values (what they are does not matter: an unknown per position)."""
    n = I.fresh(Int, 'n')
    I.assume(n >= 0)
    f = I.fresh_fun(name, Int, Ent)
    return SSeq('list', SInt(n), lambda j: SEnt(f(zi(j))))


class Ordering(Contract):
    def args(self, I):
        return [PyList(I, a_list(I)), SInt(I.fresh(Int, 'nper'))]

    def pre(self, I, args):
        T.pi_facts(I)
        n = zi(I.length(args[0]))
        return [('the number of an ordering', z3.And(zi(args[1]) >= 0, zi(args[1]) < T.FACT(n)))]


@register
class NthPerm(Ordering):
    qual = M + 'nthperm'
    props = ('E03', 'G02', 'G03')

    def spec(self, I, args):
        s = I.as_seq(args[0])
        n, k = zi(s.n), zi(args[1])
        return SSeq('tuple', s.n, lambda i: s.get(mkint(T.PI(n, k, zi(i)))))


def scatter(I, loop, cell, v0, ys):
    """A list filled in the order of the positions another sequence gives."""
    from .. import loops
    if not isinstance(cell[0], PyList) or not isinstance(v0, SSeq) or loop.seq is None:
        return
    for n, k, tok in I.ghost.get('$orders', ()):
        def at(i, n=n, k=k, tok=tok):
            i = z3.IntVal(i) if isinstance(i, int) else i
            return SSeq('list', v0.n, lambda j: I.vite(I.simp(T.PIV(n, k, zi(j)) < i), tok.get(mkint(T.PIV(n, k, zi(j)))), v0.get(j)))
        yield loops.Form(at, name='positions of the first i tokens are filled')


@register
class Unpermutate(Ordering):
    qual = M + 'unpermutate'
    props = ('E03', 'G02', 'G03')

    def prepare(self, I, args):
        s = I.as_seq(args[0])
        I.ghost['$orders'] = ((zi(s.n), zi(args[1]), s),)
        I.form_offers.append(scatter)

    def spec(self, I, args):
        s = I.as_seq(args[0])
        n, k = zi(s.n), zi(args[1])
        return SSeq('tuple', s.n, lambda i: s.get(mkint(T.PIV(n, k, zi(i)))))


@register
class Undo(Ordering):
    key = 'undoing an ordering restores the sequence'
    qual = M + 'unpermutate'
    props = ('E03',)

    def run(self, I, f, args):
        return I.call(f, [I.call(I.find(M + 'nthperm'), args), args[1]])

    def post(self, I, args, r):
        a, s = I.as_seq(r), I.as_seq(args[0])
        I.prove(zi(a.n) == zi(s.n), 'the same length')
        k = I.fresh(Int, 'k')
        I.assume(z3.And(k >= 0, k < zi(s.n)))
        I.prove(zb(I.veq(a.get(SInt(k)), s.get(SInt(k)))), 'the same element everywhere')


@register
class Different(Contract):
    key = 'different numbers give different orderings, in lexicographic order'
    qual = M + 'nthperm'
    props = ('E03',)

    def args(self, I):
        n = I.fresh(Int, 'n')
        I.assume(n >= 0)
        T.pi_facts(I)
        a, b = I.fresh(Int, 'a'), I.fresh(Int, 'b')
        return [SInt(n), SInt(a), SInt(b)]

    def pre(self, I, args):
        n, a, b = [x.t for x in args]
        return [('two numbers', z3.And(a >= 0, a < b, b < T.FACT(n)))]

    def run(self, I, f, args):
        n = args[0].t
        pos = SSeq('list', args[0], lambda j: j)
        return I.call(f, [PyList(I, pos), args[1]]), I.call(f, [PyList(I, pos), args[2]])

    def post(self, I, args, r):
        n, a, b = [x.t for x in args]
        x, y = I.as_seq(r[0]), I.as_seq(r[1])
        # contract of itertools.permutations: ordering a comes before b, that is, they first differ at FD with the smaller position in a
        FD = z3.Function('FIRSTDIFF', Int, Int, Int, Int)
        d = FD(n, a, b)
        i = z3.Int('i$')
        I.assume(z3.And(d >= 0, d < n, T.PI(n, a, d) < T.PI(n, b, d), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d), T.PI(n, a, i) == T.PI(n, b, i)))))
        I.prove(zi(x.get(SInt(d))) < zi(y.get(SInt(d))), 'the smaller position first')
        k = I.fresh(Int, 'k')
        I.assume(z3.And(k >= 0, k < d))
        I.prove(zi(x.get(SInt(k))) == zi(y.get(SInt(k))), 'equal before')
