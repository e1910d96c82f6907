"""Symbolic execution of the functions of /repo, path by path, from their
current source.  Paths are enumerated by re-execution; loops over symbolic
data are replaced by closed forms in the number of iterations, each of which
is checked to hold initially and to be preserved by one arbitrary iteration
of the body (an inductive loop invariant); calls to functions under contract
use the contract."""
import ast
import os
import itertools
import zlib
import time
import z3
from .values import *

MAXPATHS = 600
TIMEOUT = 6000


class PathEnd(BaseException):
    """The path is infeasible or was checked elsewhere."""


class Enough(BaseException):
    """Enough obligations of this contract have failed."""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class ReturnValue(Exception):
    def __init__(self, val):
        self.val = val


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    """z3 term of an integer value."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if is_z3(x):
        return x
    raise Unsupported('integer expected, got %r' % (x,))


def mkint(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.t
    return x


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


class Ctx:
    def __init__(self, prefix, stack, known=()):
        self.prefix, self.stack = prefix, stack
        self.known = known    # what the solver said on the way to the last choice of the prefix
        self.answers = []
        self.trace = []
        self.conds = []       # conditions of the real forks of this path


def plain_while(st):
    """`while True: if c: break; ...` is `while not c: ...`."""
    if not hasattr(st, 'plain'):
        st.plain = st
        b = st.body[0]
        if (isinstance(st.test, ast.Constant) and st.test.value and isinstance(b, ast.If) and not b.orelse and len(b.body) == 1
                and isinstance(b.body[0], ast.Break)):
            w = ast.While(ast.UnaryOp(ast.Not(), b.test), st.body[1:] or [ast.Pass()], [])
            ast.copy_location(w, st)
            ast.fix_missing_locations(w)
            st.plain = w
            w.plain = w
    return st.plain


class Interp:
    def __init__(self, repo, contracts=None, inline=()):
        self.repo = repo
        self.contracts = contracts or {}
        self.inline = set(inline)
        self.modules = {}
        self.reset()
        self.stats = {'queries': 0, 'solver_s': 0.0, 'cvc5': 0}
        self.used_contracts = set()
        self.inlined = set()
        self.trusted = set()
        self.obligations = []    # (name, status, detail)
        self.background = []
        self.deadline = None
        self.shard = None

    def reset(self):
        self.heap = []
        self.counter = 0
        self.facts = []
        self.new_solver()
        self.built = {}
        from . import theory
        for ax in theory.background():
            self.solver.add(ax)
        self.ctx = Ctx([], [])
        self.probing = 0
        self.binder = 0
        self.loop_cache = {}
        self.probe_obl = 0
        self.failures = 0
        self.max_failures = int(os.environ.get('VERIF_MAXFAIL', '2'))
        self.lits = {}
        self.known_facts = set()
        self.bg = set()
        self._keep = []
        self.consts = {}
        self.memo = {}
        self.ghost = {}
        self.depth = 0
        self.verifying = None
        self.loopinfo = []
        self.created = []
        self.ghost_models = {}
        self.form_offers = []
        self.dict_hook = None
        self.element_of = None
        self.quick = 0          # ms for the choice of a branch (0: as for everything)
        self.after_loops = True # are what all finished iterations established facts?
        self.on_iteration = None
        self.reuse_loops = False
        self.always = ()        # ghosts that are taken to change in every loop
        self.retry = 0          # ms for a second attempt at what loops preserve
        self.bags = False       # comprehensions: only what they contain matters
        self.conts = []
        self.in_code = 0

    def new_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", TIMEOUT)
        self.solver.set("smt.mbqi", False)
        self.solver.set("smt.auto_config", False)

    # -- state ------------------------------------------------------------

    def register(self, obj):
        self.heap.append(obj)

    def snapshot(self):
        return ([(o, o.save()) for o in self.heap], len(self.heap), self.counter, len(self.facts), dict(self.ghost), dict(self.lits), set(self.known_facts), len(self.created), len(self.conts))

    def restore(self, s):
        del self.heap[s[1]:]
        for o, st in s[0]:
            o.load(st)
        self.counter = s[2]
        del self.facts[s[3]:]
        self.ghost = dict(s[4])
        self.lits = dict(s[5])
        self.known_facts = set(s[6])
        del self.created[s[7]:]
        del self.conts[s[8]:]

    def fresh(self, sort, hint='x'):
        if self.binder:
            raise Unsupported('new unknown below a quantifier')
        self.counter += 1
        c = z3.Const('%s!%d' % (hint, self.counter), sort)
        self.created.append(c)
        return c

    def fresh_fun(self, name, *sorts):
        if self.binder:
            raise Unsupported('new unknown below a quantifier')
        self.counter += 1
        f = z3.Function('%s!%d' % (name, self.counter), *sorts)
        self.created.append(f)
        return f

    def assume_soft(self, c):
        """A fact that holds by construction."""
        self.fact(c)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.facts.append(c)
        self.solver.add(c)

    def fact(self, c):
        """A ground instance of a background axiom, added once per path."""
        k = c.get_id()
        if k in self.known_facts:
            return
        self.known_facts.add(k)
        self._keep = getattr(self, '_keep', [])
        self._keep.append(c)
        self.bg.add(k)
        self.assume(c)

    def replaying(self):
        """Is this state one that was reached before, on the path this one branched off?"""
        return len(self.ctx.trace) < len(self.ctx.prefix)

    def check_sat(self, *extra):
        ctx = self.ctx
        if self.replaying() and len(ctx.answers) < len(ctx.known):
            old, r = ctx.known[len(ctx.answers)]
            if len(old) == len(extra) and all(a.eq(b) for a, b in zip(old, extra)):
                ctx.answers.append((old, r))
                return r
            ctx.known = ()
        r = self.check(*extra)
        ctx.answers.append((extra, r))
        return r

    def feasible(self, c):
        if not self.quick:
            return self.check(c)
        self.solver.set('timeout', self.quick)
        try:
            return self.check(c)
        finally:
            self.solver.set('timeout', TIMEOUT)

    def check(self, *extra):
        self.stats['queries'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time is up')
        t0 = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            return r
        finally:
            self.solver.pop()
            self.stats['solver_s'] += time.time() - t0

    def valid(self, goal):
        """True if the goal follows from the facts of this path."""
        if goal is True:
            return True
        if goal is False:
            return self.check_sat() == z3.unsat
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        r = self.check_sat(z3.Not(goal))
        return r == z3.unsat or r == z3.unknown and self.again(goal)

    def again(self, goal):
        """A second attempt that looks at every term, relevant or not."""
        if not self.retry:
            return False
        s = z3.Solver()
        s.set('timeout', self.retry)
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.set('smt.relevancy', 0)
        s.add(*self.solver.assertions())
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def forget(self, terms):
        """Facts about the terms are not used on the rest of this path."""
        ids = {t.get_id() for t in terms}
        old = self.solver.assertions()
        self.new_solver()
        for f in old:
            if not ids & self.consts_of(f):
                self.solver.add(f)

    def consts_of(self, f):
        """The ids of the constants of a fact."""
        k = f.get_id()
        if k not in self.consts:
            out, seen, todo = set(), set(), [f]
            while todo:
                x = todo.pop()
                n = x.get_id()
                if n in seen:
                    continue
                seen.add(n)
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_const(x):
                    out.add(n)
                    self._keep.append(x)
                else:
                    todo += x.children()
            self._keep.append(f)
            self.consts[k] = out
        return self.consts[k]

    # -- exploration --------------------------------------------------------

    def explore(self, thunk):
        """All paths of thunk; returns [(outcome, facts)] and leaves the state as before."""
        outer = self.ctx
        base = self.snapshot()
        stack = [([], ())]
        solver = self.solver
        out = []
        n = 0
        try:
            while stack:
                n += 1
                if n > MAXPATHS:
                    raise Unsupported('more than %d paths' % MAXPATHS)
                prefix, known = stack.pop()
                self.restore(base)
                self.ctx = Ctx(prefix, stack, known)
                self.solver = solver
                solver.push()
                d = self.depth
                try:
                    try:
                        res = thunk()
                    except PathEnd:
                        continue
                    out.append(res)
                finally:
                    self.depth = d
                    self.solver = solver
                    solver.pop()
        finally:
            self.ctx = outer
            self.restore(base)
        return out

    def decide(self, c):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        n = z3.Not(c)
        ci, ni = c.get_id(), n.get_id()
        for f in reversed(self.facts):
            i = f.get_id()
            if i == ci:
                return True
            if i == ni:
                return False
        ctx = self.ctx
        if self.binder:
            if self.check_sat(c) == z3.unsat:
                return False
            if self.check_sat(z3.Not(c)) == z3.unsat:
                return True
            raise Unsupported('case distinction below a quantifier')
        k = len(ctx.trace)
        if k < len(ctx.prefix):
            v, real = ctx.prefix[k]
        else:
            pos = self.feasible(c)
            neg = self.feasible(z3.Not(c))
            if pos == z3.unsat and neg == z3.unsat:
                raise PathEnd()
            if pos == z3.unsat:
                v, real = False, False
            elif neg == z3.unsat:
                v, real = True, False
            else:
                v, real = True, True
                ctx.stack.append((ctx.trace + [(False, True)], list(ctx.answers)))
        ctx.trace.append((v, real))
        cond = c if v else z3.Not(c)
        if real:
            ctx.conds.append(cond)
        self.assume(cond)
        return v

    def choose(self):
        """A free choice: both ways are explored."""
        ctx = self.ctx
        k = len(ctx.trace)
        if k < len(ctx.prefix):
            v, real = ctx.prefix[k]
        else:
            v, real = True, True
            ctx.stack.append((ctx.trace + [(False, True)], list(ctx.answers)))
        ctx.trace.append((v, real))
        return v

    # -- obligations ----------------------------------------------------------

    def with_witnesses(self, g, hints):
        """A stronger goal: existential quantifiers over one number replaced by instances."""
        if z3.is_quantifier(g) and not g.is_forall():
            n = g.num_vars()
            hs = [[h for h in hints if h.sort() == g.var_sort(k)] for k in range(n)]
            combos = list(itertools.islice(itertools.product(*hs), 65))
            if 0 < len(combos) <= 64:
                return z3.Or(*[z3.substitute_vars(g.body(), *reversed(c)) for c in combos])
            return g
        if z3.is_or(g):
            return z3.Or(*[self.with_witnesses(x, hints) for x in g.children()])
        if z3.is_and(g):
            return z3.And(*[self.with_witnesses(x, hints) for x in g.children()])
        if z3.is_implies(g):
            return z3.Implies(g.arg(0), self.with_witnesses(g.arg(1), hints))
        return g

    def lemma(self, goal, hints=()):
        """Adds a consequence of the facts, if it is seen to be one."""
        if self.probing:
            return
        if self.valid(self.with_witnesses(goal, hints) if hints else goal):
            self.assume(goal)

    def prove(self, goal, name, hints=()):
        if not self.probing and (self.replaying() or not self.mine(name)):
            # this obligation has been dealt with (or is, by another process)
            if goal is False:
                raise PathEnd()
            if goal is not True:
                self.assume(goal)
            return
        if hints and is_z3(goal) and not self.probing:
            stronger = self.with_witnesses(goal, hints)
            if self.valid(stronger):
                self.obligations.append({'name': name, 'status': 'discharged', 'by': 'z3', 's': 0, 'detail': ''})
                self.assume(goal)
                return
        if self.probing:
            self.probe_obl += 1
            if goal is False:
                return
            if goal is not True:
                self.assume(goal)
            return
        t0 = time.time()
        detail = ''
        if goal is True or (is_z3(goal) and z3.is_true(z3.simplify(goal))):
            status, by = 'discharged', 'simplifier'
        else:
            g = z3.BoolVal(False) if goal is False else goal
            self.stats['queries'] += 1
            self.solver.push()
            self.solver.add(z3.Not(g))
            r = self.solver.check()
            by = 'z3'
            if r == z3.unknown and self.again(g):
                r = z3.unsat
            if r != z3.unsat and self.instantiate_conts(g):
                r = self.solver.check()
            if r == z3.unsat:
                status = 'discharged'
            else:
                status = 'failed'
                detail = str(r)
                if r == z3.sat:
                    try:
                        detail = 'sat: ' + str(self.solver.model())[:3000]
                    except z3.Z3Exception:
                        pass
                else:
                    detail = 'unknown (%s)' % self.solver.reason_unknown()
                    other = self.cvc5(self.solver.to_smt2())
                    if other:
                        status, by, detail = 'discharged', other, ''
            self.solver.pop()
            dt = time.time() - t0
            self.stats['solver_s'] += dt
            if status == 'failed':
                detail += '\ngoal: %s' % str(g)[:2500]
        self.obligations.append({'name': name, 'status': status, 'by': by, 's': round(time.time() - t0, 4), 'detail': detail})
        if status == 'failed':
            self.failures += 1
            if self.failures >= self.max_failures:
                raise Enough()
        if goal is False:
            raise PathEnd()
        if goal is not True:
            self.assume(goal)

    def mine(self, name):
        if self.shard is None:
            return True
        k, n = self.shard
        way = ''.join('1' if v else '0' for v, real in self.ctx.trace)
        return zlib.crc32((name + ' ' + way).encode()) % n == k

    def instantiate_conts(self, goal):
        """Adds what the finished iterations established at the indices the goal is about."""
        if not self.conts:
            return False
        from . import theory
        terms = []

        def strip(g):
            if z3.is_quantifier(g) and g.is_forall():
                vs = []
                for k in range(g.num_vars()):
                    self.counter += 1
                    vs.append(z3.Const('sk!%d' % self.counter, g.var_sort(k)))
                terms.extend(v for v in vs if v.sort() == Int)
                return strip(z3.substitute_vars(g.body(), *reversed(vs)))
            if z3.is_and(g):
                return z3.And(*[strip(x) for x in g.children()])
            if z3.is_implies(g):
                return z3.Implies(g.arg(0), strip(g.arg(1)))
            return g
        g = strip(goal)
        seen = set()
        todo = [goal] + self.facts
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().eq(theory.QDIFF) or x.decl().eq(theory.EDIFF):
                    terms.append(x)
                todo += x.children()
        if not terms:
            return False
        self.solver.add(z3.Not(g))
        for cont, i in self.conts:
            for t in terms[:24]:
                for f in cont(i, t):
                    self.solver.add(f)
        return True

    def cvc5(self, smt):
        import subprocess
        for options in ([], ['smt.mbqi=false', 'smt.auto_config=false'], ['smt.mbqi=false', 'smt.auto_config=false', 'smt.relevancy=0']):
            try:
                r = subprocess.run(['z3-new', '-T:4', '-in'] + options, input=smt, capture_output=True, text=True, timeout=8)
                if r.stdout.strip().split('\n')[-1] == 'unsat':
                    return 'z3 (alone)'
            except Exception:
                pass
        self.stats['cvc5'] += 1
        try:
            r = subprocess.run(['cvc5', '--tlimit=8000', '--lang=smt2', '--full-saturate-quant'], input='(set-logic ALL)\n' + smt, capture_output=True, text=True, timeout=12)
            return 'cvc5' if r.stdout.strip().split('\n')[-1] == 'unsat' else None
        except Exception:
            return None

    # -- modules ---------------------------------------------------------------

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            f = os.path.join(path, '__init__.py')
            src = open(f).read() if os.path.exists(f) else ''
        else:
            f = path + '.py'
            if not os.path.exists(f):
                raise Unsupported('no module %s' % name)
            src = open(f).read()
        return self.load_source(name, src, f)

    def load_source(self, name, src, f='?'):
        tree = ast.parse(src, f)
        m = ModuleVal(name, {})
        self.modules[name] = m
        m.file = f
        self.module_body(m, tree.body)
        return m

    def module_body(self, m, body):
        from . import externs
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.do_import(m, a.name, a.asname)
            elif isinstance(st, ast.ImportFrom):
                if st.module == '__future__':
                    continue
                for a in st.names:
                    full = '%s.%s' % (st.module, a.name)
                    if st.module.split('.')[0] == 'gb':
                        p = os.path.join(self.repo, *full.split('.'))
                        if os.path.isdir(p) or os.path.exists(p + '.py'):
                            m.ns[a.asname or a.name] = ('lazy', full, None)
                        else:
                            m.ns[a.asname or a.name] = ('lazy', st.module, a.name)
                    else:
                        m.ns[a.asname or a.name] = externs.lookup(full)
            elif isinstance(st, ast.FunctionDef):
                m.ns[st.name] = self.make_func(st, m, '%s.%s' % (m.name, st.name))
            elif isinstance(st, ast.ClassDef):
                m.ns[st.name] = ('class', st)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                m.ns[st.targets[0].id] = ('expr', st.value)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple):
                for k, t in enumerate(st.targets[0].elts):
                    m.ns[t.id] = ('exprk', st.value, k)
            else:
                pass    # expression statements, if __name__ ...: run only as a script

    def do_import(self, m, name, asname):
        from . import externs
        if name.split('.')[0] == 'gb':
            if asname:
                m.ns[asname] = ('lazy', name, None)
            else:
                m.ns['gb'] = ExtModule('gb')
        else:
            m.ns[asname or name.split('.')[0]] = externs.lookup(name if asname else name.split('.')[0])

    def make_func(self, node, m, qual, closure=None, cls=None):
        f = FuncVal(node, m, qual, closure, cls)
        for d in node.decorator_list if isinstance(node, ast.FunctionDef) else []:
            if isinstance(d, ast.Name) and d.id == 'property':
                f.prop = True
            elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                f.static = True
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                f.setter = True
                f.qualname += '.setter'
            else:
                f.decorated = True
        return f

    def make_class(self, st, m):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            try:
                bases.append(self.eval(b, self.module_env(m)))
            except (Unsupported, PyRaise):
                bases.append(Opaque('base class'))
        c = ClassVal(st.name, m, bases, {})
        c.qual = '%s.%s' % (m.name, st.name)
        for x in st.body:
            if isinstance(x, ast.FunctionDef):
                f = self.make_func(x, m, '%s.%s.%s' % (m.name, st.name, x.name), cls=c)
                if f.setter:
                    c.attrs[x.name].setter = f
                else:
                    c.attrs[x.name] = f
                    if x.name.startswith('__') and not x.name.endswith('__'):
                        c.attrs['_%s%s' % (st.name.lstrip('_'), x.name)] = f
            elif isinstance(x, ast.Assign):
                v = self.eval(x.value, self.module_env(m))
                t = x.targets[0]
                if isinstance(t, ast.Name):
                    c.attrs[t.id] = v
                elif isinstance(t, ast.Tuple):
                    for n, y in zip(t.elts, self.iter_concrete(v)):
                        c.attrs[n.id] = y
        return c

    def module_env(self, m):
        e = Env(self, None, m)
        return e

    def module_get(self, m, name):
        v = m.ns.get(name, ABSENT)
        if isinstance(v, tuple) and v and v[0] in ('lazy', 'class', 'expr', 'exprk'):
            if v[0] == 'lazy':
                mm = self.load_module(v[1])
                v = mm if v[2] is None else self.module_get(mm, v[2])
            elif v[0] == 'class':
                v = self.make_class(v[1], m)
            elif v[0] == 'expr':
                v = self.eval(v[1], self.module_env(m))
            else:
                v = self.iter_concrete(self.eval(v[1], self.module_env(m)))[v[2]]
            if isinstance(v, (Mutable,)):
                return v      # module state is rebuilt per use: only constants are expected
            m.ns[name] = v
        return v

    def find(self, qual):
        """The function with this qualified name in the current source, or None."""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            p = os.path.join(self.repo, *parts[:k])
            if os.path.exists(p + '.py'):
                m = self.load_module(mod)
                v = self.module_get(m, parts[k])
                for x in parts[k + 1:]:
                    if x == 'setter' and isinstance(v, FuncVal):
                        return v.setter if isinstance(v.setter, FuncVal) else None
                    if not isinstance(v, ClassVal):
                        return None
                    v = v.attrs.get(x, ABSENT)
                return None if v is ABSENT else v
        return None

    # -- names --------------------------------------------------------------

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is not ABSENT:
                    return v
                raise PyRaise(ExcVal('UnboundLocalError'))
            last = e
            e = e.parent
        m = last.module
        v = self.module_get(m, name)
        if v is not ABSENT:
            return v
        from . import externs
        if name in externs.BUILTINS:
            return externs.BUILTINS[name]
        raise PyRaise(ExcVal('NameError', (name,)))

    # -- statements -----------------------------------------------------------

    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield,)):
            v = self.eval(st.value.value, env) if st.value.value else None
            y = self.yields(env)
            self.list_append(y, v)
            return
        self.eval(st.value, env)

    def yields(self, env):
        e = env
        while '$yields' not in e.vars:
            e = e.parent
        return e.vars['$yields']

    def st_Pass(self, st, env):
        pass

    def st_Global(self, st, env):
        raise Unsupported('global')

    def st_Import(self, st, env):
        m = ModuleVal('local', {})
        for a in st.names:
            self.do_import(m, a.name, a.asname)
        for k in m.ns:
            env.vars[k] = self.module_get(m, k)

    def st_ImportFrom(self, st, env):
        m = ModuleVal('local', {})
        self.module_body(m, [st])
        for k in m.ns:
            env.vars[k] = self.module_get(m, k)

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        load = ast.copy_location(ast.fix_missing_locations(self.as_load(st.target)), st)
        old = self.eval(load, env)
        v = self.eval(st.value, env)
        if isinstance(old, PyList) and isinstance(st.op, ast.Add):
            self.list_extend(old, v)
            self.assign(st.target, old, env)
            return
        if isinstance(old, Obj) and hasattr(old.cls, 'iadd') and isinstance(st.op, ast.Add):
            old.cls.iadd(self, old, v)
            self.assign(st.target, old, env)
            return
        if isinstance(old, PySet) and isinstance(st.op, ast.BitOr):
            from . import externs
            externs.set_update(self, old, v)
            return
        self.assign(st.target, self.binop(st.op, old, v), env)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Load())
        raise Unsupported('augmented target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                a, b = stars[0], len(t.elts) - stars[0] - 1
                s = self.as_seq(v)
                if self.decide(zi(s.n) < a + b):
                    raise PyRaise(ExcVal('ValueError'))
                head = [self.getitem(v, k) for k in range(a)]
                rest = self.slice(s, a, -b if b else None)
                tail = [self.getitem(v, k - b) for k in range(b)]
                from . import externs
                rest = externs.b_list(self, rest)
                for x, y in zip(t.elts, head + [rest] + tail):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr if not (t.attr.startswith('__') and not t.attr.endswith('__')) else self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            k = self.eval(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported('target %s' % type(t).__name__)

    def unpack(self, v, n):
        ln = self.length(v)
        if not self.decide(self.veq(ln, n)):
            raise PyRaise(ExcVal('ValueError'))
        return [self.getitem(v, k) for k in range(n)]

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassVal):
                a = o.cls.lookup(name)
                if isinstance(a, FuncVal) and a.prop and a.setter:
                    self.call(a.setter, [o, v])
                    return
            h = getattr(o.cls, 'setattr', None)
            if h and not isinstance(o.cls, ClassVal):
                h(self, o, name, v)
                return
            o.fields[name] = v
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, PyDict):
            o.items[self.dictkey(k)] = v
        elif isinstance(o, PyList):
            if isinstance(o.items, list) and isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    raise PyRaise(ExcVal('IndexError'))
                o.items[k] = v
            else:
                s = self.as_seq(o)
                kk = self.index(k, s.n)
                old = s.get
                o.items = SSeq('list', s.n, lambda j: self.vite(self.simp(zi(j) == zi(kk)), v, old(j)))
        elif isinstance(o, Obj) and hasattr(o.cls, 'setitem'):
            o.cls.setitem(self, o, k, v)
        else:
            raise Unsupported('item assignment on %r' % (o,))

    def simp(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c

    def dictkey(self, k):
        if isinstance(k, (str, int, bool, type(None))):
            return k
        if isinstance(k, SStr) and len(k.parts) == 1 and isinstance(k.parts[0], str):
            return k.parts[0]
        if isinstance(k, SStr) and not k.parts:
            return ''
        raise Unsupported('dictionary key %r' % (k,))

    def st_If(self, st, env):
        if self.decide(self.truth(self.eval(st.test, env))):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Return(self, st, env):
        raise ReturnValue(self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise BreakLoop()

    def st_Continue(self, st, env):
        raise ContinueLoop()

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, self.env_module(env), '%s.<locals>.%s' % (self.env_module(env).name, st.name), closure=env)
        if f.decorated or f.prop:
            raise Unsupported('decorator')
        env.vars[st.name] = f

    def env_module(self, env):
        while env.parent is not None:
            env = env.parent
        return env.module

    def st_Raise(self, st, env):
        if st.exc is None:
            raise Unsupported('re-raise')
        v = self.eval(st.exc, env)
        if isinstance(v, Builtin):
            v = ExcVal(v.name)
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of %r' % (v,))
        raise PyRaise(v)

    def st_Assert(self, st, env):
        if not self.decide(self.truth(self.eval(st.test, env))):
            raise PyRaise(ExcVal('AssertionError'))

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars[t.id] = ABSENT
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, PyList) and isinstance(o.items, list) and isinstance(k, int):
                    del o.items[k]
                elif isinstance(o, PyDict):
                    del o.items[self.dictkey(k)]
                else:
                    raise Unsupported('del of item')
            else:
                raise Unsupported('del')

    def st_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_matches(e.exc, h.type, env):
                        if h.name:
                            env.vars[h.name] = e.exc
                        self.exec_block(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, ReturnValue, BreakLoop, ContinueLoop):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    EXC = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'UnboundLocalError': ['NameError'], 'RecursionError': ['RuntimeError'],
           'NotImplementedError': ['RuntimeError']}

    def exc_matches(self, exc, t, env):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.exc_matches(exc, x, env) for x in t.elts)
        if isinstance(t, ast.Name):
            n = t.id
        elif isinstance(t, ast.Attribute):
            n = t.attr
        else:
            raise Unsupported('exception type')
        names = {exc.name} | set(self.EXC.get(exc.name, []))
        if n == 'BaseException' or (n == 'Exception' and exc.name not in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit')):
            return True
        return n in names

    def st_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if not (isinstance(v, Obj) and getattr(v.cls, 'context', False)):
                raise Unsupported('with')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)

    # -- loops -------------------------------------------------------------------

    def st_While(self, st, env):
        st = plain_while(st)
        n = 0
        while True:
            c = self.truth(self.eval(st.test, env))
            if not isinstance(c, bool):
                s = z3.simplify(zb(c))
                if z3.is_true(s):
                    c = True
                elif z3.is_false(s):
                    c = False
                else:
                    break
            if not c:
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except BreakLoop:
                return
            except ContinueLoop:
                pass
            n += 1
            if n > 3000:
                raise Unsupported('long concrete loop')
        from . import loops
        loops.run(self, st, env, None)

    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        items = self.concrete_items(it)
        if items is not None:
            for x in items:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except BreakLoop:
                    return
                except ContinueLoop:
                    pass
            self.exec_block(st.orelse, env)
            return
        from . import loops
        loops.run(self, st, env, it)

    def concrete_items(self, it):
        """The items of something with a concrete number of items, else None."""
        if isinstance(it, SOpt):
            it = self.unopt(it)
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, PyList):
            if isinstance(it.items, list):
                return list(it.items)
            return self.concrete_items(it.items)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, SSeq):
            n = it.n
            if is_z3(n):
                n = z3.simplify(n)
                if z3.is_int_value(n):
                    n = n.as_long()
            if isinstance(n, SInt):
                return None
            if isinstance(n, int):
                if n > 3000:
                    raise Unsupported('long concrete loop')
                return [it.get(k) for k in range(n)]
            return None
        if isinstance(it, PyDict):
            return list(it.items.keys())
        if isinstance(it, PySet):
            return list(it.items) if isinstance(it.items, list) and len(it.items) <= 1 else None
        if isinstance(it, SStr):
            if all(isinstance(p, str) or isinstance(p, Char) for p in it.parts):
                out = []
                for p in it.parts:
                    out += list(p) if isinstance(p, str) else [SStr([p])]
                return out
            return None
        return None

    def iter_concrete(self, v):
        r = self.concrete_items(v)
        if r is None:
            raise Unsupported('needs a concrete sequence: %r' % (v,))
        return r

    # -- expressions ---------------------------------------------------------------

    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def ex_Constant(self, e, env):
        if isinstance(e.value, (int, str, bool, float, type(None))):
            return e.value
        raise Unsupported('constant %r' % (e.value,))

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def ex_Tuple(self, e, env):
        return self.display(e.elts, env, tuple)

    def ex_List(self, e, env):
        return PyList(self, self.display(e.elts, env, list))

    def display(self, elts, env, kind):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iter_concrete(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return kind(out)

    def ex_Set(self, e, env):
        from . import externs
        s = PySet(self, [])
        for x in e.elts:
            externs.set_add(self, s, self.eval(x, env))
        return s

    def ex_Dict(self, e, env):
        if any(k is None for k in e.keys):
            raise Unsupported('dictionary unpacking')
        pairs = [(self.eval(k, env), self.eval(v, env)) for k, v in zip(e.keys, e.values)]
        return self.new_dict(pairs)

    def new_dict(self, pairs):
        """A dictionary display; a contract may say what dictionaries are."""
        if self.dict_hook is not None:
            r = self.dict_hook(self, pairs)
            if r is not None:
                return r
        d = PyDict(self)
        for k, v in pairs:
            d.items[self.dictkey(k)] = v
        return d

    def ex_IfExp(self, e, env):
        if self.decide(self.truth(self.eval(e.test, env))):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def ex_Lambda(self, e, env):
        node = ast.FunctionDef('<lambda>', e.args, [ast.Return(e.body)], [])
        ast.copy_location(node, e)
        ast.fix_missing_locations(node)
        return FuncVal(node, self.env_module(env), '%s.<lambda>' % self.env_module(env).name, closure=env)

    def ex_BoolOp(self, e, env):
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.decide(self.truth(v))
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, SBool) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True
        return v

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return mkbool(Not(self.truth(v))) if not isinstance(self.truth(v), bool) else not self.truth(v)
        if isinstance(v, SOpt):
            v = self.unopt(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return mkint(-zi(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def ex_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    raise Unsupported('format')
                parts.append(self.strof(self.eval(x.value, env)))
        return self.concat(parts)

    def ex_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if k == len(e.ops) - 1:
                return mkbool(c) if not isinstance(c, bool) else c
            if not self.decide(c):
                return False
            left = right

    def ex_Attribute(self, e, env):
        # dotted names of packages, e.g. gb.x.y
        o = self.eval(e.value, env)
        name = e.attr
        if name.startswith('__') and not name.endswith('__'):
            name = self.mangle(name, env)
        return self.getattr(o, name)

    def mangle(self, name, env):
        e = env
        while e is not None:
            c = e.vars.get('$class')
            if c is not None:
                return '_%s%s' % (c.name.lstrip('_'), name)
            e = e.parent
        return name

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, env) if e.slice.lower else None
            hi = self.eval(e.slice.upper, env) if e.slice.upper else None
            if e.slice.step is not None:
                st = self.eval(e.slice.step, env)
                if st != 1:
                    if st == -1 and lo is None and hi is None:
                        return self.reversed(o)
                    raise Unsupported('slice step')
            return self.slice(o, lo, hi)
        return self.getitem(o, self.eval(e.slice, env))

    def reversed(self, o):
        s = self.as_seq(o)
        r = SSeq(s.kind, s.n, lambda j: s.get(mkint(zi(s.n) - 1 - zi(j))))
        items = self.concrete_items(r)
        if items is not None:
            return tuple(items) if s.kind == 'tuple' else PyList(self, items)
        return r if s.kind == 'tuple' else PyList(self, r)

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(env)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2:
            c = self.eval(e.args[0], env)
            if not isinstance(c, ClassVal):
                raise Unsupported('super')
            return ('super', self.eval(e.args[1], env), c)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                items = self.concrete_items(v)
                if items is None:
                    args.append(('*', v))
                else:
                    args += items
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PyDict):
                    raise Unsupported('** argument')
                kw.update(d.items)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def make_super(self, env):
        e = env
        while '$class' not in e.vars:
            e = e.parent
        cls = e.vars['$class']
        slf = e.vars.get('self')
        o = ('super', slf, cls)
        return o

    # comprehensions become loops
    def ex_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_SetComp(self, e, env):
        return self.comp(e, env, 'set')

    def ex_GeneratorExp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_DictComp(self, e, env):
        sub = Env(self, env)
        sub.vars['$acc'] = PyDict(self)
        body = ast.Assign([ast.Subscript(ast.Name('$acc', ast.Load()), e.key, ast.Store())], e.value)
        self.comp_loop(e, sub, body)
        return sub.vars['$acc']

    def comp(self, e, env, kind):
        sub = Env(self, env)
        if len(e.generators) > 1 and not hasattr(e, '_nobag'):
            first = self.eval(e.generators[0].iter, sub)
            if self.concrete_items(first) is None:
                from . import loops
                return loops.nested(self, e, sub, first, kind)
        elif self.bags and not hasattr(e, '_nobag'):
            from . import loops
            first = self.eval(e.generators[0].iter, sub)
            if self.concrete_items(first) is None:
                try:
                    return loops.nested(self, e, sub, first, kind)
                except Unsupported:
                    pass        # items of another kind: a loop
        acc = PyList(self, []) if kind == 'list' else PySet(self, [])
        sub.vars['$acc'] = acc
        meth = 'append' if kind == 'list' else 'add'
        if not hasattr(e, '_loop'):
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name('$acc', ast.Load()), meth, ast.Load()), [e.elt], []))
            e._loop = self.comp_ast(e, body)
        self.exec(e._loop, sub)
        return acc

    def comp_ast(self, e, body):
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            body = ast.For(g.target, g.iter, [body], [])
        ast.copy_location(body, e)
        return ast.fix_missing_locations(body)

    def comp_loop(self, e, sub, body):
        if not hasattr(e, '_loop'):
            e._loop = self.comp_ast(e, body)
        self.exec(e._loop, sub)

    # -- calls ------------------------------------------------------------------

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, SOpt):
            f = self.unopt(f)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj) and hasattr(f.cls, 'call'):
            return f.cls.call(self, f, args, kw)
        if not isinstance(f, FuncVal):
            raise Unsupported('call of %r' % (f,))
        if f.decorated:
            raise Unsupported('decorated function %s' % f.qualname)
        h = self.ghost_models.get('call:' + f.qualname)
        if h is not None:
            return h(self, f, self.bind_values(f, args, kw))
        c = self.contracts.get(f.qualname)
        if c is not None and f.qualname not in self.inline and (self.verifying != f.qualname or self.depth > 0):
            bound = self.bind_values(f, args, kw)
            self.used_contracts.add(f.qualname)
            return c.use(self, f, bound)
        return self.call_source(f, args, kw)

    def call_source(self, f, args, kw=None):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('deep recursion in %s' % f.qualname)
        self.inlined.add(f.qualname)
        try:
            env = Env(self, f.closure, f.module)
            env.vars['$node'] = f.node
            if f.cls is not None:
                env.vars['$class'] = f.cls
            for k, v in self.bind(f, args, kw or {}).items():
                env.vars[k] = v
            # assigned names are local
            gen = self.is_generator(f.node)
            if gen:
                env.vars['$yields'] = PyList(self, [])
            try:
                self.exec_block(f.node.body, env)
                res = None
            except ReturnValue as r:
                res = r.val
            if gen:
                return env.vars['$yields']
            return res
        finally:
            self.depth -= 1

    def is_generator(self, node):
        if not hasattr(node, '_gen'):
            node._gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        return node._gen

    def bind(self, f, args, kw):
        a = f.node.args
        if a.kwonlyargs or a.kwarg or a.posonlyargs:
            raise Unsupported('signature of %s' % f.qualname)
        names = [x.arg for x in a.args]
        out = {}
        if any(isinstance(x, tuple) and len(x) == 2 and x[0] == '*' for x in args):
            raise Unsupported('star argument')
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(ExcVal('TypeError'))
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        for k, v in kw.items():
            if k not in names or k in out:
                raise PyRaise(ExcVal('TypeError'))
            out[k] = v
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in out:
                out[n] = self.eval(d, f.closure or self.module_env(f.module))
        for n in names:
            if n not in out:
                raise PyRaise(ExcVal('TypeError'))
        return out

    def bind_values(self, f, args, kw):
        b = self.bind(f, args, kw)
        return [b[x.arg] for x in f.node.args.args]

    def instantiate(self, cls, args, kw):
        if any(isinstance(b, Builtin) for b in cls.bases):
            return ExcVal(cls.name, tuple(args))
        o = Obj(self, cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kw)
        return o

    # -- attributes and items --------------------------------------------------

    def getattr(self, o, name):
        from . import externs
        if isinstance(o, SOpt):
            o = self.unopt(o)
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if isinstance(o.cls, ClassVal):
                a = o.cls.lookup(name)
                if a is not None:
                    if isinstance(a, FuncVal):
                        if a.prop:
                            return self.call(a, [o])
                        if a.static:
                            return a
                        return Bound(o, a)
                    return a
                raise PyRaise(ExcVal('AttributeError', (name,)))
            r = o.cls.getattr(self, o, name)
            if r is not None:
                return r
            raise Unsupported('attribute %s of %s' % (name, o.cls))
        if isinstance(o, ModuleVal):
            v = self.module_get(o, name)
            if v is ABSENT:
                p = os.path.join(self.repo, *(o.name.split('.') + [name]))
                if os.path.isdir(p) or os.path.exists(p + '.py'):
                    return self.load_module(o.name + '.' + name)
                raise PyRaise(ExcVal('AttributeError', (name,)))
            return v
        if isinstance(o, ClassVal):
            a = o.lookup(name)
            if a is None:
                raise PyRaise(ExcVal('AttributeError', (name,)))
            return a
        if isinstance(o, ExtModule):
            if o.name == 'gb' or o.name.startswith('gb.'):
                full = o.name + '.' + name
                p = os.path.join(self.repo, *full.split('.'))
                if os.path.exists(p + '.py'):
                    return self.load_module(full)
                return ExtModule(full)
            return externs.lookup(o.name + '.' + name)
        if isinstance(o, tuple) and len(o) == 3 and o[0] == 'super':
            for b in o[2].bases:
                if isinstance(b, ClassVal):
                    a = b.lookup(name)
                    if a is not None:
                        return Bound(o[1], a)
            if name == '__init__':
                return Builtin('object.__init__', lambda I, *a, **k: None)
            raise Unsupported('super attribute')
        if isinstance(o, Opaque):
            raise Unsupported('use of %r' % (o,))
        if isinstance(o, SEnt):
            # an entity used like a string or a sequence
            k = self.ent_kind(o)
            if k != 'edge':
                o = self.ent_value(o, k)
        m = externs.method(self, o, name)
        if m is None:
            if o is None or isinstance(o, (int, str, tuple)):
                raise PyRaise(ExcVal('AttributeError', (name,)))
            raise Unsupported('attribute %s of %r' % (name, o))
        return m

    def unopt(self, o):
        """The value of something that may be None, on each path."""
        if isinstance(o, SOpt):
            if self.decide(o.none):
                return None
            return self.unopt(o.val)
        return o

    def ent_kind(self, e):
        t = e.t
        if self.decide(isEdge(t)):
            return 'edge'
        if self.decide(isSym(t)):
            return 'sym'
        if self.decide(isInt(t)):
            return 'int'
        if self.decide(isFlt(t)):
            return 'float'
        return 'other'

    def ent_value(self, e, kind):
        if kind == 'sym':
            return SStr([TXT(e.t)])
        if kind == 'int':
            return SInt(IVAL(e.t))
        if kind == 'float':
            return SFlt(e.t)
        return e

    def ent_facts(self, t):
        """Kinds of entities: exactly one of edge, symbol, integer, float; lengths are not negative."""
        self.fact(z3.And(KIND(t) >= 0, KIND(t) <= 3, ELEN(t) >= 0))

    def length(self, v):
        if isinstance(v, SOpt):
            v = self.unopt(v)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, PyList):
            if isinstance(v.items, list):
                return len(v.items)
            return self.length(v.items)
        if isinstance(v, SSeq):
            return mkint(zi(v.n)) if not isinstance(v.n, int) else v.n
        if isinstance(v, PyDict):
            return len(v.items)
        if isinstance(v, SStr):
            return mkint(self.slen(v))
        if isinstance(v, SEnt):
            k = self.ent_kind(v)
            if k == 'edge':
                return SInt(ELEN(v.t))
            if k == 'sym':
                return self.length(SStr([TXT(v.t)]))
            raise PyRaise(ExcVal('TypeError'))
        if isinstance(v, PySet):
            if isinstance(v.items, list) and len(v.items) <= 1:
                return len(v.items)
            return self.set_size(v)
        if isinstance(v, SBag):
            n = self.fresh(Int, 'bagsize')
            self.assume(n >= 0)
            y = z3.Const('y$', v.sort)
            self.assume(z3.ForAll([y], z3.Implies(zb(v.mem(y)), n > 0)))
            self.assume(z3.Implies(n > 0, zb(v.mem(self.fresh(v.sort, 'member')))))
            return SInt(n)
        if v is None or isinstance(v, (int, SInt, float)):
            raise PyRaise(ExcVal('TypeError'))
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            f = v.cls.lookup('__len__')
            if f:
                return self.call(f, [v])
        raise Unsupported('len of %r' % (v,))

    def set_size(self, s):
        sv = self.set_value(s)
        n = self.fresh(Int, 'setsize')
        x = self.fresh(sv.sort, 'member')
        self.assume(n >= 0)
        y = z3.Const('y$', sv.sort)
        m = sv.mem(y)
        self.assume(z3.ForAll([y], z3.Implies(zb(m), n > 0)))
        self.assume(z3.Implies(n > 0, zb(sv.mem(x))))
        return SInt(n)

    def index(self, k, n):
        """Normalised index into a sequence of length n; raises IndexError."""
        if isinstance(k, SOpt):
            k = self.unopt(k)
        if isinstance(k, bool):
            k = int(k)
        if k is None or isinstance(k, (str, SStr, tuple)):
            raise PyRaise(ExcVal('TypeError'))
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise PyRaise(ExcVal('IndexError'))
            return k if k >= 0 else n + k
        kt, nt = zi(k), zi(n)
        if self.decide(kt < 0):
            if not self.decide(kt >= -nt):
                raise PyRaise(ExcVal('IndexError'))
            return mkint(nt + kt)
        if not self.decide(kt < nt):
            raise PyRaise(ExcVal('IndexError'))
        return mkint(kt)

    def getitem(self, o, k):
        if isinstance(o, SOpt):
            o = self.unopt(o)
        if isinstance(o, PyDict):
            kk = self.dictkey(k)
            if kk not in o.items:
                raise PyRaise(ExcVal('KeyError', (kk,)))
            return o.items[kk]
        if isinstance(o, SEnt):
            kind = self.ent_kind(o)
            if kind == 'sym':
                return self.getitem(SStr([TXT(o.t)]), k)
            if kind != 'edge':
                raise PyRaise(ExcVal('TypeError'))
            kk = self.index(k, SInt(ELEN(o.t)))
            return self.el(o.t, kk)
        if isinstance(o, (str, SStr)):
            return self.char_at(o, k)
        if isinstance(o, (tuple, PyList, SSeq)):
            if isinstance(o, PyList) and not isinstance(o.items, list):
                o = o.items
                if isinstance(o, SBag):
                    raise Unsupported('index into an unordered list')
            if isinstance(o, PyList):
                o = tuple(o.items)
            n = len(o) if isinstance(o, tuple) else o.n
            kk = self.index(k, n)
            if isinstance(o, tuple):
                if isinstance(kk, int):
                    return o[kk]
                return self.tuple_at(o, kk)
            return o.get(kk)
        if isinstance(o, Obj) and hasattr(o.cls, 'getitem'):
            return o.cls.getitem(self, o, k)
        if o is None or isinstance(o, (int, float, SInt)):
            raise PyRaise(ExcVal('TypeError'))
        raise Unsupported('item of %r' % (o,))

    def tuple_at(self, o, k):
        v = o[-1]
        for j in range(len(o) - 2, -1, -1):
            v = self.vite(zi(k) == j, o[j], v)
        return v

    def el(self, t, k):
        """Element k of the edge t."""
        r = EL(t, zi(k))
        self.ent_facts(r)
        return SEnt(r)

    def as_seq(self, v, kind=None):
        """A sequence as SSeq."""
        if isinstance(v, SOpt):
            v = self.unopt(v)
        if isinstance(v, SSeq):
            return v
        if isinstance(v, PyList):
            if isinstance(v.items, list):
                items = tuple(v.items)
                r = SSeq('list', len(items), lambda j: items[j] if isinstance(j, int) else self.tuple_at(items, j))
                r.prov = ('items', items)
                return r
            if isinstance(v.items, SSeq):
                return v.items
            raise Unsupported('order of %r' % (v.items,))
        if isinstance(v, tuple):
            return SSeq('tuple', len(v), lambda j: v[j] if isinstance(j, int) else self.tuple_at(v, j))
        if isinstance(v, SEnt):
            k = self.ent_kind(v)
            if k == 'edge':
                t = v.t
                s = SSeq('tuple', mkint(ELEN(t)), lambda j: self.el(t, j))
                s.ent = t
                return s
            if k == 'sym':
                return self.as_seq(SStr([TXT(v.t)]))
            raise PyRaise(ExcVal('TypeError'))
        if isinstance(v, (str, SStr)):
            if isinstance(v, str):
                return SSeq('str', len(v), lambda j: self.char_at(v, j, True))
            return SSeq('str', mkint(self.slen(v)), lambda j: SStr([Char(self.code_at(v, j))]))
        if isinstance(v, (int, SInt, float)) or v is None:
            raise PyRaise(ExcVal('TypeError'))
        if isinstance(v, Obj) and hasattr(v.cls, 'sequence'):
            return v.cls.sequence(self, v)
        raise Unsupported('sequence of %r' % (v,))

    def slice(self, o, lo, hi):
        if isinstance(o, SOpt):
            o = self.unopt(o)
        if isinstance(o, (str, SStr)):
            return self.str_slice(o, lo, hi)
        if isinstance(o, SEnt):
            if self.ent_kind(o) == 'sym':
                return self.str_slice(SStr([TXT(o.t)]), lo, hi)
        conc = self.concrete_items(o) if isinstance(o, (tuple, PyList)) else None
        if conc is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
            r = conc[lo:hi]
            return tuple(r) if isinstance(o, tuple) else PyList(self, r)
        s = self.as_seq(o)
        n = s.n
        a, b = self.slice_bounds(lo, hi, n)
        ln = self.simp_int(zi(b) - zi(a)) if not (isinstance(a, int) and isinstance(b, int)) else max(0, b - a)
        base = (s, 0) if s.base is None else s.base
        r = SSeq(s.kind, ln, lambda j: s.get(mkint(zi(a) + zi(j))))
        r.prov = ('slice', s, a, b)
        if hi is None:
            b0, off = base
            r.base = (b0, mkint(zi(off) + zi(a)))
        if getattr(s, 'rows', None) is not None:
            raise Unsupported('slice of rows')
        items = self.concrete_items(r)
        if items is not None:
            return tuple(items) if s.kind == 'tuple' else PyList(self, items)
        return r if s.kind in ('tuple', 'str') else PyList(self, r)

    def simp_int(self, t):
        return mkint(t)

    def slice_bounds(self, lo, hi, n):
        def norm(x, default):
            if isinstance(x, SOpt):
                x = self.unopt(x)
            if x is None:
                return default
            if isinstance(x, int) and isinstance(n, int):
                if x < 0:
                    x += n
                return min(max(x, 0), n)
            t, nt = zi(x), zi(n)
            if self.decide(t < 0):
                t = nt + t
                if self.decide(t < 0):
                    return 0
            if self.decide(t > nt):
                return n
            return mkint(t)
        a = norm(lo, 0)
        b = norm(hi, n)
        if not (isinstance(a, int) and isinstance(b, int)):
            if self.decide(zi(a) > zi(b)):
                b = a
        elif a > b:
            b = a
        return a, b

    # -- truth, equality, order -----------------------------------------------------

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SOpt):
            t = self.truth(v.val)
            return And(Not(v.none), t)
        if isinstance(v, (PyList, PyDict, PySet, SSeq, SStr)):
            n = self.length(v)
            return n != 0 if isinstance(n, int) else n.t != 0
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassVal):
                if v.cls.lookup('__bool__') is not None or v.cls.lookup('__len__') is not None:
                    raise Unsupported('truth of %r' % (v,))
                return True
            if hasattr(v.cls, 'truth'):
                return v.cls.truth(self, v)
            if hasattr(v.cls, 'len'):
                n = v.cls.len(self, v)
                return n != 0 if isinstance(n, int) else n.t != 0
            if hasattr(v.cls, 'sequence') or hasattr(v.cls, 'iterate') or hasattr(v.cls, 'contains'):
                raise Unsupported('truth of %r' % (v,))
            return True
        if isinstance(v, (FuncVal, Bound, Builtin, ClassVal)):
            return True
        if isinstance(v, SEnt):
            k = self.ent_kind(v)
            if k == 'edge':
                return ELEN(v.t) != 0
            if k in ('sym', 'int'):
                return self.truth(self.ent_value(v, k))
        raise Unsupported('truth of %r' % (v,))

    def ent_of(self, v):
        """z3 term of sort Ent for a value that is an entity."""
        from .theory import mk_ent
        return mk_ent(self, v)

    def veq(self, a, b):
        """Equality of two values: bool or z3 Bool."""
        if a is b:
            return True
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            if isinstance(a, SOpt) and isinstance(b, SOpt):
                return Or(And(a.none, b.none), And(Not(a.none), Not(b.none), self.veq(a.val, b.val)))
            o, x = (a, b) if isinstance(a, SOpt) else (b, a)
            if x is None:
                return o.none
            return And(Not(o.none), self.veq(o.val, x))
        if a is None or b is None:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and not (isinstance(y, Obj) and y.cls is x.cls) and hasattr(x.cls, 'other'):
                return x.cls.other(self, x, y)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of %r' % (a if isinstance(a, Opaque) else b,))
        if isinstance(a, SEnt) or isinstance(b, SEnt):
            if isinstance(a, SEnt) and isinstance(b, SEnt):
                return self.enteq(a.t, b.t)
            e, x = (a, b) if isinstance(a, SEnt) else (b, a)
            if isinstance(x, (str, SStr)):
                return And(isSym(e.t), self.streq(SStr([TXT(e.t)]), x))
            if isinstance(x, (int, SInt)) and not isinstance(x, bool):
                return And(isInt(e.t), IVAL(e.t) == zi(x))
            if isinstance(x, (tuple, SSeq)):
                s = self.as_seq(x)
                if s.kind == 'list':
                    return False
                n = self.concrete_items(x)
                if n is not None:
                    r = And(isEdge(e.t), ELEN(e.t) == len(n), *[self.veq(self.el(e.t, k), y) for k, y in enumerate(n)])
                    return r
                return self.enteq(e.t, self.ent_of(x))
            if isinstance(x, SFlt):
                return e.t == x.t
            return False
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.simp(zb(a) == zb(b))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return self.simp(zi(a) == zi(b))
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
            return a == b
        if isinstance(a, SFlt) and isinstance(b, SFlt):
            return a.t == b.t
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.streq(a, b)
        la, lb = isinstance(a, (PyList,)), isinstance(b, (PyList,))
        if isinstance(a, (tuple, PyList, SSeq)) and isinstance(b, (tuple, PyList, SSeq)):
            ca, cb = self.concrete_items(a), self.concrete_items(b)
            ka = 'list' if isinstance(a, PyList) else 'tuple' if isinstance(a, tuple) else a.kind
            kb = 'list' if isinstance(b, PyList) else 'tuple' if isinstance(b, tuple) else b.kind
            if ka != kb:
                return False
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return False
                return And(*[self.veq(x, y) for x, y in zip(ca, cb)])
            return self.seqeq(self.as_seq(a), self.as_seq(b))
        if isinstance(a, PySet) and isinstance(b, PySet):
            return self.seteq(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if isinstance(a.cls, ClassVal):
                f = a.cls.lookup('__eq__')
                if f is not None:
                    return self.truth(self.call(f, [a, b]))
            if hasattr(a.cls, 'eq'):
                return a.cls.eq(self, a, b)
            return False
        if isinstance(a, SFun) and isinstance(b, SFun):
            xs = [self.fresh(s, 'sk') for s in a.sorts]
            return a(*xs) == b(*xs)
        if isinstance(a, (FuncVal, ClassVal, Builtin, ModuleVal)) or isinstance(b, (FuncVal, ClassVal, Builtin, ModuleVal)):
            return a is b
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.items) != set(b.items):
                return False
            return And(*[self.veq(a.items[k], b.items[k]) for k in a.items])
        kinds = []
        for x in (a, b):
            kinds.append('num' if isinstance(x, (int, float, SInt, SFlt, bool, SBool)) else 'str' if isinstance(x, (str, SStr)) else 'seq' if isinstance(x, (tuple, PyList, SSeq)) else
                         'dict' if isinstance(x, PyDict) else 'set' if isinstance(x, PySet) else 'obj' if isinstance(x, Obj) else '?')
        if '?' not in kinds and kinds[0] != kinds[1]:
            return False
        raise Unsupported('comparison of %r and %r' % (a, b))

    def enteq(self, a, b):
        from . import theory
        if a.eq(b):
            return True
        if a.get_id() in self.built or b.get_id() in self.built:
            theory.ent_ext(self, a, b)
        return self.simp(a == b)

    def seqeq(self, a, b):
        """Sequences are equal: as a goal (a fresh index stands for every one)."""
        k = self.fresh(Int, 'ix')
        n = zi(a.n) == zi(b.n)
        if (isinstance(a.n, int) and a.n == 0) or (isinstance(b.n, int) and b.n == 0):
            return self.simp(n)
        e = self.under(And(k >= 0, k < zi(a.n), n), lambda: self.veq(a.get(SInt(k)), b.get(SInt(k))))
        return And(n, z3.Implies(z3.And(k >= 0, k < zi(a.n)), zb(e)))

    def under(self, cond, thunk):
        """Evaluates a comparison under an additional assumption (for decisions made inside)."""
        return thunk()

    def set_value(self, s):
        if isinstance(s.items, SSetV):
            return s.items
        items = list(s.items)
        if not items:
            return None
        if all(isinstance(x, (str, SStr)) for x in items):
            ts = [self.sterm(x) for x in items]
            return SSetV(Str, lambda y: Or(*[y == t for t in ts]), lambda y: SStr([y]))
        ts = [self.ent_of(x) for x in items]
        return SSetV(Ent, lambda y: Or(*[y == t for t in ts]), lambda y: SEnt(y))

    def seteq(self, a, b):
        va, vb = self.set_value(a), self.set_value(b)
        if va is None and vb is None:
            return True
        if va is None or vb is None:
            v = va or vb
            x = self.fresh(v.sort, 'sk')
            return Not(zb(v.mem(x)))
        if va.sort != vb.sort:
            raise Unsupported('sets of different kinds')
        x = self.fresh(va.sort, 'sk')
        return zb(va.mem(x)) == zb(vb.mem(x))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, SOpt) and b is None:
                r = a.none
            elif isinstance(b, SOpt) and a is None:
                r = b.none
            elif a is None or b is None:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Unsupported('use of %r' % (a,))
                r = a is b
            elif (a is NOTIMPL or b is NOTIMPL) and not any(isinstance(x, Opaque) and x is not NOTIMPL for x in (a, b)):
                r = a is b
            elif isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                r = self.veq(a, b)
            elif isinstance(a, (Obj, ClassVal)) and isinstance(b, (Obj, ClassVal)):
                r = a is b
                if not r and hasattr(getattr(a, 'cls', None), 'eq'):
                    r = a.cls.eq(self, a, b)
            else:
                raise Unsupported('identity of %r and %r' % (a, b))
            return Not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, ast.NotEq) and isinstance(a, SRef) and hasattr(a.cls, 'cls_of'):
            c = a.cls.cls_of(self, a)
            f = c.lookup('__ne__') if isinstance(c, ClassVal) else None
            if f is not None:
                n, self.in_code = self.in_code, 0
                try:
                    return self.truth(self.call(f, [a, b]))
                finally:
                    self.in_code = n
        if isinstance(op, (ast.Eq, ast.NotEq)):
            self.in_code += 1
            try:
                r = self.veq(a, b)
            finally:
                self.in_code -= 1
            return Not(r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            self.in_code += 1
            try:
                r = self.contains(b, a)
            finally:
                self.in_code -= 1
            return Not(r) if isinstance(op, ast.NotIn) else r
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, SEnt):
            a = self.ent_value(a, self.ent_kind(a))
        if isinstance(b, SEnt):
            b = self.ent_value(b, self.ent_kind(b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            x, y = zi(a), zi(b)
        elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            x, y = self.single_code(a), self.single_code(b)
            if x is None or y is None:
                raise Unsupported('order of strings')
        elif any(v is None or isinstance(v, (tuple, PyList)) for v in (a, b)) or isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
            if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
                raise Unsupported('use of %r' % (a,))
            raise PyRaise(ExcVal('TypeError'))
        elif isinstance(a, PySet) and isinstance(b, PySet) and isinstance(op, (ast.LtE, ast.GtE)):
            from . import externs
            return zb(self.truth(externs.subset(self, a, b) if isinstance(op, ast.LtE) else externs.subset(self, b, a)))
        else:
            raise Unsupported('order of %r and %r' % (a, b))
        return self.simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])

    def contains(self, c, x):
        if isinstance(c, SOpt):
            c = self.unopt(c)
        if isinstance(c, SEnt):
            k = self.ent_kind(c)
            c = self.as_seq(c) if k == 'edge' else self.ent_value(c, k)
        if isinstance(c, (str, SStr)):
            return self.str_contains(c, x)
        if isinstance(c, PyDict):
            if any(not isinstance(k, (str, int, type(None))) for k in c.items):
                raise Unsupported('dictionary keys')
            return Or(*[self.veq(k, x) for k in c.items])
        if isinstance(c, PySet) and isinstance(c.items, SSetV):
            s = c.items
            if s.sort == Ent:
                return s.mem(self.ent_of(x))
            if s.sort == Str:
                return s.mem(self.sterm(x))
            raise Unsupported('member of a set')
        if isinstance(c, PySet):
            return Or(*[self.veq(y, x) for y in c.items])
        items = self.concrete_items(c)
        if items is not None:
            return Or(*[self.veq(y, x) for y in items])
        if isinstance(c, PyList) and isinstance(c.items, SBag):
            b = c.items
            return b.mem(self.sterm(x) if b.sort == Str else self.ent_of(x))
        if isinstance(c, (PyList, SSeq)):
            s = self.as_seq(c)
            if self.element_of is not None and isinstance(x, (SEnt, tuple, str, SStr, int, SInt)) and not isinstance(x, bool):
                f = self.element_of(self, s)
                if f is not None:
                    return f(self.ent_of(x))
            b = self.fresh(Bool, 'in')
            k = self.fresh(Int, 'at')
            j = self.fresh(Int, 'j')
            self.assume(z3.Implies(b, And(k >= 0, k < zi(s.n), self.veq(s.get(SInt(k)), x))))
            from .theory import under_binder
            body = under_binder(self, j, z3.And(j >= 0, j < zi(s.n)), lambda: zb(Not(self.veq(s.get(SInt(j)), x))))
            self.assume(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(And(j >= 0, j < zi(s.n)), body))))
            return b
        if isinstance(c, Obj) and hasattr(c.cls, 'contains'):
            return c.cls.contains(self, c, x)
        raise Unsupported('membership in %r' % (c,))

    # -- if-then-else on values --------------------------------------------------------

    def vite(self, c, a, b):
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            return a
        if c is False:
            return b
        c2 = z3.simplify(c)
        if z3.is_true(c2):
            return a
        if z3.is_false(c2):
            return b
        if a is b:
            return a
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return SInt(z3.If(c, zi(a), zi(b)))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(z3.If(c, zb(a), zb(b)))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            return SStr([z3.If(c, self.sterm(a), self.sterm(b))])
        if a is None and b is None:
            return None
        if a is None or isinstance(a, SOpt) or b is None or isinstance(b, SOpt):
            na, va = (True, None) if a is None else (a.none, a.val) if isinstance(a, SOpt) else (False, a)
            nb, vb = (True, None) if b is None else (b.none, b.val) if isinstance(b, SOpt) else (False, b)
            v = vb if va is None else va if vb is None else self.vite(c, va, vb)
            return SOpt(z3.If(c, zb(na), zb(nb)), v)
        if isinstance(a, SEnt) and isinstance(b, SEnt):
            return SEnt(z3.If(c, a.t, b.t))
        if isinstance(a, SFlt) and isinstance(b, SFlt):
            return SFlt(z3.If(c, a.t, b.t))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and hasattr(a.cls, 'vite'):
            return a.cls.vite(self, c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        ents = (SEnt, str, SStr, int, SInt, tuple, SSeq, SFlt)
        if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
            x, y = self.as_seq(a), self.as_seq(b)
            return SSeq(x.kind, mkint(z3.If(c, zi(x.n), zi(y.n))), lambda j: self.vite(c, x.get(j), y.get(j)))
        if isinstance(a, ents) and isinstance(b, ents):
            return SEnt(z3.If(c, self.ent_of(a), self.ent_of(b)))
        raise Unsupported('merge of %r and %r' % (a, b))

    # -- operators ---------------------------------------------------------------------

    def binop(self, op, a, b):
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            return self.percent(a, b)
        if isinstance(a, SEnt) and not isinstance(b, (tuple, SSeq)):
            a = self.ent_value(a, self.ent_kind(a))
        if isinstance(b, SEnt) and not isinstance(a, (tuple, SSeq)):
            b = self.ent_value(b, self.ent_kind(b))
        if isinstance(a, Obj) and hasattr(a.cls, 'binop'):
            return a.cls.binop(self, op, a, b)
        if isinstance(b, Obj) and hasattr(b.cls, 'binop'):
            return b.cls.binop(self, op, a, b)
        num = (int, SInt, float)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, SInt) and not isinstance(b, SInt):
                try:
                    return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                            ast.Div: lambda: a / b, ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitAnd: lambda: a & b,
                            ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b}[type(op)]()
                except ZeroDivisionError:
                    raise PyRaise(ExcVal('ZeroDivisionError'))
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported('float arithmetic')
            x, y = zi(a), zi(b)
            if isinstance(op, ast.Add):
                return mkint(x + y)
            if isinstance(op, ast.Sub):
                return mkint(x - y)
            if isinstance(op, ast.Mult):
                return mkint(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
                return mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
            if isinstance(op, ast.BitAnd) and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return mkint(x % (b + 1))
            if isinstance(op, ast.BitAnd) and isinstance(a, int) and a >= 0 and (a & (a + 1)) == 0:
                return mkint(y % (a + 1))
            if isinstance(op, ast.LShift) and isinstance(b, int):
                return mkint(x * 2 ** b)
            raise Unsupported('integer operator %s' % type(op).__name__)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.concat([a, b])
            if isinstance(a, PyList) and isinstance(b, PyList):
                ca, cb = self.concrete_items(a), self.concrete_items(b)
                if ca is not None and cb is not None:
                    return PyList(self, ca + cb)
                r = PyList(self, a.items)
                self.list_extend(r, b)
                return r
            if isinstance(a, (tuple, SSeq, SEnt)) and isinstance(b, (tuple, SSeq, SEnt)):
                ca = self.concrete_items(a) if isinstance(a, tuple) else None
                cb = self.concrete_items(b) if isinstance(b, tuple) else None
                if ca is not None and cb is not None:
                    return tuple(ca + cb)
                x, y = self.as_seq(a), self.as_seq(b)
                return self.seq_concat(x, y)
        if isinstance(op, ast.Mult):
            if isinstance(a, PyList) and isinstance(b, (int, SInt)):
                c = self.concrete_items(a)
                if c is not None and isinstance(b, int):
                    return PyList(self, c * b)
                if c is not None and len(c) == 1:
                    return PyList(self, SSeq('list', mkint(z3.If(zi(b) >= 0, zi(b), 0)), lambda j: c[0]))
            if isinstance(a, str) and isinstance(b, int):
                return a * b
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(a, PySet) and isinstance(b, PySet):
            from . import externs
            return externs.set_op(self, type(op), a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('use of %r' % (a if isinstance(a, Opaque) else b,))
        if a is None or b is None or isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
            raise PyRaise(ExcVal('TypeError'))
        raise Unsupported('operator %s on %r and %r' % (type(op).__name__, a, b))

    def seq_concat(self, x, y):
        n = x.n
        r = SSeq(x.kind, mkint(zi(x.n) + zi(y.n)), lambda j: self.cat_get(x, y, n, j))
        r.prov = ('cat', x, y)
        return r

    def cat_get(self, x, y, n, j):
        if isinstance(j, int) and isinstance(n, int):
            return x.get(j) if j < n else y.get(j - n)
        c = self.simp(zi(j) < zi(n))
        if c is True:
            return x.get(j)
        if c is False:
            return y.get(mkint(zi(j) - zi(n)))
        if isinstance(n, int) and n == 0:
            return y.get(j)
        return self.vite(c, x.get(j), y.get(mkint(zi(j) - zi(n))))

    def list_append(self, li, v):
        if isinstance(li.items, list):
            li.items.append(v)
            return
        s = li.items
        if isinstance(s, SBag):
            if s.sort == Ent and isinstance(v, (SEnt, tuple, SSeq, str, SStr, int, SInt)) or s.sort == Str and isinstance(v, (str, SStr)):
                t = self.ent_of(v) if s.sort == Ent else self.sterm(v)
                li.items = SBag(s.sort, lambda y: z3.Or(zb(s.mem(y)), y == t), s.wrap)
                return
            raise Unsupported('append to an unordered list')
        n = s.n
        r = SSeq('list', mkint(zi(n) + 1), lambda j: v if self.simp(zi(j) == zi(n)) is True else s.get(j) if self.simp(zi(j) == zi(n)) is False else self.vite(zi(j) == zi(n), v, s.get(j)))
        r.hist = (s, v)
        li.items = r

    def list_extend(self, li, v):
        items = self.concrete_items(v) if not isinstance(v, Obj) else None
        if items is not None:
            for x in items:
                self.list_append(li, x)
            return
        if isinstance(v, PyList) and isinstance(v.items, SBag):
            if isinstance(li.items, list) and not li.items:
                li.items = v.items
                return
            raise Unsupported('extend by an unordered list')
        y = self.as_seq(v)
        if isinstance(li.items, list) and not li.items:
            li.items = SSeq('list', y.n, y.get)
            li.items.prov = ('same', y)
            return
        x = self.as_seq(li)
        x0 = SSeq('list', x.n, x.get)
        x0.prov = ('same', x)
        r = self.seq_concat(x0, y)
        r.hist_ext = (x if not isinstance(li.items, list) else None, y)
        li.items = r

    # -- strings: see strings.py ---------------------------------------------------------


from . import strings  # noqa: E402
for _n in dir(strings):
    if _n.startswith('m_'):
        setattr(Interp, _n[2:], getattr(strings, _n))
