"""Contracts of the command line (C01): gb/gbrain.py, and how the backends connect."""
import ast
import z3
from . import Contract, register, zb
from ..values import *
from ..engine import PyRaise
from .. import libs, backend as B
from .symbol import a_text
from .facade import cls

OPTIONS = {'backend': ('backend', 'sqlite'), 'db': ('db', 'gb.db'), 'dbhost': ('host', 'localhost'), 'dbuser': ('user', 'gb'), 'dbpass': ('password', 'gb')}


class Ctx:
    """A click context: a command inside a group sees the object of the group's."""
    name = 'context'

    @staticmethod
    def getattr(I, o, name):
        return o.fields.get(name, ABSENT) if name == 'obj' else None

    @staticmethod
    def setattr(I, o, name, v):
        o.fields[name] = v


def commands(I):
    """The groups and commands of gb/gbrain.py, from its decorators."""
    m = I.load_module('gb.gbrain')
    body = ast.parse(open(m.file).read()).body
    env = I.module_env(m)
    for st in body:
        if isinstance(st, ast.FunctionDef) and st.decorator_list:
            f = FuncVal(st, m, 'gb.gbrain.' + st.name)
            decos = [I.eval(d, env) for d in st.decorator_list]
            for d in reversed(decos):
                f = I.call(d, [f])
            m.ns[st.name] = f
    return m


def invoke(I, c, given, ctx):
    """What click does for a command: the parameters given, defaults for the others."""
    params = {}
    for name, default in c.fields['options']:
        params[name] = given.get(name, default)
    args = [ctx] if c.fields['pass'] else []
    return I.call(c.fields['callback'], args, params)


@register
class Commands(Contract):
    """Every command opens its hypergraph with the options."""
    key = 'gb.gbrain: every command'
    qual = 'gb.gbrain.show_logo'
    props = ('C01',)

    def args(self, I):
        return []

    def prepare(self, I, args):
        def made(I, f, b):
            I.ghost['$opened'] = I.ghost.get('$opened', ()) + (b[1],)
        I.ghost_models['call:gb.hypergraph.hypergraph.HyperGraph.__init__'] = made
        I.ghost_models['call:gb.readers.wordnet.read'] = lambda I, f, b: None
        I.ghost_models['call:gb.tools.shell.Shell.run'] = lambda I, f, b: None

    def run(self, I, f, args):
        m = commands(I)
        g = m.ns.get('cli')
        if not (isinstance(g, Obj) and g.cls is libs.Command and g.fields['group']):
            raise Unsupported('no command group')
        names = [n for n, d in g.fields['options']]
        I.prove(sorted(names) == sorted(OPTIONS), 'the documented options')
        children = g.fields['children']
        I.prove(len(children) > 0, 'there are commands')
        k = 0
        while k < len(children) - 1 and I.choose():
            k += 1
        given = {}
        for n in names:
            if I.choose():
                given[n] = a_text(I, n)
        ctx = Obj(I, Ctx, {'obj': None})
        invoke(I, g, given, ctx)
        sub = Obj(I, Ctx, {'obj': ctx.fields['obj']})
        invoke(I, children[k], {}, sub)
        return given

    def post(self, I, args, given):
        opened = I.ghost.get('$opened', ())
        for p in opened:
            I.prove(isinstance(p, PyDict), 'parameters by name')
            for n, (key, default) in OPTIONS.items():
                v = p.items.get(key)
                I.prove(v is not None, 'the parameter %s is there' % key)
                I.prove(zb(I.veq(v, given.get(n, default))), 'the parameter %s' % key)


def params(I):
    p = PyDict(I, {k: a_text(I, k) for k, d in OPTIONS.values()})
    I.ghost['$params'] = dict(p.items)
    return p


class Connects(Contract):
    props = ('C01',)

    def args(self, I):
        return [Obj(I, cls(I, self.klass)), params(I)]

    def prepare(self, I, args):
        def made(I, f, b):
            I.ghost['$conn'] = b[1]
        I.ghost_models['call:gb.hypergraph.sql.SQL.__init__'] = made


@register
class MySQLInit(Connects):
    klass = 'gb.hypergraph.mysql.MySQL'
    qual = klass + '.__init__'

    def post(self, I, args, r):
        cs = I.ghost.get('$connections', ())
        I.prove(len(cs) == 1 and I.ghost.get('$conn') is cs[0], 'one connection, used for the storage')
        kw = dict(cs[0].fields['$kw'])
        p = I.ghost['$params']
        for k, aliases in (('host', ['host']), ('user', ['user']), ('password', ['passwd', 'password']), ('db', ['db', 'database'])):
            vs = [kw[a] for a in aliases if a in kw]
            I.prove(len(vs) == 1, 'the %s is given' % k)
            I.prove(zb(I.veq(vs[0], p[k])), 'the %s of the parameters' % k)


@register
class SQLiteInit(Connects):
    klass = 'gb.hypergraph.sqlite.SQLite'
    qual = klass + '.__init__'

    def post(self, I, args, r):
        cs = I.ghost.get('$connections', ())
        I.prove(len(cs) == 1 and I.ghost.get('$conn') is cs[0], 'one connection, used for the storage')
        I.prove(zb(I.veq(cs[0].fields['$path'], I.ghost['$params']['db'])), 'the file named by the parameters')
