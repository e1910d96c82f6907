"""Models of libraries: click, MySQLdb (what the callers see of them)."""
import ast
import z3
from .values import *
from .engine import zi, zb, mkint, mkbool
from .externs import lib, LIB, raise_

# -- click: options, groups and commands ------------------------------------------


class Command:
    """fields: callback (takes the context first if pass_), options ((name, default)...), children"""
    name = 'command'

    @staticmethod
    def getattr(I, o, name):
        if name == 'command' and o.fields['group']:
            def command(I, *a, **kw):
                if a[1:] or kw or (a and not isinstance(a[0], str)):
                    raise Unsupported('click command options')

                def deco(I, f):
                    c = make_command(I, f, False)
                    o.fields['children'] = o.fields['children'] + (c,)
                    return c
                return Builtin('click.command', deco)
            return Builtin('click.group.command', command)
        if name == 'add_command' and o.fields['group']:
            def add(I, c, n=None):
                o.fields['children'] = o.fields['children'] + (c,)
            return Builtin('click.group.add_command', add)
        return None

    @staticmethod
    def call(I, o, args, kw):
        raise Unsupported('a command called as a function')


class Decorated:
    """A function with options that is not a command yet."""
    name = 'decorated'


def decorated(I, f):
    if isinstance(f, Obj) and f.cls is Decorated:
        return f
    if not isinstance(f, FuncVal):
        raise Unsupported('click decorator')
    return Obj(I, Decorated, {'callback': f, 'options': (), 'pass': False})


def make_command(I, f, group):
    d = decorated(I, f)
    return Obj(I, Command, {'callback': d.fields['callback'], 'options': d.fields['options'], 'pass': d.fields['pass'], 'group': group, 'children': ()})


def option_name(decls):
    """The parameter name of an option, as click chooses it."""
    names = [d for d in decls if not d.startswith('-')]
    if names:
        return names[0]
    best = None
    for d in decls:
        if '/' in d or '=' in d:
            raise Unsupported('click option %s' % d)
        k = len(d) - len(d.lstrip('-'))
        if best is None or k > best[0]:
            best = (k, d.lstrip('-').replace('-', '_').lower())
    return best[1]


@lib('click.option')
def option(I, *decls, help=None, default=None, show_default=None, metavar=None, **kw):
    if kw or not decls or not all(isinstance(d, str) for d in decls) or not isinstance(default, str):
        raise Unsupported('click option')
    n = option_name(decls)

    def deco(I, f):
        f = decorated(I, f)
        f.fields['options'] = ((n, default),) + f.fields['options']
        return f
    return Builtin('click.option', deco)


def click_group(I, *a, **kw):
    if [k for k in kw if k not in ('help', 'name')]:
        raise Unsupported('click group options')
    if a and isinstance(a[0], (FuncVal, Obj)):
        return make_command(I, a[0], True)
    return Builtin('click.group', lambda I, f: make_command(I, f, True))


LIB['click.group'] = Builtin('click.group', click_group)


def pass_context(I, f):
    f = decorated(I, f)
    if f.fields['pass']:
        raise Unsupported('pass_context twice')
    f.fields['pass'] = True
    return f


LIB['click.pass_context'] = Builtin('click.pass_context', pass_context)
LIB['click.echo'] = Builtin('click.echo', lambda I, *a, **kw: None)
LIB['click.style'] = Builtin('click.style', lambda I, s, **kw: s)


# -- MySQL -------------------------------------------------------------------------

@lib('MySQLdb.connect')
def mysql_connect(I, **kw):
    c = Obj(I, MySQLConn, {'$kw': tuple(sorted(kw.items(), key=lambda x: x[0]))})
    I.ghost['$connections'] = I.ghost.get('$connections', ()) + (c,)
    return c


class MySQLConn:
    name = 'connection'

    @staticmethod
    def getattr(I, o, name):
        if name == 'autocommit':
            return Builtin('autocommit', lambda I, v: None)
        return None


@lib('sqlite3.connect')
def sqlite_connect(I, path):
    if '$H' in I.ghost:
        from . import store
        c = store.Conn.make(I, path)
    else:
        c = Obj(I, SQLiteConn, {'$path': path})
    I.ghost['$connections'] = I.ghost.get('$connections', ()) + (c,)
    return c


class SQLiteConn:
    name = 'connection'

    @staticmethod
    def getattr(I, o, name):
        return None


# -- spaCy -------------------------------------------------------------------------

class Language:
    name = 'language'

    @staticmethod
    def getattr(I, o, name):
        return None


@lib('spacy.load')
def spacy_load(I, name):
    return Obj(I, Language)


# -- texts that are searched, output -------------------------------------------------

CONT = z3.Function('CONT', Str, Str, Bool)                  # contains
BETWEEN = z3.Function('BETWEEN', Str, Str, Str, Bool)       # contains the second, and the third after it
INSIDE = z3.Function('INSIDE', Str, Str, Str, Str)          # what is between the first and the last of these


class Match:
    name = 'match'

    @staticmethod
    def getattr(I, o, name):
        if name == 'group':
            def group(I, k=0):
                return Match.getitem(I, o, k)
            return Builtin('group', group)
        return None

    @staticmethod
    def getitem(I, o, k):
        if k == 1 and o.fields['$g'] is not None:
            return SStr([o.fields['$g']])
        raise Unsupported('group of a match')


def search(I, pat, s):
    """None or a match of a pattern."""
    import re
    if '$lines' not in I.ghost or not isinstance(s, (str, SStr)):
        raise Unsupported('search')
    t = I.sterm(s)
    if re.fullmatch(r'[\w<>/ :="-]+', pat):
        m = Obj(I, Match, {'$g': None})
        return SOpt(z3.Not(CONT(t, I.sterm(pat))), m)
    r = re.fullmatch(r'([\w<>/ :="-]+)\(\.\*\)([\w<>/ :="-]+)', pat)
    if r:
        a, b = [I.sterm(x) for x in r.groups()]
        m = Obj(I, Match, {'$g': INSIDE(t, a, b)})
        return SOpt(z3.Not(BETWEEN(t, a, b)), m)
    raise Unsupported('regular expression %r' % pat)


@lib('sys.stdout.write')
def stdout_write(I, s):
    if '$out' not in I.ghost:
        raise Unsupported('output')
    I.ghost['$out'] = SStr([I.sterm(I.binop(ast.Add(), I.ghost['$out'], s))])
    return I.length(s)
