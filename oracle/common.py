"""Shared parts of the bounded concrete search (runs the real code of /repo
under the interpreter the project uses).  A violation found here is a replayed
failing input; what it does not find is never counted as proved."""
import os, sys, random, signal, json, time, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


class Violation(Exception):
    def __init__(self, what, **data):
        Exception.__init__(self, what)
        self.what = what
        self.data = data


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def check(cond, what, **data):
    if not cond:
        raise Violation(what, **data)


def same(a, b):
    """Equality that also compares the types of atoms (7 is not 7.0)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and repr(a) == repr(b)


def key(x):
    return repr(x)


def same_set(a, b):
    return sorted(map(key, a)) == sorted(map(key, b))


class Ctx:
    """Runs the cases of one property within a time budget."""
    def __init__(self, seed, budget):
        self.rng = random.Random(seed)
        self.budget = budget
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.limit = 20

    def more(self, share=1.0):
        return time.time() - self.t0 < self.budget * share

    def case(self, f, *args, **kw):
        """One case: calls f with args; a failed check, an exception the code
        should not raise and a case that does not end are violations."""
        show = kw.pop('show', None)
        desc = show if show is not None else args
        self.evaluations += 1
        k = repr(desc)
        self.distinct.add(hash(k))
        if len(self.samples) < 3 or (self.evaluations % 997 == 0 and len(self.samples) < 6):
            self.samples.append(k[:400])
        signal.alarm(self.limit)
        try:
            return f(*args, **kw)
        except Violation as v:
            v.data.setdefault('case', desc)
            raise
        except Hang:
            raise Violation('does not end within %d s' % self.limit, case=desc)
        except RecursionError as e:
            raise Violation('raises %r' % e, case=desc)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [(os.path.relpath(fr.filename, REPO), fr.lineno, fr.name) for fr in tb
                     if fr.filename.startswith(REPO)]
            if not where and not isinstance(e, (KeyError, AttributeError, TypeError, IndexError, ValueError)):
                raise
            raise Violation('raises %s: %s' % (type(e).__name__, e), case=desc, where=where[-3:])
        finally:
            signal.alarm(0)


# -- entities ---------------------------------------------------------------

SYMS = ['a', 'ab', 'abc', 'b', 'a/1', 'a/1x', 'a/', 'ab/1', 'A', '/', '//', '~a', '~', '-', '.', '-.', '--1', '1-', '1.2.3',
        '-1-', '1e5', '+1', '0x1', '1_0', '_', 'a_b', '%s', '%', "'", '"', '?', '\\', ';', ',', 'é', 'ß', 'İ', '中文', '\u0661',
        '\uff11', '\U0010ffff', 'a\U0010ffff', 'a!', '!', 'a"', '\x01', 'a\x01', '\x7f', '*', 'a*b', '[', 'None', 'nan', 'inf',
        'http://a/b', 'https://a', 'http://', 'wn.x.n.01', 'graphbrain/1', 'src/1', 'x' * 40, '{}', '{0}', '$', '#', '`', '0a', 'a0', '-a', '.a', 'a.', '..']
INTS = [0, 1, -1, 2, 7, 10, 12, -12, 100, 255, 256, 10 ** 20, -10 ** 25, 2 ** 64]
FLTS = [0.5, -0.5, 0.25, 1.5, 1e-300, 5e-324, 0.1, -0.1, 123456.789, 2.5e-7, 1e-05, 3.14159]
BIGF = [1e16, 1e22, 1.7976931348623157e308, -1e300, 7.0, -2.0]
ALPHA = 'abAB01_/~-.é中\U0001f600!"#%\'*+,:;<=>?@[]^`{|}'


def rsym(r):
    if r.random() < .7:
        return r.choice(SYMS)
    while True:
        s = ''.join(r.choice(ALPHA) for _ in range(r.randint(1, 6)))
        if not reads_as_number(s):
            return s


def reads_as_number(s):
    t = s[1:] if s[:1] == '-' else s
    return t.count('.') <= 1 and any(c in '0123456789' for c in t) and all(c in '0123456789.' for c in t)


def ratom(r, numbers=True):
    x = r.random()
    if x < .7 or not numbers:
        return rsym(r)
    if x < .85:
        return r.choice(INTS) if r.random() < .7 else r.randint(-10 ** r.randint(1, 12), 10 ** r.randint(1, 12))
    if x < .95:
        return r.choice(FLTS)
    return r.choice(BIGF)


def redge(r, depth=2, maxlen=4, atom=None, first_atomic=False, numbers=True):
    n = r.randint(2, maxlen)
    els = []
    for i in range(n):
        if depth > 0 and r.random() < .3 and not (i == 0 and first_atomic):
            els.append(redge(r, depth - 1, maxlen, atom, numbers=numbers))
        else:
            els.append(atom(r) if atom else ratom(r, numbers))
    return tuple(els)


def text(e):
    """Reference text form of an entity (only used to compare texts)."""
    if isinstance(e, tuple):
        return '(%s)' % ' '.join(text(x) for x in e)
    return e if isinstance(e, str) else repr(e)


def unmix(entities):
    """Drops entities that hold a number equal to, but written differently
    from, one seen before (see DESIGN.md, finding on 7 and 7.0)."""
    seen = {}
    out = []

    def atoms(e):
        if isinstance(e, tuple):
            for x in e:
                for a in atoms(x):
                    yield a
        else:
            yield e
    for e in entities:
        ok = True
        for a in atoms(e):
            if isinstance(a, (int, float)):
                if seen.setdefault(a, repr(a)) != repr(a):
                    ok = False
        if ok:
            out.append(e)
    return out


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='gbverif')
        return self.dir

    def __exit__(self, *a):
        for root, dirs, files in os.walk(self.dir, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            for d in dirs:
                os.rmdir(os.path.join(root, d))
        os.rmdir(self.dir)
