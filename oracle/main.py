"""main.py PROPERTY --budget S --seed N --out FILE: bounded concrete search."""
import argparse, traceback
from common import *


def load(prop):
    table = {}
    names = {'G': ['storage'], 'E': ['edges'], 'S': ['edges'], 'N': ['language'], 'K': ['language'], 'R': ['readers'], 'C': ['readers']}[prop[0]]
    for n in names:
        m = __import__(n)
        f = getattr(m, prop, None)
        if f:
            return f
    raise SystemExit('no search for %s' % prop)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--budget', type=float, default=6)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    a = ap.parse_args()
    c = Ctx('%s-%d' % (a.prop, a.seed), a.budget)
    res = {'property': a.prop, 'violation': None}
    try:
        f = load(a.prop)
        f(c)
    except Violation as v:
        res['violation'] = {'what': v.what, 'data': {k: repr(x)[:4000] for k, x in v.data.items()}}
    except SystemExit:
        raise
    except BaseException as e:
        # the code under test could not even be loaded, or fails outside a case
        res['violation'] = {'what': 'cannot be run: %s: %s' % (type(e).__name__, e), 'data': {'trace': traceback.format_exc()[-4000:]}}
        res['crash'] = True
    res['evaluations'] = c.evaluations
    res['distinct'] = len(c.distinct)
    res['samples'] = c.samples
    res['wall_s'] = round(time.time() - c.t0, 2)
    out = json.dumps(res, indent=1)
    if a.out:
        open(a.out, 'w').write(out)
    else:
        print(out)


if __name__ == '__main__':
    main()
