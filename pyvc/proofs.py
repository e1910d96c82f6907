"""Verifies the contracts of one property: python -m pyvc.proofs PROP --tier T --out F"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


def verify(key, limit, shard=None):
    """Verifies one contract (or, of n shards of its obligations, number k: (k, n)); returns a dictionary."""
    from . import contracts, engine
    from .values import Unsupported, Opaque
    import z3
    reg = contracts.load()
    c = reg[key]
    t0 = time.time()
    out = {'function': c.qual, 'contract': key, 'obligations': [], 'unsupported': None, 'missing': False, 'paths': 0, 'posts': 0}
    usable = [x for q, x in reg.items() if x.qual and x.group == c.group and (c.group or q == x.qual) and x.qual not in c.inline and contracts.callable_contract(x)]
    I = engine.Interp(REPO, {x.qual: x for x in usable})
    I.deadline = t0 + limit * c.patience
    I.shard = shard
    try:
        f = I.find(c.qual) if c.qual else None
        if c.qual and f is None:
            out['missing'] = True
            return out

        def thunk():
            I.ghost_models = {}
            I.form_offers = []
            I.verifying = c.qual if type(c).run is contracts.Contract.run else None
            args = c.args(I)
            for name, p in c.pre(I, args):
                I.assume(contracts.zb(p))
            if I.check_sat() == z3.unsat:
                return None
            c.prepare(I, args)
            try:
                d = I.depth
                I.depth = 0
                r = c.run(I, f, args)
            except engine.PyRaise as e:
                if I.check_sat() == z3.unsat:
                    return None
                c.on_raise(I, args, e.exc)
                out['posts'] += 1
                return 'raise'
            finally:
                I.depth = d
            if I.check_sat() == z3.unsat:
                return None
            c.post(I, args, r)
            out['posts'] += 1
            return 'return'
        rs = I.explore(thunk)
        out['paths'] = len(rs)
        if not out['posts'] and not any(o['status'] == 'failed' for o in I.obligations):
            out['unsupported'] = 'vacuous: no path reaches the postcondition'
        if not rs or all(r is None for r in rs):
            out['unsupported'] = 'vacuous: the precondition cannot be met'
    except engine.Enough:
        out['posts'] = max(out['posts'], 1)
    except Unsupported as e:
        out['unsupported'] = str(e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except engine.PathEnd:
        out['unsupported'] = 'no path'
    except RecursionError:
        out['unsupported'] = 'recursion'
    except Exception as e:
        out['unsupported'] = 'internal error: %r' % e
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    out['obligations'] = I.obligations
    out['stats'] = I.stats
    out['used'] = sorted(I.used_contracts)
    out['inlined'] = sorted(I.inlined)
    out['trusted'] = sorted(I.trusted)
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def worker(key, limit, shard, q):
    try:
        q.put(verify(key, limit, shard))
    except BaseException as e:
        q.put({'function': key, 'contract': key, 'obligations': [], 'unsupported': 'crash: %r' % e, 'missing': False})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    a = ap.parse_args()
    from . import contracts
    reg = contracts.load()
    keys = [k for k, c in reg.items() if a.prop in c.props]
    limit = 150 if a.tier == 'quick' else 400
    t0 = time.time()
    total = 400 if a.tier == 'quick' else 700
    results = []
    pending = [(k, (j, reg[k].shards)) for k in sorted(keys, key=lambda k: -reg[k].shards) for j in range(reg[k].shards)]
    running = []
    ctx = mp.get_context('fork')
    while pending or running:
        while pending and len(running) < 6:
            k, shard = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(k, limit, shard if shard[1] > 1 else None, q))
            p.start()
            running.append((k, p, q, time.time()))
        for x in list(running):
            k, p, q, s = x
            try:
                results.append(q.get(timeout=0.02))
                p.join()
                running.remove(x)
            except Exception:
                if not p.is_alive() and q.empty() or time.time() - s > limit * reg[k].patience + 30 or time.time() - t0 > total:
                    p.kill()
                    p.join()
                    running.remove(x)
                    results.append({'function': k, 'contract': k, 'obligations': [], 'unsupported': 'out of time', 'missing': False})
    out = summarise(a.prop, reg, joined(results))
    out['wall_s'] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, indent=1)
    else:
        json.dump(out, sys.stdout, indent=1)


def joined(results):
    """The shards of one contract together."""
    out = {}
    for r in results:
        o = out.setdefault(r['contract'], r)
        if o is r:
            continue
        o['obligations'] = o['obligations'] + r['obligations']
        o['unsupported'] = o['unsupported'] or r['unsupported']
        o['missing'] = o['missing'] or r['missing']
        o['posts'] = max(o.get('posts', 0), r.get('posts', 0))
        o['wall_s'] = max(o.get('wall_s') or 0, r.get('wall_s') or 0)
        for k in ('trusted', 'inlined', 'used'):
            o[k] = sorted(set(o.get(k, [])) | set(r.get(k, [])))
        for k, v in r.get('stats', {}).items():
            o.setdefault('stats', {})[k] = o.get('stats', {}).get(k, 0) + v
    return list(out.values())


def summarise(prop, reg, results):
    out = {'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'unsupported': [], 'trusted': [], 'assumptions': [], 'backends': {}, 'solver_s': 0.0,
           'vacuity': [], 'bounded_stand_ins': [], 'error': None, 'inlined': []}
    trusted, inl = set(), set()
    for r in results:
        ob = r['obligations']
        n = len(ob)
        ok = [o for o in ob if o['status'] == 'discharged']
        out['functions'].append({'function': r['function'], 'contract': r['contract'], 'obligations': n, 'discharged': len(ok), 'paths': r.get('paths', 0),
                                 'unsupported': r.get('unsupported'), 'wall_s': r.get('wall_s')})
        out['obligations'] += n
        out['discharged'] += len(ok)
        for o in ok:
            out['backends'][o['by']] = out['backends'].get(o['by'], 0) + 1
        for o in ob:
            if o['status'] == 'failed':
                out['failed'].append({'function': r['function'], 'obligation': o['name'], 'status': 'failed', 'detail': o['detail'][:4000]})
        if r.get('missing'):
            out['unsupported'].append({'function': r['function'], 'reason': 'not in the current source'})
        elif r.get('unsupported'):
            out['unsupported'].append({'function': r['function'], 'reason': r['unsupported']})
        elif not n:
            out['unsupported'].append({'function': r['function'], 'reason': 'no obligations were generated'})
        out['solver_s'] += r.get('stats', {}).get('solver_s', 0)
        trusted |= set(r.get('trusted', []))
        inl |= set(r.get('inlined', []))
        out['vacuity'].append('%s: %d paths reach the postcondition' % (r['contract'], r.get('posts', 0)))
    out['solver_s'] = round(out['solver_s'], 2)
    out['trusted'] = sorted(trusted)
    out['inlined'] = sorted(inl)
    return out


if __name__ == '__main__':
    main()
