"""check PROPERTY: decides one property on the current tree.

1. the proofs: every function the property depends on is verified against its
   contract, from its current source (pyvc.proofs, in a process of its own);
2. a bounded concrete search on the real code (oracle/main.py).  It turns a
   failed obligation into a failing input, and stands in for what is outside
   the subset; it is labelled bounded and never counted as proved.
"""
import argparse
import json
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REALPY = '/opt/venv/bin/python'
RULE = ('each case runs the real code on a generated input, history or configuration and compares it with a '
        'reference written from the property; a case counts as distinct and non-trivial if its generated description '
        'differs from that of every other case of the run')


def env(seed):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(seed % 4294967295)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['LANG'] = 'C.UTF-8'
    e['VERIF_REPO'] = REPO
    return e


def start_search(prop, budget, seed, out, tmp):
    e = env(seed)
    e['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
    return subprocess.Popen([REALPY, '-B', os.path.join(VERIF, 'oracle', 'main.py'), prop, '--budget', str(budget),
                             '--seed', str(seed), '--out', out], env=e, cwd=tmp, stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))


def search_result(p, out, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {'violation': {'what': 'the search does not end: the code hangs where it cannot be interrupted', 'data': {}},
                'evaluations': 0, 'distinct': 0, 'samples': [], 'wall_s': timeout}
    try:
        return json.load(open(out))
    except Exception:
        return {'error': 'search failed (exit %s): %s' % (p.returncode, open(out + '.err').read()[-2000:])}


def findings(prop):
    res = []
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        if line.startswith('known: property=%s ' % prop):
            parts = line.split(' ', 3)
            res.append((parts[2].split('=', 1)[1], parts[3].strip()))
    return res


def probe(name, seed, tmp):
    e = env(seed)
    e['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
    try:
        r = subprocess.run([REALPY, '-B', os.path.join(VERIF, 'oracle', 'probes.py'), name], env=e, cwd=tmp,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return None


def lemmas(trusted):
    """The files of lemmas the proof uses, checked by Lean.  A file that is not checked is an assumption, not an alarm."""
    fs = sorted({f for t in trusted for f in re.findall(r'lemmas/\w+\.lean', t)})
    ps = []
    for f in fs:
        try:
            ps.append((f, subprocess.Popen(['lean', os.path.join(VERIF, f)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=VERIF)))
        except OSError:
            ps.append((f, None))
    res = {}
    for f, p in ps:
        try:
            out = p.communicate(timeout=100)[0].decode()
            ok = p.returncode == 0 and 'sorry' not in out and not re.search(r'^[^:]*:\d+:\d+: error', out, re.M)
            res[f] = 'checked by Lean' if ok else 'not checked: ' + out[:300]
        except Exception as e:
            if p:
                p.kill()
            res[f] = 'not checked: %r' % (e,)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--no-search', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    budget = 12 if tier == 'quick' else 240
    manifest = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    entry = [c for c in manifest['checks'] if c['property'] == prop]
    if not entry:
        print('no check for ' + prop)
        return 2
    level = entry[0]['level']
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    replay = os.path.join('evidence', 'replays', prop + '.json')

    with tempfile.TemporaryDirectory(prefix='gbcheck') as tmp:
        procs = []
        if not a.no_search:
            n = 1 if tier == 'quick' else 3
            for k in range(n):
                out = os.path.join(tmp, 'search%d.json' % k)
                procs.append((start_search(prop, budget, seed + 1000 * k, out, tmp), out))
        proof = None
        if not a.no_proof:
            pout = os.path.join(tmp, 'proof.json')
            limit = 420 if tier == 'quick' else 780
            with open(pout + '.err', 'w') as err:
                pp = subprocess.Popen([sys.executable, '-B', '-m', 'pyvc.proofs', prop, '--tier', tier, '--out', pout],
                                      cwd=VERIF, env=env(seed), stdin=subprocess.DEVNULL, stdout=err, stderr=err)
                try:
                    pp.wait(limit)
                except subprocess.TimeoutExpired:
                    pp.kill()
                    pp.wait()
            try:
                proof = json.load(open(pout))
            except Exception:
                proof = {'error': 'the verifier gave no answer (exit %s): %s' % (pp.returncode, open(pout + '.err').read()[-3000:]),
                         'functions': [], 'failed': [], 'unsupported': [], 'trusted': []}
        searches = [search_result(p, out, budget + 150) for p, out in procs]
        errors = [s['error'] for s in searches if 'error' in s]
        searches = [s for s in searches if 'error' not in s]
        viol = next((s['violation'] for s in searches if s.get('violation')), None)
        failed = (proof or {}).get('failed', [])
        if failed and viol is None and not a.no_search:
            # look longer for the input behind a failed obligation
            extra = []
            for k in range(3):
                out = os.path.join(tmp, 'more%d.json' % k)
                extra.append((start_search(prop, 45, seed + 77 + k, out, tmp), out))
            more = [search_result(p, out, 200) for p, out in extra]
            more = [s for s in more if 'error' not in s]
            searches += more
            viol = next((s['violation'] for s in more if s.get('violation')), None)
        known = []
        for name, text in findings(prop):
            r = probe(name, seed, tmp)
            if r:
                known.append((name, r))

    ev = evidence(prop, tier, seed, level, proof, searches, time.time() - t0)
    if proof and proof.get('trusted'):
        ev['coverage']['lemmas'] = lemmas(proof['trusted'])
    ev['known_findings'] = ['%s: %s' % x for x in known]
    ev['violations'] = 1 if (viol or failed) else 0
    rc = 0
    lines = []
    for name, r in known:
        lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, name, r))
    if viol or failed:
        with open(os.path.join(VERIF, replay), 'w') as f:
            json.dump({'property': prop, 'input': viol, 'failed_obligations': failed,
                       'how': 'oracle/main.py %s --seed %d' % (prop, seed)}, f, indent=1)
        if viol:
            lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        rc = 1
    elif errors:
        lines += errors
        rc = 2
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        print('failing input: %s' % viol['what'])
    for x in failed[:10]:
        print('failed obligation: %s: %s (%s)' % (x.get('function'), x.get('obligation'), x.get('status')))
    if proof:
        print('%s: %s obligations, %s discharged; outside the subset: %s%s' % (
            prop, proof.get('obligations', 0), proof.get('discharged', 0), len(proof.get('unsupported', [])),
            '; ' + proof['error'] if proof.get('error') else ''))
    print('%s: bounded search of %d cases' % (prop, sum(s['evaluations'] for s in searches)))
    print('\n'.join(lines))
    return rc


def evidence(prop, tier, seed, level, proof, searches, wall):
    cov = {}
    p = proof or {}
    if level == 'proof':
        cov['obligations'] = p.get('obligations', 0)
        cov['discharged'] = p.get('discharged', 0)
        cov['checker_cmd'] = 'cd /verif && /opt/veriftools/pyvenv/bin/python -B -m pyvc.proofs %s' % prop
        cov['trusted_base'] = p.get('trusted', [])
    if p:
        cov['proof'] = {k: p.get(k) for k in ('functions', 'obligations', 'discharged', 'backends', 'solver_s', 'vacuity', 'unsupported',
                                              'bounded_stand_ins', 'error', 'wall_s') if k in p}
    cov['evaluations'] = sum(s['evaluations'] for s in searches)
    cov['distinct_nontrivial'] = sum(s['distinct'] for s in searches)
    cov['rule'] = RULE
    cov['samples'] = [x for s in searches for x in s['samples']][:8]
    cov['bounded_note'] = 'the counts of evaluations belong to the bounded concrete search, which is not counted as proved'
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': p.get('assumptions', []), 'wall_s': round(wall, 2)}


if __name__ == '__main__':
    sys.exit(main())
