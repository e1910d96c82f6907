"""vacuity.py PROPERTY...: for each contract, the number of paths to its postcondition, and on how many of them the
solver derives False from what is known there (there should be none: the proof of such a path says nothing)."""
import concurrent.futures as cf, multiprocessing as mp, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc import proofs, contracts

REG = contracts.load()


def go(key):
    c, got = REG[key], []
    post = c.post

    def f(I, args, r):
        post(I, args, r)
        try:
            got.append(bool(I.valid(z3.BoolVal(False))))
        except Exception:
            got.append(None)
    c.post = f
    proofs.verify(key, 200)
    return key, got


if __name__ == '__main__':
    keys = [k for k, c in REG.items() if not sys.argv[1:] or any(p in c.props for p in sys.argv[1:])]
    bad = 0
    with cf.ProcessPoolExecutor(4, mp_context=mp.get_context('fork')) as ex:
        for key, got in ex.map(go, keys):
            bad += True in got
            print('VACUOUS' if True in got else 'ok', len(got), key)
    sys.exit(1 if bad else 0)
