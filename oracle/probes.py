"""Known findings (see known-findings.txt): each function shows that the listed
input still fails; it returns a description, or None if it no longer fails."""
from common import *


def store(*edges):
    from gb.hypergraph.hypergraph import HyperGraph
    hg = HyperGraph({'backend': 'sqlite', 'db': ':memory:'})
    for e in edges:
        hg.add(e)
    return hg


def star_7(c=None):
    hg = store(('s', 'a', 7), ('s', 'a', 7.0))
    if hg.exists(('s', 'a', 7)) and hg.exists(('s', 'a', 7.0)) and len(hg.star('a')) == 1:
        return "star('a') returns one edge after adding ('s', 'a', 7) and ('s', 'a', 7.0)"


def pattern_7():
    hg = store(('s', 'a', 7), ('s', 'a', 7.0))
    if hg.exists(('s', 'a', 7)) and hg.exists(('s', 'a', 7.0)) and len(hg.pattern2edges(('s', None, None))) == 1:
        return "pattern2edges(('s', None, None)) returns one edge after adding ('s', 'a', 7) and ('s', 'a', 7.0)"


def remove_7():
    hg = store(('s', 'a', 7), ('s', 'a', 7.0))
    hg.remove_by_pattern(('s', 'a', None))
    if hg.exists(('s', 'a', 7)) != hg.exists(('s', 'a', 7.0)):
        return "remove_by_pattern(('s', 'a', None)) removes only one of ('s', 'a', 7) and ('s', 'a', 7.0)"


def ego_7():
    hg = store(('s', 'a', 7), ('s', 'a', 7.0), ('t', 'x', 7), ('t', 'y', 7.0))
    x = hg.ego('a', 2)
    if (('t', 'x', 7) in x) != (('t', 'y', 7.0) in x):
        return "ego('a', 2) follows only one of 7 and 7.0 from ('s', 'a', 7) and ('s', 'a', 7.0)"


if __name__ == '__main__':
    import sys
    r = globals()[sys.argv[1]]()
    print(json.dumps(r))
