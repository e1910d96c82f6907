"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('Every function named in the evidence is verified against its contract from the current source, for all inputs (partial correctness); '
          'trusted: the translation of Python by pyvc, the library contracts and lemmas in trusted_base.  A bounded concrete search runs beside it and is not counted.')
PROOF = {p: [COMMON] for p in ('S01 S02 S03 S04 S05 S06 E01 E02 E03 G01 G02 G03 G04 G05 G06 G07 G08 G09 G10 G11 G12 G13 G14 G15 C01 K01 K02 K03 K04 K05 K06 N01 N02 R01 R02').split()}
NA = {'L01': 'The Clojure and Java sources cannot be compiled or run here (no Clojure, no leiningen, no dependencies offline) and no '
             'deductive verifier for Clojure exists in this sandbox, so no contract on that code could be machine-checked or replayed.'}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        continue
    level, note = 'exploration', 'Bounded: concrete search on the real code against a reference written from the property; nothing is proved yet.'
    tech = 'bounded concrete search (stand-in for contract verification)'
    if p in PROOF:
        level, note, tech = 'proof', PROOF[p][0], 'contracts verified by VC generation from the Python source (z3, cvc5)'
    c = {'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p, 'technique': tech, 'level': level, 'level_note': note}
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
