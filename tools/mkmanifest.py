#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from specs/properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs.properties import PROPS
NA = {
    'C21': 'Python code: no deductive verifier for Python is installed, and the contract language built here covers the C++ sources only; the defects found by reading were repaired (see DESIGN.md)',
    'C22': 'Python code, as C21',
    'C23': 'the bundled TinyXML character scanner (2,500 lines of pointer code with an internal UTF-8 and entity decoder) is outside the executor; it is a stated trusted dependency of C14-C16',
}
PROOF = 'contract-based deductive verification: contracts on the C++ functions, obligations generated from clang AST of the current sources, discharged by a ring normaliser, z3 and cvc5; failing inputs searched on the real code'
EXPL = 'bounded stand-in: randomised execution of the real code against an independent oracle (contracts not discharged yet)'
checks = []
for p in sorted(PROPS):
    P = PROPS[p]
    proof = P['level'] == 'proof'
    checks.append(dict(property=p, quick_cmd='./check.py %s' % p, thorough_cmd='./check.py %s --tier thorough' % p,
                       technique=PROOF if proof else EXPL, level=P['level'],
                       level_note=P.get('note') or ('Every obligation of the listed functions is discharged for all inputs over the reals; machine arithmetic is treated as mathematical, library containers follow stated models, and evidence lists everything assumed.' if proof
                                                    else 'Bounded: pseudo-random cases compared with an oracle; not counted as proved.')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
