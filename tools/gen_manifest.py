"regenerates MANIFEST.json and checks/meta.json from the table below (run from /verif)"
import json, os
P = ('proof', 'contract-based deductive verification of the real code (symbolic execution with inferred loop invariants, z3/cvc5)')
X = ('exploration', 'contracts on the real code; obligations discharged for the parts in reach, the rest bounded (concrete evaluation of the contracts)')
CHECKS = {}


def add(pid, kind, note, explanation, assumptions=(), trusted=()):
    CHECKS[pid] = dict(level=kind[0], technique=kind[1], note=note, explanation=explanation, assumptions=list(assumptions), trusted=list(trusted))


TRUSTED = [
    'z3 5.3.2 (every obligation), re-discharged by cvc5 in the thorough tier where it terminates',
    'CPython 3.12 and the source transformation of vc/loader.py (list displays, comprehensions, loops, boolean operators and chained comparisons become calls of vc/rt.py; everything else runs as written)',
    "contracts of torch operations in vc/tfun.py and vc/values.py (elementwise arithmetic, stack, cat, indexing, sort, argmin, comparisons, norms), cross-checked on every run by evaluating the checks' contracts on the untransformed code",
]
ASSUME = [
    'machine arithmetic treated as real arithmetic; rounding is covered only by the tolerances of the concrete evaluation',
    'tensors stand for one arbitrary entry: operations other than those with a contract that mixes entries are uninterpreted',
    'termination of loops is not proved',
]

exec(open(os.path.join(os.path.dirname(__file__), 'claims.py')).read())

NA = {}
if os.path.exists('tools/not_applicable.json'): NA = json.load(open('tools/not_applicable.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = [dict(property=p, quick_cmd=f'/opt/venv/bin/python run.py {p} --tier quick', thorough_cmd=f'/opt/venv/bin/python run.py {p} --tier thorough',
               technique=CHECKS[p]['technique'], level=CHECKS[p]['level'], level_note=CHECKS[p]['note']) for p in ids if p in CHECKS]
na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in ids if p not in CHECKS]
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import torch, sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3"',
               checks=checks, not_applicable=na,
               notes='Proofs run on the code of /repo as it is, loaded through a mechanical source transformation on every run; see DESIGN.md'), open('MANIFEST.json', 'w'), indent=1)
json.dump(dict(trusted_base=TRUSTED, assumptions=ASSUME, properties={p: {k: c[k] for k in ('level', 'explanation', 'assumptions', 'trusted')} for p, c in CHECKS.items()}), open('checks/meta.json', 'w'), indent=1)
print('claimed', [c['property'] for c in checks])
