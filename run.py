#!/opt/venv/bin/python
"""Decides one property:  run.py Cxx [--tier quick|thorough]   or   run.py --replay FILE

1. prove: the harnesses of checks/Cxx.py run the real code of /repo symbolically and discharge every obligation.
2. concrete: the same contracts on the untransformed code, on generated inputs (bounded; cross-checks the contracts, finds
   failing inputs, and stands in for harnesses the verifier cannot decide)."""
import sys, os, json, time, subprocess, argparse, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
SCRATCH = os.path.join(VERIF, '.scratch')


def spawn(mode, pid, tier, seed, tag, extra=()):
    out = os.path.join(SCRATCH, f"{pid}-{tag}-{os.getpid()}.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
    env['PYTHONPATH'] = VERIF
    log = open(out + '.log', 'w')
    p = subprocess.Popen([PY, '-m', 'vc.worker', mode, pid, tier, str(seed), out, *extra], cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT)
    return p, out, log


def collect(h, timeout):
    p, out, log = h
    try: rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); rc = 'timeout'
    log.close()
    text = open(out + '.log').read()
    os.unlink(out + '.log')
    if os.environ.get('VC_VERBOSE'): print(text)
    if rc == 0 and os.path.exists(out):
        with open(out) as fh: r = json.load(fh)
        os.unlink(out)
        return r, text
    if os.path.exists(out): os.unlink(out)
    return None, f"exit {rc}: {text[-2000:]}"


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip(): out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-prove', action='store_true')
    a = ap.parse_args()
    os.makedirs(SCRATCH, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if a.replay: return replay(a.replay)
    pid, tier, seed = a.property, a.tier, int(os.environ.get('VERIF_SEED', 1))
    t0 = time.time()
    hc = spawn('check', pid, tier, seed, 'rt')
    hp = spawn('prove', pid, tier, seed, 'vc') if not a.no_prove else None
    proof, plog = collect(hp, 600 if tier == 'quick' else 3000) if hp else (dict(harnesses=[], sources={}), '')
    conc, clog = collect(hc, 600 if tier == 'quick' else 3000)
    hs = proof['harnesses'] if proof else [dict(name='prover', status='undecided', reason=plog, obligations=[], functions=[], queries=0, solver_s=0, invariants={}, notes=[], bounded=None)]
    failed = [h for h in hs if h['status'] == 'failed']
    undecided = [h for h in hs if h['status'] == 'undecided']
    viols = list(conc['violations']) if conc else []
    if failed and conc is not None and not viols:   # look for an input that fails, harder than on every run
        extra, _ = collect(spawn('search', pid, tier, seed + 1, 'search'), 200 if tier == 'quick' else 900)
        if extra: viols += extra['violations']; conc['evaluations'] += extra['evaluations']
    findings = [k for k in known() if k.get('kind') == 'finding' and k['property'] == pid]
    reported, unlisted = [], []
    for v in viols:
        k = next((k for k in findings if k['key'] == v['key']), None)
        (reported if k else unlisted).append(v)
    for k in findings:
        if any(v['key'] == k['key'] for v in reported): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    violations = []
    rd = os.path.join(VERIF, 'replays')
    if unlisted or failed:
        os.makedirs(rd, exist_ok=True)
        v = unlisted[0] if unlisted else None
        obl = [dict(harness=h['name'], name=o['name'], where=o['where'], kind=o['kind'], detail=o['detail']) for h in failed for o in h['obligations'] if not o['ok']]
        d = dict(property=pid, failed_obligations=obl, verifier=[h['reason'] for h in failed], **(v or {}))
        name = hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:12]
        path = os.path.join(rd, f"{pid}-{name}.json")
        with open(path, 'w') as fh: json.dump(d, fh, indent=1, default=str)
        for o in obl[:6]: print(f"failed obligation: {o['name']} [{o['where']}] {o['detail'][:300]}")
        for v in unlisted[:4]: print(f"failing input: {v['scenario']} #{v['index']}: {v['message'][:400]} {json.dumps(v['input'])[:600]}")
        line = f"VIOLATION property={pid} replay={path}" + ('' if unlisted else ' no-failing-input-found')
        violations.append(line)
    for h in undecided: print(f"undecided by the verifier, bounded check stands in: {h['name']}: {h['reason'][:300]}")
    if conc and conc['errors']: print('harness errors:', json.dumps(conc['errors'])[:1500])
    write_evidence(pid, tier, seed, hs, conc, violations, time.time() - t0, proof, reported)
    n = sum(len(h['obligations']) for h in hs)
    print(f"{pid} {tier}: {len(hs)} harnesses, {n} obligations ({sum(1 for h in hs for o in h['obligations'] if o['ok'])} discharged), {sum(h['queries'] for h in hs)} solver queries, "
          f"{conc['evaluations'] if conc else 0} concrete evaluations, {time.time() - t0:.0f} s")
    if violations:
        print(violations[0])
        return 1
    if conc is None:
        print('concrete worker failed:', clog[-2000:])
        return 3
    if conc['errors'] and not conc['evaluations'] > len(conc['errors']): return 3
    return 0


def write_evidence(pid, tier, seed, hs, conc, violations, wall, proof, reported):
    meta = json.load(open(os.path.join(VERIF, 'checks', 'meta.json')))
    m = meta['properties'].get(pid, {})
    undec = [h for h in hs if h['status'] == 'undecided']
    claimed = m.get('level', 'proof')
    level = claimed if not undec else 'exploration'
    proved = [h for h in hs if not h.get('bounded')]
    po = [o for h in proved for o in h['obligations']]
    hd = lambda h: dict(name=h['name'], status=h['status'], reason=h['reason'], obligations=[dict(name=o['name'], where=o['where'], kind=o['kind'], ok=o['ok'], times=o['n'], backend=o['backend'], seconds=round(o['secs'], 4)) for o in h['obligations']],
                        solver_queries=h['queries'], solver_s=h['solver_s'], paths=h.get('paths'), houdini_passes=h.get('passes'), covers=h.get('covers'), loop_invariants=h['invariants'],
                        bounded=h.get('bounded'), cvc5=h.get('cvc5'), notes=h.get('notes'))
    c = conc or dict(evaluations=0, scenarios={}, samples=[], distinct=0)
    rule = 'contracts evaluated on the untransformed code on generated inputs (scenario: cases): ' + json.dumps(c['scenarios']) + '; distinct by scenario and recorded input'
    samples = c['samples'] or [dict(scenario=k) for k in list(c['scenarios'])[:3]]
    conc_cov = dict(evaluations=c['evaluations'], distinct_nontrivial=c['distinct'], rule=rule, samples=samples)
    cov = dict(explanation=m.get('explanation', ''))
    if level == 'proof':
        cov.update(obligations=sum(o['n'] for o in po), discharged=sum(o['n'] for o in po if o['ok']), checker_cmd=f"{PY} {VERIF}/run.py {pid} --tier {tier}",
                   trusted_base=meta['trusted_base'] + m.get('trusted', []), bounded_cross_check_on_the_running_code=conc_cov)
    else:
        cov.update(conc_cov, proof_part=dict(obligations=sum(o['n'] for o in po), discharged=sum(o['n'] for o in po if o['ok'])))
    cov['harnesses'] = [hd(h) for h in proved]
    cov['bounded_harnesses_not_counted_as_proved'] = [hd(h) for h in hs if h.get('bounded')]
    cov['solver_seconds'] = round(sum(h['solver_s'] for h in hs), 2)
    cov['functions_under_contract'] = sorted({f for h in hs for f in h['functions']})
    cov['undecided_harnesses'] = [h['name'] + ': ' + h['reason'][:200] for h in undec]
    if proof: cov['sources_sha256'] = proof.get('sources', {})
    cov['concrete_complete'] = c.get('complete')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=meta['assumptions'] + m.get('assumptions', []), wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh: json.dump(ev, fh, indent=1, default=str)


def replay(path):
    with open(path) as fh: d = json.load(fh)
    for o in d.get('failed_obligations', []): print(f"failed obligation: {o['name']} [{o['where']}]\n   {o['detail']}")
    if 'scenario' not in d:
        print('no failing input is recorded')
        return 1
    r, log = collect(spawn('replay', d['property'], 'quick', d['seed'], 'replay', [path]), 600)
    if r is None: print(log); return 3
    for v in r['violations']: print('fails:', v['message'], v['input'])
    print('reproduced' if r['violations'] else 'does not fail')
    return 1 if r['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
