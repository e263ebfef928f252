"""Development helper: writes seeded/<id>/ from an edit and a demonstration, after confirming in scratch copies of /repo that
the demonstration passes without the edit and fails with it, and that the stable tests pass with it.  Not used by any check."""
import json, os, subprocess, sys, shutil, tempfile
SEEDED = '/verif/seeded'
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='4', MKL_NUM_THREADS='4', PYTHONPATH=d)
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={d}/junit.xml'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{d}/out.json', f'junit:{d}/junit.xml'], stdout=subprocess.DEVNULL)
    r = json.load(open(f'{d}/out.json'))
    passed = set(r.get('passed', []))
    return [t for t in BASE if t not in passed]


def plant(id, prop, edits, demo, needs, breaks, run_tests=True):
    out = f'{SEEDED}/{id}'
    os.makedirs(out, exist_ok=True)
    open(f'{out}/demo.py', 'w').write(demo)
    open(f'{out}/demo.sh', 'w').write(DEMO)
    os.chmod(f'{out}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{out}/meta.json', 'w'), indent=1)
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        clean = subprocess.run(['bash', f'{out}/demo.sh'], cwd=d, capture_output=True, text=True)
        for f, old, new in edits:
            p = f'{d}/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(f'{out}/patch.diff', 'w').write(diff)
        bad = subprocess.run(['bash', f'{out}/demo.sh'], cwd=d, capture_output=True, text=True)
        fails = tests(d) if run_tests else []
        ok = clean.returncode == 0 and bad.returncode != 0 and not fails
        print(id, 'OK' if ok else 'BAD', 'clean', clean.returncode, 'planted', bad.returncode, 'tests failing', fails[:3], flush=True)
        if not ok: print(clean.stderr[-400:], bad.stdout[-200:], bad.stderr[-200:])
    finally: shutil.rmtree(d)
