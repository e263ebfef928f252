"developer's helper: runs harnesses in-process and prints the obligations:  dbg.py Cxx [name-filter] [verbosity]"
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ['VC_VERBOSE'] = sys.argv[3] if len(sys.argv) > 3 else '1'
from vc import loader, worker
loader.install()
m = importlib.import_module('checks.' + sys.argv[1])
for h in m.harnesses('quick'):
    if len(sys.argv) > 2 and sys.argv[2] not in h['name']: continue
    r = worker.run_harness(h, 'quick')
    print('=====', r['name'], r['status'], r['reason'][:600], f"{r['wall_s']} s, paths {r['paths']}, passes {r['passes']}, queries {r['queries']}, solver {r['solver_s']}", r['covers'])
    for o in r['obligations']:
        if not o['ok'] or os.environ['VC_VERBOSE'] > '1': print('   ', 'ok ' if o['ok'] else 'BAD', o['kind'], o['where'], '|', o['name'], o['n'], o['detail'][:800])
    if os.environ['VC_VERBOSE'] > '1':
        for k, v in r['invariants'].items(): print('   INV', k, v)
