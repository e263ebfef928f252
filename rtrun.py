"developer's helper: concrete scenarios of a check, in-process:  rtrun.py Cxx [scenario] [n] [seed]"
import sys, os, importlib, time, traceback, random, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch, warnings
warnings.filterwarnings('ignore')
torch.set_num_threads(2)
from vc import worker
m = importlib.import_module(f'checks.{sys.argv[1]}_rt')
only, n, seed = sys.argv[2] if len(sys.argv) > 2 else '', int(sys.argv[3]) if len(sys.argv) > 3 else 0, int(sys.argv[4]) if len(sys.argv) > 4 else 1
for name, sc in m.SCENARIOS.items():
    if only and only != name: continue
    t0, bad = time.time(), collections.Counter()
    for k in range(n or sc.quick):
        c = worker.Case(name, k, random.Random(f"{seed}/{sys.argv[1]}/{name}/{k}"))
        torch.manual_seed(k)
        try: sc.fn(c)
        except worker.Violation as e:
            bad['V'] += 1
            if bad['V'] <= 3: print('VIOLATION', name, k, str(e)[:400], '|', str(c.__dict__)[:500])
        except Exception as e:
            bad[type(e).__name__] += 1
            if bad[type(e).__name__] <= 2: print('EXC', name, k, type(e).__name__, str(e)[:300], '|', str(c.__dict__)[:400], '\n', ''.join(traceback.format_tb(e.__traceback__)[-3:])[-700:])
    print(name, 'cases', n or sc.quick, dict(bad), f"{time.time() - t0:.1f} s")
