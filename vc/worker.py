"""Worker process of a check: `prove` runs the harnesses of a property on the transformed code of the repository,
`concrete` runs the same contracts on the untransformed code with generated inputs."""
import sys, os, json, time, traceback, importlib, random, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def real_error(ex):
    "exceptions that the code raises on a feasible path, as opposed to limits of the verifier"
    from .values import CodeError
    if isinstance(ex, (CodeError, UnboundLocalError)): return True
    tb = ex.__traceback__
    while tb.tb_next is not None: tb = tb.tb_next
    inside = '/torchdyn/' in tb.tb_frame.f_code.co_filename
    return inside and isinstance(ex, (AssertionError, NotImplementedError, ValueError, RuntimeError, KeyError, ZeroDivisionError))


def run_harness(h, tier):
    from . import core, loader
    t0 = time.time()
    s = core.Session(h['name'], timeout_ms=h.get('timeout_ms', 6000) * (4 if tier == 'thorough' else 1), budget_s=h.get('budget_s', 200) * (2.5 if tier == 'thorough' else 1),
                     verbose=int(os.environ.get('VC_VERBOSE', 0)))
    s.dump = tier == 'thorough' and h.get('dump', True)
    s.tier = tier
    status, reason = 'proved', ''
    funcs = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'vc')
    def start(code, off):
        if '/torchdyn/' in code.co_filename and '<' not in code.co_name: funcs.add(code.co_filename.split('/torchdyn/', 1)[1] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    try:
        if 'direct' in h: s.direct(h['direct'])
        else: s.explore(h['run'], h.get('covers', ()))
        if any(not o.ok for o in s.obligations.values()): status, reason = 'failed', '; '.join(f"{o.name} [{o.where}]" for o in s.obligations.values() if not o.ok)
        elif not s.obligations: status, reason = 'undecided', 'no obligations were generated'
    except (core.Unsupported, core.Budget) as ex:
        # obligations that failed with a counter-model before the limit was reached still count
        status, reason = 'undecided', f"{type(ex).__name__}: {ex} at {loc(ex)}"
        if not s.changed and any(not o.ok and o.detail.startswith('counter-model') for o in s.obligations.values()) and isinstance(ex, core.Budget):
            status, reason = 'failed', '; '.join(f"{o.name} [{o.where}]" for o in s.obligations.values() if not o.ok)
    except Exception as ex:
        status, reason = 'undecided', f"{type(ex).__name__}: {ex} at {loc(ex)}"
        if os.environ.get('VC_VERBOSE'): traceback.print_exc()
    finally:
        mon.set_events(3, 0)
        mon.free_tool_id(3)
        core.CUR = None
    if status == 'undecided' and 'direct' in h and any(not o.ok for o in s.obligations.values()):   # checks that failed before the harness was stopped
        status, reason = 'failed', '; '.join(f"{o.name} [{o.where}]" for o in s.obligations.values() if not o.ok)
    cv = None
    if s.dump and s.smt_dump and status == 'proved': cv = cross_check(s)
    return dict(name=h['name'], status=status, reason=reason, obligations=[o.asdict() for o in s.obligations.values()], paths=s.paths, passes=s.passes, queries=s.queries,
                solver_s=round(s.solver_s, 3), wall_s=round(time.time() - t0, 2), covers=s.covers, invariants=s.invariants, functions=sorted(funcs), cvc5=cv,
                notes=list(s.notes), bounded=h.get('bounded'))


def cross_check(s, limit=40, secs=5000):
    "re-discharges obligations with cvc5"
    try: import cvc5
    except ImportError: return None
    seen, res = set(), {'unsat': 0, 'unknown': 0, 'sat': 0, 'error': 0}
    t0 = time.time()
    for name, txt in s.smt_dump:
        k = hashlib.sha256(txt.encode()).hexdigest()
        if k in seen: continue
        seen.add(k)
        if sum(res.values()) >= limit or time.time() - t0 > 90: break
        try:
            tm = cvc5.TermManager()
            sl = cvc5.Solver(tm)
            sl.setOption('tlimit-per', str(secs))
            sl.setLogic('ALL')
            p = cvc5.InputParser(sl)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'x')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                c.invoke(sl, sm)
            r = sl.checkSat()
            res['unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'] += 1
        except Exception:
            res['error'] += 1
    return res


def loc(ex):
    out = []
    tb = ex.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/torchdyn/' in fn: out.append(f"{os.path.basename(fn)}:{tb.tb_frame.f_code.co_name}:{tb.tb_lineno}")
        tb = tb.tb_next
    return ' < '.join(reversed(out[-3:]))


def prove(pid, tier, only=None):
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from . import loader
    import multiprocessing as mp
    loader.install()
    import torch
    torch.set_num_threads(1)
    m = importlib.import_module('checks.' + pid)
    hs = list(m.harnesses(tier))
    if only: hs = [h for h in hs if only in h['name']]
    for name in getattr(m, 'IMPORTS', ['torchdyn.core', 'torchdyn.numerics']):
        try: importlib.import_module(name)
        except Exception as ex: return dict(harnesses=[dict(name='import', status='undecided', reason=f'{name}: {ex!r}', obligations=[], functions=[], queries=0, solver_s=0, invariants={}, notes=[], bounded=None)], sources={})
    if len(hs) > 1 and not os.environ.get('VC_SERIAL'):
        ctx = mp.get_context('fork')
        procs, res = [], []
        import itertools
        todo = list(enumerate(hs))
        running = {}
        out = {}
        while todo or running:
            while todo and len(running) < 6:
                i, h = todo.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(h, tier, b))
                p.start()
                b.close()
                running[i] = (p, a, h)
            import multiprocessing.connection as mc
            ready = mc.wait([a for _, a, _ in running.values()], timeout=1)
            for i in [i for i, (p, a, h) in running.items() if a in ready]:
                p, a, h = running.pop(i)
                try: out[i] = a.recv()
                except EOFError: out[i] = dict(name=h['name'], status='undecided', reason='worker ended', obligations=[], functions=[], queries=0, solver_s=0, invariants={}, notes=[], bounded=None)
                p.join()
        res = [out[i] for i in range(len(hs))]
    else:
        res = [run_harness(h, tier) for h in hs]
    return dict(harnesses=res, sources={os.path.relpath(k, REPO): v for k, v in loader.SOURCES.items()})


def _child(h, tier, conn):
    r = run_harness(h, tier)
    conn.send(r)
    conn.close()
    os._exit(0)


HANG = 60


class Violation(AssertionError):
    pass


def concrete(pid, tier, seed, mode='check', replay=None, limit=None):
    import torch
    torch.set_num_threads(1)
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    m = importlib.import_module('checks.' + pid + '_rt')
    scen = m.SCENARIOS
    seen = set()
    out = dict(evaluations=0, scenarios={}, violations=[], errors=[], samples=[])
    t0 = time.time()
    limit = limit or {'check': 25 if tier == 'quick' else 240, 'search': 60 if tier == 'quick' else 240}[mode]
    if replay is not None:
        todo = [(replay['scenario'], [replay['index']])]
        seed = replay['seed']
    else:
        todo = []
        for name, sc in scen.items():
            n = sc.quick if tier == 'quick' and mode == 'check' else sc.thorough
            todo.append((name, range(n) if mode == 'check' else range(sc.quick, max(sc.thorough, 4 * sc.quick))))
    def hung(*a): raise Violation(f"the call does not return within {HANG} s (cases take milliseconds to a few seconds)")
    signal.signal(signal.SIGALRM, hung)
    # round robin over scenarios, so that the time limit cuts all of them evenly
    its = [(n, iter(r)) for n, r in todo]
    stopped = False
    while its and not stopped:
        for ent in list(its):
            name, it = ent
            k = next(it, None)
            if k is None or sum(1 for v in out['violations'] if v['scenario'] == name) >= 2:
                its.remove(ent); continue
            if time.time() - t0 > limit:
                stopped = True
                break
            rng = random.Random(f"{seed}/{pid}/{name}/{k}")
            torch.manual_seed(rng.randrange(2 ** 31))
            case = Case(name, k, rng)
            out['evaluations'] += 1
            out['scenarios'][name] = out['scenarios'].get(name, 0) + 1
            try:
                signal.alarm(HANG)
                scen[name].fn(case)
            except KnownSkip: pass
            except Exception as ex:
                tb, fr, inner = ex.__traceback__, None, None
                while tb is not None:
                    inner = tb.tb_frame.f_code.co_filename
                    if '/checks/' in inner: fr = f"{os.path.basename(inner)}:{tb.tb_lineno}"
                    tb = tb.tb_next
                harness_fault = not isinstance(ex, Violation) and ('/checks/' in inner or '/vc/' in inner or isinstance(ex, ImportError))
                d = dict(scenario=name, index=k, seed=seed, message=(str(ex) if isinstance(ex, Violation) else f"raised {type(ex).__name__}: {ex}")[:1500], input=case.desc(), where=fr,
                         key=case.key, trace=traceback.format_exc()[-3000:] if not isinstance(ex, Violation) else '')
                out['errors' if harness_fault else 'violations'].append(d)
            finally: signal.alarm(0)
            seen.add(name + json.dumps(case.desc(), sort_keys=True) + ('' if case.info else str(k)))
            if len(out['samples']) < 6 and k < 2 and case.info: out['samples'].append(dict(scenario=name, input=case.desc()))
    out['distinct'] = len(seen)
    out['wall_s'] = round(time.time() - t0, 2)
    out['complete'] = not stopped
    return out


class KnownSkip(Exception):
    pass


class Case:
    "one generated input; `note` records what identifies it for replays and evidence"
    def __init__(self, name, index, rng): self.name, self.index, self.rng, self.info, self.key = name, index, rng, {}, name
    def note(self, **k): self.info.update(k)
    def desc(self): return {k: str(v)[:300] for k, v in self.info.items()}
    def require(self, ok, msg):
        if not bool(ok): raise Violation(msg)


class Scen:
    def __init__(self, fn, quick=20, thorough=200): self.fn, self.quick, self.thorough = fn, quick, thorough


def main():
    mode, pid, tier, seed, out = sys.argv[1:6]
    if mode == 'prove': r = prove(pid, tier, os.environ.get('VC_ONLY'))
    elif mode == 'replay':
        with open(sys.argv[6]) as fh: d = json.load(fh)
        r = concrete(pid, tier, seed, 'check', replay=d)
    else: r = concrete(pid, tier, seed, mode)
    with open(out, 'w') as fh: json.dump(r, fh, default=str)


if __name__ == '__main__':
    sys.modules['vc.worker'] = sys.modules['__main__']
    main()
