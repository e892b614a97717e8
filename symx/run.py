"""Check driver:  python3-vt -m symx.run C01 [quick|thorough]

Explores every path of every part of harness/cNN.py, replays counterexamples and a
sample of the passing paths natively, writes evidence/CNN.json.
Exit: 0 held on everything explored, 1 violation, 2 no verdict (unsupported
operation, time, solver), 3 the machinery disagrees with the real code or is vacuous.
"""
import argparse
import gc
import importlib
import json
import multiprocessing
import os
import random
import select
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
PLAIN_PY = os.environ.get('SYMX_PLAIN_PY', '/opt/venv/bin/python')
sys.path.insert(0, VERIF)
NPROC = int(os.environ.get('SYMX_PROCS', '8'))

from symx import core, env, hooks, instr, values   # noqa: E402
from symx import sx as sxm   # noqa: E402
from symx.common import TZ   # noqa: E402
import z3   # noqa: E402


# ---------------------------------------------------------------- module state

class Snapshot:
    """Restores module globals and class attributes of the code under test between paths."""

    def __init__(self, prefix='resync'):
        self.items = []
        for n, m in sorted(sys.modules.items()):
            if n == prefix or n.startswith(prefix + '.'):
                self.items.append((m.__dict__, self._copy(m.__dict__)))
                for c in list(m.__dict__.values()):
                    if isinstance(c, type) and c.__module__ == n:
                        self.items.append((c, self._copy(dict(c.__dict__))))

    @staticmethod
    def _copy(d):
        out = {}
        for k, v in d.items():
            if k.startswith('__'):
                continue
            t = type(v)
            out[k] = (v, t(v) if t in (list, dict, set) else None)
        return out

    def restore(self):
        for holder, saved in self.items:
            cur = holder if type(holder) is dict else dict(holder.__dict__)
            for k in list(cur):
                if k not in saved and not k.startswith('__'):
                    if type(holder) is dict:
                        del holder[k]
                    else:
                        delattr(holder, k)
            for k, (v, c) in saved.items():
                if cur.get(k) is not v:
                    if type(holder) is dict:
                        holder[k] = v
                    else:
                        setattr(holder, k, v)
                if c is not None:
                    t = type(v)
                    if t is list:
                        v[:] = c
                    elif t is dict:
                        dict.clear(v)
                        dict.update(v, c)
                    else:
                        set.clear(v)
                        set.update(v, c)


# ---------------------------------------------------------------- one path

class Result:
    __slots__ = ('outcome', 'msg', 'inputs', 'obs', 'reached', 'known', 'frontier', 'decisions', 'violating')

    def __init__(self):
        self.outcome = None
        self.msg = None
        self.inputs = None
        self.obs = None
        self.violating = None


class Engine:
    def __init__(self, hmod, tier, seed):
        self.h = hmod
        self.tier = tier
        self.seed = seed
        self.parts = {p[0]: p for p in hmod.HARNESSES}
        self.snap = Snapshot()
        self.stats = core.Stats()

    def run(self, part, prefix, want_model=False):
        self.snap.restore()
        solver = z3.Solver()
        solver.set('timeout', core.SOLVER_TIMEOUT_MS)
        core.set_path(None)
        p = core.Path(list(prefix), solver, self.stats)
        p.violation = None
        core.set_path(p)
        e = env.SymEnv()
        env.ENV[0] = e
        sx = sxm.Sx(p, e, self.tier, self.seed)
        r = Result()
        nf = None
        try:
            self.parts[part][1](sx)
            r.outcome = 'ok'
        except core.PathAbort:
            r.outcome = 'abort'
        except core.ViolationFound:
            r.outcome = 'violation'
        except core.Unsupported as x:
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
            r.outcome = 'unsupported'
            r.msg = str(x) + ' @ ' + where(x)
        except core.Inconclusive as x:
            r.outcome = 'inconclusive'
            r.msg = str(x)
        except RecursionError as x:
            r.outcome = 'unsupported'
            r.msg = 'recursion @ ' + where(x)
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc(limit=-30)
        except Exception as x:
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
            r.outcome = 'raise'
            r.msg = 'unexpected %s: %s @ %s' % (type(x).__name__, safe(x), where(x))
        finally:
            if p.dead is not None and r.outcome in ('ok', 'raise'):
                d = p.dead
                if isinstance(d, core.PathAbort):
                    r.outcome = 'abort'
                elif isinstance(d, core.ViolationFound):
                    r.outcome = 'violation'
                else:
                    r.outcome = 'unsupported'
                    r.msg = str(d)
            p.dead = None
        if p.violation is not None:
            r.msg, nf = p.violation
        r.frontier = p.frontier
        r.decisions = p.decisions
        r.reached = p.reached
        r.known = p.known
        self.stats.paths += 1
        if r.outcome == 'abort':
            self.stats.aborted += 1
        try:
            if r.outcome in ('violation', 'raise', 'unsupported') or want_model and r.outcome == 'ok' or (
                    r.outcome == 'ok' and r.known):
                m = p.model(nf)
                if r.outcome == 'ok':
                    self.stats.path_checks += 1
                if m is None:
                    if r.outcome != 'unsupported':
                        r.outcome = 'infeasible'
                        r.msg = 'path condition has no model'
                else:
                    r.inputs = {k: sxm.ev_input(v, m) for k, v in p.inputs.items()}
                    if r.outcome == 'ok':
                        r.obs = [[k, sxm.ev(v, m)] for k, v in p.observations]
        except core.Inconclusive as x:
            r.outcome = 'inconclusive'
            r.msg = str(x)
        except core.EngineStop as x:
            r.outcome = 'unsupported'
            r.msg = 'report: ' + str(x)
        except Exception as x:
            r.outcome = 'unsupported'
            r.msg = 'report: %s @ %s' % (x, where(x))
        env.ENV[0] = None
        core.set_path(None)
        return r


def safe(x):
    try:
        return str(x)[:200]
    except BaseException:
        return '?'


def where(x):
    tb = traceback.extract_tb(x.__traceback__)
    keep = [f for f in tb if '/symx/' not in f.filename] or list(tb)
    return ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(keep[-4:]))


# ---------------------------------------------------------------- workers

SLICE_S = 0.7


def worker(conn, eng):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rnd = random.Random(eng.seed * 1000003 + os.getpid() % 1)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            part, stack = msg
            t0 = time.time()
            eng.stats = core.Stats()
            hooks.CONCRETIZED.clear()
            events, samples, reached, known = [], [], set(), {}
            n = 0
            while stack and (n == 0 or time.time() - t0 < SLICE_S) and n < 400:
                pre = stack.pop()
                want = rnd.random() < (0.5 if n < 2 else 0.02)
                r = eng.run(part, pre, want)
                n += 1
                stack.extend(r.frontier)
                if r.outcome == 'ok':
                    reached |= {(part, x) for x in r.reached}
                    for k in r.known:
                        if k not in known:
                            known[k] = {'part': part, 'inputs': r.inputs, 'tier': eng.tier}
                    if r.obs is not None and len(samples) < 3:
                        samples.append({'part': part, 'inputs': r.inputs, 'obs': r.obs, 'known': r.known,
                                        'tier': eng.tier})
                elif r.outcome != 'abort':
                    events.append({'part': part, 'outcome': r.outcome, 'msg': r.msg, 'inputs': r.inputs,
                                   'tier': eng.tier})
                    if len(events) >= 20:
                        break
            conn.send({'part': part, 'stack': stack, 'stats': eng.stats, 'events': events, 'samples': samples,
                       'reached': reached, 'known': known, 'executed': set(hooks.EXECUTED),
                       'conc': dict(hooks.CONCRETIZED), 'n': n})
            gc.collect()
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    except BaseException:
        try:
            conn.send({'crash': traceback.format_exc()})
        except Exception:
            pass
    os._exit(0)


class Plain:
    """Batches of native runs."""

    def __init__(self, mod):
        self.mod = mod
        self.n = 0

    def run(self, cases):
        if not cases:
            return []
        self.n += 1
        import tempfile
        with tempfile.TemporaryDirectory(prefix='symx-run-') as d:
            cf, of = os.path.join(d, 'cases.json'), os.path.join(d, 'out.json')
            with open(cf, 'w') as f:
                json.dump(cases, f)
            ev = dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=VERIF, SYMX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1',
                      TZ=TZ)
            r = subprocess.run([PLAIN_PY, '-m', 'symx.plain', self.mod, cf, of], cwd=VERIF, env=ev,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            if not os.path.exists(of):
                raise RuntimeError('native runner failed: ' + r.stderr.decode()[-2000:])
            with open(of) as f:
                return json.load(f)


def load(pid):
    sys.dont_write_bytecode = True
    env.install()
    sys.meta_path.insert(0, instr.Finder({'resync': REPO, 'harness': VERIF}))
    for n in list(sys.modules):
        if n == 'resync' or n.startswith('resync.') or n.startswith('harness'):
            del sys.modules[n]
    h = importlib.import_module('harness.' + pid.lower())
    return h


def encoded(executed):
    return sorted(q for q in executed if q.startswith('resync.'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--part')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid.upper()
    t0 = time.time()
    os.environ['TZ'] = TZ
    time.tzset()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = a.budget or (780 if a.tier == 'quick' else 3 * 3600)
    h = load(pid)
    parts = [p for p in h.HARNESSES if (a.part is None or p[0] == a.part)]
    if a.tier == 'quick':
        parts = [p for p in parts if not (len(p) > 2 and p[2].get('thorough_only'))]
    opts = {p[0]: (p[2] if len(p) > 2 else {}) for p in parts}
    eng = Engine(h, a.tier, seed)
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context('fork')
    workers = []
    for i in range(NPROC):
        pc, cc = ctx.Pipe()
        pr = ctx.Process(target=worker, args=(cc, eng), daemon=True)
        pr.start()
        cc.close()
        workers.append([pc, pr, None])
    queue = [(p[0], [[]]) for p in parts]
    stats = core.Stats()
    pstats = {p[0]: [0, 0.0] for p in parts}
    reached, known, executed, samples, conc = set(), {}, set(), [], {}
    events, problems = [], []
    rnd = random.Random(seed)
    nsamp = 0
    keep = getattr(h, 'SAMPLES', 48 if a.tier == 'quick' else 240)
    violation = None
    plain = Plain(pid.lower())
    tried = {}
    last = time.time()
    stop = False

    def confirm(evs):
        """Native replay of candidate violations."""
        nonlocal violation
        cases = [e for e in evs if e['inputs'] is not None]
        for e, r in zip(cases, plain.run(cases)):
            e['plain'] = r
            if r['outcome'] == 'check' or r['outcome'] == 'raise':
                if violation is None:
                    violation = e

    try:
        while True:
            for w in workers:
                if w[2] is None and queue and not stop:
                    # give each idle worker one subtree (the shallowest prefix)
                    part, st = queue[0]
                    idle = sum(1 for x in workers if x[2] is None)
                    k = max(1, len(st) // (idle + 1)) if len(queue) <= idle else len(st)
                    give = st[:k]
                    del st[:k]
                    if not st:
                        queue.pop(0)
                    give.reverse()
                    w[2] = (part, time.time())
                    w[0].send((part, give))
            busy = [w for w in workers if w[2] is not None]
            if not busy:
                if not queue or stop:
                    break
                continue
            rd, _, _ = select.select([w[0] for w in busy], [], [], 5)
            for w in busy:
                if w[0] not in rd:
                    if not w[1].is_alive():
                        raise RuntimeError('a worker ended')
                    continue
                m = w[0].recv()
                if 'crash' in m:
                    raise RuntimeError(m['crash'])
                ps = pstats[m['part']]
                ps[0] += m['n']
                ps[1] += time.time() - w[2][1]
                w[2] = None
                stats.add(m['stats'])
                executed |= m['executed']
                reached |= m['reached']
                for k, v in m['conc'].items():
                    conc[k] = conc.get(k, 0) + v
                for k, v in m['known'].items():
                    known.setdefault(k, v)
                for s in m['samples']:
                    nsamp += 1
                    if len(samples) < keep:
                        samples.append(s)
                    else:
                        j = rnd.randrange(nsamp)
                        if j < keep:
                            samples[j] = s
                if m['stack']:
                    st = m['stack']
                    st.sort(key=len)
                    queue.append((m['part'], st))
                todo = []
                for e in m['events']:
                    key = (e['part'], e['outcome'], e['msg'])
                    tried[key] = tried.get(key, 0) + 1
                    if tried[key] <= 3:
                        events.append(e)
                        todo.append(e)
                if todo and violation is None:
                    confirm(todo)
                    if violation is not None:
                        stop = True
            if len(tried) > 60 or sum(tried.values()) > 400:
                stop = True
                problems.append('too many undecided paths')
            if time.time() - t0 > budget:
                stop = True
                if queue:
                    problems.append('time budget used up with paths left')
                    break
            if a.verbose and time.time() - last > 10:
                last = time.time()
                print('.. %.0fs paths %d queue %d queries %d solver %.0fs' % (
                    last - t0, stats.paths, sum(len(q[1]) for q in queue), stats.queries, stats.solver_s), flush=True)
    finally:
        for w in workers:
            try:
                w[0].send(None)
            except Exception:
                pass
            if w[2] is not None:
                w[1].kill()
    # passing paths against the real code
    validated = 0
    mismatches = []
    try:
        knownfile = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        knownfile = {'findings': []}
    listed = {f['id']: f for f in knownfile['findings'] if f['property'] == pid}
    if violation is None:
        chk = samples + list(known.values())
        res = plain.run([{k: c[k] for k in ('part', 'inputs', 'tier')} for c in chk])
        for c, r in zip(chk, res):
            if r['outcome'] in ('check', 'raise'):
                mismatches.append((c, r))
                # the real code fails on an input the symbolic run passed: it is a violation of the real code
                if violation is None:
                    violation = dict(c, outcome='native', msg=r.get('msg'), plain=r)
            elif r['outcome'] != 'ok':
                mismatches.append((c, r))
            elif 'obs' in c and (json.loads(json.dumps(c['obs'])) != r['obs'] or c['known'] != r['known']):
                mismatches.append((c, r))
            else:
                validated += 1
    for k, c in known.items():
        if k not in listed and violation is None:
            violation = dict(c, outcome='known-unlisted', msg='finding %s is not listed' % k, plain={})
    for e in events:
        if e['outcome'] in ('unsupported', 'inconclusive', 'infeasible'):
            problems.append('%s: %s' % (e['outcome'], e['msg']))
        elif e.get('plain', {}).get('outcome') not in ('check', 'raise'):
            problems.append('not reproduced natively: [%s] %s (native: %s %s) inputs %s' % (
                e['part'], e['msg'], e.get('plain', {}).get('outcome'), e.get('plain', {}).get('msg'),
                json.dumps(e.get('inputs'))[:600]))
    missing = []
    if violation is None and a.part is None:
        for pn, o in opts.items():
            for lab in o.get('expect', ()):
                if (pn, lab) not in reached:
                    missing.append('%s/%s' % (pn, lab))
    wall = time.time() - t0
    rc = 0
    if violation is not None:
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, '%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'part': violation['part'], 'tier': a.tier, 'message': violation['msg'],
                       'native': violation.get('plain'), 'inputs': violation['inputs'],
                       'replay': 'python3-vt -m symx.replay ' + rp}, f, indent=1)
        print('%s: [%s] %s' % (pid, violation['part'], violation['msg']))
        print('native run: %s' % (violation.get('plain') or {}).get('msg'))
        print('inputs: %s' % json.dumps(violation['inputs'])[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    else:
        for k in listed.values():
            if k['id'] in known:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
        if mismatches:
            rc = 3
            for c, r in mismatches[:5]:
                print('MISMATCH part=%s inputs=%s\n  symbolic %s\n  native   %s %s %s' % (
                    c['part'], json.dumps(c['inputs']), json.dumps(c.get('obs')), r['outcome'],
                    json.dumps(r.get('obs')), r.get('msg')))
        if problems:
            rc = rc or 2
            for x in list(dict.fromkeys(problems))[:15]:
                print('NO VERDICT: ' + x)
        if missing:
            rc = rc or 3
            print('VACUOUS: never reached: ' + ', '.join(missing))
    info = getattr(h, 'INFO', {})
    level = info.get('level', 'model_checking')
    cov = {
        'explanation': 'Symbolic execution of the current /repo source, all paths within the bounds; a path is a '
                       'state, a symbolic branch decided by the finite-domain procedure or Z3 is a transition.',
        'states': stats.paths, 'transitions': stats.branches, 'traces_validated_against_impl': validated,
        'evaluations': stats.paths, 'distinct_nontrivial': stats.paths - stats.aborted,
        'rule': 'one case per feasible path (distinct by its branch decisions); paths excluded by an assumption are '
                'not counted as non-trivial',
        'samples': [{'part': s['part'], 'inputs': s['inputs'], 'observed': s.get('obs')} for s in samples[:6]],
        'exhaustive': rc == 0,
        'paths': stats.paths, 'paths_excluded_by_assumption': stats.aborted, 'forks': stats.forks,
        'assertions': stats.asserts, 'assertions_by_z3': stats.asserts_solver, 'z3_queries': stats.queries,
        'solver_s': round(stats.solver_s, 2), 'functions_encoded': encoded(executed),
        'parts': {k: {'paths': v[0], 'cpu_s': round(v[1], 1)} for k, v in pstats.items()},
        'reached': sorted('%s/%s' % x for x in reached),
        'enumerated_calls': conc,
        'bounds': info.get('bounds', ''),
        'outside': info.get('outside', ''),
        'known_findings_seen': sorted(known),
        'undecided': sorted(set(problems))[:20],
    }
    out = {'property': pid, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed, 'level': level,
           'coverage': cov, 'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2),
           'violations': 1 if violation else 0}
    if a.part is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(out, f, indent=1, default=str)
    print('%s %s: %d paths (%d excluded), %d branches, %d assertions (%d by solver), %d queries, solver %.1fs, '
          '%d validated natively, wall %.1fs -> %s' % (
              pid, a.tier, stats.paths, stats.aborted, stats.branches, stats.asserts, stats.asserts_solver,
              stats.queries, stats.solver_s, validated, wall,
              {0: 'held', 1: 'VIOLATED', 2: 'no verdict', 3: 'machinery error'}[rc]))
    if a.verbose:
        for k, v in pstats.items():
            print('  part %s: %d paths, %.1f cpu s' % (k, v[0], v[1]))
        if conc:
            print('  enumerated calls: %s' % conc)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'symx.run'] + sys.argv[1:])
    main()
