"""
Exploration engine shared by every check.

A property module (mc/props/<id>.py) exports

    LEVEL    evidence level ('model_checking' | 'exploration' | 'fault_enumeration')
    RULE     one sentence: how the cases are made and what a non-trivial one is
    groups(tier) -> iterable of (group name, sequence of JSON-able cases)
    check(group, case, st) -> None, or raises Violation

The engine enumerates *every* case of every group (never a sample), runs them on
the real code in forked workers, each under a CPU-time watchdog, and turns any
Violation / unexpected exception / hang into a replayable counterexample.
"""
import os, sys, json, time, signal, traceback, hashlib, resource, importlib
import multiprocessing as mp
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = float(os.environ.get('MC_SLOW', '0'))
NPROC = int(os.environ.get('MC_PROCS', '8'))


class Violation(Exception):
    "The property is broken by this case."


class Unsupported(Exception):
    "Outside the domain the property speaks about (counted, never silent)."


class Hang(BaseException):
    pass


def require(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m() if callable(m) else m) for m in msg))


class Stats:
    """Counters of one run; mergeable.  `states` are kept as digests, so that the
    number reported is the number of *distinct* states."""
    def __init__(self):
        self.c = Counter()
        self.states = set()
        self.outcomes = set()
        self.samples = []

    def state(self, x):
        self.states.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def outcome(self, x):
        self.outcomes.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def step(self, n=1): self.c['transitions'] += n
    def trace(self, n=1): self.c['traces'] += n
    def count(self, k, n=1): self.c[k] += n

    def merge(self, o):
        self.c.update(o.c); self.states |= o.states; self.outcomes |= o.outcomes
        self.samples = (self.samples + o.samples)[:12]


def _alarm(sig, frm):
    raise Hang()


class _Slow(BaseException): pass

def limited(seconds, fn):
    "fn(), or Unsupported if it takes longer than this much CPU time (for calls whose termination is not promised)"
    def h(*_): raise _Slow()
    old = signal.signal(signal.SIGVTALRM, h)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try: return fn()
    except _Slow: raise Unsupported('no answer in time')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_case(mod, group, case, st, limit):
    """Returns None, or (kind, message)."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            mod.check(group, case, st)
            return None
        except Unsupported as e:
            st.count('outside_domain')
            st.count(f'outside_domain[{group}]')
            return None
        except Violation as e:
            return ('violation', str(e))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ('hang', f'no answer within {limit} s of CPU time')
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = traceback.format_exc().strip().splitlines()
        return ('exception', f'unexpected {type(e).__name__}: {str(e)[:300]} | ' + ' / '.join(x.strip() for x in tb[-7:-1]))


def quiet():
    # code under test prints progress; keep the report channel clean
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def _worker(modname, tier, w, nw, conn, deadline, stop, maxviol, ctr):
    quiet()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(4000)
    mod = importlib.import_module(modname)
    limit = getattr(mod, 'CASE_LIMIT', 20)
    st = Stats(); viol = []; capped = Counter(); ncases = Counter()
    per_group = Counter()
    def claim():
        "the next case nobody has taken yet (every case is taken exactly once)"
        with ctr.get_lock():
            ctr.value += 1
            return ctr.value - 1
    i = -1; mine = claim()
    for group, cases in mod.groups(tier):
        for case in cases:
            i += 1
            if i != mine: continue
            mine = claim()
            if time.time() > deadline or stop.is_set():
                capped[group] += 1
                continue
            if per_group[group] >= maxviol:
                capped[group] += 1
                continue
            ncases[group] += 1
            tc = time.process_time()
            r = run_case(mod, group, case, st, limit)
            if SLOW and time.process_time() - tc > SLOW: print(f'slow {time.process_time()-tc:.1f}s {group} {case}', file=sys.stderr, flush=True)
            if ncases[group] <= 1 and w < 3 and len(st.samples) < 12:
                st.samples.append({'group': group, 'case': case})
            if r is not None:
                per_group[group] += 1
                viol.append((i, group, case, *r))
                if len(viol) >= maxviol: stop.set()
    conn.send((st, viol, dict(capped), dict(ncases)))
    conn.close()


def load_known(pid):
    fn = os.path.join(ROOT, 'known_findings.jsonl')
    out = {}
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or not line.startswith('{'): continue
            d = json.loads(line)
            if d['property'] == pid and d['status'] == 'known':
                out[(d['group'], json.dumps(d['case']))] = d['what']
    return out


def run(pid, tier, wall=None, maxviol=None):
    t0 = time.time()
    os.environ['VERIF_TIER'] = os.environ['MC_TIER'] = tier
    modname = f'mc.props.{pid.lower()}'
    mod = importlib.import_module(modname)
    wall = wall or getattr(mod, 'WALL', {}).get(tier, 700 if tier == 'quick' else 6 * 3600)
    maxviol = maxviol or int(os.environ.get('MC_MAXVIOL', '3'))
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    known = load_known(pid)
    if known: maxviol = maxviol + len(known)
    procs = []
    nw = getattr(mod, 'PROCS', NPROC)
    ctr = ctx.Value('q', 0)
    for w in range(nw):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(modname, tier, w, nw, b, t0 + wall, stop, maxviol, ctr))
        p.start(); b.close()
        procs.append((w, p, a))
    st = Stats(); viol = []; capped = Counter(); ncases = Counter(); dead = []
    for w, p, a in procs:
        try:
            s, v, c, n = a.recv()
            st.merge(s); viol += v; capped.update(c); ncases.update(n)
        except EOFError:
            dead.append(w)
        p.join()
    viol.sort(key=lambda v: v[0])
    if dead and not viol:
        # a worker died (crash of native code / out of memory): that is no verdict
        print(f'ERROR: workers {dead} died', flush=True)
        return 2
    final = []; known_hit = []
    confirmed = {}
    for (i, group, case, kind, msg) in viol:
        key = (group, json.dumps(case))
        if key in known:
            known_hit.append((group, case, known[key], msg)); continue
        if kind == 'hang':
            # a hang counts only if it repeats, alone, with three times the time
            # (decided once per group: a divergent loop shows on the first case)
            if confirmed.get(group) is None:
                confirmed[group] = replay_again(pid, tier, group, case)
            if not confirmed[group]:
                st.count('slow_cases'); continue
        final.append((group, case, kind, msg))
    cov = dict(
        evaluations=sum(ncases.values()),
        distinct_nontrivial=len(st.outcomes) or len(st.states),
        states=len(st.states),
        transitions=st.c['transitions'],
        traces_validated_against_impl=st.c['traces'],
        rule=mod.RULE,
        samples=st.samples,
        exhaustive=not capped,
        cases_per_group=dict(ncases),
        capped=dict(capped),
        distinct_outcomes=len(st.outcomes),
        counters={k: v for k, v in sorted(st.c.items()) if k not in ('transitions', 'traces')},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(final))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for g, c, what, msg in known_hit:
        print(f'KNOWN-FINDING: property={pid} {what}', flush=True)
    print(f'{pid} [{tier}]: cases={cov["evaluations"]} states={cov["states"]} transitions={cov["transitions"]} '
          f'traces={cov["traces_validated_against_impl"]} outcomes={cov["distinct_outcomes"]} '
          f'exhaustive={cov["exhaustive"]} counters={cov["counters"]} wall={ev["wall_s"]}s', flush=True)
    if not sum(ncases.values()):
        print('ERROR: nothing explored'); return 2
    if not final: return 0
    for n, (group, case, kind, msg) in enumerate(final[:int(os.environ.get('MC_SHOW', '10'))]):
        path = os.path.join(ROOT, 'evidence', 'replay', f'{pid}-{n}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, group=group, case=case, kind=kind, message=msg,
                           how=f'./check {pid} --replay {path}'), f, indent=1, default=str)
        print(f'  [{kind}] group={group} case={json.dumps(case, default=str)[:600]}\n     {msg[:1500]}', flush=True)
        print(f'VIOLATION property={pid} replay={path}', flush=True)
    return 1


def replay_again(pid, tier, group, case):
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(duplex=False)
    def go():
        quiet()
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        mod = importlib.import_module(f'mc.props.{pid.lower()}')
        b.send(run_case(mod, group, case, Stats(), 3 * getattr(mod, 'CASE_LIMIT', 20)))
    p = ctx.Process(target=go); p.start(); b.close()
    try: r = a.recv()
    except EOFError: r = ('crash', '')
    p.join()
    return r is not None


def tupled(x):
    "JSON lists back to tuples (cases are made of tuples)"
    if isinstance(x, list): return tuple(tupled(y) for y in x)
    if isinstance(x, dict): return {k: tupled(v) for k, v in x.items()}
    return x


def replay(pid, path):
    d = json.load(open(path))
    os.environ['VERIF_TIER'] = os.environ['MC_TIER'] = d.get('tier', 'quick')
    mod = importlib.import_module(f'mc.props.{pid.lower()}')
    r = run_case(mod, d['group'], tupled(d['case']), Stats(), 3 * getattr(mod, 'CASE_LIMIT', 20))
    if r is None:
        print('replay: the property holds on this case'); return 0
    print(f'replay: [{r[0]}] {r[1]}')
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def main(argv):
    pid = argv[0]
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    if '--quick' in argv: tier = 'quick'
    return run(pid, tier)
