"""C31: interrupting a computation at any point leaves a sound partial answer and intact programs."""
import sys, signal, gc, os, re
from itertools import islice
from mc.core import Violation, Unsupported, require
from mc.terms import *
from mc.ref import *
from mc.sr import *
from mc.dynaio import *

LEVEL = 'fault_injection_exhaustive'
RULE = ('for every program of a list x every operation (both solvers, the two-pass solver, naive and agenda evaluation, query, transformations, analyses) the operation is interrupted at EVERY point at which the interpreter delivers signals '
        '(entry or resumption of every Python function, return of every C function): a Timeout (as the budget alarm raises it) and a KeyboardInterrupt; afterwards the partial chart is compared with the complete one, '
        'flags and queries are checked, every program involved must be unchanged with all its variables unbound, and the same operation is run again to completion on the same programs; state = partial chart')
ASSUMPTIONS = ['signals are delivered at function entries, generator resumptions and returns of C functions (CPython evaluation breaker); loop back-edges lie between such points',
               'partial values are compared in the natural order of the semiring (nonnegative reals, min-plus, max-times, Boolean)']
CASE_LIMIT = 400

PROGRAMS = [
    # name, rules, data, semiring, outputs, deep only
    ('path', 'p(X,Y) += e(X,Y). p(X,Z) += p(X,Y) * e(Y,Z).', 'e(1,2). e(2,1) += 0.5.', 'maxtimes', 'p(X,Y)', 0),
    ('sum', 'a += b(X) * c(X,X). b(X) += d(X) * d(X). c(X,Y) += b(X) * d(Y).', 'd(1) += 2.', 'float', 'a', 0),
    ('geo', 'x += 0.1 * x * x. x += k(1). y += x * k(X).', 'k(1).', 'float', 'y', 0),
    ('struct', 'q(f(X)) += n(X) * (X < 3). r(X) += q(f(X)) * (Z is X + 1) * n(Z).', 'n(1). n(2) += 2.', 'float', 'r(X)', 0),
    ('nonground', 'u(X,f(Y)) += v(X,Y). v(X,Y) += t(X). z += u(1,f(2)) * v(1,1).', 't(1) += 2.', 'float', 'z', 0),
    ('bool', 'm(X) :- m(Y), e(Y,X). m(1). g :- m(3), m(2).', 'e(1,2). e(2,3). e(3,2).', 'bool', 'g', 0),
    ('tiny', 'a(X) += b(X) * c. c += b(X).', 'b(1) += 2.', 'float', 'a(X)', 0),
    ('path3', 'p(X,Y) += e(X,Y). p(X,Z) += p(X,Y) * e(Y,Z).', 'e(1,2). e(2,3). e(3,1) += 0.5. e(1,3) += 0.25.', 'maxtimes', 'p(X,Y)', 1),
    ('sum3', 'a += b(X) * c(X,Y). b(X) += d(X) * d(X). c(X,Y) += b(X) * d(Y).', 'd(1) += 2. d(2) += 3. d(3).', 'float', 'a', 1),
]

OPS_ = ['solver', 'solver2', 'solver+data', 'scc', 'scc-magic', 'fc', 'agenda', 'query', 'unfold', 'elim', 'folds', 'lct', 'prune', 'types', 'abbreviate', 'binarize', 'magic', 'derivations']

def groups(tier):
    deep = tier != 'quick'
    tiny = [x[0] for x in PROGRAMS].index('tiny')
    for i, prog in enumerate(PROGRAMS):
        if prog[5] and not deep: continue
        for o in OPS_:
            solver = o in ('solver', 'solver2')
            if not deep and not solver and i != tiny and not (o in ('unfold', 'elim', 'folds', 'binarize') and prog[0] in ('struct', 'bool')): continue
            if not deep and o in ('scc-magic', 'prune', 'magic') or o in ('scc-magic', 'prune') and i != tiny: continue
            if not deep and o == 'solver2' and prog[0] == 'geo': continue
            for exc in ('timeout', 'kbd'):
                if exc == 'kbd' and not (solver and (deep or i == tiny)): continue
                blocks = 8 if not deep else 32
                yield 'interrupt', [(i, o, exc, k, blocks) for k in range(blocks)]
    yield 'alarm', [(i, s) for i in range(len(PROGRAMS)) for s in ('solver', 'solver2', 'call')]

# ---------------------------------------------------------------- injection
class Point:
    "raise at the n-th delivery point"
    def __init__(self, n, exc): self.n = n; self.k = 0; self.fired = False; self.exc = exc
    def __call__(self, frame, event, arg):
        if event == 'call' or event == 'c_return':
            if self.fired or not armed(): return
            if '/dyna/' not in frame.f_code.co_filename or pure(frame) and (event != 'call' or pure(frame.f_back)): return
            self.k += 1
            if self.k == self.n:
                self.fired = True
                sys.setprofile(None)
                if not isinstance(self.exc, KeyboardInterrupt): disarm()     # the alarm has gone off
                raise self.exc
    def run(self, fn):
        "-> (value, exception)"
        sys.setprofile(self)
        try: return fn(), None
        except (KeyboardInterrupt, _Timeout()) as e:
            sys.setprofile(None)
            r = repr(e); del e
            return None, r
        finally: sys.setprofile(None)

def pure(frame):
    "traversals of terms keep no state: an interruption inside is one at their entry"
    c = frame.f_code
    return c.co_filename.endswith('/dyna/term.py') and c.co_name not in ('unify', 'unifyN', '__call__', 'add')

def _Timeout():
    from arsenal.robust import Timeout
    return Timeout

# ---------------------------------------------------------------- programs and operations
def build(i):
    from dyna import Program
    name, src, data, sr, out, _ = PROGRAMS[i]
    rules = Program(src, inputs='', outputs=out + '.')
    d = Program(data)
    if sr != 'float': rules = rules.lift_semiring(OPS[sr].cls); d = d.lift_semiring(OPS[sr].cls)
    return rules + d, rules, d

class ALARM: on = False      # operations without a budget

def armed(): return ALARM.on or signal.getitimer(signal.ITIMER_REAL)[0] > 0
def disarm(): signal.setitimer(signal.ITIMER_REAL, 0); ALARM.on = False

def operation(o, p, rules, d):
    "-> (fn, kind)"
    from dyna import Program
    if o == 'solver': s = p.solver(); return (lambda kill=False: s(budget=1000, throw=False, kill=kill)), s
    if o == 'solver2': s = p.solver2(); return (lambda kill=False: s(budget=1000, throw=False, kill=kill)), s
    if o == 'solver+data': s = rules.solver() if True else None; return (lambda kill=False: s(d, budget=1000, throw=False, kill=kill)), s
    f = {
        'scc': lambda: p.scc_solver().sol(),
        'scc-magic': lambda: p.scc_solver(magic=True).sol(),
        'fc': lambda: p.fc(),
        'agenda': lambda: p.agenda(),
        'query': lambda: p.user_query(str(list(p.outputs)[0].head)),
        'unfold': lambda: [attempt(lambda: p.unfold(a, b)) for a, r in enumerate(p.rules) for b in range(len(r.body))],
        'elim': lambda: [attempt(lambda: p.elim(a)) for a in range(len(p))],
        'folds': lambda: [attempt(lambda: [q for q in q_folds(p)])],
        'lct': lambda: [attempt(lambda: p.lct({(a, 0)}, x=r.body[0])) for a, r in enumerate(p.rules) if r.body and isterm(from_dyna(r.body[0], {}))][:2],
        'prune': lambda: p.prune(),
        'types': lambda: attempt(lambda: repr(p.type_analysis(''))),
        'abbreviate': lambda: attempt(lambda: p.abbreviate()),
        'binarize': lambda: p.binarize(),
        'magic': lambda: p.magic_templates(),
        'derivations': lambda: [str(x.head) for x in islice(p.derivations_agenda(), 15)],
    }[o]
    def go(kill=False):
        ALARM.on = True
        try: return f()
        finally: ALARM.on = False
    return go, None

def attempt(f):
    try: return f()
    except (AssertionError, ValueError, NotImplementedError) as e: return type(e).__name__

def q_folds(p):
    from dyna import Program
    return list(p.folds_by(list(p.rules)[0]))

def bound(p):
    out = []
    for r in list(p.rules):
        for t in (r.head, *r.body): walkvars(t, out)
    return out

def walkvars(t, out):
    from dyna.term import Var, Term
    if isinstance(t, Var):
        if t.is_bound(): out.append(t)
    elif isinstance(t, (Term, tuple, list)):
        for x in (t.args if isinstance(t, Term) else t): walkvars(x, out)

def snapshot(ps): return [str(p) for p in ps]

def answers(s, ops): return {k: v for k, v in chart_of(s.sol(), ops).items() if not str(k[0]).startswith('$')}

def gensyms(x): return re.sub(r'\$(gen|g)\d+', r'$\1', x)

def canonical(x):
    from dyna import Program
    if isinstance(x, Program): return ('P', tuple(sorted(gensyms(show(rename(('r', r[0], *r[1])))) for r in rules_of(x))))
    if isinstance(x, (list, tuple)): return tuple(canonical(y) for y in x)
    return gensyms(repr(x)) if isinstance(x, (int, str, float, type(None), bool)) else type(x).__name__

def check(group, case, st):
    if group == 'alarm': return alarm(case, st)
    i, o, kind, block, blocks = case
    Timeout = _Timeout()
    name, src, data, sr, out, _ = PROGRAMS[i]
    ops = OPS[sr]
    p, rules, d = build(i)
    fn, s = operation(o, p, rules, d)
    old = signal.getsignal(signal.SIGALRM)
    try: want = fn()
    except Exception as e:
        if type(e).__name__ in ('InstFault', 'SolverLimitation') or isinstance(e, (AssertionError, NotImplementedError)): raise Unsupported(f'{o} refuses {name}: {type(e).__name__}')
        raise
    finally: disarm(); signal.signal(signal.SIGALRM, old)
    full = answers(s, ops) if s is not None else None
    canon0 = canonical(want)
    p, rules, d = build(i)
    before = snapshot((p, rules, d))
    hook = sys.unraisablehook; sys.unraisablehook = lambda *a: None
    try: sweep(locals(), st)
    finally: sys.unraisablehook = hook; disarm(); signal.signal(signal.SIGALRM, old)

def sweep(L, st):
    i, o, kind, block, blocks, p, rules, d, before, full, canon0, ops, name = [L[k] for k in 'i o kind block blocks p rules d before full canon0 ops name'.split()]
    Timeout = _Timeout()
    n = block + 1
    while True:
        p, rules, d = build(i)
        fn, s = operation(o, p, rules, d)
        exc = Timeout('injected') if kind == 'timeout' else KeyboardInterrupt()
        pt = Point(n, exc)
        where = lambda: f'{o} of program {name} interrupted ({kind}) at point {n}'
        disarm()
        val, raised = pt.run(fn)
        require(not armed(), lambda: f'{where()}: the alarm stays armed')
        disarm()
        exc.__traceback__ = None
        del exc
        st.step()
        left = [str(v) for q in (p, rules, d) for v in bound(q)]
        require(not left, lambda: f'{where()}: variables stay bound: {left}')
        after = snapshot((p, rules, d))
        require(after == before, lambda: f'{where()}: the program changed from {before} to {after}')
        if not pt.fired:
            st.trace(); return
        if s is not None:
            part = answers(s, ops)
            sound(part, full, ops, where)
            st.state((i, o, sorted((show(k), repr(v)) for k, v in part.items())))
            done = diff(full, part, ops) is None
            if not s.interrupted: require(done, lambda: f'{where()}: not marked as interrupted although the chart is incomplete')
            require(raised is None, lambda: f'{where()}: throw=False, but {raised} was raised')
            # an interrupted solver answers queries from what it has
            if s.interrupted:
                for q in ('zzz(X)', 'p(X,Y)', 'b(X)', 'q(X)', 'x'):
                    from dyna import term
                    ans = chart_of(s.user_query(term(q)), ops)
                sound(answers(s, ops), part, ops, lambda: where() + ', then queried')
                sound(part, answers(s, ops), ops, lambda: where() + ', then queried')
        # the programs are as good as new
        fn2, s2 = operation(o, p, rules, d)
        v2 = fn2()
        if s2 is not None:
            e = diff(full, answers(s2, ops), ops)
            require(e is None and not s2.interrupted, lambda: f'{where()}; a new run on the same program gives {e}')
        else:
            c = canonical(v2)
            require(c == canon0, lambda: f'{where()}; repeating it on the same program gives {c} instead of {canon0}')
        n += blocks

def sound(part, full, ops, where):
    for k, v in part.items():
        w = value_at(full, k, ops) if not tvars(k) else full.get(k, ops.zero)
        require(ops.close(ops.plus(v, w), w, 1e-6) if not ops.isfloat else v <= w * (1 + 1e-9) + 1e-9,
                lambda: f'{where()}: the partial chart has {show(k)} = {v}, more than its value {w}')

def alarm(case, st):
    "the budget ends with the call, however the call ends"
    i, o = case
    from dyna import Program, Rule, InstFault
    from arsenal import robust
    old = signal.getsignal(signal.SIGALRM)
    try:
        p, rules, d = build(i)
        for end in ('finished', 'timeout', 'kbd', 'error'):
            for throw, kill in ((True, False), (False, False), (False, True), (True, True)):
                p, rules, d = build(i)
                s = getattr(p, o if o != 'call' else 'solver')()
                exc = {'finished': None, 'timeout': robust.Timeout('injected'), 'kbd': KeyboardInterrupt(), 'error': InstFault('injected')}[end]
                seen = []
                def run():
                    seen.append(signal.getitimer(signal.ITIMER_REAL)[0])
                    if end == 'timeout': disarm()
                    if exc is not None: raise exc
                s._forward_chaining = run
                raised = None
                try: s(budget=1000, throw=throw, kill=kill)
                except BaseException as e: raised = e
                what = lambda: f'{o} of {PROGRAMS[i][0]}, budget=1000, ended by {end} (throw={throw}, kill={kill})'
                require(len(seen) == 1 and 900 < seen[0] <= 1000, lambda: f'{what()}: the timer was set to {seen}')
                require(not armed(), lambda: f'{what()}: the alarm stays armed')
                require(s.interrupted == (end in ('timeout', 'kbd')), lambda: f'{what()}: interrupted={s.interrupted}')
                must = end == 'error' or end == 'timeout' and throw or end == 'kbd' and kill
                require((raised is not None) == must, lambda: f'{what()}: raised {raised!r}')
                st.step(); st.state((i, o, end, throw, kill))
        st.trace()
    finally:
        disarm(); signal.signal(signal.SIGALRM, old)
