"""C26: the indexed chart and the bucket queue behave like plain maps under every operation sequence."""
from itertools import product
from mc.core import require
from mc.syn import T
from mc.terms import *

LEVEL = 'model_checking'
RULE = ('every sequence of updates (new item / changed weight) and lookups (all binding patterns, finished or abandoned) of length 5 (thorough 6) '
        'on the real chart index, and of set / delete / pop / iterate / member on the real bucket queue (length 6, thorough 7), against a dictionary; state = stored contents')
ASSUMPTIONS = ['the chart is not modified while one of its lookups is suspended (the solver never does)']
CASE_LIMIT = 300

ITEMS = [T(s) for s in ['q(1,1)', 'q(1,2)', 'q(2,1)', 'q(f(1),2)', 'p(1)', 'q(1,1)']]
QUERIES = [T(s) for s in ['q(X,Y)', 'q(1,Y)', 'q(X,2)', 'q(X,X)', 'q(1,2)', 'q(f(X),Y)', 'p(X)']]
NOPS = len(ITEMS) + len(QUERIES)

def groups(tier):
    yield 'chart', [(a, b) for a in range(NOPS) for b in range(NOPS)]
    yield 'patterns', [(i,) for i in range(1 << 6)]
    yield 'queue', [(a, b) for a in range(len(QOPS)) for b in range(len(QOPS))]

def deep():
    import os
    return os.environ.get('MC_TIER') == 'thorough'

def lookup(c, q, model):
    env = {}
    d = to_dyna(q, env)
    inv = {id(v): n for n, v in env.items()}
    got = sorted((repr(from_dyna(d, dict(inv))), v) for v in c[d])
    want = sorted((repr(k), v) for k, v in model.items() if match(q, k) is not None)
    require(got == want, 'lookup', show(q), 'gives', got, 'want', want)
    require(from_dyna(d, dict(inv)) == q, 'lookup leaves its variables bound', show(q))
    return got

def chart_class():
    from dyna import Program
    return type(Program('').solver().chart)

def check(group, case, st):
    if group == 'chart':
        C = chart_class()
        for rest in product(range(NOPS), repeat=4 if deep() else 3):
            seq = case + rest
            c = C(); model = {}
            for i, op in enumerate(seq):
                if op < len(ITEMS):
                    t = ITEMS[op]
                    c[to_dyna(t, {})] = model[t] = 1.5 + i
                else: st.outcome((lookup(c, QUERIES[op - len(ITEMS)], model), op))
            lookup(c, QUERIES[0], model); lookup(c, QUERIES[1], model)
            require(sorted((repr(from_dyna(k)), v) for k, v in c.items()) == sorted((repr(k), v) for k, v in model.items()), 'contents')
            st.step(len(seq)); st.trace()
            st.state((frozenset(model), frozenset(o for o in seq if o >= len(ITEMS))))
    elif group == 'patterns':
        # all subsets of six stored items, looked up under every pattern, before and after the index exists; lookups nested and abandoned
        alpha = [T(s) for s in ['r(1,1,1)', 'r(1,2,1)', 'r(2,2,1)', 'r(f(1),1,2)', 'r(2,1,f(2))', 's']]
        items = [alpha[i] for i in range(6) if case[0] >> i & 1]
        X, Y, Z = V('X'), V('Y'), V('Z')
        args = [X, Y, Z, 1, 2, ('f', X), ('f', 1)]
        pats = [('r', a, b, c) for a in args for b in args for c in args] + [('s',), ('r', 1), ('t', X)]
        c = chart_class()(); model = {}
        for i, t in enumerate(items): c[to_dyna(t, {})] = model[t] = 2.0 + i
        for q in pats:
            lookup(c, q, model)
            d = to_dyna(q, {})
            it = iter(c[d]); next(it, None)
            # a second lookup while the first is suspended, then the first is dropped
            lookup(c, ('r', 1, Y, Z), model); lookup(c, q, model)
            it.close()
            require(variant(from_dyna(d), q), 'an abandoned lookup leaves variables bound', show(q))
            st.step(4); st.trace()
        for i, t in enumerate(items): c[to_dyna(t, {})] = model[t] = 7.0 + i
        for q in pats: lookup(c, q, model)
        st.state(items); st.outcome(items)
    else:
        queue(case, st)

QOPS = [('set', k, p) for k in 'abc' for p in (0, 2, 5)] + [('del', 'a'), ('del', 'b'), ('pop',), ('next',)]

def queue(case, st):
    from dyna.util.bucket_queue import BucketQueue
    for rest in product(range(len(QOPS)), repeat=4 if deep() else 3):
        q = BucketQueue(); m = {}; it = None
        for o in case + rest:
            op = QOPS[o]
            if op[0] == 'set': q[op[1]] = op[2]; m[op[1]] = op[2]
            elif op[0] == 'del':
                try: del q[op[1]]; ok = True
                except KeyError: ok = False
                require(ok == (op[1] in m), 'delete', op); m.pop(op[1], None)
            elif op[0] == 'pop':
                if not m: continue
                x, p = q.popitem()
                require(m.get(x) == p == min(m.values()), 'pop gives', x, p, 'of', m); del m[x]
            else:
                if not m: continue
                if it is None: it = q.items()
                try: x, p = next(it)
                except StopIteration: it = q.items(); x, p = next(it)
                require(m.get(x) == p == min(m.values()), 'iteration gives', x, p, 'of', m); del m[x]
            for k in 'abc':
                require((k in q) == (k in m), 'membership', k)
                if k in m: require(q[k] == m[k], 'priority of', k)
            require(len(q) == len(m), 'length')
            st.step()
        st.state(sorted(m.items())); st.trace()
        out = list(q.items())
        require(sorted(out) == sorted(m.items()) and [p for _, p in out] == sorted(m.values()), 'drained', out, m)
        st.outcome(out)
