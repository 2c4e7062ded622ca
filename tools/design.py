"Development tool: puts DESIGN.md together from doc/head.md, the properties and modules, the seeded bugs and doc/tail.md."
import ast, json, glob, os
EXTRA = {
'C01': ('Robinson unification and an explicit binding trail', 'terms of depth ≤ 2 over a signature of 8 symbols: ~every pair; nested sequences of ≤ 3 equations × every place to abandon, exhaust or raise', 'the undo discipline depends on *where* a generator is abandoned, which tests do not vary'),
'C02': ('sets of ground instances and reference matching', 'all ordered pairs of depth-2 terms, with shared and renamed-apart variables, behind bound variables; conjunctions of ≤ 3 literals', 'aliasing patterns are combinatorial'),
'C03': ('the specification of each collection (antichain / disjoint partition / first-come cover) recomputed from the sequence of additions', 'all sequences of ≤ 4 (5) additions', 'order of insertion'),
'C05': ('structural comparison up to renaming; an independent precedence-climbing parser for operator sequences', 'every nesting of two operators in every position, every rule/program of the alphabets, every layout variant', 'pairs of operators × positions'),
'C06': ('reference least fixpoint; termination', 'all programs of ≤ 3 of 19 rules × data × semirings × schedules with ≤ 1 (3) departures from FIFO + LIFO + the default heap; several loads', 'agenda order, load order, duplicate counting appear only for particular programs × schedules'),
'C07': ('reference nonground fixpoint compared at every ground instance', 'all programs of ≤ 3 of 19 nonground rules × data × schedules', 'subsumption between driver and chart items'),
'C08': ('reference least fixpoint', '7 strategies × all programs of ≤ 2 (3) rules × data × semirings', 'each strategy re-implements the fixpoint'),
'C09': ('reference answers of the declared outputs', 'programs × outputs × data × {magic, no magic} × chainers × semirings', 'goal patterns and component orders are combinatorial'),
'C10': ('independent unification of the query with the list of chart entries', 'all charts of ≤ 3 (4) entries × all patterns; two suspended queries under every interleaving and abandonment', 'suspended generators share binding state'),
'C11': ('reference fixpoint before/after', 'every subgoal of every rule; every second unfold', ''),
'C12': ('reference fixpoint of every reachable state of a transformation history', 'explicit-state search over unfold / megafold / reversible fold with the definitions of any program of the history, depth 2–3', 'safety of folding is a property of histories'),
'C13': ('reference fixpoint before/after', 'every rule eliminated; two in a row', ''),
'C14': ('reference fixpoint before/after', 'every admissible set of slashed positions × every divisor', ''),
'C15': ('reference fixpoint before/after', 'every admissible set of left-corner positions × every divisor', ''),
'C16': ('reference fixpoint before/after + syntactic normal forms', 'every rewrite, every pair of rewrites', ''),
'C17': ('reference outputs on the data set that labels *all* admissible facts', 'every pruning and specialising transformation × typed declarations × outputs', 'soundness is about all conforming data'),
'C18': ('same as C17, plus comparison of declarations and of later pruning', 'both analysis modes × two depth limits', 'same'),
'C19': ('reference derivable items for every interpretation of the type parameters', 'all interpretations over {1,2} ({1,2,3} for single rules) satisfying the constraint rules', 'soundness is about all interpretations'),
'C20': ('exhaustively unrolled ground firings', 'nodes, edges, hyperedges, cyclicity, expansiveness, components and their programs, input-independent part', 'soundness is about all data'),
'C21': ('counts of items, answers per mode and firings by the reference evaluator', 'every interpretation of the parameters; every query mode of every inferred type', 'a bound has to hold for all sizes'),
'C22': ('derivation trees built from the definition', 'all programs × data × strategies × height bounds × orders of children', ''),
'C23': ('independent enumeration of derivations on both sides', 'all transformations and their compositions', ''),
'C24': ('a program freshly built from the predicted rules', 'all edit sequences with every placement of queries (which fill caches)', 'stale caches need particular orders of edits and queries'),
'C25': ('canonical forms over all permutations and renamings', 'all pairs', ''),
'C26': ('a dictionary', 'all operation sequences up to length 5–7', 'lazily built indexes go stale for particular orders'),
'C27': ('definitions by paths (BFS, matrix closure, Bellman iteration)', 'all digraphs of ≤ 4 nodes with every root set (≤ 3 nodes), all weighted graphs of ≤ 3 nodes, all small hypergraphs', ''),
'C28': ('the mathematical relation over a finite universe', 'every operator × every mode × every tuple; every subgoal order', ''),
'C29': ('least model of the Horn theory for every assignment', 'every conjunction of ≤ 3 atoms × theories × every written order × controlled agenda orders; all pairs of types', 'confluence is a statement about orders'),
'C30': ('reference equivalence of every reached program with the start; exhaustive search of the same graph', 'the state graph of the real search under every greedy/FIFO decision sequence of bounded length, each family of moves', 'which program a search reaches depends on pop order and budget'),
'C31': ('the uninterrupted run', 'every delivery point of a signal × {Timeout, KeyboardInterrupt} × operations × programs', 'a test interrupts at one arbitrary moment'),
'C32': ('reference fixpoint over the mapped weights; homomorphic images', 'positions of weights × programs × data × semirings × ways of supplying data', ''),
}
out = []
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); i = d['id']
    t = ast.parse(open(f'/verif/mc/props/{i.lower()}.py').read())
    v = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'): v[n.targets[0].id] = ast.literal_eval(n.value)
    if i == 'C15':
        t = ast.parse(open('/verif/mc/props/c14.py').read())
        for n in t.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'): v[n.targets[0].id] = ast.literal_eval(n.value).replace('slashed', 'left-corner') if n.targets[0].id == 'RULE' else ast.literal_eval(n.value)
    o, b, w = EXTRA[i]
    out.append(f"### {i} — {d['title']}\n")
    out.append(' '.join(d['statement'].split()) + '\n')
    out.append(f"* **Enumerated:** {v['RULE']}.")
    out.append(f"* **Oracle:** {o}.  **Dimensions:** {b}.")
    if v['ASSUMPTIONS']: out.append('* **Domain and assumptions:** ' + '; '.join(v['ASSUMPTIONS']) + '.')
    if w: out.append(f"* **Beyond tests because:** {w}.")
    out.append('')


rows = ['| seeded bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
caught = json.load(open('/verif/doc/caught.json'))
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| ' + ' | '.join([i, m['property'], m['needs'], m['what_it_breaks'], caught.get(i, '?')]).replace('\n', ' ') + ' |')
C = list(json.load(open('/verif/doc/costs.json')).items()); h = (len(C) + 1) // 2
big = lambda n: str(n) if n < 10000 else f'{n / 1000:.0f} k' if n < 10**6 else f'{n / 10**6:.1f} M'
cell = lambda x: f'| {x[0]} | {big(x[1][0])} | {big(x[1][1])} | {big(x[1][2])} | {x[1][4]:.0f} s ' if x else '| | | | | '
costs = ['| | cases | states | transitions | wall | | cases | states | transitions | wall |', '|---|---|---|---|---|---|---|---|---|---|']
costs += [cell(C[k]) + cell(C[h + k] if h + k < len(C) else None) + '|' for k in range(h)]
open('/verif/DESIGN.md', 'w').write(open('/verif/doc/head.md').read() + '\n' + '\n'.join(out) + '\n' + open('/verif/doc/tail.md').read().replace('@@SEEDS@@', '\n'.join(rows)).replace('@@COSTS@@', '\n'.join(costs)))
