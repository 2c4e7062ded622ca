EX = 'bounded exhaustive enumeration on the real code (explicit-state), against an independent reference'
SC = 'stateless model checking of the real solver under a controlled agenda + exhaustive program enumeration'
BF = 'explicit-state exploration of all operation sequences to a depth, against a reference model'

prop('C01', 'Unification finds the most general unifier and undoes itself on failure',
 '''Unifying two terms succeeds exactly when they have a common instance, leaves behind a most general unifier, and never builds a cyclic term.
    Whatever order the equations arrive in the outcome is the same up to renaming, and when enumeration of the solutions is finished or abandoned every variable is as it was before.''',
 ['inputs', 'histories'], 'all pairs of terms (including shared, already-bound and chained variables), all short sequences of equations, all ways of nesting and abandoning enumerations',
 'tests unify a couple of dozen hand-written pairs; aliasing, occurs-check and trail-restoration errors need particular sharing patterns',
 ['dyna/term.py'], [('unify', 'dyna/term.py'), ('Subst.mgu', 'dyna/term.py'), ('join_f', 'dyna/term.py')],
 EX, 'all term pairs/equation systems up to depth 2 over a small signature; compared with Robinson unification written independently')

prop('C02', 'Subsumption, variants, canonical forms and generalisation match instance sets',
 '''One term covers another exactly when every instance of the second is an instance of the first; two terms (conjunctions, rules) are variants exactly when they differ by a bijective renaming, and canonical forms are equal exactly for variants.
    Renaming apart shares no variable with the original, bound variables are transparent, and a generalisation of terms covers each of them and keeps every agreement between them.''',
 ['inputs'], 'all pairs of terms, of conjunctions of literals and of rules over a small signature, including repeated and shared variables and bound-variable chains',
 'tests use a handful of pairs; errors show only for particular variable-repetition patterns',
 ['dyna/term.py', 'dyna/rule.py'], [('covers/same/canonicalize/fresh/generalizer', 'dyna/term.py'), ('Product.covers, Product.match_comm', 'dyna/term.py'), ('Rule.same', 'dyna/rule.py')],
 EX, 'exhaustive over depth-2 terms and 3-literal conjunctions; oracle is one-way matching on an independent term representation')

prop('C03', 'Subsumption-reduced term collections never lose or duplicate coverage',
 '''A collection of terms maintained by subsumption covers exactly the instances of the terms added to it, keeps no element covered by another, and reports membership accordingly, whatever the order of additions.
    A partitioned collection keeps its cells mutually non-overlapping while covering everything added; a deduplicated stream keeps exactly one representative per variant class.''',
 ['histories', 'inputs'], 'all sequences of additions (all orders, with repetition) of overlapping terms over a small signature',
 'the outcome depends on the order of additions and on overlap patterns; tests add one or two hand-picked lists',
 ['dyna/term.py'], [('MostGeneralSet, NoDupsSet, DisjointEstimate', 'dyna/term.py')],
 BF, 'all addition sequences up to a bounded length over an alphabet of overlapping terms')

prop('C05', 'Printing and re-parsing a program preserves its meaning',
 '''The text printed for a term, rule or program parses back to the same term, rule or program up to renaming of variables (constants, strings, operators, lists, weights, aggregation and declared inputs and outputs included).
    Syntactic sugar means its documented expansion, and layout and comments do not change the parse.''',
 ['inputs', 'programs'], 'all terms and rules over the syntactic constructors up to a bounded depth (operators in every nesting, every constant kind, names that need quoting, anonymous variables)',
 'operator precedence, quoting and anonymous-variable errors need particular nestings; tests parse a fixed list',
 ['dyna/syntax.py', 'dyna/pretty.py', 'dyna/term.py'], [('grammar and Convert', 'dyna/syntax.py'), ('PrettyPrinter', 'dyna/pretty.py')],
 EX, 'all syntax trees to a bounded depth; oracle is an independent tree of what was written')

prop('C06', 'Forward chaining computes the weighted fixpoint on any agenda order',
 '''For every range-restricted program and data set the solver terminates whenever the fixpoint is finite and its final chart is exactly the least fixpoint: each item once, with the sum over all its derivations of the product of their weights.
    This is so in every semiring, for every order in which pending updates are processed, and when data arrive in several loads.''',
 ['programs', 'inputs', 'schedules', 'configurations', 'histories'], 'all small programs x data sets x semirings x agenda schedules x ways of splitting the data',
 'tests run the default priority on a few dozen programs; double counting and lost updates depend on the schedule and on repeated subgoals',
 ['dyna/execute/solver.py', 'dyna/execute/base.py', 'dyna/program.py'], [('Solver.drive/update', 'dyna/execute/solver.py'), ('Chart', 'dyna/execute/solver.py'), ('BaseSolver.__call__', 'dyna/execute/base.py')],
 SC, 'real solver driven by a controlled agenda, all schedules within a deviation bound, provenance polynomials as weights',
 state=[('chart', 'item -> weight'), ('agenda', 'pending items'), ('change', 'accumulated deltas')], observe='final chart of the solver')

prop('C07', 'Nonground forward chaining computes the weighted fixpoint over instances',
 '''When items may contain variables the solver's chart still denotes the least fixpoint: for every ground item the weights of the chart entries that cover it add up to the sum over its derivations, with infinite multiplicity for variables that are summed out.
    This is so for every order in which pending updates are processed and however the data are split into loads.''',
 ['programs', 'inputs', 'schedules', 'configurations'], 'all small programs with nonground heads x data sets x semirings x agenda schedules',
 'partially overlapping chart entries and repeated drivers are hard to hit by hand; tests check a few programs on the default schedule',
 ['dyna/execute/solver2.py', 'dyna/execute/base.py'], [('Solver.drive, drive_join, update', 'dyna/execute/solver2.py')],
 SC, 'as C06 for the nonground solver; charts compared on all ground instances over a finite universe')

prop('C08', 'All evaluation strategies agree on the fixpoint',
 '''Naive iteration, semi-naive iteration, agenda-driven evaluation, Newton's method, the linear-system solver and both forward-chaining solvers return the same weighted set of items for the same program wherever they apply.
    Each equals the least fixpoint in every semiring.''',
 ['programs', 'configurations', 'inputs'], 'all small programs (recursive, nonlinear, nonground, with builtins) x semirings x evaluation strategies',
 'tests compare strategies on single programs; disagreement needs particular repeated subgoals, recursion or semirings',
 ['dyna/program.py', 'dyna/execute/linear.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'], [('Program.fc/step/seminaive/agenda/newton/solve_linear', 'dyna/program.py'), ('kleene_linsolve', 'dyna/execute/linear.py')],
 EX, 'all programs of up to 3 rules of two alphabets; every strategy against an independent fixpoint')

prop('C09', 'Goal-directed and stratified evaluation give the same answers',
 '''Rewriting a program for goal-directed evaluation of a query, and solving it component by component along its dependency graph, produce for every requested output exactly the weighted answers of the original program and never an answer it does not have.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x output declarations x data sets x component orders',
 'which items are demanded depends on binding patterns and on recursion through several components; tests do a few programs',
 ['dyna/program.py'], [('magic_templates', 'dyna/program.py'), ('scc_solver', 'dyna/program.py')], EX, 'outputs compared with the independent fixpoint')

prop('C10', 'Queries return exactly the matching weighted answers and change nothing',
 '''Querying a solved program with any pattern returns exactly the chart entries that match it, each with its weight and with the query's variables bound accordingly, and a query for a value gives the total over matching answers with summed-out variables counted.
    Queries leave the chart and the query's variables as they were, also when several are interleaved or abandoned half way.''',
 ['inputs', 'histories', 'programs'], 'all query patterns (every combination of bound, free and repeated arguments, several subgoals) x charts x interleavings of queries',
 'index choice and variable restoration depend on the binding pattern and on earlier queries; tests use a few patterns',
 ['dyna/execute/base.py', 'dyna/execute/solver.py', 'dyna/program.py', 'dyna/term.py'], [('user_query', 'dyna/execute/base.py'), ('Chart lookup', 'dyna/execute/solver.py'), ('user_lookup, lookup_vals', 'dyna/program.py')], EX, 'all queries over an alphabet and all 2-query interleavings')

prop('C11', 'Unfolding a subgoal preserves the program meaning',
 '''Replacing a subgoal of a rule by the bodies of the rules that define it, for any choice of rule and subgoal, leaves the weighted meaning of every item unchanged, multiplicities included.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x every (rule, subgoal) x data sets, including recursive unfolding, repeated and nonground subgoals, and sequences of two unfolds',
 'tests unfold a few chosen subgoals; errors need self-reference, repeated variables or partially overlapping heads',
 ['dyna/transform/unfold.py', 'dyna/program.py', 'dyna/rule.py'], [('Unfold', 'dyna/transform/unfold.py')], EX, 'before/after compared by the independent evaluator')

prop('C12', 'Folding preserves meaning, and unsafe folds are refused',
 '''A fold that the system accepts as valid, alone or in any sequence of folds and unfolds, leaves the weighted meaning of all original items unchanged; folds that would make a definition depend on itself instead of on its original rules are refused.''',
 ['programs', 'histories', 'inputs'], 'all small programs x all folds with a given or newly introduced definition x sequences of transformations up to a bounded length',
 'unsafe circular folds need particular sequences of individually plausible steps',
 ['dyna/transform/fold.py', 'dyna/transform/measure.py', 'dyna/program.py'], [('Fold', 'dyna/transform/fold.py'), ('safety measure', 'dyna/transform/measure.py'), ('basic_fold', 'dyna/program.py')], EX, 'all bounded transformation sequences; the meaning after each accepted step compared with the original')

prop('C13', 'Eliminating a rule preserves the meaning of the remaining program',
 '''Removing a rule by substituting it into every place that can use it leaves the weighted meaning of every item unchanged.''',
 ['programs', 'inputs'], 'all small programs x every eliminable rule x data sets, including several matching subgoals in one body',
 'needs rules used several times, partial matches or self-uses', ['dyna/transform/rule_elimination.py'], [('RuleElimination', 'dyna/transform/rule_elimination.py')], EX, 'before/after compared by the independent evaluator')

prop('C14', 'The slash (speculation) transformation preserves the original items',
 '''Speculatively transforming a program with respect to any slashed item and any choice of distinguished subgoals leaves the weighted meaning of every original item unchanged.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x slashed item x choice of slashed positions x data sets',
 'tests use a few grammars; errors depend on recursion through slashed positions', ['dyna/transform/slash.py'], [('Slash', 'dyna/transform/slash.py')], EX, 'before/after compared by the independent evaluator')

prop('C15', 'The left-corner transformation preserves the original items',
 '''The generalised left-corner transformation, for any choice of distinguished subgoals and bottom items, leaves the weighted meaning of every original item unchanged.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x left-corner choices x data sets',
 'tests use a few grammars; errors depend on recursion through chosen positions', ['dyna/transform/lct.py'], [('LCT', 'dyna/transform/lct.py')], EX, 'before/after compared by the independent evaluator')

prop('C16', 'Normalising rewrites preserve the program meaning',
 '''Introducing definitions, binarising, folding constants, running builtins early and pushing equations into or out of rules leave the weighted meaning of all original items unchanged, and reach the normal form they promise.''',
 ['programs', 'inputs'], 'all small programs (constants, equations, comparisons, arithmetic, repeated variables, dead bodies) x each rewrite x data sets',
 'corner cases (unused variables, repeated definitions, unsatisfiable bodies) are not in the tests', ['dyna/program.py', 'dyna/rule.py', 'dyna/term.py'], [('binarize/define/constant_folding/snap_unifications/run_builtins', 'dyna/program.py')], EX, 'before/after compared by the independent evaluator')

prop('C17', 'Pruning and specialisation keep every answer of the outputs',
 '''Removing useless rules and specialising rules to the item shapes that can occur leaves the weighted meaning of every declared output unchanged, for every input data set of the declared form.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x input/output declarations x data sets',
 'a rule is useless only for the inputs a test tries', ['dyna/program.py', 'dyna/analyze/dead.py', 'dyna/analyze/types.py'], [('prune/prune_fast/prune_bottom_up', 'dyna/program.py'), ('dead', 'dyna/analyze/dead.py')], EX, 'outputs compared by the independent evaluator')

prop('C18', 'Argument abbreviation preserves the outputs',
 '''Abbreviating predicates by dropping redundant structure and arguments preserves the weighted meaning of the declared outputs for every input data set of the declared form.''',
 ['programs', 'inputs'], 'all small programs with structured arguments x declarations x data sets',
 'needs repeated variables and nested structure', ['dyna/analyze/abbreviate.py'], [('Abbreviate', 'dyna/analyze/abbreviate.py')], EX, 'outputs compared by the independent evaluator')

prop('C19', 'Type analysis covers every item that can be derived',
 '''The inferred types cover every item that any evaluation of the program can derive from inputs of the declared form, and every constraint they state holds of those items; items the usefulness analysis rejects contribute to no output.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x input type declarations x every conforming data set over a small universe',
 'soundness is a claim about all inputs', ['dyna/analyze/types.py', 'dyna/propagate.py'], [('TypeAnalyzer', 'dyna/analyze/types.py')], EX, 'every derivable item of every conforming data set is checked against the inferred types')

prop('C20', 'Dependency analysis never misses a dependency',
 '''The dependency graph of a program connects every item that is used in a derivation to the item it helps derive, for every data set; component order is a topological order of actual dependencies, and an item not reported as possibly cyclic never depends on itself.''',
 ['programs', 'inputs'], 'all small programs x all data sets over a small universe', 'soundness is a claim about all inputs',
 ['dyna/analyze/coarse_graph.py'], [('CoarseGraph, SCCs', 'dyna/analyze/coarse_graph.py')], EX, 'the item-level graph of every data set is checked against the coarse graph')

prop('C21', 'Size and running-time estimates bound the work actually needed',
 '''The symbolic bounds derived from inferred types hold for every data set that conforms to the input types, for every interpretation of the type parameters that satisfies the constraint rules: the size bound is at least the number of items, the bound of a type in a query mode is at least the number of answers of that type to any query in that mode, and the running-time bound of a rule (in both modes) is at least the number of its firings. The degree of a rule is the number of its variables.''',
 ['programs', 'inputs'], 'all small programs x typed declarations x interpretations of the parameters', 'an upper bound is a claim about all inputs',
 ['dyna/analyze/runtime.py', 'dyna/analyze/types.py', 'dyna/rule.py'], [('Runtime', 'dyna/analyze/runtime.py'), ('degree', 'dyna/rule.py')], EX, 'counts of items, answers and firings of the independent evaluator against the evaluated bounds')

prop('C22', 'Derivation enumeration yields each derivation exactly once',
 '''Enumerating the derivations of a program (naively, semi-naively, by agenda or top-down) yields exactly its derivation trees, each once, whose weights multiply out and add up to the value of the item.''',
 ['programs', 'inputs', 'schedules'], 'all small programs x data sets x enumeration strategies, up to a depth',
 'duplicates and omissions need several derivations through shared subgoals', ['dyna/derivations.py', 'dyna/program.py'], [('Derivation, derivations', 'dyna/derivations.py')], EX, 'set of trees compared with independent enumeration')

prop('C23', 'Derivation mappings across transformations are bijections',
 '''Mapping derivations of the original program to the transformed program and back is a bijection that keeps the root item and the weight.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x transformations x derivations up to a depth',
 'tests map a few derivations', ['dyna/program.py', 'dyna/transform/unfold.py', 'dyna/transform/fold.py', 'dyna/transform/slash.py', 'dyna/transform/lct.py', 'dyna/transform/rule_elimination.py'], [('Transform.mapping', 'dyna/program.py')], EX, 'all derivations up to a depth mapped forth and back')

prop('C24', 'A program stays coherent under edits and queries in any order',
 '''After any sequence of edits (adding, replacing, removing, popping, merging rules) and queries, everything a program reports about itself - its rules, the rules matching a head, the uses of an item, its size and degree, its answers - is what a program freshly built from the same rules reports.''',
 ['histories'], 'all sequences of edits and queries to a bounded depth', 'stale caches need an edit after the query that filled them; tests mostly build and read once',
 ['dyna/program.py'], [('Program caches', 'dyna/program.py')], BF, 'all sequences to the bound, compared with a freshly built program')

prop('C25', 'Program comparison is invariant under renaming, order and names',
 '''Two programs compare equal exactly when one is a reordering and variable renaming of the other, duplicates counted, and equal programs have equal hashes; alignment of programs finds a predicate renaming exactly when there is one.''',
 ['inputs', 'programs'], 'all pairs of small programs', 'tests compare a few', ['dyna/program.py', 'dyna/rule.py'], [('Program.__eq__, __hash__, align, same', 'dyna/program.py')], EX, 'all pairs against the definition')

prop('C26', 'The chart index and priority queue behave like plain maps',
 '''Under any sequence of updates and lookups an indexed chart answers every binding pattern exactly as a scan of the stored items would; the priority queue always yields a pending item of highest priority with its current priority, each item once.''',
 ['histories'], 'all operation sequences to a bounded length', 'lazily built indexes go stale only for particular update/lookup orders',
 ['dyna/execute/solver.py', 'dyna/util/bucket_queue.py'], [('Chart', 'dyna/execute/solver.py'), ('LocatorMaxHeap/BucketQueue', 'dyna/util/bucket_queue.py')], BF, 'all sequences to the bound against a dictionary')

prop('C27', 'Graph algorithms are exact',
 '''Strongly connected components, condensation, transitive closure, path sums and hypergraph reachability computed by the library are exactly those of the given graph, with components in dependency order.''',
 ['inputs'], 'all directed graphs (hypergraphs) up to a bounded number of nodes', 'tests try a few graphs', ['dyna/util/graphs.py', 'dyna/util/util.py'], [('tarjan, Graph, Hypergraph', 'dyna/util/graphs.py')], EX, 'all graphs to the bound against definitions')

prop('C28', 'Builtins enumerate exactly the solutions of their relation',
 '''In every instantiation mode it accepts, an arithmetic, comparison, equality or type builtin yields exactly the argument tuples of its mathematical relation consistent with what is bound, and delays rather than guesses when not enough is bound.''',
 ['inputs', 'configurations'], 'all argument tuples over a small domain x all modes', 'tests use a few modes', ['dyna/builtin.py'], [('Builtins', 'dyna/builtin.py')], EX, 'every mode and tuple against the relation')

prop('C29', 'Constraint propagation is sound and confluent',
 '''Simplifying a conjunction of constraints by rewrite rules never changes its set of solutions, reports failure only for unsatisfiable conjunctions, and reaches the same normal form in whatever order the constraints are written.''',
 ['inputs', 'schedules'], 'all small constraint conjunctions x rewrite systems x orders', 'order dependence needs permutations', ['dyna/propagate.py', 'dyna/analyze/rewrites.py'], [('ConstraintPropagation', 'dyna/propagate.py'), ('Rewrites', 'dyna/analyze/rewrites.py')], EX, 'all orders, solutions over a finite universe')

prop('C30', 'Program search only reaches equivalent programs',
 '''Every program that the transformation search reaches, under every order in which its queue may be popped and every choice of moves, is equivalent to the starting program on its declared outputs for all data of the declared inputs, and so is every step of the history recorded with it; declared inputs and outputs stay as they were. The best program reported has the least cost of those explored, budgets and depth limits are respected, and an unbounded beam explores exactly what exhaustive search does.''',
 ['programs', 'schedules'], 'all small starting programs x search strategies x budgets', 'tests check one or two runs', ['dyna/search/search.py', 'dyna/search/old.py'], [('search graph', 'dyna/search/search.py')], EX, 'every node of the search graph')

prop('C31', 'Interruption at any point leaves sound partial answers and intact programs',
 '''A computation that is interrupted (by its time budget or the keyboard) at any point at which signals are delivered leaves a solver whose chart never overstates the fixpoint (in the natural order of a nonnegative semiring), that is marked as interrupted whenever it is incomplete, answers queries from what it has without starting again, and leaves no alarm armed; and it leaves every program involved unchanged, with all variables unbound, so that repeating the same evaluation, transformation or analysis on the same objects gives exactly the uninterrupted answer.''',
 ['fault_sequences', 'programs'], 'all small programs x operations x every interruption point', 'tests interrupt at one arbitrary moment', ['dyna/execute/base.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/term.py', 'dyna/program.py'], [('BaseSolver.__call__', 'dyna/execute/base.py'), ('unify', 'dyna/term.py')], 'exhaustive enumeration of interruption points on the real code', 'every delivery point of signals, for every operation of every program')

prop('C32', 'Changing the semiring commutes with evaluation',
 '''Evaluating a program after mapping its weights into another semiring gives, with every evaluation strategy and whether the data is mapped beforehand, by the solver, or as part of the program, exactly the fixpoint over the mapped weights: Boolean answers are the items with a derivation, min-plus and max-times answers the best derivation (and each other's image under -log), and the derivation recorded with such an answer is one of exactly that weight. Mapping leaves the original program and the declarations unchanged, and unfolding, binarizing or linearizing may be done before or after it when the mapping is multiplicative.''',
 ['programs', 'inputs', 'configurations'], 'all small programs x positions of weights x data x semirings x evaluation strategies', 'tests check one or two', ['dyna/program.py', 'dyna/rule.py', 'dyna/execute/base.py'], [('lift_semiring, booleanize', 'dyna/program.py')], EX, 'all programs against the fixpoint over the mapped weights and its homomorphic images')
