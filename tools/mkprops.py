#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

prop('C01', 'Agenda evaluation accounts for every contribution once, in every order',
 'Agenda-based forward chaining reaches the program\'s least fixpoint for every order in which pending updates are taken off the agenda, including priorities that reorder them. At every moment the chart plus the pending updates equals one application of the rules to the chart, so a contribution is never lost and never counted twice, even when one item matches several subgoals of the same rule, and once the agenda is empty the chart is the fixpoint.',
 ['schedules','programs'], 'all pop orders of the agenda (exhaustively for small programs, sampled for larger), for ground programs (solver 1) and programs with non-ground facts (solver 2), over counting, idempotent and tropical weights',
 'The tests run only the default LIFO-like order on a few fixed programs and compare final answers; no test drives a different pop order, or looks at intermediate states.',
 ['dyna/execute/solver.py','dyna/execute/solver2.py','dyna/execute/base.py'],
 [('old/new value split of the driven item (no double counting)','dyna/execute/solver.py:Solver._forward_chaining'),('per-subgoal drivers','dyna/execute/solver.py:Solver.drive_rules; dyna/execute/solver2.py:Solver.drive_rule'),('rule initialisation','dyna/execute/base.py:BaseSolver.init_rule'),('chart indexes','dyna/execute/solver.py:Chart')],
 ['solver constructed with a custom AgendaType / priority; solver.chart, solver.sol()'],
 [('chart','accumulated value of every item','dyna/execute/solver.py:Solver.chart'),('change','pending update per item','dyna/execute/solver.py:Solver.change')])

prop('C02', 'Every inference engine computes the same least fixpoint',
 'For any program and semiring an engine supports, the solution it returns gives every item exactly the value that the least fixpoint of the program\'s rules gives it (the sum over rule instances of the product of their subgoal values), with no missing, extra or miscounted items. The ground solver, the non-ground solver, agenda, semi-naive, naive forward chaining, Newton, linear (Kleene) solving and the strongly-connected-component solver (with or without magic templates) therefore agree wherever they apply.',
 ['programs','inputs','configurations'], 'programs (recursive, cyclic, with self-joins, constants, builtins, non-ground facts), all engines, several semirings',
 'Tests compare a couple of engines on a few hand-written programs whose answers were written by hand; the claim is over all programs, engines and semirings.',
 ['dyna/program.py','dyna/execute/solver.py','dyna/execute/solver2.py','dyna/execute/linear.py','dyna/execute/base.py'],
 [('naive step','dyna/program.py:Program.step/fc'),('agenda','dyna/program.py:Program.agenda'),('semi-naive','dyna/program.py:Program.seminaive_update'),('newton','dyna/program.py:Program._newton'),('linear solve','dyna/execute/linear.py:kleene_linsolve'),('scc solver','dyna/program.py:Program.scc_solver')],
 ['Program.solve/agenda/seminaive/fc/newton/solve_linear/scc_solver results'])

prop('C03', 'The history of data loads, runs and queries does not change the answers',
 'Splitting the input data into any sequence of batches, loading them in any order, and running the solver or asking queries any number of times between loads leaves the solver with the same final chart as loading everything at once and running once. Re-running a converged solver or re-asking a query changes nothing.',
 ['histories'], 'all interleavings of load-batch / run / query operations on one solver object, over program and data generators',
 'Tests load data once; they do not interleave loads, runs and queries, nor compare histories.',
 ['dyna/execute/base.py','dyna/execute/solver.py','dyna/execute/solver2.py'],
 [('rules initialised once per solver','dyna/execute/base.py:BaseSolver.init_rule'),('late updates','dyna/execute/base.py:BaseSolver.load_data'),('query','dyna/execute/base.py:BaseSolver.user_query')],
 ['solver(data), solver.load_data, solver.user_query, solver.sol()'])

prop('C04', 'Bounded and partial evaluation never reports more than it has derived',
 'Stopping an iterative engine after k rounds yields exactly the k-th iterate (the total value of the derivations it has considered, of height at most k for naive and semi-naive evaluation, and no more than the fixpoint for the agenda methods), running longer only adds, and the limit equals the full answer. A solver whose priority function discards some items computes exactly the fixpoint of the program restricted to the items that are kept.',
 ['programs','configurations'], 'all cut-offs k, all sets of discarded items, over generated programs',
 'Tests use cut-offs on one or two programs and only check the final answer.',
 ['dyna/program.py','dyna/execute/base.py','dyna/execute/solver.py','dyna/execute/solver2.py'],
 [('max_iter','dyna/program.py:Program.fc/agenda/seminaive'),('pruning priority','dyna/execute/solver.py:Solver.update; dyna/execute/solver2.py:Solver.update')],
 ['Program.fc(max_iter=), seminaive(T=), agenda(max_iter=), solver(priority=)'])

prop('C05', 'Unfolding, elimination and normalisation preserve every item\'s value',
 'Any sequence of the unconditional program transformations (unfold, rule elimination, linearisation, new definitions and hooks, binarisation, constant folding, running builtins, unification normalisation and its inverse, renaming and sorting) gives a program in which every item of the original program that the transformation retains has exactly the same value as before, for all input data. Multiplicities are preserved exactly, not only truth values.',
 ['programs','histories'], 'generated programs x all applicable transformation sequences up to a bound, evaluated under bag-sensitive semirings',
 'Tests check particular sequences on textbook programs, mostly by comparing the printed result with an expected program.',
 ['dyna/transform/unfold.py','dyna/transform/rule_elimination.py','dyna/program.py'],
 [('unfold','dyna/transform/unfold.py:Unfold'),('linear rule elimination','dyna/transform/rule_elimination.py:LinearRuleElimination'),('linearize / hook / binarize / constant_folding / run_builtins / normalize_unification2 / snap_unifications','dyna/program.py')],
 ['rules of the transformed program'])

prop('C06', 'Folds accepted as safe preserve meaning',
 'Whenever one of the three safety checks (symbolic measure, unit measure, reversibility) accepts a program obtained by a sequence of fold, unfold and definition steps, that program gives every item of the original program exactly the value the original gives it. A fold that loses, duplicates or makes circular the derivations of an item is never accepted.',
 ['programs','histories'], 'generated programs x sequences of definition / unfold / fold steps up to a bound, all accepting checks',
 'Tests accept/reject a fixed set of folds; the guarantee is over all programs and transformation histories.',
 ['dyna/transform/fold.py','dyna/transform/measure.py','dyna/program.py','dyna/rule.py'],
 [('fold','dyna/transform/fold.py:Fold'),('measure safety','dyna/transform/measure.py'),('reversibility','dyna/transform/fold.py:safe_by_rev'),('proposals','dyna/program.py:fold_proposals; dyna/rule.py:Rule.folds_by')],
 ['safe_by_smt, safe_by_unit, safe_by_rev, megafolds()/megafolds_unit()/reversible_megafolds()'])

prop('C07', 'Speculation and left-corner transformations preserve meaning',
 'For every choice of numerator/denominator items and rule positions that the speculation and left-corner transformations accept, each original item keeps its value in the transformed program, for all input data. New items introduced by the transformation never leak into or change the original ones.',
 ['programs','configurations'], 'generated and textbook programs x all position assignments x denominators',
 'Tests cover chosen positions of textbook programs.',
 ['dyna/transform/slash.py','dyna/transform/lct.py'],
 [('Slash','dyna/transform/slash.py'),('LCT','dyna/transform/lct.py')],
 ['rules of the transformed program, evaluated on data'])

prop('C08', 'Pruning and specialisation never change a declared output',
 'The fast, very fast, bottom-up and full pruning transformations, with or without specialisation, and the goal-directed magic-templates program keep the value of every item matching the declared outputs, for all input data matching the declared inputs. Rules that can contribute to an output are never removed, and specialising a rule never splits it into overlapping copies.',
 ['programs','inputs'], 'generated programs with input/output declarations x data sets',
 'Tests compare against hand-written pruned programs for a few examples.',
 ['dyna/analyze/dead.py','dyna/program.py','dyna/analyze/types.py'],
 [('prune_fast / prune_very_fast','dyna/analyze/dead.py'),('specialisation','dyna/analyze/dead.py:_prune_specialize'),('usefulness','dyna/program.py:usefulness_analysis'),('magic templates','dyna/program.py:magic_templates')],
 ['values of output items before and after'])

prop('C09', 'Abbreviation is meaning-preserving under its item renaming',
 'The abbreviation transformation gives a program whose solution, mapped back through the stated correspondence between abbreviated and original items, has exactly the original values on the declared outputs, for all input data matching the input types. Distinct original items are never merged.',
 ['programs','inputs'], 'generated and textbook programs with input types x data sets',
 'Tests compare rule text on a handful of programs.',
 ['dyna/analyze/abbreviate.py','dyna/analyze/types.py'],
 [('Abbreviate','dyna/analyze/abbreviate.py')],
 ['solution of the abbreviated program, pulled back'])

prop('C10', 'Type analysis over-approximates the items that can be derived',
 'Every item that any data set consistent with the declared inputs can give a non-zero value is an instance of some type inferred by type analysis, including its type constraints; every item that can contribute to an output is covered by the usefulness analysis. The analysis terminates on the programs it accepts, whatever widening it uses.',
 ['programs','inputs'], 'generated programs (including nested terms, lists, builtins) x data sets',
 'Tests compare the inferred types with expected ones on examples; soundness is over all programs and inputs.',
 ['dyna/analyze/types.py','dyna/analyze/rewrites.py','dyna/program.py'],
 [('TypeAnalyzer','dyna/analyze/types.py'),('widening','dyna/analyze/types.py'),('$useful','dyna/program.py:Program._useful')],
 ['analysis chart vs items derived by execution'])

prop('C11', 'Inferred runtime and size bounds are upper bounds',
 'For any data set, the size bound inferred for a type is at least the number of items of that type derived, and the runtime bound inferred for a rule or program is at least the number of rule instantiations that execution performs, when its parameters are set to the measured sizes of the input types. The degree reported for a program is never below the number of free variables its rules enumerate.',
 ['programs','inputs'], 'generated programs with typed inputs x data sets with measured cardinalities',
 'Tests compare symbolic bounds with expected formulas on a few programs.',
 ['dyna/analyze/runtime.py','dyna/analyze/types.py','dyna/rule.py'],
 [('size / runtime bound search','dyna/analyze/runtime.py'),('degree','dyna/rule.py:RuleAnalyzer_')],
 ['bounds evaluated at measured cardinalities vs counts'])

prop('C12', 'Derivation enumeration is exact',
 'Enumerating the derivations of an item up to a bound yields each derivation exactly once, each one locally valid (every step is an instance of a rule whose premises are the conclusions of its children), and none is missing; the different enumeration strategies agree. The values of the derivations of an item add up to the item\'s value.',
 ['programs'], 'generated programs, all items, all height bounds up to a limit, all enumeration strategies',
 'Tests count derivations of a few programs.',
 ['dyna/derivations.py'],
 [('naive / seminaive / agenda / SLD enumeration','dyna/derivations.py'),('Derivation value/height/size','dyna/derivations.py:Derivation')],
 ['derivations enumerated by the API'])

prop('C13', 'Derivation maps between equivalent programs are value-preserving bijections',
 'Mapping the derivations of a program through a chain of transformations (unfold, fold, rule elimination, definitions, speculation, renaming) yields valid derivations of the transformed program with the same conclusion and the same value; mapping back returns the original derivation. Every derivation of the transformed program of the bounded size is the image of exactly one original derivation.',
 ['programs','histories'], 'generated programs x transformation sequences x all derivations up to a bound',
 'Tests check round trips on a few textbook programs.',
 ['dyna/derivations.py','dyna/program.py','dyna/transform/unfold.py','dyna/transform/fold.py','dyna/transform/rule_elimination.py'],
 [('transform / untransform','dyna/transform/*.py'),('composition','dyna/program.py:Program.Transform')],
 ['Program.Transform'])

prop('C14', 'A program object stays coherent under any sequence of mutations',
 'After any interleaving of appending, updating, popping and reading operations on a program, every read (lookup by functor or by variable, signature, hash, equality, symbol set, degree, pruned forms, defined items) answers as it would on a freshly built program with the same rules. Updates with constant values for the same item accumulate into one rule, rules that are zero are dropped, and nothing else is merged, lost or reordered.',
 ['histories'], 'all interleavings of mutating and reading operations up to a bound',
 'Tests exercise one mutation then one read; stale caches need particular interleavings.',
 ['dyna/program.py','dyna/util/util.py'],
 [('cache invalidation','dyna/program.py:Program._invalidate_caches'),('constant buckets','dyna/program.py:_update_bucket/_make_buckets'),('functor index','dyna/program.py:f2r')],
 ['Program.update/append/pop/__setitem__/lookup/signature/hash/degree'],
 [('buckets','index of constant rules','dyna/program.py:_buckets'),('functor index','rule positions per head functor','dyna/program.py:_cache_f2r')])

prop('C15', 'Program and rule equality means equal up to renaming and reordering',
 'Two programs (or rules) compare equal exactly when one can be turned into the other by reordering rules, reordering subgoals and consistently renaming variables within each rule; equal programs and rules have equal hashes. An alignment of two programs pairs a maximum number of such equal rules and is a perfect matching exactly when they are equal, and the comparison used to assert equivalence is zero exactly when the constant-folded programs agree.',
 ['inputs'], 'pairs of small rules/programs: all variable patterns over small alphabets, plus generated pairs and mutations',
 'Tests check a few equal and unequal pairs.',
 ['dyna/program.py','dyna/rule.py','dyna/term.py','dyna/util/util.py'],
 [('commutative matching','dyna/term.py:Product._match_comm'),('signature','dyna/rule.py:Rule.signature'),('bucket equality','dyna/program.py:Program._bucket_equal'),('align/metric','dyna/program.py')],
 ['==, hash, same, align, metric'])

prop('C16', 'Unification, subsumption and generalisation obey their algebra',
 'Unification of two terms succeeds exactly when a common instance exists (with no occurs-check violation accepted) and then produces a most general unifier; the subsumption, equality-up-to-renaming, intersection, canonical-form and freshening operations are consistent with it. The generalisation of two terms subsumes both of them and is the most specific such term.',
 ['inputs'], 'all pairs of terms up to a size bound over a small signature, plus generated larger ones',
 'Tests check examples; the algebraic laws are over all pairs of terms.',
 ['dyna/term.py'],
 [('unify','dyna/term.py:unify'),('Subst','dyna/term.py:Subst'),('covers/same/intersect/generalizer/canonicalize/fresh','dyna/term.py')],
 ['results of the term operations'])

prop('C17', 'Bindings are undone however an enumeration ends',
 'Every enumeration that binds logic variables (unification, lookup, joins, streams, comparison of rules, builtin evaluation) restores all variables to their previous bindings when it is exhausted, abandoned early, or ended by an exception in the consumer, at every nesting depth. While an answer is being consumed, the bindings are exactly those of that answer.',
 ['histories','fault_sequences'], 'all well-nested sequences of start / next / close / raise on up to three nested enumerations over shared variables',
 'Tests exhaust their generators; abandonment and exceptions at a particular nesting are not exercised.',
 ['dyna/term.py','dyna/program.py','dyna/builtin.py'],
 [('trail in unify','dyna/term.py:unify'),('fresh scopes','dyna/term.py:FreshCache'),('streams','dyna/term.py:Stream')],
 ['variable bindings after each step'])

prop('C18', 'Collections of types keep their invariants and denotation',
 'After any sequence of insertions, the disjoint collection holds pairwise non-overlapping members and covers everything inserted, the most-general collection holds an antichain (no member subsumes another) with the same coverage as the inserted items, and the duplicate-free collection holds one representative per equivalence class. Membership and coverage answers match the inserted items whatever the insertion order.',
 ['histories'], 'all insertion sequences up to a bound over a small universe of terms',
 'Tests insert a few items in one order.',
 ['dyna/term.py'],
 [('DisjointEstimate / MostGeneralSet / NoDupsSet','dyna/term.py')],
 ['contents after each insertion'])

prop('C19', 'The bucket priority queue behaves as a priority map',
 'For any interleaving of inserting, re-prioritising, deleting, querying, popping and iterating, the queue behaves as a map from items to their latest integer priority: a pop returns some item of least priority together with that priority and removes just that item. Each item is returned at most once per insertion, and size and membership always match the map.',
 ['histories'], 'all operation sequences up to a bound over small item and priority sets (including decreasing and negative priorities)',
 'One test inserts and pops in a simple pattern.',
 ['dyna/util/bucket_queue.py'],
 [('bucket map with lower bound on the minimum','dyna/util/bucket_queue.py:BucketQueue')],
 ['return values of the queue operations'],
 [('priority map','item -> priority','dyna/util/bucket_queue.py')])

prop('C20', 'Graph analyses and closures are exact',
 'For every finite graph the strongly connected components are exactly the mutual-reachability classes, listed dependencies first; condensations, reachability, source/sink and transitive-closure results match their definitions, and semiring-weighted closure equals the sum over paths. Item dependency graphs extracted from programs contain an edge exactly where some rule\'s head may depend on some definition.',
 ['inputs'], 'all directed graphs up to 4 nodes, sampled larger graphs, all small weighted matrices over finite semirings',
 'Tests cover a few graphs.',
 ['dyna/util/graphs.py','dyna/execute/linear.py','dyna/analyze/coarse_graph.py'],
 [('tarjan, condensation','dyna/util/graphs.py'),('kleene','dyna/execute/linear.py:kleene'),('coarse graph','dyna/analyze/coarse_graph.py')],
 ['returned components, graphs, matrices'])

prop('C21', 'Builtins are sound, complete and delayed rather than guessed',
 'Each built-in relation (arithmetic in every mode, comparisons, equality, non-matching and comparison constraints) answers exactly the bindings that make it true, each once, when enough arguments are known; otherwise it is left as a delayed subgoal that is later resolved to the same answer, whatever the order in which arguments become known. No builtin succeeds with a false instance or fails on a true one.',
 ['inputs','schedules'], 'all builtin calls over a small constant domain and all binding modes, all subgoal orders in a rule',
 'Tests check particular modes and constants.',
 ['dyna/builtin.py','dyna/program.py'],
 [('is/2 modes','dyna/builtin.py:Builtins'),('constraints','dyna/builtin.py:BuiltinConstraint/NotMatchesConstraint'),('delay','dyna/program.py:Program.lookup')],
 ['lookup / run_builtins / solving results'])

prop('C22', 'Constraint simplification is sound, confluent and complete for its rules',
 'Constraint propagation adds exactly the least set of consequences of its rules, reports contradiction exactly when its rules derive one, and simplification (redundancy removal) never removes a constraint not implied by the rest nor keeps an implied one that its rules say may be dropped. The result is independent of constraint order and is stable when applied again; entailment, conjunction and common-generalisation operations on constrained types agree with it.',
 ['inputs','schedules'], 'generated constraint sets and rule sets, all permutations of small sets',
 'Tests check fixed examples in one order.',
 ['dyna/propagate.py','dyna/analyze/rewrites.py'],
 [('propagation','dyna/propagate.py:ConstraintPropagation'),('type rewrites','dyna/analyze/rewrites.py')],
 ['propagated constraint sets'])

prop('C23', 'The optimiser only ever offers equivalent programs and reports the best one',
 'Every program that a search (agenda-based or beam) puts in its pool, whatever its seed, strategy, greediness and number of steps, gives the original program\'s items the values the original gives them. The reported best cost is the cost of the reported best program and is the minimum over all programs the search has evaluated, it never increases as the search runs, and the same seed gives the same run.',
 ['programs','configurations','schedules'], 'generated and textbook programs x search strategies x seeds x step counts',
 'Tests run one search and check the final degree.',
 ['dyna/search/search.py','dyna/search/old.py','dyna/programs.py'],
 [('agenda-based search','dyna/search/search.py:AgendaBasedSearch'),('beam / graph search','dyna/search/old.py')],
 ['pool of programs, best program and cost'])

prop('C24', 'Printing a program and parsing it back gives the same program',
 'The parser gives each text its documented operator precedence and associativity, and printing any program built from parsable terms and parsing the text gives back an equal program with the same declarations. Printing never makes distinct rules indistinguishable.',
 ['programs','inputs'], 'all terms up to a size bound over the operators, constants, lists and quoted names; generated programs',
 'Tests round-trip a few examples.',
 ['dyna/syntax.py','dyna/pretty.py','dyna/program.py'],
 [('grammar','dyna/syntax.py'),('printer with operator priorities','dyna/pretty.py')],
 ['text of printed programs and parse of it'])

prop('C25', 'Queries and groundings report exactly what the solution says',
 'Asking a solver or a program any query pattern returns one entry per matching answer with the total value the solution gives it, identical answers merged and none invented; conjunctive queries return the sum over joint matches. The reported rule groundings are exactly the rule instances supported by the solution, each labelled with its rule and value, and re-summing them reproduces the solution.',
 ['programs','inputs'], 'generated programs x all query patterns of small arity (variables, repeated variables, constants, nested)',
 'Tests query a few items.',
 ['dyna/execute/base.py','dyna/execute/solver.py','dyna/execute/solver2.py','dyna/program.py'],
 [('user_query','dyna/execute/base.py'),('chart index by query mode','dyna/execute/solver.py:Chart'),('groundings / instantiate','dyna/program.py')],
 ['results of user_query, user_lookup, [], groundings, instantiate'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
