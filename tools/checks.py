NOTES = 'TLA+ specification in spec/, checked with TLC; harness in harness/ binds it to /repo by trace validation and replay. See DESIGN.md.'
NA = {}
T = 'TLC-judged conformance: '
CHECKS = {
 'C01': ('TLA+ agenda machine model-checked over all pop orders (TLC) and trace validation of recorded agenda runs against it', 'model_checking',
         'Every pop order of small programs is explored in TLC; recorded solver runs under randomised priorities are replayed through the same machine.'),
 'C02': ('TLA+ least-fixpoint semantics (TLC) as oracle over recorded solutions of every engine', 'model_checking',
         'Each sampled program is run through every applicable engine and TLC decides whether each reported solution is the least fixpoint of the specification; bounded by the generated programs and semirings.'),
 'C03': ('TLA+ history machine (loads, runs, queries, interrupts) model-checked by TLC; its histories replayed into the solvers', 'model_checking',
         'Histories are enumerated from the specification and replayed; the recorded answers are judged by TLC.'),
 'C04': ('TLA+ Kleene iterates and restricted fixpoints evaluated by TLC as oracle over recorded bounded runs', 'model_checking',
         'Bounded runs of every iterative engine are compared with the specified iterate.'),
 'C05': ('TLA+ fixpoint equivalence of original and transformed programs, decided by TLC per recorded transformation sequence', 'model_checking',
         'Programs, transformation sequences and data sets are sampled.'),
 'C06': ('TLA+ fixpoint equivalence (TLC) of every fold that a safety check accepts in recorded fold/unfold/define histories', 'model_checking',
         'Fold histories are sampled; every accepted program is judged.'),
 'C07': ('TLA+ fixpoint equivalence (TLC) of programs and their speculation / left-corner transforms', 'model_checking',
         'Items, positions and data are sampled.'),
 'C08': ('TLA+ fixpoint equivalence on declared outputs (TLC) of pruned, specialised and magic programs', 'model_checking',
         'Programs, declarations, pruning operations and data are sampled.'),
 'C09': ('TLA+ fixpoint equivalence (TLC) of programs and their abbreviations under type or usefulness analysis', 'model_checking',
         'Programs, declarations, parameter types, widening and data are sampled; runs over a program refuse when its inferred types overlap.'),
 'C16': ("TLA+ term algebra, its laws model-checked by TLC over all pairs of a small universe; the implementation's answers on exhaustive small and sampled larger term pairs judged by TLC", 'model_checking',
         'Exhaustive over pairs of depth-1 terms on 2 variables; larger terms sampled, with shared and chained bound variables.'),
 'C22': ('TLA+ closure of constraint theories and the orders on constrained types (TLC) as oracle over recorded propagations; agenda machine model-checked for confluence', 'model_checking',
         'Small hand-written theories, sampled types, permutations of the constraints; comparisons with existential variables judged one-sidedly.'),
 'C19': ('TLA+ priority-map machine and its bucket refinement model-checked by TLC; exhaustive short and sampled long implementation histories judged by TLC', 'model_checking',
         'All histories of 4 operations over 2 items (5 in thorough), sampled longer ones.'),
 'C20': ('TLA+ definitions of components, closures, hypergraph reachability and coarse program graphs (TLC) as oracle; all small graphs and sampled matrices, hypergraphs and programs judged by TLC', 'model_checking',
         'All directed graphs on up to 3 nodes (4 in thorough); larger graphs, matrices (including a non-commutative semiring), hypergraphs and programs sampled.'),
 'C18': ('TLA+ collections machine model-checked (TLC) over all insertion and merge orders; recorded histories of the real collections judged against it', 'model_checking',
         'All insertion sequences up to length 3 of a 12-term universe plus random longer histories with shared and bound variables.'),
 'C21': ('TLA+ definition of the built-in relations and their modes, model-checked (TLC) for soundness, completeness and order independence; recorded calls and delayed systems judged against it', 'model_checking',
         'All calls over a small universe of numbers, strings, truth values, terms and variables, direct and with bindings; delayed conjunctions sampled through run_builtins, folding, the solvers and forward chaining.'),
 'C17': ('TLA+ machine of in-place bindings with nested, abandonable enumerations, model-checked (TLC) against most general unifiers; recorded nested histories of the real enumerations judged by TLC', 'model_checking',
         'All well-nested histories of up to 3 enumerations over a small universe of equations in the model; random histories (depth up to 4, break/close/del/throw/exception) of unify, lookups, joins, streams and builtins in the code.'),
 'C14': ('TLA+ specification of a program as a bag of rules under a history of mutations, with every read a function of the current rules; TLC explores all short histories and judges recorded histories of the real Program object step by step', 'model_checking',
         'All mutation histories up to a small depth are explored in TLC (ProgramMC); thousands of recorded random histories interleaving updates, pops, instantiation and cached reads are validated against ProgramOps, each read also against a freshly built twin.'),
 'C15': ('TLA+ definition of rule/program equality up to renaming and reordering, alignment and folded distance; TLC checks the greedy alignment machine on all small programs and judges recorded answers of ==, hash, same, align, metric and assert_equal', 'model_checking',
         'All rule patterns over a small alphabet with the same signature are compared pairwise; thousands of generated program pairs (shuffled, renamed, minimally edited, split coefficients) are judged by Equality.tla.'),
 'C25': ('TLA+ state machine of the chart with its lazily built query-mode indexes (TLC, all histories) and TLA+ definition of answers, joins, look-ups and groundings judging recorded answers of the real solvers and programs', 'model_checking',
         'Every query pattern of arity 3 over one program plus thousands of generated (program, pattern), conjunction, look-up, grounding and chart-history cases, judged against the least fixpoint computed by TLC.'),
 'C24': ('TLA+ model of the operator grammar (spec/Syntax.tla: unique reading, minimal printing) model-checked by TLC against a shift-reduce machine; conformance: TLC judges texts, trees and programs recorded from the real parser and printer', 'model_checking',
         'Random token texts, all pairs of operators, all two-operator trees in every context, program texts with comments, whole programs with declarations; names that need an apostrophe, strings with newlines and semiring constants are outside the domain'),
 'C12': ('TLA+ definition of derivations as terms (spec/Derivations.tla), model-checked by TLC against an agenda machine in every order and a machine by generations; recorded enumerations of the real code judged by TLC: exactly the derivations, each once, locally valid, with their values, heights and sums', 'model_checking',
         'All small programs of a family in the model (every agenda order); in the code generated flat, structured, built-in and non-ground programs, heights up to 4 (6 when finite), the naive, semi-naive, agenda and top-down enumerations; built-ins only where the enumeration supports them'),
 'C13': ('TLA+ derivations as terms (Derivations.tla); recorded maps between the programs of transformation chains judged by TLC: image valid, same conclusion and value, mapped back to itself, injective', 'model_checking',
         'Chains of unfold, fold (partial, reversible, basic), undo and copies; derivations up to height 6, at most 30 per program; forward and backward and between the ends of a chain. Slash and left-corner maps are forward only and are not judged.'),
 'C23': ('TLA+ model of the agenda and beam searches (SearchMC), recorded runs judged by SearchTrace, offered programs judged equivalent by Equiv.tla', 'model_checking',
         'Every small program graph with 3 programs quick / 4 thorough in the model; ~400 runs over templates and generated programs, up to 12 offered programs each checked for equivalence on two data sets.'),
 'C10': ('TLA+ simple types and their items (TLC): abstract forward chaining over all small programs; inferred charts judged against derived items', 'model_checking',
         'soundness of types and of usefulness over data that agree with the declared inputs and axioms, with widening at depths 1-5, both algorithms; binding states of charts with unconstrained variables are judged for boundness only (known finding free-any)'),
 'C11': ('TLA+ bounds as expressions over cardinalities (TLC): every order of covering over all small data; inferred bounds judged against counted items and rule instances', 'model_checking',
         'size, conditional and run-time bounds for typed inputs under axioms; degrees before and after program changes'),
}
