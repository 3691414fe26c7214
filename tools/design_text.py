"""hand-written parts of DESIGN.md; the rest is generated by gen_design.py"""

HEAD = '''# Solver-based checking of AALpy

This file is written by `python3 tools/gen_design.py` from `tools/design_text.py`, the checks, the
properties, `KNOWN_FINDINGS.jsonl` and `seeded/*/meta.json`.

## 1. Technique

Every claimed property is decided by **bounded symbolic execution of the real Python code of
`/repo/aalpy`**. `engine/` is a dynamic symbolic execution engine written for this project:

* **The code that is executed is the code that ships.** A check imports `aalpy` from `/repo`'s working
  tree, unmodified, at every run (`engine/bootstrap.py`); nothing is translated, extracted or cached, so a
  change in /repo is what the next run executes. There are no hooks in /repo.
* **Inputs are solver terms.** A harness (`h_*` in `checks/pNN.py`) builds the inputs of library functions
  from symbolic values: transition tables (finite-domain variables), outputs (values of an uninterpreted
  sort: they support equality and nothing else, so one variable stands for every possible output alphabet),
  Booleans, integers (frequencies, multiplicities), reals (probabilities), random draws (each call of a
  random function is an arbitrary value of its range) and arbitrary answers of user-supplied callbacks.
* **Branches.** When the library asks a proxy for a truth value - `if`, `==` inside a dictionary lookup,
  `bool()`, an index - the engine asks z3 which outcomes are possible under the path condition. All possible
  outcomes are explored, by depth-first re-execution; impossible ones are never run. Values that the code
  needs concretely (a transition target that is dereferenced, for example) are forked over all feasible
  values, lazily: a table cell that a path never reads stays symbolic on that path, so one path stands for
  all completions of the table.
* **Assertions.** `env.check(cond)` is a query *path condition and not cond*. It must be `unsat`, that is the
  assertion holds for every input that follows the path; `sat` gives a model, which is turned into concrete
  inputs and **replayed in a fresh interpreter with plain Python values on the real code**. Only a violation
  that the replay reproduces is reported (`VIOLATION property=.. replay=..`, the replay file names the harness, the
  inputs and the message). Uncaught exceptions and executions that do not terminate on a path are violations as well.
* **Exhaustiveness.** A configuration is done when no unexplored branch is left; the evidence file says for each
  configuration whether that was so (`unexplored_frontier`), and lists paths, decisions, solver queries,
  discharged assertions, solver time, the library functions executed, and reachability labels (`reached`) which
  show that the interesting situations (a counterexample was processed, states were merged, ..) did occur. A
  configuration that misses a label it has to reach is reported; if more than a fifth of the configurations do, the check gives no verdict (exit 4): no vacuous success.
* **Solver limits.** A path whose query z3 does not answer within 25 s is counted as inconclusive and reported in
  the evidence, never as success. No registered configuration has such paths on the unchanged tree, unless its
  section below says so.
* **Self-check of the proxies.** A sample of finished paths is replayed concretely with a model of its path
  condition; a disagreement between the symbolic and the concrete run is an engine error (exit code 2).

Modules: `terms.py` (hash-consed terms with simplification, finite-domain evaluation and a decision cache in front
of z3), `sym.py` (proxies, path exploration, concrete environment), `models.py` (symbolic automata, exact
equivalence oracle, reference semantics for deterministic machines), `nd.py` (probabilistic, nondeterministic and
pushdown ones), `stubs.py` (random functions as symbolic draws), `mathsym.py` (exact square roots, logarithms as
guarded constants), `runner.py` (worker processes, evidence, replay).

**Larger fixed structures.** Where small symbolic automata cannot show a situation (queues that hold several entries, refinements in several rounds, long words), transition
targets come from a fixed graph of 4 to 12 states (`models.STRUCTURES`, `nd.ND_STRUCTURES`: rings, trees, funnels, chains, graphs with undefined cells) and everything else - outputs, accepting
states, some of the targets, the probabilities - stays symbolic.

**Oracles.** No check compares the library with itself. The oracle of a property is either a definition written
on tables in the check (running a table, reachability, Moore partition equivalence, stack semantics, ALERGIA and
Hoeffding tests by definition, ..) or a relation that needs no reference (probabilities sum to one, no state
left behind, no counterexample returned twice).

**Exact equivalence oracle** (`models.exact_oracle`). The learners are specified relative to an exact
oracle. The harness has the tables of the system and of the hypothesis; a difference is a reachable product state
with different outputs, decided by the solver. Styles: `shortest` (a shortest one), `any` (an arbitrary word of at most
`maxlen` letters that ends in a difference, all of them explored), `long` (a shortest one prefixed by `pad` letters of an
arbitrary detour: exercises the decomposition of long counterexamples), so the learner must cope with
every genuine counterexample, as the property says.

**What is not claimed.** Everything is bounded: the sizes, word lengths and options of each configuration are its
parameters, printed in the evidence. A claim beyond them would need a proof. Larger instances than the ones listed are outside.
'''

PROPS = {
'P01': ('''`run_Lstar` on a system with symbolic transition table and outputs, for every closing strategy, counterexample processing, `e_set_suffix_closed`,
`all_prefixes_in_obs_table` and cache setting (the options are symbolic choices where a configuration does not fix them).''',
'''Table definition of behaviour, Moore-partition minimality, reachability and completeness computed on terms; number of equivalence queries bounded by the number of states.''',
'''The unit tests learn a handful of fixed models with random oracles. Here every machine of the size is learned with every genuine counterexample; bugs that need one particular
counterexample shape (a breakpoint in the middle of a doubled step) are found. Five four-state structures on which one counterexample is used for several refinements are added as `shapes`, a combination lock as `lock`.'''),
'P02': ('''`run_KV` on symbolic systems, every counterexample processing method, both cache settings.''', '''As P01.''',
'''Split states with self loops, trees whose root has the access sequence of a deep state, and several refinements from one counterexample all occur among the machines.'''),
'P03': ('''`run_Lsharp` for every extension and separation rule on symbolic systems.''', '''As P01; termination as a polynomial bound on equivalence queries (L# promises no linear one).''',
'''The apartness bookkeeping is exercised on all observation trees that such systems can produce, the adaptive distinguishing sequences (ADS) on all hypotheses that occur.'''),
'P04': ('''`run_adaptive_Lsharp` on symbolic systems *and* symbolic reference models (one or two of them, with common, partly common or disjoint input alphabets), with and without
rebuilding and each state matching; extension and separation rules symbolic.''', '''As P01, and the reference models and the list of them are unchanged.''',
'''References are adversarial: every table, including ones unrelated to the system. This is where misuse of a reference's answers would corrupt the result.'''),
'P05': ('''`CacheSUL` (tree and dictionary caches) under arbitrary histories of queries and stepwise runs on a wrapped system whose answers are (a) a fixed function of the inputs or (b) arbitrary at each execution.''',
'''A map from executed prefixes to outputs kept by the harness: an answer equals what the system said, is served without touching the system when known, and a contradiction raises `NonDeterminismError`-like failures instead of returning.''',
'''All histories up to the bound; tests use one deterministic system.'''),
'P06': ('''All deterministic learners with a counting wrapper beneath the cache; symbolic systems; samples given as symbolic words with the system's answers. Every equivalence oracle with counted resets and steps over several searches.''',
'''Counters of the wrapper, split by who called (learner / oracle).''', '''Statistics are only printed by the test-suite.'''),
'P07': ('''`longest_prefix`, `rs`, `exponential` (forward, backward), `linear` (forward, backward) processing called directly on a hypothesis and a system that agrees with it on access sequences and their one-letter extensions.''',
'''Definition of a distinguishing suffix evaluated on the system table, symbolic in everything.''', '''Every counterexample up to the length, every breakpoint position, which random models do not produce for each window arithmetic.'''),
'P08': ('''`SUL.query`, `adaptive_query`, the ready-made systems (automaton, regex, Tomita 1-7, Python classes), histories of queries.''', '''Recorded protocol calls; independent definitions of the Tomita languages and of the regular expressions; direct calls of the class.''', '''All words up to the bound and all histories, including empty ones and falsy letters.'''),
'P09': ('''`step`, `execute_sequence`, `compute_output_seq`, `output_step` of DFA, Moore, Mealy.''', '''Table semantics.''', '''Any table, any start state, any current state before the call.'''),
'P10': ('''`get_shortest_path`, `is_strongly_connected`, `compute_prefixes`, `get_state_by_id`.''', '''Reachability in k steps on the symbolic table.''', '''Partial tables, unreachable targets, self targets: all of them.'''),
'P11': ('''`find_distinguishing_seq`, `compute_characterization_set` (initial sets, closure, online/offline splitting), `is_minimal`.''', '''Separation evaluated on the table; shortestness against all shorter words; equivalence by partition refinement.''', '''All automata of the size, minimal or not.'''),
'P12': ('''`minimize` on all tables, initial state at any position.''', '''Equivalence by definition, Moore partition.''', '''Non-minimal automata in every shape; the tests minimise random ones.'''),
'P13': ('''`copy`, pickle round trip, `to_state_setup` / `from_state_setup` for deterministic, probabilistic, nondeterministic and pushdown models.''', '''Structural comparison cell by cell, independence by changing the copy.''', '''Initial state anywhere, partial tables.'''),
'P14': ('''`bisimilar`, `==`, `compare_automata`.''', '''First difference words computed by definition.''', '''All pairs of tables; shortestness of counterexamples included.'''),
'P15': ('''`make_input_complete` for each automaton type and option, also as part of other calls.''', '''Table before and after.''', '''Which inputs are missing is symbolic.'''),
'P16': ('''`save_automaton_to_file` / `load_automaton_from_file` in a scratch directory. Opaque symbols and probabilities are written as unique tokens and mapped back after parsing, so one run covers every word-shaped symbol; types of symbols (int, str, bool-like) are separate configurations.''',
'''Structure before and after.''', '''Tests round-trip fixed files. Precision of probabilities is part of it (a token must arrive as the same value; formatting with a precision is modelled).'''),
'P17': ('''`step` and `step_to` of MC, MDP, SMM, ONFSM, NDMoore; the random draw is a symbolic real/index, probabilities symbolic.''', '''The measure of the set of draws that selects an alternative equals its probability (decided over the reals).''', '''No statistical test: exact.'''),
'P18': ('''`smm_to_mdp_conversion`, `mdp_to_mc`, Moore to DFA, PRISM export.''', '''Probabilistic language / bisimulation by definition.''', '''Symbolic probabilities, shared outputs and targets.'''),
'P19': ('''Each equivalence oracle's `find_cex` on symbolic hypothesis and system, symbolic random draws, repeated calls.''', '''Replaying the returned word on the tables.''', '''Every outcome of the random choices within the draw budget.'''),
'P20': ('''W-method, Wp-method on all pairs of minimal hypothesis and system within the bound, and three-state hypotheses against four-state systems that split one state; also inside learners.''', '''Equivalence by definition.''', '''Completeness is a universal statement over all faulty systems: precisely what the symbolic table gives.'''),
'P21': ('''Breadth-first, state-prefix, random-word, random-walk, k-way state and transition coverage, transition focus, PAC, cache-based, provided-sequences oracles; the executed tests are recorded.''', '''What each oracle documents, counted on the record.''', '''Hypotheses of every shape, all random choices, two calls in a row.'''),
'P22': ('''`run_RPNI` (both implementations), `run_EDSM`, active RPNI on all sets of examples up to the bound with symbolic labels.''', '''Running the examples on the returned tables; size of the prefix tree.''', '''Contradictory, partial, duplicate, reordered data; labels arbitrary.'''),
'P23': ('''Both RPNI implementations on the complete samples of symbolic targets.''', '''Equivalence by definition.''', '''All targets of the size.'''),
'P24': ('''`run_PAPNI`, `is_balanced`.''', '''Pushdown semantics of the model and well-matchedness by definition.''', '''All small example sets, not well-matched words included.'''),
'P25': ('''`run_Alergia`, `run_Alergia` active variant, with (a) multiplicities symbolic and a compatibility checker that may answer anything and (b) the real Hoeffding checker and concrete counts.''', '''ALERGIA written from its definition (red/blue on prefixes), relative frequencies by replaying the data.''', '''Merging order and frequency folding are where implementations go wrong; any checker answers means every merge sequence occurs.'''),
'P26': ('''Hoeffding, chi-square (with its quantile table), advanced/difference-based checks, prefix-tree compatibility and the difference values.''', '''The inequality of the definition over exact reals, with square roots defined by their polynomial.''', '''All frequency tables with the listed totals, split symbolically.'''),
'P27': ('''`run_GSM`-style general merging with the options of scores, futures, order; labelled, trace and weighted data; `k-tails`; format detection; the comparison of futures on the prefix tree (pairs compared, original counts used).''', '''Replaying the data, frequency accounting, mergeability by definition.''', '''Scores and compatibility are arbitrary functions in the `any` configurations: any merge decision sequence.'''),
'P28': ('''`run_stochastic_Lstar` and its parts (teacher, tree queries, observation table, counterexample search), both automaton types and all strategies.''', '''Relative frequencies recomputed from the raw log of the interactions.''', '''The answers of the stochastic system are arbitrary instead of sampled.'''),
'P29': ('''`run_non_det_Lstar` with and without stochastic mode, the trace-tree cache.''', '''Observable trace inclusion decided on the product of the tables.''', '''All ONFSMs of the size under every fair scheduler order.'''),
'P30': ('''`run_abstracted_ONFSM_Lstar` with arbitrary output abstractions.''', '''Abstracted behaviour by definition.''', '''Any mapping: outputs merged or not.'''),
'P31': ('''`Vpa`, `SevpaAutomaton` stepping, querying, histories, access words, word generation.''', '''A stack machine written from the definition.''', '''Symbolic tables, any word incl. unmatched returns and unknown letters.'''),
'P32': ('''`run_KV` for VPA systems, every counterexample processing.''', '''Exact equivalence of pushdown automata by well-matched state pairs.''', '''All SEVPAs/VPAs of the size as targets.'''),
'P33': ('''All generators in `AutomatonGenerators`, random draws symbolic.''', '''Counting on the generated model.''', '''Every outcome of the draws up to the budget instead of one seed.'''),
'P34': ('''`utils/Sampling`, `DataHandler`, `ModelChecking` (statistical), trace conversions, complete samples, test-case generators, file readers.''', '''Answers of the tables; definitions of the formats.''', '''Characters of files are symbolic; every text of the length.'''),
'P35': ('''All active learners with a limit on rounds.''', '''The run without limit: the k-th hypothesis is recorded and compared as terms; well-formedness.''', '''All systems of the size, every counterexample choice.'''),
'P36': ('''The L# family: `ObservationTree` (basis, frontier, hypothesis), `Apartness`, adaptive `StateMatching` and `AdaptiveObservationTree` (prefix map, rebuilding, combined model), observed at every equivalence query of complete runs, plus apartness on arbitrary trees.''',
 '''The observations themselves, read from the tree word by word and compared as terms with the tables of the system; the documented matching formula recomputed with fractions; for a reference with the behaviour of the system, the count of equivalence queries (exactly one).''',
 '''Every system and reference of the size at once; a wrong but harmless-looking match only costs queries, which no test measures.'''),
'P37': ('''The example grammars (VPA and SEVPA), `BenchmarkSULs`: stochastic models, coffee machines, date validator, balanced strings, MQTT mock.''',
 '''Recognizers written from the descriptions; probability sums; dates by calendar arithmetic over symbolic day, month, year (numerals are read by a stand-in for `int` in that module).''',
 '''All words up to the length; all dates in the ranges.'''),
'P38': ('''`evaluate_all_properties`, `model_check_properties`, `model_check_experiment`, `stop_based_on_confidence`, and the stopping logic of `run_stochastic_Lstar`; the model checker process is a stand-in that records its command line and the model file and prints chosen answers; the exported PRISM model is read back and compared with the learned one.''',
 '''float() of the printed numerals; real arithmetic with a rounding tolerance of half a unit of the last digit over symbolic values, references and bound; the sequence of verdicts fixes the expected last round.''',
 '''All values and all verdict sequences; rare number formats.'''),
'P39': ('''`SamplingBasedObservationTable.stop` on real tables filled with recorded traces, and the loop of `run_stochastic_Lstar` around it.''',
 '''The share of unambiguous rows counted from the answers of the compatibility test (chosen freely for every pair of cells in every round); thresholds, ranges and the minimum number of rounds are symbolic and the stopping condition is a formula over them; the loop is compared with the sequence of verdicts.''',
 '''All thresholds at once, including the ones exactly on a share; all sequences of counterexamples and verdicts.'''),
'P42': ('''`refine_not_completed_cells`, `add_to_PTA`, `make_closed_and_consistent` with everything below it, `equivalence_query`, and the loop of `run_stochastic_Lstar` with an arbitrary counterexample in every round; recorded traces, frequencies, completeness bound and compatibility answers are symbolic.''',
        '''The set of incomplete cells and the weights by definition from the recorded traces; closedness and consistency by definition; rows and columns by the documented rule.''',
        '''Which cells are sampled is not visible in a learned model; wrong rows show only with particular counterexamples.'''),
'P41': ('''`run_JAlergia` with a stand-in for `subprocess` that reads the file it is given and writes (or does not write) a model; data, symbols, number of sequences, presence of jar, data file and an old model, options are symbolic choices.''',
        '''The written lines, the command line, the model the stand-in wrote, the content of the directory before.''',
        '''No test runs the bridge; stale models and left-over files need a particular history of runs.'''),
'P40': ('''All learners with their print levels and `return_data`, `ProgressReport`, `MergeViolationDebugger`, `print_info` of the passive learners, the printing helpers. `print` and the writing of graphs are replaced by recorders that really turn everything into text.''',
 '''Each run is compared with a silent run on the same symbolic system or data (same tables, same statistics, same queries); printed numbers with the returned ones; logged promotions and merges with the returned model; debugger entries with a walk through the given machine.''',
 '''Level 3 prints whole tables, trees and models of every intermediate state; no test does.'''),
}

FALSE_ALARMS = '''
* P25: the representative word of two prefix-tree nodes that are folded together depends on the order of the data; the first reference assumed one order. The
  reference now accepts both fold orders and the statement says *prefix, shortest first*.
* P28: the reference of the counterexample search stopped at a contradictory node, but the code (rightly) continues below it. Reference corrected.
* P29: counterexamples that show a trace the *hypothesis* allows but the system does not are outside the contract of the oracle; the oracle became one-sided and the statement says so.
* P30: with an abstraction that merges outputs the learner need not terminate without a limit on rounds (the abstraction can make the target infinite-state); the property is now
  stated per round, with exactness where the mapping merges nothing.
* P31: random word generation for SEVPAs draws until it finds an accepted word; when wrapping the word cannot lead to acceptance it cannot end. Termination of that case is an assumption.
* P35: intermediate hypotheses of KV may contain unreachable states; minimality of a stopped run is not promised, so it is not checked.
* P33: one-symbol output alphabets are rejected by an assertion of the generators (documented by the assertion); left out of the bounds.
* P19: hypotheses with unreachable states do not occur with the library's learners at oracle time; the oracles need access sequences.
* P14: for partial machines with state outputs the library's counterexample can be one letter longer than the shortest (it sees a missing transition one letter later); shortest is
  stated for input-complete automata only.
* Runner: a configuration that misses a reachability label used to fail the check; harmless edits of the library can make one situation unreachable, so single ones are only reported now.
* Engine: solver time-outs in algebraic number arithmetic were first treated as failures, they are inconclusive paths now, and bounds were chosen so that none remain.
'''

SUSPECTED = '''
Looked at and left alone (no observable violation of a stated property could be shown): `linear_cex_processing` ignores its direction argument (the results are valid
either way); `CacheDict.add_to_cache` overwrites instead of comparing (the conflict is detected by the caller); `SamplingBasedObservationTable.trim` reads `T[s + i]` where
`T[s][i]` could be meant (no effect on hypotheses); the failsafe condition of `compare_automata` is odd but the loop is bounded by the oracle's frequencies; a `ScoreCombinator` whose first
score is conclusive does not consult the later ones, so that a sink or k-tail wrapper listed later takes a later pair for the initial one (`h_scores` of P27 lists such wrappers first).
'''

CAUGHT = {}
MISSED = {
 'p26-one-sided': 'missed: `alergia-3`, `gsm-3` configurations (three outputs, one-sided observations) added',
 'p18-dedup': 'missed: `h_smm_hidden` (several transitions with the same input and output, compared by bisimulation) added',
 'p16-short-probabilities': 'missed: symbolic probabilities now model `__format__` with a precision',
 'p28-nearest-row': 'missed: `near` configurations (compatibility checker with difference values) added',
 'p29-last-outputs': 'missed: configuration `n5a1x` (five states) added',
 'p35-rounds-per-table': 'missed: `shapes` (structures with several refinements per counterexample) and padded counterexamples added, also to P01-P04',
 'p37-old-session': 'missed: `mqtt-session` configurations (several connections of one adapter) added',
 'p21-state-ids': 'missed: searches after another hypothesis (`prefix-before2`, `rw-before`) now count the tests of every state over all searches',
 'p38-first-state': 'missed: `prism` configurations (exported model simulated by its own transition rows) added to P38',
 'p20-reached': 'missed: `split` configurations (three-state hypotheses against systems with one state split in two) added',
 'p31-no-trap': 'missed: words that continue after an unmatched return added to the step-by-step harness',
}
CAMPAIGN = '''
## 7. Mutation campaign

Besides the planted bugs, first-order mutants of the library (comparison operators, Boolean connectives, constants, arithmetic, dropped statements) were generated at random
and the related quick checks run against mutated copies (scratch, outside /repo). Survivors were read one by one: equivalent mutants (performance only, logging, early exits, dead code) were
set aside, the others led to new configurations. The tool is not part of the registered checks.
'''
