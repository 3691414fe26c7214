"""writes properties.jsonl (edit here)"""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': ['aalpy/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'aalpy/' + w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


LA = 'learning_algs/'
p('P01', 'L* learns the exact minimal model for every option combination',
  'With an equivalence oracle that returns some genuine counterexample whenever one exists, L* terminates for DFA, Moore and Mealy systems, asking at most as many equivalence queries as the system has states, and returns an input-complete, minimal model with only reachable states that behaves exactly like the system. This holds for every closing strategy, every counterexample-processing method, every suffix/prefix option, with and without caching.',
  ['programs', 'inputs', 'configurations'],
  'all deterministic systems up to a bounded number of states with arbitrary outputs, all counterexamples the oracle may return (bounded length), all option combinations',
  'tests learn a dozen fixed models with random oracles and compare sizes; they never cover all systems, all counterexample choices and all option combinations',
  [LA + 'deterministic/LStar.py', LA + 'deterministic/ObservationTable.py', LA + 'deterministic/CounterExampleProcessing.py'],
  [('closing and consistency of the observation table', LA + 'deterministic/ObservationTable.py'),
   ('counterexample decomposition', LA + 'deterministic/CounterExampleProcessing.py'),
   ('main loop and re-use of counterexamples', LA + 'deterministic/LStar.py')],
  ['run_Lstar return value', 'sequence of equivalence queries'])
p('P02', 'KV learns the exact minimal model for every option combination',
  'With an equivalence oracle that returns some genuine counterexample whenever one exists, the classification-tree learner terminates for DFA, Moore and Mealy systems after at most as many equivalence queries as the system has states, and returns an input-complete, minimal model with only reachable states that behaves exactly like the system, for every counterexample-processing method, with and without caching.',
  ['programs', 'inputs', 'configurations'],
  'all deterministic systems up to a bounded number of states with arbitrary outputs, all counterexamples, all options',
  'tests learn fixed models with default settings', [LA + 'deterministic/KV.py', LA + 'deterministic/ClassificationTree.py'],
  [('sifting and leaf splitting', LA + 'deterministic/ClassificationTree.py'), ('main loop', LA + 'deterministic/KV.py')],
  ['run_KV return value'])
p('P03', 'L# learns the exact minimal model for every rule combination',
  'With an equivalence oracle that returns some genuine counterexample whenever one exists, the apartness-based learner L# terminates for DFA, Moore and Mealy systems and returns an input-complete, minimal model with only reachable states that behaves exactly like the system, for every extension rule (none, separating sequence, adaptive) and separation rule (separating sequence, adaptive).',
  ['programs', 'inputs', 'configurations'],
  'all deterministic systems up to a bounded number of states, all counterexamples, all rule combinations',
  'tests learn fixed models with few rule combinations',
  [LA + 'deterministic/LSharp.py', LA + 'deterministic/ObservationTree.py', LA + 'deterministic/Apartness.py', LA + 'deterministic/ADS.py'],
  [('observation tree, frontier and basis', LA + 'deterministic/ObservationTree.py'), ('apartness witnesses', LA + 'deterministic/Apartness.py'),
   ('adaptive distinguishing sequences', LA + 'deterministic/ADS.py')], ['run_Lsharp return value'])
p('P04', 'Adaptive L# is correct no matter which reference models it is given',
  'Adaptive L# returns an input-complete, minimal model that behaves exactly like the system (given an exact equivalence oracle), for whatever list of reference models over any partly overlapping alphabet it is given, and for every combination of rebuilding and state-matching; references may change the number of queries but never the result.',
  ['programs', 'inputs', 'configurations'],
  'all systems and all reference machines up to bounded sizes, all rebuilding/matching options',
  'tests use references closely related to the learned model',
  [LA + 'adaptive/AdaptiveLSharp.py', LA + 'adaptive/AdaptiveObservationTree.py', LA + 'adaptive/StateMatching.py'],
  [('rebuilding from references', LA + 'adaptive/AdaptiveObservationTree.py'), ('state matching', LA + 'adaptive/StateMatching.py')],
  ['run_adaptive_Lsharp return value'])
p('P05', 'The query cache is transparent and detects nondeterminism',
  'A cached system answers every query and every step exactly as the wrapped system does, in any interleaving of queries and stepwise runs; a non-empty query whose answer follows from what was already observed is answered without touching the wrapped system. If the wrapped system ever answers a previously observed input sequence differently, the conflict is reported as non-determinism instead of being returned or stored.',
  ['histories', 'inputs', 'fault_sequences'],
  'all histories of a bounded number of queries/step sessions over all systems, including systems that change an answer',
  'tests only run learners over the cache; they check neither traffic nor conflicting answers for all histories',
  ['base/SUL.py', 'base/CacheTree.py'], [('prefix-closed cache', 'base/CacheTree.py'), ('cached query', 'base/SUL.py')],
  ['outputs of query/step', 'traffic at the wrapped system'])
p('P06', 'Learning statistics equal the real interaction with the system',
  'The statistics returned by the deterministic learners are the truth: the reported model size is the size of the returned model, and the numbers of membership queries and input steps attributed to learning equal the output queries actually executed on the system by the learner and the inputs in them, with answers served from the cache counted separately. Every equivalence oracle counts exactly the tests and input steps it executed, after every search. Previously recorded input/output samples given to a learner never change the learned behaviour, and no output query is executed whose answer is part of the samples or, with caching on, was observed before.',
  ['programs', 'histories', 'configurations'],
  'all systems up to a bounded size, all learners with caching on and off, all samples consistent with the system',
  'tests print the statistics and never compare them with the real traffic',
  ['base/SUL.py', LA + 'deterministic/LStar.py', LA + 'deterministic/KV.py', LA + 'deterministic/LSharp.py'],
  [('counters', 'base/SUL.py'), ('info dictionaries', LA + 'deterministic/LStar.py')], ['info dictionary', 'traffic at the system'])
p('P07', 'Counterexample processing yields a genuinely distinguishing suffix',
  'Given a counterexample to a hypothesis whose states carry access sequences and which agrees with the system on them and their one-letter extensions, every counterexample-processing method returns non-empty suffixes of the counterexample, all suffixes of the longest of them included where closure is requested. The decomposition methods return a suffix that, appended to the access sequence of some hypothesis state extended by one letter and to the access sequence of the state that letter leads to, makes the system produce different outputs.',
  ['programs', 'inputs'],
  'all systems up to a bounded size, all consistent hypotheses, all counterexamples up to a bounded length, every method and direction',
  'tests only observe that learning eventually succeeds',
  [LA + 'deterministic/CounterExampleProcessing.py'], [('binary, linear and exponential search for the breakpoint', LA + 'deterministic/CounterExampleProcessing.py')],
  ['returned suffixes'])
p('P08', 'Systems under learning follow the reset/step/query protocol',
  'A query resets the system exactly once, feeds exactly the given letters in order, returns one output per letter (for an empty query, where states have outputs, the output of the initial state), cleans up exactly once and counts one query and one step per letter. The ready-made systems (automaton-backed, regular expression, Tomita grammars, Python class) give for every word, including the empty one and in any history of earlier queries, the answer their definition prescribes.',
  ['inputs', 'histories'],
  'all words up to a bounded length in any order, all automata up to a bounded size',
  'tests use these systems only as learning targets',
  ['base/SUL.py', 'SULs/AutomataSUL.py', 'SULs/RegexSUL.py', 'SULs/TomitaSUL.py', 'SULs/PyMethodSUL.py'],
  [('query', 'base/SUL.py'), ('pre/post/step', 'SULs/')], ['query answers', 'call sequence'])
p('P09', 'Running a deterministic automaton follows its tables and is side-effect free',
  'Stepping a DFA, Moore or Mealy machine follows its transition table and returns the output of the transition (Mealy) or of the reached state (DFA, Moore; with no letter, of the current state); executing a sequence from a state equals stepping it letter by letter. Asking for the output of one step or of a whole sequence from any state leaves the machine in the state it was in before.',
  ['programs', 'inputs', 'histories'], 'all machines up to a bounded number of states, all states, all words up to a bounded length',
  'tests run a few fixed machines', ['base/Automaton.py', 'automata/Dfa.py', 'automata/MooreMachine.py', 'automata/MealyMachine.py'],
  [('step', 'automata/'), ('execute_sequence, output_step, compute_output_seq', 'base/Automaton.py')], ['outputs, current state'])
p('P10', 'Shortest paths, access sequences and connectivity answers are exact',
  'The shortest-path query between two states returns an input sequence that leads from the origin to the target and no shorter one exists, the empty sequence for identical states, and nothing exactly when the target is unreachable. The strong-connectivity test holds exactly when every state reaches every other, and computed state prefixes are shortest access sequences.',
  ['programs', 'inputs'], 'all automata up to a bounded number of states, also incomplete ones, all pairs of states',
  'tests use single hand-made examples', ['base/Automaton.py'], [('breadth-first search', 'base/Automaton.py'), ('prefixes', 'base/Automaton.py')], ['returned paths'])
p('P11', 'Distinguishing sequences and characterization sets separate states',
  'A returned distinguishing sequence makes the two given states produce different outputs and is as short as possible, and none is returned only if the two states are equivalent. A characterization set separates every pair of states, is reported exactly when the automaton is minimal, and the minimality test answers accordingly, whatever options or initial set are used.',
  ['programs', 'inputs', 'configurations'], 'all input-complete deterministic automata up to a bounded number of states with arbitrary outputs, all option combinations',
  'tests check sizes on example models', ['base/Automaton.py'], [('pair-wise breadth-first search', 'base/Automaton.py'), ('block splitting', 'base/Automaton.py')], ['returned sequences'])
p('P12', 'Minimization preserves behaviour and yields the minimal machine',
  'Minimizing an input-complete deterministic automaton keeps its behaviour from the initial state, leaves no two equivalent states, keeps the initial state and all transition targets inside the machine, and gives every reachable state an access sequence; this holds wherever the initial state stands among the states and whichever states are equivalent.',
  ['programs'], 'all input-complete automata up to a bounded number of states with arbitrary outputs and any position of the initial state',
  'tests minimize one or two examples whose initial state comes first', ['base/Automaton.py'], [('merging of equivalent states', 'base/Automaton.py')], ['machine after minimize()'])
p('P13', 'Copies, pickles and state setups reproduce the automaton',
  'Copying an automaton, pickling and unpickling it, or rebuilding it from its own exported setup yields an independent automaton of the same type and size with the same initial state, the same states, outputs, transitions and probabilities, for DFA, Moore, Mealy, MDP, stochastic Mealy, nondeterministic Moore and (up to the implicit error state) visibly pushdown automata, whatever the order of their states.',
  ['programs'], 'all automata up to a bounded size of every type, also incomplete and with any position of the initial state',
  'tests pickle a few generated deterministic models', ['base/Automaton.py', 'automata/Dfa.py', 'automata/MooreMachine.py', 'automata/MealyMachine.py', 'automata/Mdp.py', 'automata/MarkovChain.py', 'automata/StochasticMealyMachine.py', 'automata/Onfsm.py', 'automata/NonDeterministicMooreMachine.py', 'automata/Vpa.py', 'automata/Sevpa.py'],
  [('to_state_setup / from_state_setup', 'automata/'), ('copy and __reduce__', 'base/Automaton.py')], ['copied automaton'])
p('P14', 'Bisimilarity and model comparison are exact',
  'Two deterministic automata over the same inputs are reported bisimilar (and compare equal) exactly when every input sequence gives the same outputs in both, and a returned counterexample is a sequence on which they differ, a shortest one if both are input complete. Comparing two models (all states reachable) for several counterexamples terminates and returns only genuine, distinct counterexamples, shorter ones first.',
  ['programs', 'configurations'], 'all pairs of automata up to a bounded number of states with arbitrary outputs',
  'tests compare a few models', ['utils/HelperFunctions.py', 'utils/ModelChecking.py', 'base/Automaton.py'], [('product exploration', 'utils/ModelChecking.py'), ('comparison by conformance testing', 'utils/ModelChecking.py')], ['returned verdict / sequence'])
p('P15', 'Making a model input-complete adds only the missing transitions',
  'Making any supported automaton input-complete leaves every existing transition, output and probability as it was and defines every missing input: as a self loop, or as a transition to a fresh sink state that never leaves itself, with the documented output. The result is input complete, and a complete automaton is unchanged.',
  ['programs', 'configurations'], 'all partial automata up to a bounded size of all supported types, both modes',
  'tests only check that completion does not crash', ['utils/HelperFunctions.py'], [('make_input_complete', 'utils/HelperFunctions.py')], ['automaton after completion'])
p('P16', 'Saving a model and loading it back gives the same model',
  'Writing an automaton of a supported type in dot format and reading it back yields an automaton of that type with the same initial state, the same number of states and the same behaviour, including transition probabilities, for textual and integer inputs and outputs.',
  ['programs'], 'all automata up to a bounded size, labels from a family including spaces, digits and negative numbers',
  'tests round-trip some generated models', ['utils/FileHandler.py'], [('dot writer and parser', 'utils/FileHandler.py')], ['loaded automaton'])
p('P17', 'Probabilistic and nondeterministic machines only do what their tables allow',
  'Stepping a Markov chain, MDP, stochastic Mealy machine, observable nondeterministic FSM or nondeterministic Moore machine moves along one of the transitions enabled for the input with non-zero probability, returns that transition’s output, and draws each alternative exactly on its share of the random draws. Forcing a step to a given output succeeds exactly when that output is possible and leads to the state prescribed for it, otherwise the state does not change.',
  ['programs', 'inputs', 'histories'], 'all machines up to a bounded size with arbitrary probabilities, all values of the random draw',
  'tests sample executions', ['automata/MarkovChain.py', 'automata/Mdp.py', 'automata/StochasticMealyMachine.py', 'automata/Onfsm.py', 'automata/NonDeterministicMooreMachine.py'], [('step / step_to', 'automata/')], ['outputs and successor states'])
p('P18', 'Model conversions preserve behaviour',
  'Converting a stochastic Mealy machine to an MDP, an MDP without choices to a Markov chain, or a Boolean-output Moore machine to a DFA keeps, for every input sequence, exactly the same outputs with the same probabilities.',
  ['programs'], 'all machines up to a bounded size with arbitrary outputs and probabilities', 'tests check sizes of converted examples',
  ['automata/StochasticMealyMachine.py', 'utils/HelperFunctions.py'], [('conversion functions', 'utils/HelperFunctions.py'), ('smm_to_mdp_conversion', 'automata/StochasticMealyMachine.py')], ['converted model'])
p('P19', 'Every counterexample returned by an equivalence oracle is genuine',
  'Whenever an equivalence oracle returns an input sequence, the system and the hypothesis really produce different outputs on it (from a fresh reset), and the last input is the first that shows a difference where the oracle stops at the first difference. This holds for every oracle in the library, all its options, and over repeated calls, and no oracle changes the hypothesis.',
  ['programs', 'schedules', 'configurations'], 'all systems and hypotheses up to a bounded size, every outcome of the oracle’s random choices within bounded test lengths, repeated use',
  'tests use oracles only through learning runs', ['oracles/'], [('per-step comparison', 'oracles/'), ('reset', 'base/Oracle.py')], ['returned sequence, hypothesis before/after'])
p('P20', 'W-method and Wp-method find every fault within their state bound',
  'If the system has at most the configured maximum number of states and differs from a minimal hypothesis, the W-method and the Wp-method return a counterexample; if they return none, system and hypothesis are equivalent. Their test suites do not depend on the order of states or earlier calls.',
  ['programs', 'configurations'], 'all systems with up to m states and all minimal hypotheses up to bounded sizes',
  'tests learn fixed models', ['oracles/WMethodEqOracle.py', 'oracles/WpMethodEqOracle.py'], [('transition cover x middle x characterization set', 'oracles/WMethodEqOracle.py'), ('state identification sets', 'oracles/WpMethodEqOracle.py')], ['verdict of find_cex'])
p('P21', 'Testing oracles execute the tests they promise',
  'The breadth-first oracle finds a difference whenever one exists within its depth; the state-prefix, random-word, random-walk, transition-coverage, transition-focus and state-coverage oracles execute, when no difference is found, the promised number of tests or covered items, starting from the promised states, for every hypothesis they are given; the provided-sequences and cache-based oracles execute the promised sequences first. Limits on the number of tests or input steps are kept.',
  ['programs', 'schedules', 'configurations'], 'all hypotheses up to a bounded size, all random outcomes within bounds', 'tests only use them in learning runs',
  ['oracles/BreadthFirstExplorationEqOracle.py', 'oracles/StatePrefixEqOracle.py', 'oracles/kWayStateCoverageEqOracle.py', 'oracles/kWayTransitionCoverageEqOracle.py', 'oracles/ProvidedSequencesOracleWrapper.py', 'oracles/CacheBasedEqOracle.py', 'oracles/RandomWordEqOracle.py', 'oracles/RandomWalkEqOracle.py', 'oracles/TransitionFocusOracle.py'],
  [('test generation', 'oracles/')], ['words executed on the system'])
p('P22', 'RPNI and EDSM models agree with every training example',
  'From any set of labelled examples that does not contradict itself, both RPNI implementations and EDSM return a DFA, Moore or Mealy machine that reproduces the label of every example, has no more states than the prefix tree, and — when completion is requested — is input complete without changing any example. Contradictory examples yield no model (or an error for EDSM), never a model violating an example. The active variant adds only true answers of the system to the data and every model it learns agrees with all data so far.',
  ['inputs', 'configurations'], 'all sets of a bounded number of examples of bounded length with arbitrary labels, all algorithm variants and completion modes',
  'tests use generated data for few models', [LA + 'deterministic_passive/'], [('prefix tree construction', LA + 'deterministic_passive/rpni_helper_functions.py'), ('red-blue merging', LA + 'deterministic_passive/GsmRPNI.py'), ('classic RPNI', LA + 'deterministic_passive/ClassicRPNI.py')], ['learned model on the examples'])
p('P23', 'RPNI identifies the target from a characteristic sample',
  'Given all labelled words up to a length that is characteristic for a target machine, RPNI returns a machine equivalent to the target, and both RPNI implementations return the same behaviour on that data.',
  ['programs', 'configurations'], 'all targets up to a bounded number of states with arbitrary outputs', 'tests use few targets',
  [LA + 'deterministic_passive/'], [('merge order and compatibility', LA + 'deterministic_passive/')], ['learned model'])
p('P24', 'Learned visibly pushdown models agree with their well-matched training data',
  'Passive learning of visibly pushdown automata returns a model that reproduces the label of every well-matched example, ignoring examples that are not well matched; the balancedness test accepts exactly the well-matched words.',
  ['inputs'], 'all sets of a bounded number of labelled call/return words up to a bounded length', 'tests use a few grammars',
  [LA + 'deterministic_passive/RPNI.py', 'utils/HelperFunctions.py'], [('encoding of calls and returns', LA + 'deterministic_passive/RPNI.py'), ('is_balanced', 'utils/HelperFunctions.py')], ['learned model on the data'])
p('P25', 'Alergia models are valid probabilistic models of the data',
  'From any data set and any confidence parameter, Alergia returns a Markov chain, MDP or stochastic Mealy machine whose transition probabilities are positive and sum to one for every state and input, in which every training sequence has non-zero probability, and whose frequencies add up to those of the data. Each probability equals the relative frequency with which the data, followed through the model, takes that transition. States merge exactly as ALERGIA prescribes: each prefix, shortest first, is merged with the first earlier state that the compatibility checker does not tell apart from it or from its common futures.',
  ['inputs', 'configurations'], 'all data sets of a bounded number of short traces with arbitrary symbols and all epsilon values', 'tests compare model sizes only',
  [LA + 'stochastic_passive/Alergia.py', LA + 'stochastic_passive/FPTA.py', LA + 'stochastic_passive/CompatibilityChecker.py'], [('frequency prefix tree', LA + 'stochastic_passive/FPTA.py'), ('merge and fold', LA + 'stochastic_passive/Alergia.py'), ('normalisation', LA + 'stochastic_passive/Alergia.py')], ['learned model'])
p('P26', 'Statistical difference tests match their definition and are symmetric',
  'The Hoeffding-style compatibility tests declare two frequency tables different exactly when some relative frequency differs by more than the bound computed from both sample sizes and the confidence parameter, the chi-square test exactly when its statistic reaches the tabulated quantile; none depends on the order of its two arguments or of the outputs, and without observations on one side none reports a difference caused by frequencies.',
  ['inputs'], 'all frequency tables with a bounded number of outputs and arbitrary counts, all confidence values', 'tests never exercise the tests in isolation',
  [LA + 'stochastic/DifferenceChecker.py', LA + 'stochastic_passive/CompatibilityChecker.py', LA + 'general_passive/ScoreFunctionsGSM.py'], [('Hoeffding bound', LA + 'stochastic/DifferenceChecker.py'), ('chi-square statistic', LA + 'stochastic/DifferenceChecker.py')], ['verdict'])
p('P27', 'General state merging preserves the data it merges',
  'The generic state-merging learner (deterministic, nondeterministic or stochastic; Mealy or Moore) returns a model that can reproduce every input/output trace of the data, that is deterministic when asked for, and whose transition frequencies add up to those of the data when probabilities are learned, for all scoring, ordering and compatibility options. Wrapped and combined scores start afresh with every attempted merge and answer as their parts and their documentation say (k-tails up to the given depth, sink criteria for the initial pair only). Compatibility of futures evaluated on the prefix tree compares the common continuations of the two access traces of the original tree, with the original counts of the data, whatever was merged before.',
  ['inputs', 'configurations'], 'all data sets of a bounded number of short traces with arbitrary outputs, all option combinations', 'tests compare a few learned models with RPNI and Alergia',
  [LA + 'general_passive/'], [('partitioning and merge', LA + 'general_passive/GeneralizedStateMerging.py'), ('prefix tree and conversion', LA + 'general_passive/GsmNode.py'), ('scores', LA + 'general_passive/ScoreFunctionsGSM.py')], ['learned model'])
p('P28', 'Stochastic L* bookkeeping and hypotheses are valid',
  'The sampling-based stochastic learner records exactly the frequencies it observed, and every hypothesis it builds has, for every state and input, transition probabilities that are positive, sum to one and equal the observed relative frequencies, reaching for each observed output a state compatible with the extended trace; unobserved behaviour leads to the designated chaos state only.',
  ['histories', 'configurations'], 'all systems’ answers within a bounded number of sampled traces', 'tests only check sizes after long random runs',
  [LA + 'stochastic/'], [('trace multiset', LA + 'stochastic/StochasticTeacher.py'), ('table and hypothesis', LA + 'stochastic/SamplingBasedObservationTable.py')], ['hypothesis'])
p('P29', 'Nondeterministic L* learns the observable behaviour',
  'When every possible output shows up within the configured number of repetitions and the equivalence oracle reports a trace of the system that the hypothesis does not allow whenever there is one, the nondeterministic learner terminates with an input-complete observable nondeterministic model that allows every input/output trace of the system and every trace ever observed; each state allows exactly the outputs the system shows after the access trace of the state, and the model has no more states than the system. In stochastic mode the transition probabilities are the relative frequencies observed after the access trace.',
  ['programs', 'schedules'], 'all observable nondeterministic systems up to a bounded size', 'tests check sizes',
  [LA + 'non_deterministic/OnfsmLstar.py', LA + 'non_deterministic/OnfsmObservationTable.py', LA + 'non_deterministic/TraceTree.py'], [('trace tree', LA + 'non_deterministic/TraceTree.py'), ('table', LA + 'non_deterministic/OnfsmObservationTable.py')], ['returned model'])
p('P30', 'Abstracted nondeterministic L* learns the abstracted behaviour',
  'When every possible output shows up within the configured number of repetitions, the abstracted nondeterministic learner handles any output abstraction mapping: within any bound on the number of rounds it terminates, every hypothesis is an input-complete model whose states are reached by genuine traces of the system and pairwise differ in the abstracted outputs of some suffix, it has no more states than the system, every move the system can make after the access trace of a state is there, and every transition is a move of some state of the system with the same abstracted outputs. If it stops because the equivalence oracle finds no counterexample, the model allows every trace of the system; when the mapping merges no outputs it always stops that way.',
  ['programs', 'schedules'], 'all observable nondeterministic systems up to a bounded size and all abstraction maps', 'tests check one example',
  [LA + 'non_deterministic/AbstractedOnfsmLstar.py', LA + 'non_deterministic/AbstractedOnfsmObservationTable.py'], [('abstracted table', LA + 'non_deterministic/AbstractedOnfsmObservationTable.py')], ['returned model'])
p('P31', 'Visibly pushdown automata follow stack semantics',
  'Stepping a VPA or SEVPA on any word gives the verdict of its definition: calls push, returns pop and are matched against the pushed symbol, a return on an empty stack or an undefined move leads to permanent rejection until reset, and a word is accepted exactly when it ends in an accepting state with an empty stack. Resetting restores the initial configuration, and queries through the system interface have no memory. The access word built for a SEVPA configuration leads to exactly that configuration, and generated accepted words are accepted (breadth-first generation returns shortest ones).',
  ['programs', 'inputs', 'histories'], 'all VPAs and SEVPAs up to a bounded size, all words up to a bounded length', 'tests use benchmark grammars',
  ['automata/Vpa.py', 'automata/Sevpa.py'], [('step with stack', 'automata/Vpa.py'), ('step with stack', 'automata/Sevpa.py')], ['acceptance'])
p('P32', 'KV learns visibly pushdown languages exactly',
  'With an exact equivalence oracle, the learner for visibly pushdown systems terminates and returns a model accepting exactly the well-matched words the system accepts; the access words and discriminators it derives are genuine.',
  ['programs'], 'all visibly pushdown systems up to a bounded number of locations and bounded word length', 'tests learn some benchmark grammars',
  [LA + 'deterministic/KV.py', LA + 'deterministic/ClassificationTree.py', 'automata/Sevpa.py'], [('SEVPA hypothesis construction', LA + 'deterministic/ClassificationTree.py')], ['returned model'])
p('P33', 'Generated random models have the requested shape',
  'For every outcome of the random choices the random-model generators return a model with the requested number of states, inputs and (where the model has room for them) outputs, that is input complete. Deterministic models, MDPs and SMMs have only reachable states; deterministic models have the requested number of accepting states and are minimal where requested, otherwise a warning is given; the generators terminate. Outgoing probabilities are positive and sum to one for every state and input, no two transitions of a state and input carry the same output, and a SEVPA has exactly one transition per state for each internal letter and for each return letter and stack symbol.',
  ['inputs', 'schedules'], 'all outcomes of the random draws, sizes up to a bound', 'tests sample few seeds',
  ['utils/AutomatonGenerators.py'], [('generators', 'utils/AutomatonGenerators.py')], ['generated model'])
p('P34', 'Sampled and converted data is faithful to its model and format',
  'Input/output samples, labelled sequences, VPA data and test cases produced from a model carry exactly the answers of the model to the produced inputs and have the requested number and lengths; test cases generated from an exhaustive test generator are complete and free of duplicates; the complete sample of a minimal model covers every state and transition with suffixes that tell all states apart, so that RPNI identifies the model from it; statistical model checking returns the relative frequency of tests that reach a goal output. The model is not changed. Converting traces between formats, reading data files and cutting data into prefixes or suffixes preserves every symbol and its order (decimal numerals are read as numbers).',
  ['inputs', 'programs'], 'all models up to a bounded size, all data sets with a bounded number of short traces', 'tests use the helpers as-is',
  ['utils/Sampling.py', 'utils/DataHandler.py', 'utils/HelperFunctions.py'], [('sampling', 'utils/Sampling.py'), ('tokenizers', 'utils/DataHandler.py')], ['returned data'])

p('P35', 'A limit on the number of learning rounds is respected',
  'With a positive limit on learning rounds every active learner (L*, KV also for visibly pushdown systems, L#, adaptive L#, nondeterministic L* and its abstracted variant) stops after at most that many rounds, reports exactly the number of rounds it executed, and returns the last hypothesis it built, which is input complete and well formed (with probabilities summing to one where requested). Up to the limit it proceeds as without limit; a limit that is not reached does not change the result.',
  ['programs', 'configurations'], 'all systems up to a bounded size, all option combinations, limits up to a bound', 'tests never set a limit',
  [LA + 'deterministic/', LA + 'adaptive/AdaptiveLSharp.py', LA + 'non_deterministic/'], [('round counter', LA + 'deterministic/LSharp.py'), ('round counter', LA + 'deterministic/KV.py'), ('round counter', LA + 'non_deterministic/OnfsmLstar.py')], ['returned model'])

p('P36', 'L# evidence: hypotheses follow from what was observed',
  'In L# and adaptive L# the observation tree holds only true answers of the system, every hypothesis agrees with every observation made so far, its states have pairwise different observed behaviour and prefix-closed access words, and each transition leads to the only state the observations allow. Two observations are apart exactly when some common word separates them, and the reported witness does. A state is matched with reference states exactly as documented (total: no conflict; approximate: best agreement). With a single reference that already has the behaviour of the system, rebuilding finds all states, so that exactly one equivalence query is asked.',
  ['programs', 'configurations'], 'all systems and references up to a bounded size, all matching modes, arbitrary observation trees of bounded depth', 'tests only look at the final model and never at the matching or at the number of equivalence queries',
  [LA + 'deterministic/ObservationTree.py', LA + 'deterministic/Apartness.py', LA + 'adaptive/'], [('frontier and basis', LA + 'deterministic/ObservationTree.py'), ('state matching', LA + 'adaptive/StateMatching.py'), ('rebuilding', LA + 'adaptive/AdaptiveObservationTree.py')], ['hypothesis'])
p('P37', 'Ready-made example models behave as documented',
  'The example models and systems shipped with the library are what their documentation says: the visibly pushdown and SEVPA versions of each grammar (including the arithmetic and JSON examples) accept exactly the described language and agree with each other, the parity and Angluin automata accept their languages, every ready-made probabilistic model is input complete with positive probabilities that sum to one, the nondeterministic ones are observable, the faulty coffee machine models produce every output word with the same probability, balanced-string systems accept exactly the balanced strings, the date validator accepts exactly the dates of a calendar without leap years, and the mock MQTT broker follows its session protocol.',
  ['inputs', 'programs'], 'all words up to a bounded length; all day, month and year values in wide ranges', 'tests use a few of the models and never compare them with their description',
  ['utils/BenchmarkVpaModels.py', 'utils/BenchmarkSevpaModels.py', 'utils/BenchmarkSULs.py'], [('grammars', 'utils/BenchmarkVpaModels.py'), ('systems', 'utils/BenchmarkSULs.py')], ['acceptance', 'outputs'])
p('P38', 'Model checking answers are read, compared and acted on correctly',
  'When learned stochastic models are checked against properties with the external model checker, exactly the given model is handed over, every numeric answer printed is read with its full value and in order (also in exponent notation), the reported errors are the rounded distances to the reference values, no temporary file is left behind, and property-based stopping ends learning at the first round, not before the minimum, at which all errors are within the bound, and never later than the maximum number of rounds; the returned model is the one that was checked.',
  ['inputs', 'configurations', 'histories'], 'all values, references and bounds; all sequences of verdicts over a bounded number of rounds', 'tests never run the model checker',
  ['utils/ModelChecking.py', LA + 'stochastic/StochasticLStar.py'], [('parsing and errors', 'utils/ModelChecking.py'), ('stopping', LA + 'stochastic/StochasticLStar.py')], ['reported values', 'number of rounds'])
p('P39', 'Stochastic L* stops exactly when its documented criteria hold',
  'Without property-based stopping, stochastic L* ends at the maximum number of rounds at the latest and reports the number of rounds executed and the size of the returned model, which is its last hypothesis. Earlier it ends only when nothing is left to sample, or after a round with neither a counterexample nor reachable unknown behaviour, not before the minimum number of rounds, and then at the first round in which the share of rows with exactly one compatible representative reaches the target or (except in the classic strategy) the last shares lie within one of the configured ranges.',
  ['inputs', 'configurations', 'histories'], 'all compatibility answers and thresholds over a bounded number of rounds', 'tests use one system and the default thresholds',
  [LA + 'stochastic/StochasticLStar.py', LA + 'stochastic/SamplingBasedObservationTable.py'], [('criteria', LA + 'stochastic/SamplingBasedObservationTable.py'), ('loop', LA + 'stochastic/StochasticLStar.py')], ['number of rounds', 'returned model'])
p('P40', 'Reports are true and never change what is learned',
  'Whatever is printed or returned along (print level, printed information, returned statistics, progress reports, merge debugging) never changes the learned model, its statistics or the queries made: every learner gives the same result at every print level, prints nothing at level 0, and returns statistics exactly when asked. What is reported is true: the printed statistics are the returned ones, passive learners print the size of the learned model, the progress report of state merging logs exactly the promoted states and the merges that the returned model shows, and the merge debugger reports exactly the decisions that contradict the given machine, in every run it is used for.',
  ['inputs', 'configurations'], 'every print level and all systems or data sets within the bounds', 'tests print nothing and check no report',
  [LA + 'deterministic/LStar.py', LA + 'deterministic/KV.py', LA + 'deterministic/LSharp.py', LA + 'adaptive/AdaptiveLSharp.py', LA + 'non_deterministic/OnfsmLstar.py', LA + 'non_deterministic/AbstractedOnfsmLstar.py',
   LA + 'stochastic/StochasticLStar.py', LA + 'general_passive/Instrumentation.py', LA + 'deterministic_passive/RPNI.py', LA + 'stochastic_passive/Alergia.py', 'utils/HelperFunctions.py'],
  [('printed statistics', 'utils/HelperFunctions.py'), ('reports', LA + 'general_passive/Instrumentation.py')], ['returned model', 'printed lines', 'log of a report'])
p('P41', 'The jAlergia bridge hands over exactly the data and cleans up',
  'Learning with the external jAlergia program runs it once, with the given options, on a file that holds exactly the given sequences, in order and one per line, or on the given data file itself; it returns exactly the model that this run of the program wrote, and nothing when the program or one of the files is missing or the program fails (never a model left from an earlier run). Afterwards no temporary file is left behind and no file of the user is changed or removed.',
  ['inputs', 'histories'], 'all data within the bounds, all combinations of present and missing files, success and failure of the program', 'tests never run the program',
  [LA + 'stochastic_passive/Alergia.py'], [('exchange', LA + 'stochastic_passive/Alergia.py')], ['returned model', 'files'])
p('P42', 'Stochastic L* resamples and extends its table as documented',
  'Between rounds the classic strategy samples again exactly the table cells without sufficient information, with the configured number of queries, and reports that nothing is left when all cells are complete; the other strategies sample every cell with a weight that grows with the number of states its row may belong to. A closed table has a compatible representative for every row and every observed extension, representatives are pairwise incompatible, and without suffix-based counterexample processing compatible rows have compatible extensions. A counterexample adds all its prefixes as rows, or (longest prefix) the remainder after its longest known prefix as a column; it is kept until the hypothesis explains it, only then a new one is asked for.',
  ['inputs', 'configurations', 'histories'], 'all recorded traces, frequencies and compatibility answers within the bounds, all counterexamples of bounded length', 'tests learn a few systems and look at the result',
  [LA + 'stochastic/SamplingBasedObservationTable.py', LA + 'stochastic/StochasticTeacher.py', LA + 'stochastic/StochasticCexProcessing.py', LA + 'stochastic/StochasticLStar.py'],
  [('resampling', LA + 'stochastic/SamplingBasedObservationTable.py'), ('equivalence query', LA + 'stochastic/StochasticTeacher.py'), ('counterexamples', LA + 'stochastic/StochasticLStar.py')], ['sampled traces', 'rows and columns of the table'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
