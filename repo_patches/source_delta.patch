From ae554fb49142f92679ebf7d101c404263eb6ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 01/73] fix: adaptive L# skips references without common inputs
 instead of failing

---
 .../adaptive/AdaptiveObservationTree.py             | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..1615687 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,22 +488,25 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        usable_references = []
+        for position, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
-                    f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
+                    f"Warning: reference model {position} has no common inputs and will not be used as a reference.")
                 continue
 
+            reference_id = len(usable_references)
+            usable_references.append(reference)
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
             self.compute_prefix_map(automaton_class[self.automaton_type](states[0], states), reference_id)
             self.compute_characterization_map(reference, states)
 
+        # references without common inputs are skipped, without changing the list given by the user
+        self.references = usable_references
+
         if all_states == []:
             print(f"Warning: the references did not lead to any usable states, this could be due to empty models or no common inputs.")
             return None
-- 
2.43.0


From 99ec8e770fa2e62abd09bf5c8ed98671d5228ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 02/73] fix: total state matching works for Moore machines

---
 aalpy/learning_algs/adaptive/StateMatching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..8969e45 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,8 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            ref_out = reference_state.is_accepting if ob_tree.automaton_type == 'dfa' else reference_state.output
+            if ref_out != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From 8fa9ec0296f7c41843a24fefcaff755ebcc3453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 03/73] fix: dictionary cache accepts steps with the empty
 input

---
 aalpy/base/CacheTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..bb18971 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -122,7 +122,8 @@ class CacheDict:
         """
 
         if inp is None:
-            return self.cache_dict[()]
+            self.cache_dict[()] = out
+            return
 
         self.inputs += (inp,)
 
-- 
2.43.0


From 0890f597272c1d06f19cafb90c82ba0b97a6a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 04/73] fix: exponential counterexample processing returns all
 suffixes when asked for

---
 .../learning_algs/deterministic/CounterExampleProcessing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 5503946..ec96cdd 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -209,7 +209,11 @@ def exponential_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedne
             bwd_subtrahend *= 2
 
     if (bp - bp_recent) == 1:
-        return [suffix]
+        if not suffix_closedness:
+            return [suffix]
+        suffixes = all_suffixes(suffix) if closedness == 'suffix' else all_prefixes(suffix)
+        suffixes.reverse()
+        return suffixes
     else:
         if direction == 'fwd':
             return rs_cex_processing(sul, cex, hypothesis, suffix_closedness, closedness, is_vpa, lower=bp_recent)
-- 
2.43.0


From e35a964d164454b48b9523893e6f01b4be22fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 05/73] fix: Tomita system answers the empty query for the
 empty word

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From 9c234eac02410861755503241ad7cd929739640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 06/73] fix: regex system matches the whole string, also for
 alternatives

---
 aalpy/SULs/RegexSUL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index 1499bdc..34a066a 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -5,11 +5,11 @@ import re
 class RegexSUL(SUL):
     """
     An example implementation of a system under learning that can be used to learn any regex expression.
-    Note that the $ is added to the expression as in this SUL only exact matches are learned.
+    Only exact matches (of the whole string) are accepted.
     """
     def __init__(self, regex: str):
         super().__init__()
-        self.regex = regex if regex[-1] == '$' else regex + '$'
+        self.regex = regex
         self.string = ""
 
     def pre(self):
@@ -34,4 +34,4 @@ class RegexSUL(SUL):
         """
         if letter is not None:
             self.string += str(letter)
-        return True if re.match(self.regex, self.string) else False
+        return re.fullmatch(self.regex, self.string) is not None
-- 
2.43.0


From 0632a09d0dc2206538920f82febd3cabd91c7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 07/73] fix: falsy arguments of learned methods are passed on

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From a52e0e2bce197fa1defb0222b09ed1917ac1e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 08/73] fix: characterization set keeps the caller's initial
 set and includes the empty sequence for state outputs

---
 aalpy/automata/Dfa.py          | 7 +++++--
 aalpy/automata/MooreMachine.py | 9 ++++++---
 aalpy/base/Automaton.py        | 2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..123b499 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,8 +42,11 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
-                                                             online_suffix_closure, split_all_blocks,
+        # states have outputs, so the empty sequence is always a part of the characterization set
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(Dfa, self).compute_characterization_set(char_set_init, online_suffix_closure, split_all_blocks,
                                                              return_same_states, raise_warning)
 
     def compute_output_seq(self, state, sequence):
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..89dc66a 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,9 +39,12 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
-                                                                      online_suffix_closure, split_all_blocks,
-                                                                      return_same_states, raise_warning)
+        # states have outputs, so the empty sequence is always a part of the characterization set
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init, online_suffix_closure, split_all_blocks,
+                                                             return_same_states, raise_warning)
 
     def compute_output_seq(self, state, sequence):
         if not sequence:
diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..ccf96f8 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -346,7 +346,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From b6e5a38e652d723b8fbb5816646f7344739e0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 09/73] fix: states that differ only in their own output are
 distinguished by the empty sequence

---
 aalpy/base/Automaton.py           | 4 ++++
 aalpy/oracles/WpMethodEqOracle.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index ccf96f8..b4228e6 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -275,6 +275,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         Returns: an input sequence distinguishing two states, or None if the states are equivalent
 
         """
+        # the empty sequence distinguishes states with different state outputs (DFA and Moore)
+        if self.compute_output_seq(state1, ()) != self.compute_output_seq(state2, ()):
+            return []
+
         visited = set()
         to_explore = [(state1, state2, [])]
         while to_explore:
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..fe6edf4 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -17,7 +17,7 @@ def state_characterization_set(hypothesis, alphabet, state):
         if hypothesis.states[i] == state:
             continue
         seq = hypothesis.find_distinguishing_seq(state, hypothesis.states[i], alphabet)
-        if seq:
+        if seq is not None:
             result.append(tuple(seq))
     return result
 
-- 
2.43.0


From 875c8e27b68c6766987c00b2c4765f1f5c943ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 10/73] fix: minimization keeps the initial state

---
 aalpy/base/Automaton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index b4228e6..06c4da5 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -441,6 +441,9 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
 
         s1, s2 = self.compute_characterization_set(return_same_states=True)
         while s1 and s2:
+            # the initial state has to stay in the automaton
+            if s2 == self.initial_state:
+                s1, s2 = s2, s1
             for s in self.states:
                 for i, new_state in s.transitions.items():
                     if new_state == s2:
-- 
2.43.0


From 277df9ed0607e473180d587b858f4e7b30975ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 11/73] fix: state setup of nondeterministic Moore machines is
 returned

---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..1f78813 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -33,6 +33,8 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
                 continue
             set_dict_entry(state)
 
+        return state_setup
+
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
         states_map = {key: NDMooreState(key, output=value[0]) for key, value in state_setup.items()}
-- 
2.43.0


From 214466e35aed9b7f220cc433aaef273ed4032a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 12/73] fix: pushdown automata can be copied and pickled

---
 aalpy/automata/Sevpa.py |  5 +++--
 aalpy/automata/Vpa.py   | 16 ++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..b769df5 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # initial state comes first
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,7 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else list(state_setup.keys())[0]
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..c6dac58 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -153,13 +153,13 @@ class Vpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        # ensure prefixes are computed
-        # self.compute_prefixes()
-
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
-        for s in sorted_states:
+        # initial state comes first, the error state is added by from_state_setup
+        for s in sorted(self.states, key=lambda x: x is not self.initial_state):
+            if s is Vpa.error_state:
+                continue
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v]
+                                 for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -218,7 +218,7 @@ class Vpa(Automaton):
                 state_setup (dict): A dictionary mapping from state IDs to tuples containing
                     (is_accepting: bool, transitions_dict: dict), where transitions_dict maps input symbols to
                     lists of tuples (target_state_id, action, stack_guard).
-                init_state_id (str): The state ID for the initial state of the VPA.
+                init_state_id (str): The state ID for the initial state of the VPA (default: first state of the setup).
                 input_alphabet (VpaAlphabet): The alphabet for the VPA.
 
             Returns:
@@ -226,7 +226,7 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else list(state_setup.keys())[0]
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 06cfdba48f9a6f826db0e9261613cc9cc4dfe62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 13/73] fix: transition lookup of ONFSMs works for falsy
 outputs

---
 aalpy/automata/Onfsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..46eff06 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -38,7 +38,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
 
         """
         possible_transitions = self.transitions[input]
-        if output:
+        if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
             return possible_transitions
-- 
2.43.0


From 4469d64b0c502c9908ec1df5e0593319e147818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 14/73] fix: sink state of nondeterministic Moore machines has
 the documented output

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..a9831e8 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -251,7 +251,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From 6538c716195d4f8a628129cd6043511e9c4ab2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 15/73] fix: Markov chain of an MDP uses the requested input
 also when it is falsy

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index a9831e8..faaf535 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -435,7 +435,7 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    input_symbol = input_symbol if input_symbol is not None else alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From b145188b9d8b9189400ba81471b90c0fe7c35b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 16/73] fix: resetting the random word oracle's counter plans
 new walks

---
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 6a1a8d9..165902c 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -93,3 +93,4 @@ class RandomWordEqOracle(Oracle):
     def reset_counter(self):
         if self.reset_after_cex:
             self.num_walks_done = 0
+            self.walk_lengths = [randint(self.min_walk_len, self.max_walk_len) for _ in range(self.num_walks)]
-- 
2.43.0


From eaeab7defc0525940e67c9a15305d9b20c5fd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 17/73] fix: Wp-method tests the outputs of one-state Mealy
 hypotheses

---
 aalpy/oracles/WpMethodEqOracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index fe6edf4..4f32169 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -59,7 +59,8 @@ def second_phase_it(hyp, alphabet, difference, depth):
                 if state not in state_mapping:
                     state_mapping[state] = state_characterization_set(hyp, alphabet, state)
 
-                for sm in state_mapping[state]:
+                # a single state has nothing to be distinguished from, but its outputs still have to be tested
+                for sm in state_mapping[state] or [()]:
                     yield t + mid + sm
 
 
-- 
2.43.0


From 0f10de93799dd4a8745bd716fd0c1f9aee37bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 18/73] fix: W-method and Wp-method compare new hypotheses with
 the tests executed earlier

---
 aalpy/oracles/WMethodEqOracle.py  | 11 +++++++++--
 aalpy/oracles/WpMethodEqOracle.py | 13 +++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..b7c45ba 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -24,7 +24,8 @@ class WMethodEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
         self.shuffle = shuffle_test_set
-        self.cache = set()
+        # outputs of the system for executed test cases
+        self.cache = dict()
 
     def test_suite(self, cover, depth, char_set):
         """
@@ -73,7 +74,13 @@ class WMethodEqOracle(Oracle):
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[:ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
+            else:
+                # executed with an earlier hypothesis, this hypothesis might disagree
+                hypothesis.reset_to_initial()
+                for ind, letter in enumerate(seq):
+                    if hypothesis.step(letter) != self.cache[seq][ind]:
+                        return seq[:ind + 1]
 
         return None
 
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 4f32169..7bbbd92 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -72,7 +72,8 @@ class WpMethodEqOracle(Oracle):
     def __init__(self, alphabet: list, sul: SUL, max_number_of_states=4):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
-        self.cache = set()
+        # outputs of the system for executed test cases
+        self.cache = dict()
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
@@ -98,16 +99,24 @@ class WpMethodEqOracle(Oracle):
         for seq in test_suite:
             if seq not in self.cache:
                 self.reset_hyp_and_sul(hypothesis)
+                outputs = []
 
                 for ind, letter in enumerate(seq):
                     out_hyp = hypothesis.step(letter)
                     out_sul = self.sul.step(letter)
                     self.num_steps += 1
 
+                    outputs.append(out_sul)
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[: ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
+            else:
+                # executed with an earlier hypothesis, this hypothesis might disagree
+                hypothesis.reset_to_initial()
+                for ind, letter in enumerate(seq):
+                    if hypothesis.step(letter) != self.cache[seq][ind]:
+                        return seq[: ind + 1]
 
         return None
 
-- 
2.43.0


From 01ad6bed9a3c25e8fc93810a6c9a58d7ce8cd6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 19/73] fix: breadth-first oracle tests every hypothesis on all
 test cases

---
 aalpy/oracles/BreadthFirstExplorationEqOracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/oracles/BreadthFirstExplorationEqOracle.py b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
index dfa4537..ea8c744 100644
--- a/aalpy/oracles/BreadthFirstExplorationEqOracle.py
+++ b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
@@ -34,8 +34,8 @@ class BreadthFirstExplorationEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
 
-        while self.queue:
-            test_case = self.queue.pop()
+        # every hypothesis has to agree on all test cases, also on those that an earlier hypothesis passed
+        for test_case in self.queue:
             self.reset_hyp_and_sul(hypothesis)
 
             for ind, letter in enumerate(test_case):
-- 
2.43.0


From b3463c311b9ad62d5bb42261f29eafbde5a1be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 20/73] fix: state prefix oracle executes the configured number
 of tests

---
 aalpy/oracles/StatePrefixEqOracle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index 2bb6d72..e96098e 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -55,13 +55,13 @@ class StatePrefixEqOracle(Oracle):
             random.shuffle(states_to_cover)
 
         for state in states_to_cover:
+            if self.max_tests and self.num_queries >= self.max_tests:
+                return None
+
             self.freq_dict[state.prefix] = self.freq_dict[state.prefix] + 1
 
             self.reset_hyp_and_sul(hypothesis)
 
-            if self.max_tests and self.num_queries == self.max_tests:
-                return None
-
             prefix = state.prefix
             for p in prefix:
                 hypothesis.step(p)
-- 
2.43.0


From bfb3971daa971d47bc1a0eb5434b566e153186d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 21/73] fix: transition focus oracle follows the current state
 of the hypothesis

---
 aalpy/oracles/TransitionFocusOracle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/oracles/TransitionFocusOracle.py b/aalpy/oracles/TransitionFocusOracle.py
index 779d0e7..b95c5be 100644
--- a/aalpy/oracles/TransitionFocusOracle.py
+++ b/aalpy/oracles/TransitionFocusOracle.py
@@ -50,4 +50,6 @@ class TransitionFocusOracle(Oracle):
                     self.sul.post()
                     return inputs
 
+                curr_state = hypothesis.current_state
+
         return None
-- 
2.43.0


From c464c1e97cd46d61fc815c7e107491dc5ad104d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 22/73] fix: paths to the leaves of the cache do not contain
 inputs of sibling branches

---
 aalpy/oracles/CacheBasedEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..a777352 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -92,6 +92,5 @@ class CacheBasedEqOracle(Oracle):
             paths.append(current_path)
         else:
             for inp, child in t.children.items():
-                current_path.append(inp)
-                self.get_paths(child, paths, list(current_path))
+                self.get_paths(child, paths, current_path + [inp])
         return paths
-- 
2.43.0


From 620bb6602955501a1e49522831f26342b298d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 23/73] fix: k-way state coverage does not skip permutations of
 the same states

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..e0f60cd 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -30,6 +30,8 @@ class KWayStateCoverageEqOracle(Oracle):
         self.k = k
         self.cache = set()
         self.fun = combinations if method == 'combinations' else permutations
+        # the order of the states does not matter for combinations only
+        self.cache_key = frozenset if method == 'combinations' else tuple
         self.random_walk_len = random_walk_len
 
     def find_cex(self, hypothesis):
@@ -53,7 +55,7 @@ class KWayStateCoverageEqOracle(Oracle):
         shuffle(states)
 
         for comb in self.fun(hypothesis.states, self.k):
-            prefixes = frozenset([c.prefix for c in comb])
+            prefixes = self.cache_key(c.prefix for c in comb)
             if prefixes in self.cache:
                 continue
             else:
-- 
2.43.0


From 974a1c0815e4c85b08bc5a333e4dbf94ab4385cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 24/73] fix: k-way transition coverage is computed for the
 current hypothesis

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..faa9695 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -52,7 +52,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def find_cex(self, hypothesis: Automaton):
         if self.method == 'random':
-            paths = self.generate_random_paths(hypothesis) + self.cached_paths
+            # transitions covered by paths that were selected for an earlier hypothesis are computed for this one
+            cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
+            paths = self.generate_random_paths(hypothesis) + cached_paths
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
-- 
2.43.0


From c78726751bace98de5dc0b09f1373a2100064156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 25/73] fix: W-method and Wp-method close the last query before
 returning a stored counterexample

---
 aalpy/oracles/WMethodEqOracle.py  | 1 +
 aalpy/oracles/WpMethodEqOracle.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index b7c45ba..4d0a574 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -80,6 +80,7 @@ class WMethodEqOracle(Oracle):
                 hypothesis.reset_to_initial()
                 for ind, letter in enumerate(seq):
                     if hypothesis.step(letter) != self.cache[seq][ind]:
+                        self.sul.post()
                         return seq[:ind + 1]
 
         return None
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 7bbbd92..6c70cf6 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -116,6 +116,7 @@ class WpMethodEqOracle(Oracle):
                 hypothesis.reset_to_initial()
                 for ind, letter in enumerate(seq):
                     if hypothesis.step(letter) != self.cache[seq][ind]:
+                        self.sul.post()
                         return seq[: ind + 1]
 
         return None
-- 
2.43.0


From 368293fcce51de761c1507fe6e25c68265603ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 26/73] fix: classic RPNI keeps the label of the empty sequence

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d389a11..46a1078 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -13,6 +13,8 @@ class ClassicRPNI:
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
         self.test_data = extract_unique_sequences(self.root_node)
+        # label of the empty sequence
+        self.root_output = self.root_node.output if self.root_node and automaton_type != 'mealy' else None
 
         if self.print_info:
             print(f'PTA Construction Time: {round(time.time() - pta_construction_start, 2)}')
@@ -57,6 +59,8 @@ class ClassicRPNI:
         """
         Check if current model is compatible with the data.
         """
+        if self.root_output is not None and root_node.output != self.root_output:
+            return False
         for sequence in self.test_data:
             if not check_sequence(root_node, sequence, automaton_type=self.automaton_type):
                 return False
-- 
2.43.0


From 8c4c3fa9db5d7cc60319e5241db130f333d3c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 27/73] fix: classic RPNI works for Mealy machines

---
 .../deterministic_passive/ClassicRPNI.py      | 40 ++++---------------
 .../rpni_helper_functions.py                  | 10 ++---
 2 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index 46a1078..a4e7d2e 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -70,16 +70,7 @@ class ClassicRPNI:
         """
         Only allow merging of states that have same output(s).
         """
-        if self.automaton_type != 'mealy':
-            # None is compatible with everything
-            return red_node.output == blue_node.output or red_node.output is None or blue_node.output is None
-        else:
-            red_io = {i: o for i, o in red_node.children.keys()}
-            blue_io = {i: o for i, o in blue_node.children.keys()}
-            for common_i in set(red_io.keys()).intersection(blue_io.keys()):
-                if red_io[common_i] != blue_io[common_i]:
-                    return False
-        return True
+        return red_node.compatible_outputs(blue_node)
 
     def _merge(self, red_node, lex_min_blue, copy_nodes=False):
         """
@@ -98,36 +89,19 @@ class ClassicRPNI:
 
         to_update.children[lex_min_blue.prefix[-1]] = red_node_in_tree
 
-        if self.automaton_type != 'mealy':
-            self._fold(red_node_in_tree, lex_min_blue)
-        else:
-            self._fold_mealy(red_node_in_tree, lex_min_blue)
+        self._fold(red_node_in_tree, lex_min_blue)
 
         return root_node
 
     def _fold(self, red_node, blue_node):
-        # Change the output of red only to concrete output, ignore None
-        red_node.output = blue_node.output if blue_node.output is not None else red_node.output
+        if self.automaton_type == 'mealy':
+            red_node.output = {**red_node.output, **blue_node.output}
+        else:
+            # Change the output of red only to concrete output, ignore None
+            red_node.output = blue_node.output if blue_node.output is not None else red_node.output
 
         for i in blue_node.children.keys():
             if i in red_node.children.keys():
                 self._fold(red_node.children[i], blue_node.children[i])
             else:
                 red_node.children[i] = blue_node.children[i]
-
-    def _fold_mealy(self, red_node, blue_node):
-        blue_io_map = {i: o for i, o in blue_node.children.keys()}
-
-        updated_keys = {}
-        for io, val in red_node.children.items():
-            o = blue_io_map[io[0]] if io[0] in blue_io_map.keys() else io[1]
-            updated_keys[(io[0], o)] = val
-
-        red_node.children = updated_keys
-
-        for io in blue_node.children.keys():
-            if io in red_node.children.keys():
-                self._fold_mealy(red_node.children[io], blue_node.children[io])
-            else:
-                red_node.children[io] = blue_node.children[io]
-
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..e6e991b 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -59,10 +59,9 @@ def check_sequence(root_node, seq, automaton_type):
     curr_node = root_node
     for i, o in seq:
         if automaton_type == 'mealy':
-            input_outputs = {i: o for i, o in curr_node.children.keys()}
-            if i[0] not in input_outputs.keys() or o is not None and input_outputs[i[0]] != o:
+            if o is not None and curr_node.output.get(i) != o:
                 return False
-            curr_node = curr_node.children[(i[0], input_outputs[i[0]])]
+            curr_node = curr_node.children[i]
         else:
             # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
             curr_node = curr_node.children[i]
@@ -118,8 +117,9 @@ def extract_unique_sequences(root_node):
         seq = []
         curr_node = root_node
         for i in node.prefix:
-            curr_node = curr_node.children[i]
-            seq.append((i, curr_node.output))
+            parent, curr_node = curr_node, curr_node.children[i]
+            # Mealy nodes store the outputs of their transitions
+            seq.append((i, parent.output.get(i) if root_node.type == 'mealy' else curr_node.output))
         paths.append(seq)
 
     return paths
-- 
2.43.0


From 2f98b1f2a0852c700b0f330b6df0438fc67508e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 28/73] fix: contradictory labels of the empty sequence are
 rejected by state merging

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..7c5b18f 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -415,6 +415,8 @@ class GsmNode:
         # set last output
         curr_node.resolve_unknown_prefix_output(output)
         pred = curr_node.predecessor
+        if pred is None and output is not unknown_output and curr_node.get_prefix_output() != output:
+            raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
         if pred:
             transitions = pred.transitions[in_sym]
             if unknown_output in transitions:
-- 
2.43.0


From e733779814ffa5412e45ceadfd5b11c3951e272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 29/73] fix: negative integers in dot files are loaded as
 integers

---
 aalpy/utils/FileHandler.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..3d32567 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -224,40 +224,47 @@ vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
 
+def _to_symbol(label):
+    """
+    Integers (also negative ones) are saved as their decimal representation, all other labels are texts.
+    """
+    return int(label) if re.fullmatch(r'-?[0-9]+', label) else label
+
+
 def _process_label(label, source, destination, automaton_type):
     if automaton_type == 'dfa' or automaton_type == 'moore':
-        source.transitions[int(label) if label.isdigit() else label] = destination
+        source.transitions[_to_symbol(label)] = destination
     if automaton_type == 'mealy':
         inp, out = label.split('/', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
-        out = int(out) if out.isdigit() else out
+        inp = _to_symbol(inp)
+        out = _to_symbol(out)
         source.transitions[inp] = destination
         source.output_fun[inp] = out
     if automaton_type == 'onfsm':
         inp, out = label.split('/', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
-        out = int(out) if out.isdigit() else out
+        inp = _to_symbol(inp)
+        out = _to_symbol(out)
         source.transitions[inp].append((out, destination))
     if automaton_type == 'ndmoore':
-        source.transitions[int(label) if label.isdigit() else label].append(destination)
+        source.transitions[_to_symbol(label)].append(destination)
     if automaton_type == 'mc':
         prob = label
         source.transitions.append((destination, float(prob)))
     if automaton_type == 'mdp':
         inp, prob = label.split(':', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
+        inp = _to_symbol(inp)
         prob = float(prob)
         source.transitions[inp].append((destination, prob))
     if automaton_type == 'smm':
         inp, out_prob = label.split('/', maxsplit=1)
         out, prob = out_prob.split(':', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
-        out = int(out) if out.isdigit() else out
+        inp = _to_symbol(inp)
+        out = _to_symbol(out)
         source.transitions[inp].append((destination, out, float(prob)))
     if automaton_type == 'sevpa':
         match = re.match(sevpa_transition_pattern, label)
         # cast to integer
-        label = int(label) if label.isdigit() else label
+        label = _to_symbol(label)
         if match:
             ret, stack_guard, top_of_stack = match.groups()
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
@@ -279,9 +286,9 @@ def _process_label(label, source, destination, automaton_type):
         else:
             input_symbol = label
 
-        input_symbol = int(input_symbol) if input_symbol.isdigit() else input_symbol
+        input_symbol = _to_symbol(input_symbol)
         if stack_symbol:
-            stack_symbol = int(stack_symbol) if stack_symbol.isdigit() else stack_symbol
+            stack_symbol = _to_symbol(stack_symbol)
 
         transition = VpaTransition(source, destination, input_symbol, action, stack_symbol)
 
@@ -296,7 +303,7 @@ def _process_node_label(node, label, node_label_dict, node_type, automaton_type)
         if automaton_type == 'moore' and label != "":
             label_output = _strip_label(label)
             label, output = label_output.split("|", maxsplit=1)
-            output = output.strip() if not output.isdigit() else int(output)
+            output = _to_symbol(output.strip())
             node_label_dict[node_name] = node_type(label, output)
         else:
             node_label_dict[node_name] = node_type(label)
@@ -326,7 +333,7 @@ def _process_node_label_prime(node_name, label, line, node_label_dict, node_type
             else:
                 label = node_name
                 output = label_output
-            output = output.strip() if not output.isdigit() else int(output)
+            output = _to_symbol(output.strip())
             node_label_dict[node_name] = node_type(label, output)
         else:
             node_label_dict[node_name] = node_type(label)
-- 
2.43.0


From 7fa749e2ff487799a289f8a9127044e6b758229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 30/73] fix: integer outputs of MDPs and Markov chains are
 loaded as integers

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 3d32567..2c7d01f 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -324,7 +324,7 @@ def _strip_label(label: str) -> str:
 
 def _process_node_label_prime(node_name, label, line, node_label_dict, node_type, automaton_type):
     if automaton_type == 'mdp' or automaton_type == 'mc':
-        node_label_dict[node_name] = node_type(node_name, label)
+        node_label_dict[node_name] = node_type(node_name, _to_symbol(label))
     else:
         if automaton_type in {'moore', 'ndmoore'} and label != "":
             label_output = _strip_label(label)
-- 
2.43.0


From eca6d792887dff5a33f00714efd2a9f60debab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 31/73] fix: return transitions of a SEVPA loaded from a file
 are stored under their letter

---
 aalpy/utils/FileHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 2c7d01f..a42a5c0 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -219,7 +219,7 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
             print(f'Could not write to the file {path.as_posix()}.', file=sys.stderr)
 
 
-sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*'(\S+)'\s*\)"
+sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*('\S+'|-?[0-9]+)\s*\)"
 vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
@@ -267,8 +267,10 @@ def _process_label(label, source, destination, automaton_type):
         label = _to_symbol(label)
         if match:
             ret, stack_guard, top_of_stack = match.groups()
+            ret = _to_symbol(ret)
+            top_of_stack = top_of_stack[1:-1] if top_of_stack[0] == "'" else int(top_of_stack)
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            source.transitions[ret].append(return_transition)
         else:
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
-- 
2.43.0


From 6fcbd55eab8c839e593ce451350e5950856cde9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 32/73] fix: VPA letters containing 'push' or 'pop' can be
 loaded

---
 aalpy/utils/FileHandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index a42a5c0..4bd3f8d 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -277,12 +277,12 @@ def _process_label(label, source, destination, automaton_type):
         pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
-        if 'push' in label:
-            push_elements = re.match(vpa_push_pattern, label)
+        push_elements = re.fullmatch(vpa_push_pattern, label)
+        pop_elements = re.fullmatch(vpa_pop_pattern, label)
+        if push_elements:
             input_symbol, stack_symbol = push_elements.group(1), push_elements.group(2)
             action = 'push'
-        elif 'pop' in label:
-            pop_elements = re.match(vpa_pop_pattern, label)
+        elif pop_elements:
             input_symbol, stack_symbol = pop_elements.group(1), pop_elements.group(2)
             action = 'pop'
         else:
-- 
2.43.0


From 2a9304415a465fe8340fa1bf07a7c1d10edd7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 33/73] fix: inputs and outputs containing colons are loaded
 correctly

---
 aalpy/utils/FileHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 4bd3f8d..ef5ce1f 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -251,13 +251,13 @@ def _process_label(label, source, destination, automaton_type):
         prob = label
         source.transitions.append((destination, float(prob)))
     if automaton_type == 'mdp':
-        inp, prob = label.split(':', maxsplit=1)
+        inp, prob = label.rsplit(':', maxsplit=1)
         inp = _to_symbol(inp)
         prob = float(prob)
         source.transitions[inp].append((destination, prob))
     if automaton_type == 'smm':
         inp, out_prob = label.split('/', maxsplit=1)
-        out, prob = out_prob.split(':', maxsplit=1)
+        out, prob = out_prob.rsplit(':', maxsplit=1)
         inp = _to_symbol(inp)
         out = _to_symbol(out)
         source.transitions[inp].append((destination, out, float(prob)))
-- 
2.43.0


From 0bf555890031170b339317d3095b8c2261f06e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 34/73] fix: prefixes are computed when a loaded deterministic
 model asks for them

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index ef5ce1f..6fc88a5 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -415,7 +415,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and automaton_type in {'dfa', 'mealy', 'moore'}:
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From 0d40e381dc96f906165b037e01ff04864dc69791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 35/73] fix: PAPNI returns None for non-deterministic data

---
 aalpy/learning_algs/deterministic_passive/RPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/RPNI.py b/aalpy/learning_algs/deterministic_passive/RPNI.py
index 04bbead..4647310 100644
--- a/aalpy/learning_algs/deterministic_passive/RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/RPNI.py
@@ -111,6 +111,10 @@ def run_PAPNI(data, vpa_alphabet, algorithm='edsm', print_info=True):
     else:
         learned_model = run_EDSM(papni_data, automaton_type='dfa', print_info=print_info)
 
+    # data is non-deterministic
+    if learned_model is None:
+        return None
+
     # convert intermediate DFA representation to VPA
     learned_model = vpa_from_dfa_representation(learned_model, vpa_alphabet)
 
-- 
2.43.0


From 32efb0e68d53d7ad137b095e0441ad14a40ea48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 36/73] fix: PAPNI supports call and internal letters that are
 tuples

---
 aalpy/automata/Vpa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index c6dac58..cca112c 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -314,7 +314,9 @@ def vpa_from_dfa_representation(dfa_repr, vpa_alphabet):
             reached_state = vpa_states[reached_dfa_state.state_id]
 
             top_of_stack = None
-            if isinstance(input_symbol, tuple):
+            # return letters are paired with the top of the stack, call and internal letters could be tuples on their own
+            if isinstance(input_symbol, tuple) and \
+                    input_symbol not in vpa_alphabet.call_alphabet + vpa_alphabet.internal_alphabet:
                 input_symbol, top_of_stack = input_symbol[0], input_symbol[1]
 
             if input_symbol in vpa_alphabet.return_alphabet:
-- 
2.43.0


From 90cdbc3cc784fc8152feb8d65259d375851a9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 37/73] fix: active Alergia learns the requested automaton type

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..8ad6cea 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -79,7 +79,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From b3a4f776e95650b2634feeb6d4a18a016cc01ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 38/73] fix: samples of active Alergia pair every input with
 its own output

---
 Examples.py                                             | 2 +-
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Examples.py b/Examples.py
index 79f2c0e..f94c2cd 100644
--- a/Examples.py
+++ b/Examples.py
@@ -831,7 +831,7 @@ def active_alergia_example(example='first_grid'):
         input_query = tuple(choice(input_alphabet) for _ in range(randint(6, 14)))
         outputs = sul.query(input_query)
         # format data in [O, (I, O), (I, O)...]
-        formatted_io = [outputs.pop(0)]
+        formatted_io = [mdp.initial_state.output]
         for i, o in zip(input_query, outputs):
             formatted_io.append((i, o))
         data.append(formatted_io)
diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 8ad6cea..f0e7280 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -43,7 +44,8 @@ class RandomWordSampler(Sampler):
 
             outputs = sul.query(random_walk)
 
-            sample = [outputs.pop(0)]
+            # query returns one output per input, samples of MDPs start with the initial output
+            sample = [] if isinstance(model, StochasticMealyMachine) else [sul.query(())[0]]
             for i in range(len(outputs)):
                 sample.append((random_walk[i], outputs[i]))
 
-- 
2.43.0


From 0322b0ee97e781270b543aa4d7ffc1c86776bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 39/73] fix: automatic epsilon of Alergia stays in its range
 for small data sets

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 6534504..77d6d3e 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -18,7 +18,8 @@ class Alergia:
         self.print_info = print_info
 
         if eps == 'auto':
-            eps = 10 / sum(len(d) - 1 for d in data)  # len - 1 to ignore initial output
+            # len - 1 to ignore initial output, eps is at most 2
+            eps = 10 / max(5, sum(len(d) - 1 for d in data))
 
         self.diff_checker = HoeffdingCompatibility(eps) if not compatibility_checker else compatibility_checker
 
-- 
2.43.0


From 3bbdd5d23bd1b0d83e1c99a5c61a374f40221c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 40/73] fix: transforming the score of a ScoreCalculation does
 not recurse endlessly

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..5137924 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        original_score_function = score.score_function
+        score.score_function = lambda *args: transform(original_score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From ff1dad2d5e6dbe1fe78a9ff1145a01a02610eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 41/73] fix: merging with compatibility on futures keeps
 deterministic models deterministic

---
 .../general_passive/GeneralizedStateMerging.py   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/general_passive/GeneralizedStateMerging.py b/aalpy/learning_algs/general_passive/GeneralizedStateMerging.py
index e1a1b1a..46b4bba 100644
--- a/aalpy/learning_algs/general_passive/GeneralizedStateMerging.py
+++ b/aalpy/learning_algs/general_passive/GeneralizedStateMerging.py
@@ -82,11 +82,16 @@ class GeneralizedStateMerging:
         self.consider_only_min_blue = consider_only_min_blue
         self.depth_first = depth_first
 
-    def compute_local_compatibility(self, a: GsmNode, b: GsmNode):
+    def compute_structural_compatibility(self, a: GsmNode, b: GsmNode):
         if self.output_behavior == "moore" and not GsmNode.moore_compatible(a, b):
             return False
         if self.transition_behavior == "deterministic" and not GsmNode.deterministic_compatible(a, b):
             return False
+        return True
+
+    def compute_local_compatibility(self, a: GsmNode, b: GsmNode):
+        if not self.compute_structural_compatibility(a, b):
+            return False
         return self.score_calc.local_compatibility(a, b)
 
     # TODO: make more generic by adding the option to use a different algorithm than red blue
@@ -232,8 +237,10 @@ class GeneralizedStateMerging:
             if self._check_futures(red, blue) is False:
                 return partitioning
 
-        # when compatibility is determined only by future and scores are disabled, we need not create partitions.
-        if self.compatibility_on_futures and not self.score_calc.has_score_function():
+        # when compatibility is determined only by future and scores are disabled, we need not create partitions, except
+        # for deterministic systems, where states merged with the same state can still contradict each other.
+        deterministic = self.transition_behavior == "deterministic"
+        if self.compatibility_on_futures and not self.score_calc.has_score_function() and not deterministic:
             def update_partition(red_node: GsmNode, blue_node: Optional[GsmNode]) -> GsmNode:
                 return red_node
         else:
@@ -266,6 +273,9 @@ class GeneralizedStateMerging:
             if not self.compatibility_on_futures:
                 if self.compute_local_compatibility(partition, blue) is False:
                     return partitioning
+            elif deterministic:
+                if self.compute_structural_compatibility(partition, blue) is False:
+                    return partitioning
 
             # create implied merges for all common successors
             for in_sym, blue_transitions in blue.transitions.items():
-- 
2.43.0


From 2465720b0a345b6fc4a1709a1bfc52bba0fe99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 42/73] fix: data format of traces is detected when the first
 trace has length one

---
 aalpy/learning_algs/general_passive/GsmNode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 7c5b18f..310e003 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -87,7 +87,8 @@ def detect_data_format(data, check_consistency=False, guess=False):
         for k, check in check_dict.items():
             accept_dict[k] &= check(data_point)
         accepted_formats = [k for k, v in accept_dict.items() if v]
-        if len(accepted_formats) == 1 and not check_consistency:
+        # sequences of length one do not distinguish io_traces from traces
+        if len(accepted_formats) == 1 and not check_consistency and len(data_point) > 1:
             return accepted_formats[0]
         if len(accepted_formats) == 0:
             return "traces" # default to traces
-- 
2.43.0


From 1e73640602fce256e1b698c7c5cc38860f2e260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 43/73] fix: learning steps of stochastic L* are all steps
 without those of the equivalence oracle

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..ef340e5 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -202,7 +202,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From c90552289bcfc135d6fd07c4920b3ab3917c3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 44/73] fix: longest prefix processing of stochastic L* uses
 prefixes of the counterexample

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index d115a49..89b06ce 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -20,7 +20,7 @@ def stochastic_longest_prefix(cex, prefixes):
     trimmed_cex = None
     trimmed = False
     for p in prefixes:
-        if p[1::2] == cex[:len(p)][1::2]:
+        if p == tuple(cex[:len(p)]):
             trimmed_cex = cex[len(p):]
             trimmed = True
             break
-- 
2.43.0


From 57f8cec5ea69ac6a9bd6799504740a0ec41e3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 45/73] fix: rows of newly observed extensions are filled when
 the stochastic observation table is updated

---
 .../stochastic/SamplingBasedObservationTable.py  | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
index 5513278..e1cbd49 100644
--- a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
+++ b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
@@ -122,16 +122,12 @@ class SamplingBasedObservationTable:
         Returns:
 
         """
-        if element_of_s:
-            s_set = element_of_s + list(self.get_extended_s(element_of_s=element_of_s))
-        else:
-            s_set = self.S + list(self.get_extended_s())
-        # s_set = element_of_s if  else self.S + list(self.get_extended_s())
-
-        for s in s_set:
-            for e in self.E:
-                self.T[s][e] = self.teacher.frequency_query(s, e)
-                self.freq_query_cache[s + e] = self.T[s][e]
+        # rows of S are updated first, as they determine the extensions
+        for get_rows in (lambda: element_of_s or self.S, lambda: self.get_extended_s(element_of_s=element_of_s)):
+            for s in list(get_rows()):
+                for e in self.E:
+                    self.T[s][e] = self.teacher.frequency_query(s, e)
+                    self.freq_query_cache[s + e] = self.T[s][e]
 
     def get_extended_s(self, element_of_s=None):
         """Generator returning all elements of the extended S set.
-- 
2.43.0


From 0b6be758fc7e9d94b5670bc4e4369170cf18ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 46/73] fix: abstracted ONFSM learning queries all rows of S.A
 when E is extended

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..790b5cb 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -49,6 +49,11 @@ class AbstractedNonDetObservationTable:
 
         """
 
+        if s_set is None:
+            # include the rows of S.A that were added to make the table complete or to process counterexamples
+            extended_S = self.observation_table.get_extended_S()
+            s_set = self.observation_table.S + extended_S + [s for s in self.S_dot_A if s not in extended_S]
+
         self.observation_table.query_missing_observations(s_set, e_set)
         self.abstract_obs_table()
         self.clean_obs_table()
-- 
2.43.0


From 1d70f482f9c00b47e95f606d936320f42af7b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 47/73] fix: abstracted ONFSM table cleaning removes rows of
 the shared S only once

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py        | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 790b5cb..6bdf06a 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -256,14 +256,12 @@ class AbstractedNonDetObservationTable:
             if hashed_s_row in hashed_rows_from_s:
                 if s in self.S:
                     self.S.remove(s)
-                    self.observation_table.S.remove(s)
                 size = len(s[0])
                 for row_prefix in tmp_both_S:
                     s_both_row = (row_prefix[0][:size], row_prefix[1][:size])
                     if s != row_prefix and s == s_both_row:
                         if row_prefix in self.S:
                             self.S.remove(row_prefix)
-                            self.observation_table.S.remove(s)
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-- 
2.43.0


From bf327d140ea38c855a57ddbd412a58aa25631a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 48/73] fix: consistency check of the abstracted ONFSM table
 compares rows of extensions

---
 .../AbstractedOnfsmObservationTable.py           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 6bdf06a..2a1dc7b 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -197,17 +197,19 @@ class AbstractedNonDetObservationTable:
                 #                 outputs = self.observation_table.T[s_row[0]][a]
                 outputs = self.get_all_outputs(s_row[0], a)
                 for o in outputs:
-                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + tuple([o]))
+                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + o)
                     if extended_s_sequence in unified_S:
                         extended_s_sequence_row = self.row_to_hashable(extended_s_sequence)
                         for similar_s_dot_a_row in similar_s_dot_a_rows:
                             extended_s_dot_a_sequence = (
-                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o]))
+                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + o)
                             if extended_s_dot_a_sequence in unified_S:
                                 extended_s_dot_a_sequence_row = self.row_to_hashable(extended_s_dot_a_sequence)
-                                if extended_s_sequence_row is not extended_s_dot_a_sequence_row:
-                                    return self.get_distinctive_input_sequence(extended_s_sequence,
-                                                                               extended_s_dot_a_sequence, a)
+                                if extended_s_sequence_row != extended_s_dot_a_sequence_row:
+                                    distinctive_sequence = self.get_distinctive_input_sequence(
+                                        extended_s_sequence, extended_s_dot_a_sequence, a)
+                                    if distinctive_sequence is not None:
+                                        return distinctive_sequence
 
         return None
 
@@ -227,8 +229,8 @@ class AbstractedNonDetObservationTable:
 
         """
         for e in self.E:
-            if len(self.T[first_row][e].difference(self.T[second_row][e])) > 0:
-                return tuple([inp]) + e
+            if inp + e not in self.E and self.T[first_row][e] != self.T[second_row][e]:
+                return inp + e
 
         return None
 
-- 
2.43.0


From 28c917ebf25bdb538b50499c4ae4a2015e9ecbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 49/73] fix: allowed call transitions of SEVPAs consider states
 behind return transitions

---
 aalpy/automata/Sevpa.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index b769df5..a965d30 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -382,8 +382,8 @@ class Sevpa(Automaton):
         """
         Returns a dict of states that are allowed to push a call letters on the stack.
 
-        For all states that are connected via internal transitions from the initial state on, the state_id and
-        call_letter of the stack_guard from every return transition is used.
+        For all states that are connected via internal and return transitions from the initial state on, the state_id
+        and call_letter of the stack_guard from every return transition is used.
 
         States are not allowed to push something somthing on the stack if there is no possibility to pop the
         stack guard, where their state_id is used, from the stack, which would lead into a dead-end otherwise.
@@ -392,16 +392,16 @@ class Sevpa(Automaton):
         - dict: A dictionary where keys are the call_letters and values are sets of the allowed states.
         """
 
-        # get all states that are connected via internal transitions by using BFS
+        # get all states that are connected via internal and return transitions by using BFS
         connected_states = set()
         queue = deque([self.initial_state])
         while queue:
             current_state = queue.popleft()
             connected_states.add(current_state)
 
-            for internal_letter in self.input_alphabet.internal_alphabet:
-                for internal_trans in current_state.transitions[internal_letter]:
-                    target_state = internal_trans.target_state
+            for letter in self.input_alphabet.internal_alphabet + self.input_alphabet.return_alphabet:
+                for trans in current_state.transitions[letter]:
+                    target_state = trans.target_state
                     if target_state not in connected_states:
                         queue.append(target_state)
 
-- 
2.43.0


From a30c699b08a4a899da0ac6b11686d084993f7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 50/73] fix: SEVPA error state detection requires self loops
 and considers all pop transitions

---
 aalpy/automata/Sevpa.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index a965d30..fbe4de3 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -306,10 +306,10 @@ class Sevpa(Automaton):
         """
         A state is an error state iff:
             - if all transitions self loop to itself
-            - if the pop transitions from the corresponding stack symbol lead to the same state
+            - if the pop transitions (of any state) from the corresponding stack symbol lead to the same state
             - for example:
                 - all q2 transitions lead to q2
-                - the pop transitions from the initial state which pop the q2+call-symbol from the stack lead to q2 as well
+                - the pop transitions which pop the q2+call-symbol from the stack lead to q2 as well
 
             - Not an error state if it is the initial state or an accepting state
         """
@@ -320,34 +320,25 @@ class Sevpa(Automaton):
             if state.is_accepting or state == self.initial_state:
                 continue
 
-            state_target = None
             # check internal and return transitions
             ret_int_al = []
             ret_int_al.extend(self.input_alphabet.internal_alphabet)
             ret_int_al.extend(self.input_alphabet.return_alphabet)
             for letter in ret_int_al:
                 for transition in state.transitions[letter]:
-                    if state_target is None:
-                        state_target = transition.target_state
-                    else:
-                        if state_target != transition.target_state:
-                            is_error_state = False
-                            break
+                    if transition.target_state != state:
+                        is_error_state = False
+                        break
                 if not is_error_state:
                     break
 
-            # check return transitions from the initial state
+            # check return transitions that pop what the state pushed
             if is_error_state:
-                for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
-                        if transition.stack_guard[0] == state_target.state_id:
-                            if transition.target_state != state_target:
+                for other_state in self.states:
+                    for return_letter in self.input_alphabet.return_alphabet:
+                        for transition in other_state.transitions[return_letter]:
+                            if transition.stack_guard[0] == state.state_id and transition.target_state != state:
                                 is_error_state = False
-                                break
-                    if not is_error_state:
-                        break
-            else:
-                continue
 
             if is_error_state:
                 return state
-- 
2.43.0


From b86193a7f2f8d41af723fa57a3d609b7f8ed0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 51/73] fix: KV for VPAs drops a presumed error state that a
 counterexample contradicts

---
 .../deterministic/ClassificationTree.py       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..8137b63 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -349,6 +349,14 @@ class ClassificationTree:
             cex_processing_fun: string choosing which cex_processing to use
 
         """
+        if self.automaton_type == 'vpa' and self.error_state_prefix is not None:
+            hypothesis.execute_sequence(hypothesis.initial_state, cex)
+            if hypothesis.error_state_reached:
+                # what the presumed error state pushed can be popped after all, add the omitted return transitions
+                self.error_state_prefix = None
+                self._update_all_vpa_transitions()
+                return
+
         v = None
         if 'linear' in cex_processing_fun:
             direction = cex_processing_fun[-3:]
@@ -458,7 +466,10 @@ class ClassificationTree:
                     if old_leaf_access_string == destination.prefix:
                         self.transitions_to_update.append((state, inp))
         else:
-            for state in self.hypothesis_states.values():
-                state.transitions.clear()
-                self.transitions_to_update.extend(product([state], self.alphabet.internal_alphabet))
-                self.transitions_to_update.extend(product([state], self.alphabet.call_alphabet))
+            self._update_all_vpa_transitions()
+
+    def _update_all_vpa_transitions(self):
+        for state in self.hypothesis_states.values():
+            state.transitions.clear()
+            self.transitions_to_update.extend(product([state], self.alphabet.internal_alphabet))
+            self.transitions_to_update.extend(product([state], self.alphabet.call_alphabet))
-- 
2.43.0


From 52aeaa0cc6517db3c81c3a0d213daf50429d1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 52/73] fix: stop searching for a minimal random automaton
 after 100 attempts

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..ffe107c 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -139,6 +139,7 @@ def generate_random_deterministic_automata(automaton_type,
                                                                       output_alphabet_size,
                                                                       False,  # ensure minimality
                                                                       **custom_args)
+            minimality_iterations += 1
 
     return random_automaton
 
-- 
2.43.0


From 21038e6c715ec94a251d1cc6d1aa19adfe72c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 53/73] fix: random SMM generation could use one output for two
 transitions of a state and input

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index ffe107c..1f03fc9 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -353,6 +353,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
                     if new_output not in observed_outputs:
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
+                        observed_outputs.append(new_output)
                         break
 
     return StochasticMealyMachine(smm_states[0], smm_states)
-- 
2.43.0


From 59798a110a1e560e1752496cee1971a7c6b97c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 54/73] fix: random SEVPAs lacked internal transitions

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 1f03fc9..fde86c9 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -505,7 +505,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not _has_transition(state, internal_letter, None):
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0


From 4552df5af8ebdad25078c211c37860ff3ff17a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 55/73] fix: generate_test_cases lost the last test case

---
 aalpy/utils/ModelChecking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3199250..39a1cf1 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -363,6 +363,7 @@ class TestCaseWrapperSUL(SUL):
     def post(self):
         if self.test_case_inputs and self.test_case_outputs:
             self.test_cases.append((tuple(self.test_case_inputs), tuple(self.test_case_outputs)))
+        self.test_case_inputs, self.test_case_outputs = [], []
         return self.sul.post()
 
     def step(self, letter):
@@ -396,6 +397,8 @@ def generate_test_cases(automaton: DeterministicAutomaton, oracle):
     # no counterexamples can be found
     cex = oracle.find_cex(automaton)
     assert cex is None
+    # record the last test case
+    wrapped_sul.post()
     return wrapped_sul.test_cases
 
 
-- 
2.43.0


From 807e76c85fb68d6c4417900c48897e026fbe013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 56/73] fix: the complete sample of a one-state Mealy machine
 was empty

---
 aalpy/utils/Sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/Sampling.py b/aalpy/utils/Sampling.py
index 3e6d454..55cad95 100644
--- a/aalpy/utils/Sampling.py
+++ b/aalpy/utils/Sampling.py
@@ -82,6 +82,7 @@ def sample_with_term_prob(alphabet, nr_samples, term_prob):
 def get_complete_sample(automaton: DeterministicAutomaton):
     alphabet = automaton.get_input_alphabet()
     automaton.compute_prefixes()
-    char_set = automaton.compute_characterization_set()
+    # a single state needs no distinguishing sequences
+    char_set = automaton.compute_characterization_set() or [tuple()]
     infixes = [(x,) for x in alphabet] + [tuple()]
     return [state.prefix + infix + suffix for state in automaton.states for suffix in char_set for infix in infixes]
-- 
2.43.0


From 08166f17821f18f07edea2af7428a9bdacda3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 57/73] fix: the empty sequence is a suffix of every sequence

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index faaf535..2f251f0 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -185,7 +185,7 @@ def is_suffix_of(suffix, trace) -> bool:
     if len(trace) < len(suffix):
         return False
     else:
-        return trace[-len(suffix):] == suffix
+        return trace[len(trace) - len(suffix):] == suffix
 
 
 def get_cex_prefixes(cex, automaton_type):
-- 
2.43.0


From b0fb4e34bd9d362015797b65b9aafc3f8e22451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 58/73] fix: IODelimiterTokenizer read a numeric first output
 as a string, other digits crashed

---
 aalpy/utils/DataHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 71a94e8..88f420b 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -55,7 +55,7 @@ class IODelimiterTokenizer(DataHandler):
         lines = open(path).read().splitlines()
         for l in lines:
             words = l.split(word_delimiter)
-            seq = [words[0]]
+            seq = [try_int(words[0])]
             for w in words[1:]:
                 i_o = w.split(io_delimiter)
                 if len(i_o) != 2:
@@ -68,6 +68,6 @@ class IODelimiterTokenizer(DataHandler):
 
 
 def try_int(x):
-    if str.isdigit(x):
+    if str.isdecimal(x):
         return int(x)
     return x
-- 
2.43.0


From dcb3356e4d0e7b013c6909a64916a471dfc60eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 59/73] fix: L# and adaptive L# run the allowed number of
 learning rounds (one less before, and none with a limit of one)

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..020ab10 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -88,9 +88,9 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
-- 
2.43.0


From 3238f1e96d6306a8b6170326ae8d24647921e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 60/73] fix: KV and abstracted non-deterministic L* report one
 learning round too many when stopped by the limit

---
 aalpy/learning_algs/deterministic/KV.py                       | 4 ++--
 aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/KV.py b/aalpy/learning_algs/deterministic/KV.py
index f053144..b325c33 100644
--- a/aalpy/learning_algs/deterministic/KV.py
+++ b/aalpy/learning_algs/deterministic/KV.py
@@ -109,9 +109,9 @@ def run_KV(alphabet: Union[list, SevpaAlphabet], sul: SUL, eq_oracle: Oracle, au
         classification_tree = ClassificationTree(alphabet=alphabet, sul=sul, automaton_type=automaton_type, cex=cex)
 
         while True:
-            learning_rounds += 1
-            if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+            if max_learning_rounds and learning_rounds == max_learning_rounds:
                 break
+            learning_rounds += 1
 
             hypothesis = classification_tree.update_hypothesis()
 
diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
index af54aa5..090145c 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
@@ -61,9 +61,9 @@ def run_abstracted_ONFSM_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, abst
     abstracted_observation_table.update_obs_table(s_set=new_rows)
 
     while True:
-        learning_rounds += 1
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+        if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         closed_complete_consistent = False
         while not closed_complete_consistent:
-- 
2.43.0


From 53ca12c62c86ba869e7cb027b9f8dc0a8ac3b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 61/73] fix: non-deterministic L* ran one learning round too
 many and failed with probabilities when stopped by the limit

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..7b7224b 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,9 +67,6 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
-            break
-
         ot.S = list()
         ot.S.append((tuple(), tuple()))
         ot.query_missing_observations()
@@ -102,7 +99,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         else:
             cex = last_cex
 
-        if cex is None:
+        if cex is None or max_learning_rounds and learning_rounds == max_learning_rounds:
             break
         else:
             cex_suffixes = all_suffixes(cex[0])
-- 
2.43.0


From c0b00a42207034a7eb6219f6dc33335bb595bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 62/73] fix: adaptive L# computed the prefixes of a reference
 from its first listed state instead of its initial state

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 1615687..6ea01a3 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -501,7 +501,8 @@ class AdaptiveObservationTree(ObservationTree):
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-            self.compute_prefix_map(automaton_class[self.automaton_type](states[0], states), reference_id)
+            initial_state = states[reference.states.index(reference.initial_state)]
+            self.compute_prefix_map(automaton_class[self.automaton_type](initial_state, states), reference_id)
             self.compute_characterization_map(reference, states)
 
         # references without common inputs are skipped, without changing the list given by the user
-- 
2.43.0


From e5d763df0fb80b0a589170348d96ed948324b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 63/73] fix: rebuilding in adaptive L# missed reference states
 listed before the states on their access path

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 6ea01a3..e865bb4 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -469,7 +469,8 @@ class AdaptiveObservationTree(ObservationTree):
         for state in reference.states:
             state.prefix = reference.get_shortest_path(
                 reference.initial_state, state)
-        self.prefixes_map[reference_id] = [state.prefix for state in reference.states if state.prefix is not None]
+        # shorter prefixes first, so that a state is considered after the state that its prefix passes through
+        self.prefixes_map[reference_id] = sorted((state.prefix for state in reference.states if state.prefix is not None), key=len)
 
     def compute_characterization_map(self, reference, states):
         """ 
-- 
2.43.0


From 98db395e25e8854490fefc8a61d9e00168d2be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 64/73] fix: small gridworld had a state with probabilities
 that do not sum to one

---
 aalpy/utils/BenchmarkSULs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 6a812b8..974d635 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -259,7 +259,7 @@ def get_small_gridworld():
     s2.transitions['east'].append((s3, 'grass', p_g))
     s2.transitions['east'].append((s1, 'mud', 1 - p_g))
     s2.transitions['north'].append((s0, 'grass', p_g))
-    s2.transitions['south'].append((s1, 'mud', 1 - p_g))
+    s2.transitions['north'].append((s1, 'mud', 1 - p_g))
 
     s3.transitions['south'].append((s3, 'wall', 1.))
     s3.transitions['east'].append((s3, 'wall', 1.))
-- 
2.43.0


From eb9d6fa740a099b1cf4cef0b3f1afedbebb08096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 65/73] fix: date validator accepted months outside 1..12 and
 the 31st of months with 30 days

---
 aalpy/utils/BenchmarkSULs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 974d635..e62c759 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -352,7 +352,10 @@ class DateValidator:
         if month in [1, 3, 5, 7, 8, 10, 12] and not (1 <= day <= 31):
             return False
 
-        elif not (1 <= day <= 31):
+        elif month in [4, 6, 9, 11] and not (1 <= day <= 30):
+            return False
+
+        elif not (1 <= month <= 12):
             return False
 
         return True
-- 
2.43.0


From fd8de740ad87f5042491dcd6c46a871089263bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 66/73] fix: model checking results in exponent notation or
 without decimals were misread or skipped

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 39a1cf1..8849d33 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -12,7 +12,7 @@ from aalpy.automata import Mdp, StochasticMealyMachine, MealyMachine, Dfa, Moore
     DfaState
 from aalpy.base import DeterministicAutomaton, SUL, AutomatonState
 
-prism_prob_output_regex = re.compile("Result: (\d+\.\d+)")
+prism_prob_output_regex = re.compile(r"Result: (\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)")
 
 
 def get_properties_file(exp_name):
-- 
2.43.0


From f860c7552490d3d9db692e72828754012894d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 67/73] fix: stochastic L* ignored max_rounds when property
 based stopping is used

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index ef340e5..fd8a194 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -181,6 +181,8 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             # stop based on maximum allowed error
             if stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
                 break
+            if max_rounds and learning_rounds >= max_rounds:
+                break
         else:
             # stop based on number of unambiguous rows
             stop_based_on_unambiguity = observation_table.stop(learning_rounds, chaos_cex_present, cex,
-- 
2.43.0


From 9a8086d694aa62add906b1ee197392c40923578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 68/73] fix: the JSON example model could not be constructed
 (undefined state q1) and had no accepting state

---
 aalpy/utils/BenchmarkVpaModels.py | 56 ++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/aalpy/utils/BenchmarkVpaModels.py b/aalpy/utils/BenchmarkVpaModels.py
index b49c89a..14c7a88 100644
--- a/aalpy/utils/BenchmarkVpaModels.py
+++ b/aalpy/utils/BenchmarkVpaModels.py
@@ -415,21 +415,28 @@ def vpa_json():
     )
 
     # Define states and transitions
+    # Stack symbols encode the context of an object or array: 0 - top level, o - value in an object, a - array element
+    close_object = [("qf", 'pop', '{0'), ("q5", 'pop', '{o'), ("q6", 'pop', '{a')]
+    close_array = [("qf", 'pop', '[0'), ("q5", 'pop', '[o'), ("q6", 'pop', '[a')]
+
     state_setup = {
         "q0": (False, {
-            "{": [("q1", 'push', '{')],
-            "[": [("q2", 'push', '[')],
-            "}": [("q0", 'pop', '{')],
-            "]": [("q0", 'pop', '[')],
-            "key": [("q3", None, None)],  # Expect a key in an object
+            "{": [("q1", 'push', '{0')],
+            "[": [("q2", 'push', '[0')],
+        }),
 
+        # Start of an object
+        "q1": (False, {
+            "key": [("q3", None, None)],
+            "}": close_object,
         }),
 
-        # Array parsing state
+        # Start of an array
         "q2": (False, {
-            "val": [("q5", None, None)],  # Allow multiple values in an array
-            "[": [("q2", 'push', '[')],  # Nested arrays
-            "]": [("q0", 'pop', '[')],  # End of array
+            "val": [("q6", None, None)],
+            "{": [("q1", 'push', '{a')],  # Object in array
+            "[": [("q2", 'push', '[a')],  # Nested array
+            "]": close_array,
         }),
 
         # After parsing a key
@@ -439,17 +446,36 @@ def vpa_json():
 
         # After parsing a key-value separator
         "q4": (False, {
-            "val": [("q5", None, None)],  # Expecting a value
-            "{": [("q0", 'push', '{')],  # Nested object
-            "[": [("q2", 'push', '[')],  # Nested array
+            "val": [("q5", None, None)],
+            "{": [("q1", 'push', '{o')],  # Nested object
+            "[": [("q2", 'push', '[o')],  # Array in object
         }),
 
         # After parsing a value in an object
         "q5": (False, {
-            ",": [("q4", None, None)],  # Another key-value pair
-            "}": [("q0", 'pop', '{')],  # End of object
-            "]": [("q0", 'pop', '[')],  # End of object
+            ",": [("q7", None, None)],  # Another key-value pair
+            "}": close_object,
+        }),
+
+        # After parsing an element of an array
+        "q6": (False, {
+            ",": [("q8", None, None)],  # Another element
+            "]": close_array,
         }),
+
+        # After a comma in an object
+        "q7": (False, {
+            "key": [("q3", None, None)],
+        }),
+
+        # After a comma in an array
+        "q8": (False, {
+            "val": [("q6", None, None)],
+            "{": [("q1", 'push', '{a')],
+            "[": [("q2", 'push', '[a')],
+        }),
+
+        "qf": (True, {})
     }
 
     # Construct and return the VPA
-- 
2.43.0


From d935e2425c18a04bf5ae060d11ba1be9f217e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 69/73] fix: merge debugger handles promoted states that the
 ground truth does not have

---
 aalpy/learning_algs/general_passive/Instrumentation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/Instrumentation.py b/aalpy/learning_algs/general_passive/Instrumentation.py
index f39b72d..fdcb809 100644
--- a/aalpy/learning_algs/general_passive/Instrumentation.py
+++ b/aalpy/learning_algs/general_passive/Instrumentation.py
@@ -83,6 +83,9 @@ class MergeViolationDebugger(Instrumentation):
     def log_promote(self, new_red: GsmNode):
         new_red_prefix = new_red.get_prefix()
         node = self.root.get_by_prefix(new_red_prefix)
+        if node is None:
+            self.log.append(("broken promote", new_red_prefix))
+            return
         old_red = self.map.get(node)
         if old_red is None:
             self.map[node] = new_red
-- 
2.43.0


From 1fdb4231442d4d7bc75aa47eff59d99c530e7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 70/73] fix: run_JAlergia removes its input file when jAlergia
 fails

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 77d6d3e..27353b8 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -257,13 +257,14 @@ def run_JAlergia(path_to_data_file, automaton_type, path_to_jAlergia_jar, eps=0.
     subprocess.call(['java', heap_memory, '-jar', path_to_jAlergia_jar, '-input', abs_path, '-eps', str(eps), '-type',
                      automaton_type])
 
+    if delete_tmp_file:
+        os.remove('jAlergiaInputs.txt')
+
     if not os.path.exists(save_file):
         print("JAlergia error occurred.")
         return
 
     model = load_automaton_from_file(save_file, automaton_type=automaton_type)
     os.remove(save_file)
-    if delete_tmp_file:
-        os.remove('jAlergiaInputs.txt')
 
     return model
-- 
2.43.0


From 84ff0feef331fae557729d9a53dc2fb159298963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 71/73] fix: count the tests of the k-way state coverage oracle
 for hypotheses with one state

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index e0f60cd..746e52f 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -39,9 +39,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From 7ebd6f86e6ccc30286b7565eb4c777436f458a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 72/73] fix: count the queries of the oracle wrapped by
 provided sequences once per search

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..1f0a830 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -35,12 +35,12 @@ class ProvidedSequencesOracleWrapper(Oracle):
 
             self.provided_counterexamples.remove(provided_cex)
 
+        queries, steps = self.oracle.num_queries, self.oracle.num_steps
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-        if cex is None:
-            self.num_queries += self.oracle.num_queries
-            self.num_steps += self.oracle.num_steps
+        self.num_queries += self.oracle.num_queries - queries
+        self.num_steps += self.oracle.num_steps - steps
 
         return cex
 
-- 
2.43.0


From 51775818f13fffc67859309180eb0357cc1c466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 73/73] fix: transition coverage oracle executes at most
 max_number_of_steps steps

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index faa9695..76f877e 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -64,7 +64,12 @@ class KWayTransitionCoverageEqOracle(Oracle):
                     return counter_example
 
         elif self.method == 'prefix':
+            step_count = 0
             for steps in self.generate_prefix_steps(hypothesis):
+                step_count += len(steps)
+                if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
+                    break
+
                 counter_example = self.check_path(hypothesis, steps)
 
                 if counter_example is not None:
@@ -82,6 +87,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
             path = self.select_optimal_path(covered, paths)
 
             if path is not None:
+                if self.max_number_of_steps != 0 and step_count + len(path.steps) > self.max_number_of_steps:
+                    break
+
                 covered = set.union(covered, path.kWayTransitions)
                 paths.remove(path)
                 result.append(path)
@@ -90,10 +98,6 @@ class KWayTransitionCoverageEqOracle(Oracle):
             if path is None or not paths:
                 paths = [self.create_path(hypothesis, steps) for steps in self.generate_prefix_steps(hypothesis)]
 
-            if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
-                print("stop")
-                break
-
         return result
 
     def select_optimal_path(self, covered: set, paths: list) -> Path:
-- 
2.43.0

