"""Single source of the property list.  Running it rewrites
/verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'task_models/'
PY = '/opt/venv/bin/python'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=a, _tech=technique, _note=note))


# ---------------------------------------------------------------- task graphs
prop('G01', 'Task graphs contain exactly the action-explained paths added to them',
     'Adding a path to a task graph succeeds exactly when the path is empty or alternates states and actions, starts and ends with a state, and every action accepts its surrounding pair of states; any other path raises ValueError and leaves the graph unchanged. '
     'After any sequence of additions, a valid path is a member exactly when it is empty or starts at the first state of some added path, ends at the last state of some added path and uses only transitions occurring in added paths. '
     'Transition queries, enumeration, node listing, dictionary export, removal and graph equality all agree with that same set of transitions (equality of task graphs also with the initial and terminal states).',
     ['inputs', 'histories'],
     'every sequence of graph operations (valid and malformed paths, single transitions, removals) over small alphabets of states and actions',
     'tests add one hand-written path and query a few; they cannot cover every malformed path position or every history of additions/removals',
     [T + 'task.py'],
     [('path validation and insertion', T + 'task.py:check_path, TaskGraph.add_path'),
      ('membership', T + 'task.py:TaskGraph.has_path, BaseGraph')],
     'explicit-state enumeration of operation histories on the real graph classes against a set-based reference model',
     'all paths up to length 5 over 2-3 states/2 actions incl. malformed; all operation histories to a bounded depth', None)

prop('G02', 'Conjugate graph has exactly the transitions defined from the task graph',
     'The conjugate of a deterministic task graph contains exactly these labelled transitions: initial -s-> a for every initial state s and action a leaving s; a -s-> terminal for every transition by a into a terminal state s; and a -s-> b for every transition by a into a non-terminal state s and every action b leaving s. '
     'Conjugation raises ValueError exactly when some state has two transitions with the same action leading to different states, and it never changes the task graph.',
     ['inputs', 'histories'],
     'every task graph built from any set of paths over a small alphabet (including single-state paths, cycles, and terminal states inside other paths)',
     'tests conjugate one small graph; the definition must hold for every graph shape',
     [T + 'task.py'],
     [('conjugation', T + 'task.py:ConjugateTaskGraph.from_task_graph'),
      ('determinism check', T + 'task.py:TaskGraph.check_only_deterministic_transitions')],
     'exhaustive enumeration of bounded task graphs, each conjugated by the real code and compared with the definition',
     'all task graphs over 3 states x 2 actions with all initial/terminal sets (as far as reachable through paths)')

prop('G03', 'Clique search yields every maximal clique of two or more nodes exactly once',
     'For every symmetric graph, clique search yields exactly the maximal cliques with at least two nodes, each exactly once, without changing the graph. '
     'For a conjugate task graph it does so on the graph of pairs of distinct nodes connected in both directions, whatever the labels and the number of parallel transitions, and whether or not actions repeat (self-transitions).',
     ['inputs'],
     'every undirected graph up to 6 (quick: 5) nodes and every directed graph with self-loops up to 3-4 nodes',
     'tests use one example graph and one HTM example',
     [T + 'task.py'],
     [('Bron-Kerbosch', T + 'task.py:max_cliques'), ('symmetrization', T + 'task.py:ConjugateTaskGraph.get_max_cliques')],
     'exhaustive enumeration of all graphs up to a size bound, real code vs brute-force definition',
     'all labelled graphs with <=5 nodes (quick), <=6 (thorough); all labelled digraphs incl. self-loops with <=4 nodes')

prop('G04', 'Chain search terminates and yields every maximal chain exactly once',
     'For every conjugate graph whose initial node has no predecessor, chain search terminates and yields, exactly once each, the maximal chains of two or more nodes reachable from the initial node: the longest sequences of distinct nodes in which each node but the last has its follower as only distinct successor and each node but the first has its forerunner as only distinct predecessor. '
     'Parallel transitions with different labels count once, and the search does not change the graph.',
     ['inputs'],
     'every directed graph (cycles included) up to 4 (quick) or 5 inner nodes',
     'tests check a handful of acyclic graphs; cyclic graphs, which demonstrations with repeated actions produce, are not exercised',
     [T + 'task.py'],
     [('chain search', T + 'task.py:ConjugateTaskGraph.get_max_chains')],
     'exhaustive enumeration of all digraphs up to a size bound, real code vs definition, with termination watchdog',
     'all digraphs over initial + 3..4 nodes; all labelings of parallel edges for small ones')

prop('G05', 'Compaction rewrites exactly the right edges, extraction keeps every action',
     'Compacting a set of graph nodes into a new node (or into one of them) removes exactly the transitions inside the set, redirects transitions crossing its border to the new node with an empty label, and keeps all others; in a conjugate graph the initial and terminal markers follow when they belong to the set. '
     'Extracting a hierarchical task by repeatedly compacting found chains into sequence meta-actions and cliques into parallel meta-actions strictly decreases the number of nodes, and the combination obtained from a meta-action has the matching kinds and child order and contains every grouped action exactly once as a leaf.',
     ['inputs', 'histories'],
     'every small graph, every node subset, and every chain/clique extraction history of small task graphs',
     'tests compact two examples; meta-actions are never converted to combinations in tests',
     [T + 'task.py'],
     [('compaction', T + 'task.py:BaseGraph.compact, ConjugateTaskGraph.compact'),
      ('meta-actions', T + 'task.py:MetaAction')],
     'exhaustive enumeration of graphs x subsets and of extraction histories on the real code vs set-rewriting reference',
     'all labelled digraphs with <=3 nodes and 2 labels x all subsets; all extraction orders of all task graphs from bounded path sets')

# ----------------------------------------------------------- hierarchical tasks
prop('H01', 'Values that compare equal hash equal, and comparison is total and symmetric',
     'States, board states, parts, conditions, actions of all kinds, meta-actions and beliefs built from the same content compare equal and have equal hashes, however that content was ordered or typed (insertion order, integer or float arrays); values of different content compare different. '
     'Content is the features of a state, the board and located parts of a board state, number and label of a part, mask and value of a condition, both conditions of a pre/post-condition action, the name of other named actions, kind and members of a meta-action, and the probabilities of a belief. '
     'Equality is reflexive, symmetric and transitive, and comparing with a value of any other kind yields False without raising.',
     ['inputs'],
     'all pairs and triples of a systematically enumerated universe of values of every kind, under every construction order',
     'tests compare a few hand-picked pairs; hash collisions and insertion orders that expose violations are rare',
     [T + 'state.py', T + 'action.py', T + 'task.py', T + 'snap_circuit.py', T + 'lib/belief.py'],
     [('equality and hashing', T + 'action.py, state.py, snap_circuit.py, task.py:MetaAction, lib/belief.py:ArrayBelief')],
     'exhaustive pairwise exploration of a bounded universe of values against content-based reference equality',
     'universe of several hundred values, all pairs; all insertion orders of up to 4 located parts')

prop('H02', 'Parallel combinations expand to all orders of independently copied children',
     'Converting a parallel combination into an alternative yields one sequence per permutation of its children, each permutation exactly once and all equally likely, under the name and highlighting of the original. '
     'Every sequence consists of independent copies (no node or action shared with the original or among sequences) that keep structure, branch probabilities, highlighting and all data of leaf actions of any kind (durations, probabilities, object, conditions, holding, agent), with names distinct between orders; the original is left unchanged.',
     ['inputs'],
     'every hierarchical task under a parallel node up to 3-4 children, for each kind of leaf action of the library',
     'tests only check names for two or three children of one leaf kind',
     [T + 'task.py', T + 'task_to_pomdp.py', T + 'bring_next_to_pomdp.py', T + 'supportive.py', T + 'action.py'],
     [('expansion', T + 'task.py:ParallelCombination.to_alternative'), ('copies', T + 'task.py:deep_copy, AbstractAction.copy')],
     'exhaustive enumeration of bounded task trees x leaf action kinds, expanded by the real code, compared with a reference expansion',
     'all trees with <=4 leaves and depth <=2 below a parallel node, all leaf kinds')

prop('H03', 'Alternatives keep valid branch probabilities and copies preserve whole trees',
     'An alternative combination has exactly the branch probabilities it is given (at construction or later), uniform ones when none are given, and raises ValueError for values that are negative, greater than one or not summing to one. '
     'Copying a combination yields a tree that shares no node with the original and has the same shape, kinds, probabilities and highlighting, with every node and leaf name passed through the given name format.',
     ['inputs', 'histories'],
     'all probability vectors of a grid (valid and invalid) up to 4 branches, assignment histories, all small trees x name formats',
     'tests check some invalid vectors only through the setter, never through construction or copies',
     [T + 'task.py'],
     [('probabilities', T + 'task.py:AlternativeCombination.proba'), ('copies', T + 'task.py:deep_copy')],
     'exhaustive enumeration of bounded trees and probability grids against reference structures',
     'probability grid of step 1/4 incl. out-of-range values, up to 3 branches; all trees <=4 leaves')

prop('H04', 'Task trees survive dictionary/JSON exchange and node lookups match tree order',
     'The dictionary form of a hierarchical task mirrors the tree: numbering in depth-first order from 0 without gaps, each node with the number of its parent, its name, kind, highlighting and children in order. '
     'Loading a task description from JSON yields a tree with the same shape, kinds, names, numbers, parents and leaf agents (highlighted inner nodes and leaves without attributes included), whose dictionary form describes the same tree. '
     'Parent lookup by number, next-human-action lookup (first leaf in depth-first order that has a greater number and a human agent) and lookup by name (first proper descendant in depth-first order whose lower-cased name contains the text) return exactly that node, or nothing when there is none.',
     ['inputs'],
     'every tree up to 5 nodes/4 leaves with every kind, agent and highlighting assignment in bounds, and every query',
     'tests check one dictionary; JSON loading and the lookups are not tested',
     [T + 'task.py', T + 'json_to_htm.py'],
     [('export', T + 'task.py:HierarchicalTask.as_dictionary'), ('import', T + 'json_to_htm.py:build_htm, json_to_htm'),
      ('lookups', T + 'task.py:HierarchicalTask.find_*')],
     'exhaustive enumeration of bounded trees; export/import/lookup of the real code vs reference traversals',
     'all ordered trees with <=4 leaves x kinds x agents, all queries; all JSON task files shipped with the repository')

# -------------------------------------------------------------- state and action
prop('S01', 'Actions accept a state change exactly when pre- and post-conditions hold',
     'A condition accepts a state exactly when every unmasked feature of the state equals the required value, a match-all condition accepts every state, and a condition requiring a value on a masked feature is rejected with ValueError at construction. '
     'An action with a pre- and a post-condition accepts a change exactly when the first accepts the state before and the second the state after; actions without conditions of their own (abstract, collaborative, supported and meta-actions) accept every change.',
     ['inputs'],
     'all masks, values and states over small feature domains',
     'tests use one or two vectors',
     [T + 'action.py', T + 'state.py'],
     [('conditions', T + 'action.py:Condition'), ('pre/post', T + 'action.py:PrePostConditionAction.check')],
     'exhaustive enumeration of masks x values x states on the real code vs pointwise definition',
     '3 features over {0,1,2} (thorough 4), all masks')

prop('S02', 'Circuit placements are accepted exactly when the part appears at that location',
     'The features of a board state hold a one exactly at the (part, row, column, orientation) of each located part and zero elsewhere, in a vector whose length is its dimension; the set of parts handed out cannot be used to alter the state. '
     'A placement action accepts a change exactly when its part is absent at its location and orientation before and present there after, independently of anything else on the board, so a demonstration is a valid task path exactly when each step adds its announced placement.',
     ['inputs', 'histories'],
     'all small boards, parts, states with up to 2-3 located parts and placements; all short demonstrations',
     'tests check a few placements on one board',
     [T + 'snap_circuit.py', T + 'task.py'],
     [('features', T + 'snap_circuit.py:SnapCircuitState'), ('placement', T + 'snap_circuit.py:PlaceAction')],
     'exhaustive enumeration of boards x states x placements and of demonstrations on the real code vs set-based reference',
     'boards up to 2x2, 2-3 parts, all states with <=2 located parts, all placements')

# -------------------------------------------------------------------- POMDP core
prop('B01', 'Belief updates are exact posteriors; impossible observations are reported',
     'For every model, belief, action and observation, the updated belief is the exact Bayesian posterior: proportional to the probability of the observation in each end state after the action, times the probability to reach it, and normalised. '
     'When that observation has probability zero, the dedicated impossible-observation error is raised; the belief and model passed in are never changed.',
     ['inputs', 'histories'],
     'all small models with entries on a probability grid, all grid beliefs, actions, observations, and all action/observation histories of bounded length',
     'tests check one model and a few beliefs',
     [T + 'lib/pomdp.py', T + 'lib/belief.py'],
     [('update', T + 'lib/pomdp.py:POMDP.belief_update'), ('array belief', T + 'lib/belief.py:ArrayBelief.successor')],
     'exhaustive enumeration of grid models x beliefs x histories against joint-trajectory enumeration',
     '2-state and 3-state grid models; histories up to length 3')

prop('B02', 'Simulated transitions and starts follow exactly the model distributions',
     'Sampling a transition from a state with an action yields end state, observation and reward with exactly the joint probabilities of the model: end state from the transition probabilities, observation from the observation probabilities of that end state, reward the one of that action, start state, end state and observation. '
     'Sampling a start state, and sampling a state from a belief, follow exactly the start and belief probabilities.',
     ['inputs'],
     'all random outcomes of every sampled call, for all grid models in bounds',
     'tests sample a few times from one model and can only see the support',
     [T + 'lib/pomdp.py', T + 'lib/belief.py'],
     [('simulator', T + 'lib/pomdp.py:sample_transition, sample_start'), ('belief sampling', T + 'lib/belief.py:ArrayBelief.sample')],
     'choice-oracle model checking: every random outcome of the real code is explored and its exact probability compared with the model',
     'grid models up to 3 states, 2 actions, 3 observations')

prop('B03', 'Particle beliefs keep their size and hold only states consistent with history',
     'A particle belief always holds exactly the requested number of particles; its successor after an action and observation holds only states that some particle can reach with that action while producing that observation, with the distribution of drawing a particle, simulating, and rejecting other observations. '
     'When only some particles are found within the allowed number of simulations (100 per particle) each missing one duplicates one of the found ones, drawn uniformly; when none is found the sampling error carrying belief, action and observation is raised. '
     'The array form is the exact frequency of particles, sampling is uniform over the particles, and the previous belief is never altered.',
     ['inputs', 'histories', 'fault_sequences'],
     'all sampling outcomes (including rejections and exhaustion of the sample budget) for small particle numbers and models',
     'tests sample one successor with a fixed model; exhaustion with partial success is not deterministic there',
     [T + 'lib/belief.py'],
     [('particles', T + 'lib/belief.py:ParticleBelief'), ('rejection', T + 'lib/belief.py:_SuccessorSampler')],
     'choice-oracle exploration of all simulator outcomes of the real belief code, with fault points for exhausted sampling',
     '1-3 particles, 2-3 states; every exhaustion point')

prop('M01', 'Models are built only from well-formed descriptions and keep what they got',
     'Constructing a model raises ValueError exactly when an array does not have the shape implied by the states, actions and observations, a start, transition or observation distribution does not sum to one, a state, action or observation name is repeated, the discount lies outside 0..1, or the value type is neither reward nor cost. '
     'A constructed model exposes the names (numbers by default) in order, counts, arrays and discount it was given, with rewards negated when given as costs and input arrays left unchanged; without solver executable construction fails with ImportError. '
     'Randomising a model mixes every transition and observation distribution with a uniform one in the proportion asked and keeps them normalised.',
     ['inputs', 'configurations'],
     'all single and paired defects of small model descriptions, all naming styles and dimensions in bounds',
     'tests try one example per defect',
     [T + 'lib/pomdp.py', T + 'lib/utils.py'],
     [('validation', T + 'lib/pomdp.py:POMDP.__init__'), ('normalisation', T + 'lib/utils.py:assert_normal')],
     'exhaustive enumeration of bounded model descriptions with injected defects on the real constructor vs validity predicate',
     'dimensions 1..3 each; every single defect and every pair, at every index')

prop('M02', 'Models and graph policies survive JSON exchange unchanged',
     'Writing a model to JSON (text or file) and reading it back yields a model with the same names, arrays, discount and start, hence the same rewards, updates and simulation. '
     'Writing a graph policy to JSON (text or file) and reading it back yields the same nodes, actions, observations, transitions, values and initial node, hence the same behaviour on every observation sequence, including missing transitions; a policy with the wrong transition shape, an initial node out of range, or neither initial node nor start belief is refused.',
     ['inputs', 'histories'],
     'all models and policies in bounds, and all observation sequences of bounded length on the reread policy',
     'tests round-trip one model and one policy',
     [T + 'lib/pomdp.py'],
     [('model JSON', T + 'lib/pomdp.py:POMDP.to_dict/from_dict'), ('policy JSON', T + 'lib/pomdp.py:GraphPolicy')],
     'exhaustive enumeration of bounded models/policies, round-tripped through the real code, bisimulated over all observation sequences',
     'policies up to 3 nodes x 2 observations with all transition tables')

prop('M03', 'The solver input file states the model within rounding, sums exactly one',
     'The exported solver file parses, by the published format, back to the discount, reward values type, names or counts of states, actions and observations, start, transition, observation and reward tables of the model, in its order, every printed probability within the rounding of the format (five decimals) up to the correction. '
     'In every printed distribution the probabilities are non-negative and sum to exactly one in decimal arithmetic.',
     ['inputs', 'configurations'],
     'all models in bounds, including distributions whose rounded entries do not sum to one',
     'tests check a few arrays and one file head',
     [T + 'lib/pomdp.py'],
     [('dump', T + 'lib/pomdp.py:POMDP.dump, _dump_*')],
     'exhaustive enumeration of grid distributions and models, real dump parsed back by an independent parser with exact decimals',
     'all distributions k/n with n in a set of denominators up to 5 entries; models with all naming styles')

prop('M04', 'Solving turns the solver output into exactly the policy it describes',
     'Solving runs the solver on the exported model with the requested options in a temporary directory that is removed afterwards whatever happens, and fails when the solver fails. '
     'The policy returned has one node per line of the policy graph with that action name, transitions as listed (a dash meaning none), value vectors as listed, and starts at the node of greatest value for the model start; output that is inconsistent (actions of both files differ, unknown action, node numbering or transition target out of range, action without vector) is refused with an error.',
     ['inputs', 'fault_sequences'],
     'all solver outputs in bounds, each defect at each position, solver failures, option combinations',
     'the solver is absent where tests run, so these tests cannot even run; otherwise they cover one output',
     [T + 'lib/pomdp.py'],
     [('solver call', T + 'lib/pomdp.py:POMDP.solve'), ('parsing', T + 'lib/pomdp.py:parse_value_function, parse_policy_graph, load_policy_from')],
     'exhaustive enumeration of bounded solver outputs and faults through a stand-in solver executable vs reference interpretation',
     'policy graphs up to 3 nodes x 2 observations; every defect position; all option combinations')

prop('M05', 'Policy runners follow the policy along every observation sequence',
     'A graph policy runner starts at the initial node (or the node of greatest value for a belief given at reset), always proposes the action of its node and moves along the listed transition for each observation, raising the impossible-observation error where none is listed. '
     'A belief runner keeps the exact posterior of the model start (or given belief) along the actions it proposed and observations received, always sits at the node of greatest value for that belief, and raises the impossible-observation error on observations of probability zero.',
     ['inputs', 'histories'],
     'all observation sequences of bounded length for all policies in bounds',
     'tests follow one sequence',
     [T + 'lib/pomdp.py'],
     [('runners', T + 'lib/pomdp.py:GraphPolicyRunner, GraphPolicyBeliefRunner')],
     'exhaustive exploration of all observation sequences on the real runners vs reference automaton/posterior',
     'sequences to length 4; grid of models and value vectors')

prop('M06', 'Trajectory trees and belief exploration report exactly the reachable beliefs',
     'A trajectory tree of a belief runner contains, to the given horizon, exactly the observations possible at each node in model order, each with the exact posterior belief and the action and node chosen there, and leaves the runner where it was; the trees from starts are one per possible start state, each rooted at certainty of that state. '
     'Exploring the beliefs of a runner yields a policy whose first node is the start belief and whose transitions lead, for every possible observation of every expanded node, to a recorded belief within the merging distance of the exact posterior, with no transition exactly for impossible observations, all recorded beliefs farther apart than that distance, and every node holding the action the policy proposes at its belief.',
     ['inputs', 'histories'],
     'all models and value vectors in bounds, horizons 0..3',
     'tests compare one small tree; the exploration is not tested on general models',
     [T + 'lib/pomdp.py'],
     [('trees', T + 'lib/pomdp.py:trajectory_tree, trajectory_trees_from_starts'), ('exploration', T + 'lib/pomdp.py:visit')],
     'exhaustive enumeration of models x horizons, real trees compared with reference recursion over all observation sequences',
     'models with 2-3 states, 2 actions, 2-3 observations')

# ------------------------------------------------------------------------- POMCP
prop('P01', 'Search-tree statistics equal the averages of the simulated discounted returns',
     'After any series of searches, each action node reached has been visited exactly as many times as simulated episodes passed through it with that action, and its value is the average (recency-weighted by its update rate when non-zero) of the discounted returns of these episodes from there: reward plus discount times what followed. '
     'Each observation node counts one visit per episode continuing through it plus one for the rollout at its creation, whose return is the average of the given number of independent random rollouts to the horizon; episodes stop exactly at the horizon, nothing is created or counted beyond it, and a transition whose successor belief cannot be sampled counts only its immediate reward.',
     ['inputs', 'histories'],
     'all random outcomes (states, observations, random actions, tie-breaking) of bounded series of episodes on small models',
     'tests run one simulation on trivial models with mocked sampling',
     [T + 'lib/pomcp.py'],
     [('search', T + 'lib/pomcp.py:_SearchTree._simulate_from_node, rollout_from_node'), ('averages', T + 'lib/pomcp.py:_ValueAverage')],
     'choice-oracle exploration of every random outcome of the real search, its logged simulator calls replayed through a reference tree',
     'models with 2 states, 2 actions, 2 observations; horizons 0..3; 2-4 episodes; all outcomes')

prop('P02', 'Search nodes choose untried actions first, then the best upper-confidence action',
     'At a node with untried actions the choice is uniform among exactly these. '
     'Otherwise the first action maximising value plus exploration times sqrt(ln(visits)/action visits) is chosen, the exploration factor being multiplied by the spread between best and worst action value in relative mode; without exploration, the first action of greatest value.',
     ['inputs'],
     'all visit counts, values on a grid, exploration settings and relative modes for up to 3 actions',
     'tests check a few hand-set nodes',
     [T + 'lib/pomcp.py'],
     [('selection', T + 'lib/pomcp.py:_SearchObservationNode.get_best_action, augmented_values')],
     'exhaustive enumeration of node statistics x exploration settings with choice-oracle for tie randomness vs the formula',
     'values in a grid, visits 0..3, 1-3 actions')

prop('P03', 'Horizons are reached exactly after their limit and copies run independently',
     'A transition horizon is reached exactly after its number of transitions; the task-step horizon after its number of changes of the task step, or once the final state is entered; the evaluation horizon after its number of transitions or exactly when the last transition ended in the final state. '
     'A copy is reached exactly when the original would be, and from then on neither affects the other; every horizon drawn from one generator starts afresh.',
     ['inputs', 'histories'],
     'all sequences of transitions, copies and queries up to a bounded depth',
     'tests check one count-down',
     [T + 'lib/pomcp.py', T + 'supportive.py', T + 'evaluation.py'],
     [('horizons', T + 'lib/pomcp.py:NTransitionsHorizon; supportive.py:NHTMHorizon; evaluation.py:FinishedOrNTransitionsHorizon')],
     'explicit-state enumeration of operation histories on the real horizon objects vs counter automaton',
     'all histories to depth 5 over transition kinds, copies')

prop('P04', 'The search policy tracks the real history and never half-applies a step',
     'Along every sequence of actions taken and observations received, the policy reports the belief that is the exact posterior (for particle beliefs: consistent particles) of its history, keeps the searched subtree of that history, and reset returns to the start; asking for an action runs exactly the requested number of searches from the current history and returns the action of greatest value there. '
     'A step before any action is refused with ValueError; a step that fails (unknown or impossible observation, particles that cannot be sampled) raises and leaves history, belief and node unchanged. '
     'A node looked up by history is always the same node, created with the right belief if absent.',
     ['histories', 'fault_sequences'],
     'all interleavings of asking, stepping (with possible, impossible and unknown observations) and resetting up to a bounded depth, on all random outcomes',
     'tests do a single step',
     [T + 'lib/pomcp.py'],
     [('runner', T + 'lib/pomcp.py:POMCPPolicyRunner'), ('lookup', T + 'lib/pomcp.py:_SearchTree.get_node')],
     'exhaustive enumeration of operation histories with choice-oracle on the real runner vs posterior/history reference',
     'operation sequences to depth 4-5; 2-state models; array, particle and belief-shared trees')

prop('P05', 'Exported search trees show the tree exactly, shared beliefs are expanded once',
     'The dictionary form of a search tree (values or policy) and the exported policy file contain exactly the nodes of the tree: visits, values, beliefs, action and observation names, and in policy form the greedy action, its children per observation with their position, action values with none for untried actions, and visits per action; the file with beliefs grouped by task step shows the same tree with grouped beliefs. '
     'When histories with equal beliefs share values, equal beliefs are the same node, all others distinct, and export terminates with every belief expanded exactly once. Exporting does not change statistics.',
     ['inputs', 'histories'],
     'all search trees resulting from all random outcomes of bounded search series',
     'tests compare one export',
     [T + 'lib/pomcp.py'],
     [('export', T + 'lib/pomcp.py:to_dict, export_pomcp, map'), ('sharing', T + 'lib/pomcp.py:_ObservationLookupSearchTree')],
     'choice-oracle enumeration of reachable search trees; each export of the real code compared with an independent walk',
     'trees of 2-4 episodes of small models incl. models with looping beliefs')

# ------------------------------------------------------------------- concurrency
prop('P06', 'Logged trajectories report the real transitions, beliefs and total reward',
     'Running a trajectory with the search policy resets the policy, starts from one sampled start and, until the final state is entered (at once if it starts there), executes exactly the actions the policy proposes and tells it every observation. '
     'For every transition it logs, in order, state, action, next state, observation and reward, then the grouped belief (each entry rounded to a tenth) and the first preference of the belief after it; it ends with the undiscounted total of the rewards. The policy is left at the history played, with its belief.',
     ['histories', 'inputs'],
     'all starts, proposals and outcomes of bounded trajectories, from any previous history, with given or standard logger',
     'not tested',
     [T + 'lib/pomcp.py', T + 'lib/belief.py'],
     [('trajectory', T + 'lib/pomcp.py:POMCPPolicyRunner.run_trajectory'), ('printed belief', T + 'lib/belief.py:format_belief_array')],
     'choice-oracle exploration of all trajectories of the real policy on small models, replayed against the recorded events',
     'trajectories up to 4 transitions, 3 outcome menus, all starts; belief printing on a grid of hundredths')

prop('C01', 'Background search never races with the policy owner and always stops',
     'Under every interleaving of the background search with the calls of the owner (asking for actions, stepping, resetting, executing, stopping), each call returns, nothing deadlocks or raises, and the search tree ends up as after some serial order of whole searches and whole calls: no search runs during a call, no statistics or nodes are lost. '
     'After a step or reset the background search explores only below the new history, after an action was returned only that action from the current history; after stop returns no search runs and the thread has ended.',
     ['schedules'],
     'all interleavings of the searching thread and the owner, at every line and lock operation, up to a preemption bound',
     'tests run real threads once with sleeps and cannot control the schedule',
     [T + 'lib/pomcp.py'],
     [('background thread', T + 'lib/pomcp.py:AsyncPOMCPPolicyRunner')],
     'stateless model checking of the real threaded code under a controlled scheduler with bounded preemptions',
     'preemption bound 1-2, owner scripts up to 5 calls, scheduling points at lines, function entries and synchronisation')

prop('C02', 'Repeated runs in processes return each result once, or fail loudly',
     'Repeating a function n times in subprocesses returns exactly the n results of n runs, each exactly once, whatever the order of completion and delivery, never running more subprocesses at once than there are processors and giving each run its own seed. '
     'If any subprocess fails, by exception or by being killed, the call raises RuntimeError instead of returning or hanging; n = 0 returns no result.',
     ['schedules', 'fault_sequences'],
     'all interleavings of process completion, result delivery and failure for small n and pool sizes',
     'not tested at all; process timing cannot be controlled in unit tests',
     [T + 'utils/multiprocess.py'],
     [('pool', T + 'utils/multiprocess.py:RepeatPool, repeat')],
     'stateless model checking of the real pool against a nondeterministic process/queue environment',
     'n<=3-4, 1-3 processors, all completion/delivery/failure interleavings')

# ---------------------------------------------------------------- domain: HTM->POMDP
prop('D01', 'Communication models accept exactly the executions of the hierarchical task',
     'For every hierarchical task and option set (deterministic, structured, loop, reward state, subtask reward) translation yields a valid model with states before each leaf (initial, human intends, robot intends) and an end state, whose completed executions, read as sequences of leaves, are exactly the linearisations of the task: sequences in order, one branch of each alternative, parallel children in any order. '
     'Each leaf moves on only from the human-intends state with time (or by asking when deterministic) or from the robot-intends state by the physical action, with the durations, refusal and failure probabilities of its action; starts and successors have the probabilities given by choosing uniformly among the branches of each alternative, and a looping model goes back to the start distribution. Observations and costs of wait, physical and communication actions are those documented for each option.',
     ['inputs', 'configurations'],
     'all hierarchical tasks up to 3-4 leaves x all option combinations',
     'tests check selected entries for a few fixed trees; half of them cannot run without the solver',
     [T + 'task_to_pomdp.py', T + 'task.py'],
     [('translation', T + 'task_to_pomdp.py:HTMToPOMDP, _NodeToPOMDP')],
     'exhaustive enumeration of bounded tasks x options; real T, O, R compared with an independent automaton-based construction',
     'all trees <=3 leaves (thorough 4) x 24 option sets')

prop('D02', 'Bring-next models deliver exactly the objects of the task, in its orders',
     'For every hierarchical task of object deliveries, translation yields a valid model with one state per leaf and an end, in which getting the object of the current leaf moves to its possible successors (choosing uniformly among the branches of each alternative), no other action changes the state, and completed executions are exactly the linearisations of the task. '
     'Getting is observed as success (error with probability one tenth) in steps that getting this object can lead to and as error in all others; asking is answered yes exactly in states waiting for that object (or unanswered with probability one tenth when so configured); costs, end reward, discount and looping back to the start distribution or staying at the end are as configured.',
     ['inputs', 'configurations'],
     'all hierarchical tasks up to 4 leaves over up to 3 objects x all option combinations',
     'tests check a fixed sequence, alternative and parallel example and cannot run without the solver',
     [T + 'bring_next_to_pomdp.py', T + 'task.py'],
     [('translation', T + 'bring_next_to_pomdp.py:HTMToPOMDP')],
     'exhaustive enumeration of bounded tasks x options; real T, O, R compared with an independent automaton-based construction',
     'all trees <=3 leaves (thorough 4) x object assignments x options')

prop('D03', 'Bundled problems encode their documented domain',
     'The hold-and-release model moves from holding to waiting for release with the given finishing probability, finishes exactly by the robot acting once the human finished, observes progress on acting or communicating only, and charges the given wait, failure and communication costs, for every choice of costs and probability. '
     'In the tower problem every order is a permutation of all parts that builds each tower bottom-up (tower by tower, or level by level across towers) and its tasks are the alternative of the corresponding named sequences; the bundled stool task has the documented steps, in order, each with its durations.',
     ['inputs', 'configurations'],
     'all parameter values on grids, all tower sizes in bounds',
     'tests do not exercise these problems',
     [T + 'hold_and_release.py', T + 'tower_problem.py', T + 'stool_scenarios.py'],
     [('models', T + 'hold_and_release.py, tower_problem.py, stool_scenarios.py')],
     'exhaustive enumeration of parameter grids; reachable state graph compared with reference automaton',
     'towers up to 4x4, grid of probabilities/costs')

prop('D04', 'Supportive states encode each feature independently and reversibly',
     'State numbers and (task step, preferences, body features, objects) correspond one-to-one over all states; setting any feature changes that feature only, copies and conversions keep all features and sizes and are independent, and a state (or copy) is final exactly in the last task step. '
     'Random object and preference changes flip each feature of that kind independently with the given probability and no other, and the printed form shows every feature.',
     ['inputs', 'histories'],
     'all states for all feature counts in bounds, all sequences of feature assignments up to a depth, all random outcomes',
     'tests set a few bits on a fixed size',
     [T + 'supportive.py'],
     [('encoding', T + 'supportive.py:_SupportivePOMDPState')],
     'explicit-state enumeration of all encodings and setter histories of the real code vs a record-based reference; choice oracle for random changes',
     '1-4 steps x 0-2 preferences x 0-2 body x 0-3 objects')

prop('D05', 'Supportive task steps progress along exactly the orders of the hierarchical task',
     'The steps of the supportive model are the leaves of the task (parallel parts expanded into orders), and the walks from an initial step along successors to a step without successor are exactly the linearisations of the task: sequences in order, one branch of an alternative, parallel children in any order. '
     'After the last leaf comes the cleaning step, then the final one; each leaf keeps the conditions of its action.',
     ['inputs'],
     'all hierarchical tasks up to 4 leaves',
     'tests check a few fixed trees',
     [T + 'supportive.py', T + 'task.py'],
     [('step graph', T + 'supportive.py:_HTMToDAG'), ('assembly', T + 'supportive.py:SupportivePOMDP.__init__')],
     'exhaustive enumeration of bounded tasks; path language of the real step graph compared with reference linearisations',
     'all trees with <=4 leaves (thorough 5), nested combinations')

prop('D06', 'The supportive simulator has exactly the documented outcome distribution',
     'For every state and action, simulation yields exactly the documented joint distribution of next state, observation and reward: independent spontaneous object and preference changes first; then progress by waiting or holding with subtask reward, preference reward for the wanted kind of hold, hold cost, error with probability 0.98 on unwanted holds, a uniformly chosen successor, objects consumed, used or consumed with the given probability, and the cost of fetching missing ones; cleaning ended only by waiting, paying for every object still present and earning the final reward; nothing further in the final state. '
     'Asking, bringing and clearing have their documented answers, failures, not-found cases and intrinsic costs and change only the named object. When randomness is turned off there are no spontaneous changes and no failures, unwanted holds fail and questions are answered (the choice among several successors and partial consumption stay random), and every simulation is counted once.',
     ['inputs', 'configurations'],
     'all states, actions and random outcomes of small supportive tasks with all condition and hold kinds, and varied parameters',
     'tests fix seeds or disable randomness and look at single transitions',
     [T + 'supportive.py'],
     [('simulator', T + 'supportive.py:SupportivePOMDP.sample_transition')],
     'choice-oracle model checking: all random outcomes of the real simulator with exact probabilities vs an independent kernel',
     'all states of tasks with 1-3 leaves and up to 3 objects, all actions, both preference modes')

prop('D07', 'Supportive models start, name and summarise states consistently',
     'Start states have an initial task step (uniform), each preference with its probability, and no body feature or objects except spontaneously appeared ones, with exactly these independent probabilities. '
     'Action names list wait, hold H, hold V, ask hold, then bring (and clear exactly for objects that some step uses or consumes only partly) for each object in order of first use, matching in number and position the actions the simulator executes, and feature, state and step names match the encoding.',
     ['inputs'],
     'all random outcomes of the start for small tasks; all action indices of all tasks in bounds',
     'tests check one task',
     [T + 'supportive.py'],
     [('start', T + 'supportive.py:SupportivePOMDP.sample_start'), ('actions', T + 'supportive.py:actions, features, htm_names')],
     'choice-oracle enumeration of all start outcomes and exhaustive enumeration of action indices by name vs behaviour',
     'tasks with up to 3 leaves and 3 objects')

prop('D08', 'Grouped supportive beliefs are exact marginals',
     'For every belief over supportive states, grouping by task step gives for each step the total probability of its states, and the preference summary gives for each preference the total probability of states having it (last preference first), whatever the numbers of steps, preferences, body features and objects. '
     'Beliefs of the wrong size are refused.',
     ['inputs'],
     'all unit beliefs (hence, by linearity, all beliefs) for all feature counts in bounds, plus mixed beliefs',
     'tests use one size; the test with several preferences fails on current numpy',
     [T + 'supportive.py'],
     [('marginals', T + 'supportive.py:belief_quotient, belief_preferences')],
     'exhaustive enumeration of the basis of the (linear) belief space and pairwise mixtures vs direct summation',
     '1-4 steps x 0-3 preferences x 0-2 body x 0-3 objects, all basis beliefs')

prop('D09', 'The scripted supportive policy follows its plan under every observation',
     'The scripted policy brings each tool until it is there, then for each task step brings a leg until it is there and holds (H) until the step is done, then clears each tool until gone, then waits; a failed action is repeated, success or not-found counts as done (for holding only success does). '
     'Observations that cannot follow raise its unexpected-observation error, a step before any action raises ValueError, the history records every action and observation, and reset starts over.',
     ['histories'],
     'all observation sequences up to the end of small tasks, with resets',
     'tests do not cover this policy',
     [T + 'policy.py'],
     [('policy', T + 'policy.py:PolicyLongSupportiveSequence')],
     'explicit-state exploration of all observation sequences on the real policy vs reference automaton',
     'tasks with 1-3 steps, all observation sequences until the state space closes')

prop('E01', 'Evaluation records are faithful episodes with the discounted return',
     'An evaluation resets the policy, starts from a sampled start, and records states, actions, observations and rewards of one episode in which every action is the one proposed by the policy and every observation is passed on to it, ending exactly when the final state is reached or after the maximal number of transitions. '
     'The reported return is the sum of rewards discounted from the start of the episode (plain sum when discounting is off), simulator calls are those made during the evaluation, and the printed summary lists every transition.',
     ['histories', 'inputs'],
     'all random outcomes of bounded episodes of small models with all short scripted policies',
     'not tested',
     [T + 'evaluation.py'],
     [('episode', T + 'evaluation.py:simulate_one_evaluation, episode_summary')],
     'choice-oracle exploration of all episodes of the real evaluation code vs recomputed record',
     'horizons 0..4; all outcomes; discounts 0, 1/2, 0.9, 1')

prop('E02', 'Elapsed process times and result files are decoded and encoded exactly',
     'The elapsed process time equals the seconds denoted by the system report in any of its forms (minutes:seconds, hours:minutes:seconds, days-hours:minutes:seconds, with padding) for the asked or the current process. '
     'Result encoding writes numpy integers, floats and arrays (nested anywhere) as the plain numbers they denote and refuses other unknown objects; progress bars show the completed share.',
     ['inputs'],
     'all time forms at all field boundaries; all numpy scalar kinds and nestings in bounds',
     'not tested',
     [T + 'utils/multiprocess.py', T + 'lib/utils.py', T + 'utils/term.py'],
     [('elapsed time', T + 'utils/multiprocess.py:get_process_elapsed_time'), ('encoding', T + 'lib/utils.py:NPEncoder')],
     'exhaustive enumeration of report forms and encoded values on the real code vs reference decoding',
     'all fields at boundaries (0,1,9,10,59 / 23 / 0..100 days), all numpy types')

prop('E03', 'Experiments run with exactly their parameters and read back what they wrote',
     'An experiment runs with the defaults of its class overridden by the parameters given to it (directly or in its configuration file; debug mode then sets its small sizes), without changing the defaults, the given parameters or other experiments. The search policy it builds has exactly these numbers of iterations, rollouts and particles, exploration settings, horizon kind and length; the policy is warmed up with exactly the given number of searches, then exactly the given number of evaluations is run. '
     'The results hold the parameters, warmup time and all evaluations, in order, plus what finishing adds, and are written as JSON exactly when a path is given (at the place given on the command line). Configurations and results of jobs are read back unchanged: parameters, and per job the returns, elapsed times and simulator calls of its evaluations, in order.',
     ['configurations', 'inputs', 'histories'],
     'all combinations of parameter values on a grid, ways to start, paths and debug modes, with all outcomes of the first random draws',
     'not tested',
     [T + 'evaluation.py'],
     [('run', T + 'evaluation.py:SupportiveExperiment'), ('jobs', T + 'evaluation.py:ExpLauncher.get_results_from_one, action_prepare')],
     'exhaustive exploration of configurations (times bounded random outcomes) of the real experiment code vs a directly built policy run under the same outcomes',
     '384 parameter combinations, all 2-3 first draws (quick) or 6 (thorough); command lines with/without config, path, debug')


prop('E04', 'Bundled evaluation jobs run exactly the experiments their parameters name',
     'For every combination of its parameters, each evaluation job of samples/ builds the supportive model of its task (search job: four legs, then their assembly to the top, brought with the first; preference job: one leg; multitask job: a sequence of n_subtasks held legs, a uniform choice of any series of four kinds of hold, or one of four given series) with exactly the outcome distributions and rewards of its preference, reward and cost parameters, no discount. '
     'Its policy is the one named: search with exactly the given settings, or bringing all tools, then part by part always the same hold, no hold or a hold drawn at random, and clearing the tools at the end, failed actions being repeated. Runs make exactly the given number of evaluations, each until the task ends or its limit of transitions, and report their average return; unknown tasks and policies are refused. '
     'Launchers prepare exactly one job per combination of their parameter values, under a distinct name, with the script and a configuration which it can build, and the curves, boxes, legends and tables they show for some parameters are those of the results of the job having these parameters.',
     ['configurations', 'inputs', 'histories'],
     'all combinations of parameter values of the scripts and of a grid, all observations along the policies, all outcomes of model draws',
     'not tested: the test-suite does not import the samples',
     ['samples/supportive_evaluation_pomcp_job.py', 'samples/supportive_evaluation_preference_job.py', 'samples/supportive_evaluation_multitask_job.py', 'samples/supportive_evaluation_pomcp.py', 'samples/supportive_evaluation_preference.py', 'samples/supportive_evaluation_multitask.py', T + 'evaluation.py', T + 'policy.py'],
     [('jobs', 'samples/*_job.py:init_run, finish_run'), ('launchers', 'samples/supportive_evaluation_*.py:init_jobs, plot_results')],
     'exhaustive exploration of the real job classes (executed from the scripts) vs reference model and policy automaton; enumeration of launcher jobs and of drawn artists',
     'all parameter combinations of the launchers; 18-36 parameter sets per model with exact kernels at selected states; policies along all observations within two steps of every position')

prop('E05', 'Scenario scripts export what they solved or searched',
     'Each bundled scenario script runs to its end. Those that solve a model (ICRA stool task, chair task, tower) give the solver the model of their scenario, once, with their settings (grid method, grid type, number of iterations), and write under visualization/ exactly the policy the solver answered, the trajectories under it from every start state over ten steps, and the policy over visited beliefs, and nothing else. '
     'Those that search (stool task with intermediate rewards, supportive assembly of a stool) search the model of their scenario with their settings, the stated number of times before playing trajectories, and the file they write holds the actions, states, exploration settings and tree of that search as it stands at the end.',
     ['inputs', 'histories'],
     'every answer of the solver among policies of one or two nodes, several families of outcomes of random draws',
     'not tested: the test-suite does not run the scripts; the real solver gives one answer',
     ['samples/icra_scenario2pomdp.py', 'samples/htm2pomdp.py', 'samples/tower_scenario.py', 'samples/pomcp.py', 'samples/supportive.py', T + 'lib/pomdp.py', T + 'lib/pomcp.py'],
     [('solving scripts', 'samples/icra_scenario2pomdp.py, htm2pomdp.py, tower_scenario.py'), ('searching scripts', 'samples/pomcp.py, supportive.py')],
     'enumeration of solver answers (stand-in solver) over the real scripts run in a scratch copy; solved models and exported files vs reference',
     '22 (quick) or 180 answers per script; 4 (quick) or 40 series of random outcomes per search script; searches scaled down')

prop('V01', 'Figures show exactly the data they are given',
     'plot_var draws, at the given abscissa (default 0, 1, ...), the mean of every row of samples, and, unless told not to, the area and / or the bars of one standard deviation on both sides, in the colour given or that of the curve, and returns the curve. plot draws the given points (default width .75), boxplot one box per data set at its position with its quartiles, median, colours and labels, pcolormesh and plot_beliefs every cell of the array with its value at its position, limits around the array and label i at the middle of row or column i (belief plots: names default to numbers, wrong numbers of names are refused; colour map given, or by sign of the data). '
     'Legends go to the axes asked, else the figure asked, else the current axes; all others draw on the axes given, else the current ones, and on no other. The data given are not changed. Removing decorations hides exactly the spines, ticks and tick labels named, of x, y or both, and shows the grid asked. Colour series sample the map at i/n.',
     ['inputs', 'configurations'],
     'all small arrays over a grid of values, all options and combinations of them, given or current axes; larger arrays',
     'not tested',
     [T + 'utils/plot.py', T + 'plot.py'],
     [('curves and boxes', T + 'utils/plot.py:plot_var, boxplot'), ('arrays', T + 'plot.py:plot_beliefs, ' + T + 'utils/plot.py:pcolormesh'), ('decoration', T + 'utils/plot.py:remove_chartjunk, legend')],
     'bounded exhaustive enumeration of data and options; the artists on the real axes are compared with directly computed statistics',
     'arrays up to 2 x 2 (quick) or 3 x 2 over 3 values, all spine/tick/grid/label combinations; headless backend, no rendering compared')

prop('V02', 'Viewers show exactly the exported trees and policies',
     'The html viewers (visualization/) show what the exported files contain. Policy viewer: one circle per node labelled "[i] action", the initial node (and only it) highlighted, one arrow per transition that is not null, from its node to its target, in the class of its observation (those of observation done are left out while done is off, which lasts over refreshes and new files), one legend entry per observation in order; a policy with a transition beyond its nodes is refused with a message. '
     'Trajectory, search tree and task tree viewers: at first the root is open and what is below closed (task trees: open down to depth 3, 5 in the ROS page; everything after expand); a click on a node opens or closes it, so that after any sequence of clicks exactly the nodes whose ancestors are all open are shown, once each, with their label, at a place given by their depth and apart from all others, siblings in order, with exactly one link from the shown parent to each, which joins their places and (trajectories, search trees) has the class and arrow of the observation of that branch; only the root is highlighted as initial. '
     'Search tree: hovering a node shows its belief for every state, and for every action its value, its augmented value (value + exploration x exploration term, exploration times the range of the values when relative, default 1; empty for actions without value) and visits, marks the best of each and the action chosen. Task tree: attributes are classes of the node, it is marked collapsed iff it has closed children, and shows the symbol of its combination (never on leaves). '
     'Refreshing, selecting another file, and messages received (ROS page) show that file or message, from the start.',
     ['inputs', 'operation sequences'],
     'all small trees and policies, all sequences of clicks, files, buttons and messages up to a depth; files exported by the library',
     'not tested',
     ['visualization/'],
     [('policy viewer', 'visualization/policy/'), ('trajectory viewer', 'visualization/trajectories/'), ('search tree viewer', 'visualization/pomcp/'), ('task tree viewers', 'visualization/htm/, visualization/htm-ros-subscriber/')],
     'exhaustive enumeration of files and event sequences run on the real pages (html and scripts, in node) over a stand-in document; every resulting drawing compared with a model of which nodes are open',
     'trees of up to 5 (quick) or 6 nodes, clicks up to 3 or 4; policies of up to 3 or 4 nodes; d3, jQuery and the document are stand-ins: transitions run to their end between events; colours, sizes, abbreviations of names and zooming are not compared')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(
                VERIF, 'mc', 'checks', p['id'].lower() + '.py')):
            continue
        cmd = '%s check.py %s' % (PY, p['id'])
        checks.append({'property': p['id'], 'quick_cmd': cmd,
                       'thorough_cmd': cmd + ' thorough',
                       'technique': p['_tech'], 'level': 'model_checking',
                       'level_note': p['_note']})
    man = {'version': 1, 'setup_cmd': PY + ' tools/setup.py',
           'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo are needed: the checks drive the real '
                    'code through its public interface, replacing only its '
                    'environment (randomness, processes, threads, solver).'}
    claimed = {c['property'] for c in checks}
    for p in P:
        if p['id'] not in claimed:
            man['not_applicable'].append(
                {'property': p['id'], 'reason': 'check still being built'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
