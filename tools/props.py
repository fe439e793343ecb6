# Table of the properties (executed by make_meta.py).

prop('C01', 'Value objects compare by content and hash consistently',
     '''Conditions, actions, states, task graphs, board parts and beliefs are
     equal exactly when they are of the same kind and have the same content
     (abstract and combined actions: by name, or by kind and members). Equal
     objects that can be stored in sets or used as keys have equal hashes,
     whatever the order in which their content was built.''',
     ['inputs', 'histories'],
     '''For all pairs of objects, whatever their content and the way they were
     built.''',
     '''Tests compare a few small objects; a hash that depends on identity,
     memory layout or on iteration order of a set only collides or differs
     for particular contents and hash seeds.''',
     ['task_models/action.py', 'task_models/state.py', 'task_models/task.py',
      'task_models/snap_circuit.py', 'task_models/lib/belief.py'],
     [('equality and hash of values', 'Condition.__eq__/__hash__, '
       'NDimensionalState.__eq__/__hash__, MetaAction.__hash__, '
       'SnapCircuitState.__hash__, ArrayBelief.__hash__')])

prop('C02', 'Copies are faithful, independent and only differ by their name',
     '''Copying an action, a node of a task tree, a horizon or an encoded state
     gives a new object of the same kind with the same content, renamed with
     the given format where one applies (highlighting, branch probabilities,
     agents and order of children included), and leaves the original
     unchanged. Unrolling a parallel node gives one alternative per
     permutation of its children, all as likely, each one a sequence of
     renamed copies of all of them in that order.''',
     ['inputs', 'programs'],
     '''For all actions of all classes, all trees and all horizons.''',
     '''Tests copy a few nodes and compare some attributes; a dropped field or
     a shared child is only visible for nodes that use that field.''',
     ['task_models/action.py', 'task_models/task.py',
      'task_models/lib/pomcp.py', 'task_models/supportive.py',
      'task_models/evaluation.py'],
     [('copies', 'Action.copy, deep_copy of the combinations, '
       'ParallelCombination.to_alternative, copy of the horizons')])

prop('C14', 'Supportive simulator only changes what an action may change',
     '''A simulated step of the supportive task advances the step of the task
     only when the human proceeds (waiting, accepted hold, or finishing the
     cleaning by waiting) and only to a successor of the current step; apart
     from random changes of objects and preferences in random mode, it
     changes no preference and only the objects consumed or left by the
     conditions of the performed step, or the object of a successful
     bring or clear action. Starting states are drawn at an initial step of
     the task, with objects absent but for random changes.''',
     ['inputs', 'histories', 'programs'],
     '''For all tasks, states, actions, and outcomes of the random draws.''',
     '''The tests step through a handful of states of two small tasks; a frame
     violation needs a particular state, object and random outcome.''',
     ['task_models/supportive.py'],
     [('transition', 'SupportivePOMDP.sample_transition, '
       '_update_for_transition, _update_for_condition'),
      ('start', 'SupportivePOMDP.sample_start')])

prop('C15', 'Observations and rewards of the supportive task tell the outcome',
     '''For every state and action, the observation tells what happened: none
     when the step or the action succeeded, fail when it was refused or
     failed, not-found when the object was already there (bring) or missing
     (clear), and a yes or no that never contradicts the preference when
     asked. The reward is the sum of the costs and bonuses of that outcome
     only: the hold, intrinsic and object-fetching costs, the reward of a
     completed step, of a preferred hold and of the completed task (minus the
     objects left to clean), with the optional correction that makes rewards
     independent of preferences.''',
     ['inputs', 'histories', 'configurations'],
     '''For all tasks, states, actions, values of the costs and rewards, and
     outcomes of the random draws (whose probabilities are not part of the
     property).''',
     '''Tests check the rewards of a few transitions of one task with default
     costs.''',
     ['task_models/supportive.py'],
     [('feedback', 'SupportivePOMDP.sample_transition'),
      ('object costs', 'SupportivePOMDP._update_for_condition')])

prop('C16', 'Action numbers, names and objects of the supportive model agree',
     '''The supportive model numbers wait, the two holds and ask first, then
     for each object (in order of first use by the task) its bring action
     directly followed by its clear action when the object can remain after
     use; the number of actions, the list of names, and the maps between
     objects and actions all follow that numbering. Asking for the clear
     action of an object that cannot be cleared, or for the object of another
     action, is an error.''',
     ['programs', 'inputs'],
     '''For all tasks, with any number of objects and conditions.''',
     '''Tests use two fixed tasks in which the numbering happens to be
     regular.''',
     ['task_models/supportive.py'],
     [('numbering', 'SupportivePOMDP._init_object_actions_indices, actions, '
       '_obj_from_action, _populate_conditions')])

prop('C18', 'A task is flattened into its leaves with the right successors',
     '''Flattening a task tree lists each executed leaf once, in order, and
     gives as successors of the last leaves of each member of a sequence the
     first leaves of the next one, an alternative starting and ending like
     any of its members, and a parallel node like the alternative of its
     orderings. Leaves without successors lead to the cleaning step, which
     precedes the final one.''',
     ['programs', 'inputs'],
     '''For all task trees, of any shape and depth.''',
     '''Tests flatten four small trees; a wrong successor needs a particular
     nesting of sequences, alternatives and parallels.''',
     ['task_models/supportive.py'],
     [('flattening', '_HTMToDAG.get_initial_final'),
      ('cleaning step', 'SupportivePOMDP.__init__')])

prop('C20', 'Task graphs are sets of transitions; the conjugate graph is exact',
     '''A task graph behaves like a set of labelled transitions plus initial
     and terminal states: adding, removing, listing, testing transitions,
     recording and testing paths (which must alternate states and actions
     whose check accepts them), compacting nodes and the exported description
     (numbered nodes and links between these numbers) all agree with it. The
     conjugate graph of a task has exactly the transitions initial to first
     actions, action to possible next action through their common state
     (also through terminal states), and action to terminal, and is refused
     for tasks where a state has two outcomes for an action.''',
     ['inputs', 'histories', 'programs'],
     '''For all graphs, paths and sequences of operations.''',
     '''Tests use graphs of a few states; errors need particular overlaps of
     initial, terminal and shared states.''',
     ['task_models/task.py'],
     [('graph', 'BaseGraph, TaskGraph.add_path/has_path, check_path'),
      ('conjugate', 'ConjugateTaskGraph.from_task_graph, compact')])

prop('C25', 'Encoded states of the supportive task are records of their features',
     '''The integer that encodes a state stores the step of the task, the
     preferences, the body features and the objects independently: reading a
     feature gives what was last written to it, and writing or randomly
     flipping one changes no other. The number of states, the final state
     test, the marginals of a belief over steps and preferences, and copies
     all use that same layout.''',
     ['inputs', 'configurations'],
     '''For all states, features, numbers of steps, preferences and objects.''',
     '''Tests read and write a few features of one size of state; an overlap
     of two features only shows for some sizes and values.''',
     ['task_models/supportive.py'],
     [('encoding', '_SupportivePOMDPState'),
      ('layout', 'SupportivePOMDP._int_to_state')])

prop('C08', 'Saving and loading a task keeps its tree',
     '''Saving a task tree and loading it again gives the same tree: same kinds
     of nodes, names, children in the same order, identifiers and parents
     consistent with a numbering in which each node is numbered before its
     children, highlighting, and names and agents of the actions (branch
     probabilities are not saved). Loading a description builds the nodes
     that it describes.''',
     ['inputs', 'programs'],
     '''For all task trees, of any shape, with any names and agents.''',
     '''Tests save and load one tree; losing a field or an order only shows
     for trees that use it, and loading was not tested at all.''',
     ['task_models/task.py', 'task_models/json_to_htm.py'],
     [('save', 'as_dictionary of the combinations'),
      ('load', 'json_to_htm.build_htm')])

prop('C19', 'Clique and chain search explores the whole graph exactly once',
     '''The clique search works on the symmetric part of the graph (an edge
     wherever there are transitions both ways between two nodes, not counting
     those from a node to itself), visits every candidate of
     each branch not covered by the pivot, moves it from the candidates to
     the excluded nodes afterwards, and returns every clique of more than one
     node it finds. The chain search follows nodes with exactly one successor
     as long as that successor has only one predecessor (counting distinct
     predecessors) and was not explored, explores every successor that was
     not, and returns every chain of more than one node.''',
     ['inputs', 'programs'],
     '''For all graphs.''',
     '''Tests search graphs of a few nodes; a missed clique needs a particular
     overlap of neighbourhoods.''',
     ['task_models/task.py'],
     [('cliques', '_bron_kerbosch, max_cliques, get_max_cliques'),
      ('chains', 'ConjugateTaskGraph.get_max_chains')])

prop('C30', 'Lookups in a task tree and conversions of actions are exact',
     '''Looking for the parent of a node, for a node by name or for the next
     action of the human gives the first match in depth-first order, or none
     if there is none, and a task is empty when it has no root. A combined
     action converts to the tree of the same kinds, with the same actions as
     leaves in the same order.''',
     ['inputs', 'programs'],
     '''For all task trees and combined actions, of any depth.''',
     '''Tests look up a few nodes of one tree and convert no action.''',
     ['task_models/task.py'],
     [('lookups', 'HierarchicalTask.find_*'),
      ('conversion', 'MetaAction.to_combination')])

prop('C04', 'Planning in the background never touches the tree during a step',
     '''With planning in the background, stepping, resetting, asking for the
     next action and running a function on the caller's behalf do all of
     their work on the search tree while holding the same lock as each
     simulation of the background thread; none of them takes that lock twice,
     and it is released even when the work fails. The background thread simulates from the current
     history for as long as it is asked to run, and stopping the runner
     waits for the thread to end and starts no other one.''',
     ['schedules'],
     '''For all interleavings of the caller with the background thread.''',
     '''A test runs one schedule; a missing lock only shows when the thread
     runs between two particular operations.''',
     ['task_models/lib/pomcp.py'],
     [('lock', 'AsyncPOMCPPolicyRunner, AsyncPOMCPPolicyRunner._Thread')],
     tech='lock-set analysis on the abstract interpretation of the source, '
     'and comparison of effects with reference semantics',
     note='Every call and write reached from the public methods of the '
     'asynchronous runner and from its thread is located with respect to '
     'the context managers that are open at that point (no execution). It '
     'trusts that the lock of the threading module excludes.')

prop('C05', 'Search statistics count each simulation once with its return',
     '''A simulation that goes through a node adds its discounted return from
     that node to it and to the branch of the action taken, exactly once, and
     nothing anywhere else; a new node gets the mean of the returns of the
     rollouts started from it. The value of a node is the mean of these
     returns (or their weighted last value, according to its parameter), zero
     before any. The rewards collected by a rollout are discounted once per
     transition.''',
     ['histories', 'inputs'],
     '''For all models, nodes, horizons, histories and outcomes of the random
     draws.''',
     '''Tests check values after a few simulations on small models with a
     tolerance; counting twice or discounting at the wrong place stays within
     it.''',
     ['task_models/lib/pomcp.py'],
     [('backup', '_SearchTree._simulate_from_node, rollout_from_node, '
       '_one_rollout_from_node'),
      ('average', '_ValueAverage')])

prop('C06', 'Each node of the search tree holds the belief of its history',
     '''The root holds the initial belief of the model, and the node reached
     by a history of actions and observations holds the belief obtained from
     the root by the successive updates with these actions and observations,
     whether it is reached by a simulation or by a lookup; nodes are only
     shared between equal beliefs. The update of a belief is the posterior
     distribution given the action and the observation, and is an error when
     the observation is impossible.''',
     ['inputs', 'histories'],
     '''For all models, beliefs and histories.''',
     '''Tests compare a few posteriors of small models; the belief of a deeper
     node, or of one first created by a lookup, needs a particular order of
     operations.''',
     ['task_models/lib/pomcp.py', 'task_models/lib/pomdp.py',
      'task_models/lib/belief.py'],
     [('nodes', '_SearchTree.get_node, _simulate_from_node, '
       '_ObservationLookupSearchTree'),
      ('posterior', 'POMDP.belief_update, ArrayBelief.successor')])

prop('C07', 'A finite model is only built from consistent tables and names',
     '''Building a finite model checks that the tables have the shapes given by
     the numbers of states, actions and observations, that the rows of the
     transition and observation tables and the initial distribution are
     distributions (no negative entry, sum one), that the discount is between
     zero and one, and that names are unique. A model given with costs holds
     their opposite as rewards, and names that are not given are numbers.''',
     ['inputs'],
     '''For all tables, names and discounts.''',
     '''Tests give a few wrong tables; a check that looks at the wrong axis
     passes on models with as many states as observations.''',
     ['task_models/lib/pomdp.py', 'task_models/lib/utils.py'],
     [('validation', 'POMDP.__init__, _assert_shapes, _assert_normal, '
       '_assert_unique')])

prop('C09', 'Models built from tasks have distributions as rows',
     '''Whatever the task and the options, every row of the transition and
     observation tables built for a task sums to one, as do the initial
     probabilities, provided the probabilities given with its actions lie
     between zero and one. Each node of the task fills the rows of its own
     states and actions only, and the end states are filled by the builder.
     Adding unexpected transitions and observations to a model keeps its rows
     normalised.''',
     ['programs', 'configurations'],
     '''For all task trees and all options of the builders.''',
     '''Tests build the models of a few small trees with some of the options;
     a row that does not sum to one needs a particular option on a tree with
     several successors.''',
     ['task_models/task_to_pomdp.py', 'task_models/bring_next_to_pomdp.py',
      'task_models/lib/pomdp.py'],
     [('rows', '_LeafToPOMDP.update_T/update_O, '
       'HTMToPOMDP.update_T_end/update_O_wait/init_O'),
      ('children', '_SequenceToPOMDP, _AlternativesToPOMDP, uniform')],
     tech='region analysis of array updates on the abstract interpretation '
     'of the source (row sums computed symbolically per class of indices)')

prop('C10', 'Models built from tasks have the tables their task describes',
     '''The model built for a task has the states and actions of its leaves in
     order (then the end states), starts in the first leaves, and each entry
     of its transition, observation and reward tables is the one its leaf,
     its successors and the options (deterministic, structured, loop, reward
     state, subtask reward, no answer) define: durations, communications,
     failures and errors included. Sequences chain the successors of their
     members, alternatives (uniform) share them, and parallel nodes stand for
     the alternative of their orderings.''',
     ['programs', 'configurations'],
     '''For all task trees, durations, probabilities and options.''',
     '''Tests compare the whole tables of two or three small trees; entries
     for other positions in the tree or other options are never looked at.''',
     ['task_models/task_to_pomdp.py', 'task_models/bring_next_to_pomdp.py'],
     [('leaves', '_LeafToPOMDP'), ('end states', 'HTMToPOMDP'),
      ('composition', '_SequenceToPOMDP, _AlternativesToPOMDP, '
       '_start_indices_from')],
     tech='region analysis of array updates on the abstract interpretation '
     'of the source, compared with reference tables per class of indices')

prop('C11', 'Tables of a finite model are indexed and written in one order',
     '''Everywhere in a finite model the transition table is indexed by action,
     state and next state, the observation table by action, next state and
     observation, and the reward table by action, state, next state and
     observation: sampling, belief updates and the text given to the solver
     agree on it. That text lists discount, kind of values, the names (or
     their number when not given) and every entry of every table exactly
     once with its own indices.''',
     ['inputs'],
     '''For all models, of any sizes and names.''',
     '''Tests dump one model and sample with seeds; swapped axes of equal
     sizes go unnoticed.''',
     ['task_models/lib/pomdp.py'],
     [('dump', 'POMDP.dump, _dump_1d_array .. _dump_4d_array'),
      ('sampling', 'POMDP.sample_transition, sample_start, belief_update')])

prop('C12', 'What the solver writes is read back faithfully, or is an error',
     '''Solving runs the solver on the dumped model in a directory of its own,
     with the options that were asked for, removed whatever happens, and an
     unsuccessful run is an error. Reading its output gives one node per
     vector, in order, with its action, its values and its transitions for
     each observation; a graph whose numbering, size or transitions do not
     fit the model is refused.''',
     ['inputs', 'configurations'],
     '''For all models, options and solver outputs.''',
     '''Tests parse one output; the solver is not even available to most test
     runs.''',
     ['task_models/lib/pomdp.py'],
     [('solver', 'POMDP.solve, dump_to, load_policy_from'),
      ('parsing', 'parse_value_function, parse_policy_graph')])

prop('C24', 'Policies and their runners follow the observations they are given',
     '''A policy graph gives at each node its action and, for an observation,
     the next node, and the best node for a belief; its runners start at the
     node of the initial belief (or the given node) and move exactly by the
     observations they are given, as the belief runner does with beliefs and
     the online runner with histories. Fixed support sequences give their
     actions in order while the expected observations come, start over on
     reset; the trajectories saved from a policy follow each possible
     observation with its probability of being observed, and an episode run
     from a policy feeds back each observation of its actions until it ends.''',
     ['inputs', 'histories'],
     '''For all policies, models and sequences of observations.''',
     '''Tests follow one or two sequences of observations of small
     policies.''',
     ['task_models/lib/pomdp.py', 'task_models/lib/pomcp.py',
      'task_models/policy.py'],
     [('policy', 'GraphPolicy, GraphPolicyRunner, GraphPolicyBeliefRunner'),
      ('online', 'POMCPPolicyRunner'),
      ('sequences', 'PolicyRunner, PolicyLongSupportiveSequence')])

prop('C26', 'A particle belief only holds states that explain the observation',
     '''Each particle of the successor of a particle belief is the next state
     of a simulated transition from a particle of the previous belief, with
     the given action, that produced the given observation. There are as many
     particles as asked for, resampled from those found when the bound on
     samples is reached, which is an error if none was. The distribution of
     the belief gives each state the fraction of particles equal to it.''',
     ['inputs', 'histories'],
     '''For all models, beliefs, actions and observations, and outcomes of the
     random draws.''',
     '''Tests check frequencies within a tolerance; a particle that does not
     fit the observation is a rare event.''',
     ['task_models/lib/belief.py'],
     [('rejection', '_SuccessorSampler'), ('particles', 'ParticleBelief')])

prop('C27', 'Search tries each action first, then the best upper bound',
     '''While some action of a node was never simulated, the search picks one
     of those; otherwise it picks an action with the largest value plus
     exploration bonus, where the bonus is the exploration constant (times
     the spread of the values when relative) times the square root of the
     logarithm of the visits of the node over those of the action. Random
     rollouts draw among all actions.''',
     ['inputs', 'histories'],
     '''For all nodes, values and exploration constants.''',
     '''Tests look at the action picked in two or three configurations.''',
     ['task_models/lib/pomcp.py'],
     [('choice', '_SearchObservationNode.get_best_action, '
       'augmented_values, _not_init_children')])

prop('C28', 'A horizon bounds the number of transitions of a simulation',
     '''A horizon of n transitions is reached after exactly n of them, one
     of n steps of the task after n changes of the step, and the horizons
     of the supportive task also once a final state is reached. Copies of a
     horizon count on their own from where it was copied, and generators
     give a fresh horizon each time.''',
     ['histories', 'inputs'],
     '''For all numbers of transitions and uses of the horizon and of its
     copies.''',
     '''Tests use one or two values of the horizon.''',
     ['task_models/lib/pomcp.py', 'task_models/evaluation.py',
      'task_models/supportive.py'],
     [('horizon', 'NTransitionsHorizon, FinishedOrNTransitionsHorizon, '
       'NHTMHorizon')])

prop('C17', 'Returns of evaluations are the discounted sums of rewards',
     '''The return of an evaluated episode is the sum of the rewards it got,
     the reward of transition number i (from 0) being multiplied by the
     discount of the model to the power i, or by 1 when discounting is
     disabled. Repeated evaluations discount, and are bounded by the horizon
     they were given.''',
     ['inputs', 'histories'],
     '''For all models, policies, horizons and outcomes of the
     simulations.''',
     '''The module needs a package for its experiments that the tests do not
     have: no test runs an evaluation.''',
     ['task_models/evaluation.py'],
     [('return', 'simulate_one_evaluation'), ('evaluations', 'evaluate')])

prop('C29', 'Records of an evaluation describe the episode that was simulated',
     '''An evaluation resets the policy once, and then, until the horizon is
     reached, performs the action that the policy gives in the current
     state, tells the policy and the horizon about it, and records it with
     the observation, the reward and the new state. It reports these lists
     in order (one state more than actions), the number of calls to the
     simulator during the episode and the elapsed time. The printed summary
     of an episode gives its number of transitions, return and calls, each
     state with the action, observation and reward that followed, and the
     last state.'''.replace('. It reports', ', reporting'),
     ['inputs', 'histories'],
     '''For all models, policies, horizons and outcomes of the
     simulations.''',
     '''The module needs a package for its experiments that the tests do not
     have: no test runs an evaluation.''',
     ['task_models/evaluation.py'],
     [('records', 'simulate_one_evaluation'),
      ('summary', 'episode_summary')])

prop('C22', 'Experiments run with their parameters and save what they found',
     '''An experiment has the default parameters, overridden by those it was
     given, and its own copy of them; its planner is built from them
     (horizon, iterations, particles, exploration, rollouts). Running it
     warms the planner up for the requested number of iterations, evaluates
     it for the requested number of repetitions, and, last, writes
     the parameters and the evaluations to the file of its path, if any.
     Launched jobs are given the parameters of their experiment, and their
     results are read back as returns, elapsed times and numbers of calls, in
     this order, by experiment.''',
     ['inputs', 'programs'],
     '''For all parameters, command lines and results.''',
     '''The module needs a package for its experiments that the tests do not
     have: no test runs an experiment.''',
     ['task_models/evaluation.py'],
     [('experiment', 'SupportiveExperiment'), ('jobs', 'ExpLauncher')])

prop('C21', 'Parallel repetitions run a function n times and return n results',
     '''Repeating a function n times starts one process for each of the n
     repetitions, with a random seed of its own that is applied before the
     function is called, and returns what the n calls returned. It only
     stops when all are started and none is still running, and raises an
     error when a process fails. The elapsed time of a process is read from
     days, hours, minutes and seconds in this order, the missing ones being
     zero.'''.replace('. The elapsed', '; the elapsed'),
     ['inputs', 'schedules', 'crash_points'],
     '''For all numbers of repetitions and of processors, order in which the
     processes end, and failures of processes.''',
     '''Tests repeat a function that always succeeds a few times.''',
     ['task_models/utils/multiprocess.py'],
     [('repetitions', 'RepeatPool, repeat'),
      ('time', 'get_process_elapsed_time')])

prop('C31', 'Exported search trees say what the tree holds',
     '''Exporting a search tree gives for each of its nodes its belief, value
     and number of simulations, and its explored branches under the names of
     their actions and observations, recursively, each node once; the
     exported trajectories of a runner have the probability and name of each
     observation. The exported file holds the names of the model and these
     trees.''',
     ['inputs', 'histories'],
     '''For all trees and models.''',
     '''Tests export one small tree and check some of its keys.''',
     ['task_models/lib/pomcp.py'],
     [('export', 'to_dict of the nodes and trees, export_pomcp, '
       'trajectory_trees_from_starts')])

prop('C32', 'Models and policies come back the same from JSON',
     '''Writing a finite model or a policy graph to JSON, as text or in a file,
     and reading it back gives a model or policy with the same tables, names,
     start, discount, actions, transitions, values and initial node.''',
     ['inputs'],
     '''For all models and policies.''',
     '''Tests reload one model; a field that is left out is only missed when
     it differs from its default.''',
     ['task_models/lib/pomdp.py'],
     [('json', 'POMDP.to_dict/from_dict/as_json/from_json, GraphPolicy.'
       'to_dict/from_dict')])

prop('C03', 'An operation that is refused changes nothing',
     '''When a change of a task graph, of the branch probabilities of an
     alternative or of the model of a runner, a step of a policy runner, or
     an update of a belief is refused with an error, the object is as it was
     before. These are refused exactly when: the path is invalid, the
     probabilities are negative, above one or do not sum to one, there is no
     last action to step from, the observation is unknown or unexpected for
     the policy, or its probability is null.''',
     ['inputs', 'histories'],
     '''For all graphs, probabilities, policies, beliefs and observations, and
     all histories that precede the refusal.''',
     '''Tests check that errors are raised, not that the object can still be
     used afterwards with the history it had.''',
     ['task_models/task.py', 'task_models/policy.py',
      'task_models/lib/pomdp.py', 'task_models/lib/pomcp.py'],
     [('refusals', 'TaskGraph.add_path, AlternativeCombination.proba, '
       'PolicyRunner.step, POMCPPolicyRunner.step, GraphPolicyBeliefRunner.'
       'step, POMDP.belief_update')])

prop('C13', 'Questions, copies and exports change nothing',
     '''Asking something of an action, condition, state, task graph, task tree,
     belief, model, policy or search tree (comparing, hashing, looking up,
     checking, sampling, listing, copying, converting, exporting or saving
     it) leaves that object, and the lists, sets and arrays given as
     arguments, as they were. No operation changes in place a list or
     dictionary that all objects of a class share.''',
     ['inputs', 'histories'],
     '''For all objects and arguments, and all sequences of questions.''',
     '''Tests look at the answers; an object that is changed on the way only
     shows in a later use of the same object.''',
     ['task_models/action.py', 'task_models/state.py', 'task_models/task.py',
      'task_models/lib/belief.py', 'task_models/lib/pomdp.py',
      'task_models/lib/pomcp.py', 'task_models/supportive.py',
      'task_models/snap_circuit.py', 'task_models/evaluation.py'],
     [('queries', 'see QUERIES in sa/rules/effects.py'),
      ('shared', 'functions that mention attributes of classes')])

prop('C23', 'Names, arguments and errors of the program are real',
     '''In the package and its sample scripts, every name that is used is
     defined or imported from a module that defines it, attributes of self
     are provided by the class or its relatives, calls of functions,
     methods and classes of the program fit their signature, and format
     strings have a value for each place; no local variable is used where nothing has assigned it. Everything that is
     raised is an exception, and no handler hides all failures.''',
     ['inputs', 'programs'],
     '''For all paths of all functions, including those for errors and those
     that need tools that are not installed.''',
     '''Tests only run some paths: error paths, paths that need the solver,
     the evaluation of experiments and the samples are not run at all.''',
     ['task_models', 'samples'],
     [('names', 'all modules of the package and samples')],
     tech='static analysis: symbol tables, name and call resolution, '
          'definite-assignment dataflow on the syntax tree',
     note='''Attributes are only checked on self, calls only where the target
     is resolved statically; what is imported from outside the program is
     trusted to exist.''')

prop('C33', 'Boards, conditions and placements describe what is on the board',
     '''The features of a board are one at the number, row, column and
     orientation of each part it holds and zero elsewhere. A condition, which must have no
     value outside its mask, holds in a state exactly when the masked features
     equal its values, and an action fits a transition when its first
     condition holds before and the second one after. Placing a part demands
     that it is not at its location and orientation before, and is there
     after.''',
     ['inputs'],
     '''For all boards, parts, locations, masks, values and states.''',
     '''Tests place a few parts on one small board; swapped coordinates or a
     mask that selects too much only show for other boards.''',
     ['task_models/snap_circuit.py', 'task_models/action.py',
      'task_models/state.py'],
     [('features', 'SnapCircuitState.features/get_features/n_dim'),
      ('conditions', 'Condition.check, PrePostConditionAction.check, '
       'PartPresenceCondition, PlaceAction')])

prop('C34', 'Tower tasks list each part once, in the order asked for',
     '''A tower problem has as many parts as the height times the number of
     towers; its vertical order completes the towers one after the other from
     the bottom, and its horizontal order completes the levels one after the
     other. The task of some orders is the alternative of one sequence for
     each order, whose leaves are actions for the parts in that order, named
     after the part and the order (numbered when no names are given).''',
     ['inputs', 'configurations'],
     '''For all heights, numbers of towers, orders and names.''',
     '''No test covers tower problems; samples use a single size, for which
     exchanging the two dimensions may be invisible.''',
     ['task_models/tower_problem.py'],
     [('towers', 'TowerProblem')])

prop('C35', 'The hold-and-release model has the tables its costs describe',
     '''The hold-and-release model goes, while the human is not done, to the
     state where he is with the given probability, then to the final state
     on the physical action only, and stays there; waiting observes nothing,
     the other actions observe how far the human is. Waiting and
     communicating always have their cost, and the physical action has the
     cost of a failure while the human is not done and none afterwards; the
     table is given as costs. Each of its rows is a distribution.''',
     ['inputs', 'configurations'],
     '''For all costs and probabilities.''',
     '''No test builds this model.''',
     ['task_models/hold_and_release.py'],
     [('tables', 'hold_and_release_pomdp')])


# -- not applicable ----------------------------------------------------------

prop('C42', 'Plots draw the data they are given, on the axes they are given',
     '''A plot of beliefs draws the given array with one column for each state
     and one row for each belief, ticks in the middle of each, and the given
     names (their numbers by default) in order, and refuses another number of
     names. A plot of samples draws the mean of each row at its abscissa (its
     index by default) with one standard deviation on each side as a band, as
     bars, as both or not at all as asked; lines, box plots and heat maps draw
     the array itself, with the labels that were asked for, a heat map being
     red, blue or diverging as the values are all nonnegative, all nonpositive
     or neither. All of them, and legends (which may be given a figure too,
     when there are no axes), use the axes they are given or else the current
     ones, pass other options on, and return what was drawn; removing parts of
     the frame of a plot hides the listed sides, ticks and tick labels.''',
     ['inputs', 'configurations'],
     '''For all arrays, labels, styles and options.''',
     '''No test draws anything, and the drawing library is not installed where
     the tests run.''',
     ['task_models/plot.py', 'task_models/utils/plot.py'],
     [('beliefs', 'plot_beliefs'), ('samples', 'plot_var'),
      ('frame', 'remove_chartjunk')])

prop('C43', 'Viewers find in the exported files what they display',
     '''Each field that a viewer of the visualization reads of a file, or of the
     records in it, is always written under this name by the export of the
     package or sample that the viewer is made for (the records at the end of
     a tree may have neither children nor observations). The viewers of tasks
     tell apart exactly the kinds of combinations that exist and show the
     attributes that exports add by name, and the links of trees are labelled
     by the observation of their source that leads to their end. Samples write
     exports in existing folders from which a viewer loads.''',
     ['inputs', 'configurations'],
     '''For all tasks, policies, search trees and trajectories that are
     exported.''',
     '''The viewers run in browsers and are not tested; tests compare exports
     with themselves.''',
     ['visualization/htm/htm.js',
      'visualization/htm-ros-subscriber/htm-ros-subscriber.js',
      'visualization/policy/policy.js',
      'visualization/trajectories/trajectories.js',
      'visualization/pomcp/pomcp.js', 'task_models/task.py',
      'task_models/lib/pomdp.py', 'task_models/lib/pomcp.py'],
     [('tasks', 'HierarchicalTask.as_dictionary'),
      ('policies', 'GraphPolicy.to_dict'),
      ('search trees', 'export_pomcp'),
      ('trajectories', 'GraphPolicyBeliefRunner.trajectory_tree')],
     tech='fields read of records in the syntax trees of the viewers, '
     'checked against the keys of the dictionaries that abstract '
     'interpretation of the exports gives',
     note='The viewers are parsed with the TypeScript compiler, and the '
     'fields they read found through the bindings of their variables; '
     'nothing is executed. Keys that the analysis cannot compute leave the '
     'obligation undecided. Fields set by the layouts of d3 are listed in '
     'the rule.')

prop('C44', 'Progress bars show the share of the work that is done',
     '''A progress bar fills the part of its width (rounded down) that is done,
     followed by the percentage (rounded down) and, unless told otherwise, by
     the counts of what is done and of the total, aligned to the width of the
     total. Printing one writes it after its prefix and in its color on the
     same line, flushes it, ends the line when all is done, and writes nothing
     when more is done than there was to do.''',
     ['inputs'],
     '''For all counts, sizes, prefixes and colors.''',
     '''No test prints any progress bar.''',
     ['task_models/utils/term.py'],
     [('bar', 'progress_bar'), ('line', 'print_progress_bar')])

prop('C45', 'Parts that can replace each other offer what is used of any of them',
     '''Each kind of model, belief and horizon that the search accepts, each
     policy that evaluations accept, each supported action, each kind of node
     of a task and of model of such a node has, as soon as it is constructed,
     all the attributes and methods that are used of them whatever their kind,
     and takes the arguments that they are called with (a kind may declare a
     method that it does not support). Methods that are redefined and classes
     that are chosen at run time accept the same calls as what they replace.''',
     ['configurations', 'programs'],
     '''For all combinations of models, beliefs, horizons, policies and
     tasks.''',
     '''Tests only combine some of the parts: the supportive model, for
     instance, is never searched for steps of the task with shared beliefs.''',
     ['task_models/lib/pomcp.py', 'task_models/lib/belief.py',
      'task_models/lib/pomdp.py', 'task_models/supportive.py',
      'task_models/evaluation.py', 'task_models/policy.py',
      'task_models/task.py', 'task_models/task_to_pomdp.py',
      'task_models/bring_next_to_pomdp.py'],
     [('models', 'POMDP, SupportivePOMDP'), ('horizons', 'Horizon.decrement'),
      ('beliefs', 'BaseBelief.successor'), ('policies', 'get_action')],
     tech='definite assignment of attributes by constructors, and signatures '
     'of methods, against the uses of each kind of part (syntax trees)',
     note='''Uses are found by the parameters, fields and local variables that
     hold each kind, in the functions where any of its classes may come;
     those under a test of the kind are left out. Classes with computed
     attributes are left undecided.''')

na('C36', 'The tree search converges to the best action',
   '''With enough simulations and particles, the action chosen by the tree
   search is one of the best actions for the current belief.''',
   ['inputs', 'schedules'], '''For all models, beliefs and random draws.''',
   '''Tests only run tiny models with a fixed budget.''',
   ['task_models/lib/pomcp.py'], [('search', '_SearchTree.simulate')],
   '''A limit in probability over random simulations: no static argument over
   the source bounds it. The parts it relies on (counts, averages, exploration
   bonus, beliefs, horizons) are decided by C05, C06, C26, C27 and C28.''')

na('C37', 'Sampled outcomes follow the distributions of the model',
   '''The states, observations and starts that are sampled from a model occur
   with the probabilities of its tables, independently of each other.''',
   ['inputs', 'histories'], '''For all models and all numbers of draws.''',
   '''Tests only draw from deterministic rows, or a few times.''',
   ['task_models/lib/pomdp.py', 'task_models/supportive.py',
    'task_models/lib/belief.py'],
   [('sampling', 'POMDP.sample_transition, ArrayBelief.sample')],
   '''It depends on the numpy generator (its distribution and independence),
   which is not part of the source analysed. That the right row of the right
   table is what is given to the generator is decided by C11, C14 and C26.''')

na('C38', 'Policies given by the external solver are optimal',
   '''The policy graph found for a model has the largest expected discounted
   reward for its initial belief, within the horizon it was solved for.''',
   ['inputs', 'configurations'], '''For all models and solver options.''',
   '''The solver is not installed where the tests run.''',
   ['task_models/lib/pomdp.py'], [('solver', 'POMDP.solve')],
   '''The solver is an external binary that is not in the repository; only the
   exchange with it can be analysed (C11 for what it is given, C12 for how it
   is run and read back).''')

na('C39', 'The clique search finds each maximal clique exactly once',
   '''The cliques that are returned are pairwise distinct, maximal, and are all
   the maximal cliques of more than one node of the symmetric graph.''',
   ['inputs'], '''For all graphs.''',
   '''Tests use two graphs of at most ten nodes.''',
   ['task_models/task.py'], [('search', '_bron_kerbosch')],
   '''The completeness of the pivoting is a theorem on graphs, proved by
   induction on the recursion with an invariant that no dataflow domain of this
   framework can express. C19 decides that each step of the search is the one
   of that algorithm.''')

na('C40', 'Numbers survive the text given to the solver',
   '''The probabilities and rewards that the solver reads are exactly those of
   the model.''',
   ['inputs'], '''For all tables.''',
   '''Tests compare the text of small round numbers.''',
   ['task_models/lib/pomdp.py'], [('text', 'POMDP.dump')],
   '''False by design for numbers that need more digits than the format writes,
   and the rounding of decimal formats of floats is a run-time quantity. Which
   entry is written where is decided by C11.''')

na('C41', 'Evaluations take the time that they report',
   '''The elapsed time reported by evaluations and repeated processes is the
   duration of what was run.''',
   ['schedules', 'inputs'], '''For all runs.''',
   '''Tests only check that a time is reported.''',
   ['task_models/evaluation.py', 'task_models/utils/multiprocess.py'],
   [('time', 'evaluate, get_process_elapsed_time')],
   '''Durations are run-time quantities. C21 and C29 decide which clock
   readings are subtracted, and how their text is read.''')
