"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
import os

C = 'src/graph_scheduler/condition.py'
S = 'src/graph_scheduler/scheduler.py'
T = 'src/graph_scheduler/time.py'
U = 'src/graph_scheduler/utilities.py'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    }
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(d)


prop(
    'C01', 'Nodes are considered in topological layers, at most once per pass',
    'For every acyclic graph the consideration order is the partition of all its nodes into layers in which every node is in the earliest layer after all of its senders. '
    'Every execution set a run yields is a subset of exactly one layer; within one pass the layers of the yielded sets strictly ascend, so no node executes twice in a pass and no node executes before a sender of it was considered in that pass. '
    'Nothing outside the graph is ever yielded.',
    ['inputs', 'schedules'],
    'all acyclic graphs (any node type, dict or networkx form, including senders that are not keys) and all node and termination conditions',
    'tests run some twenty fixed graphs of at most five nodes and compare whole expected sequences; they do not vary topology',
    [S, U],
    [('_build_consideration_queue / _generate_consideration_queue_indices', S), ('Scheduler.run layer loop', S)],
    ['yielded sets', 'Scheduler.consideration_queue', 'Scheduler.consideration_queue_indices', 'clock pass count at each yield'],
)
prop(
    'C02', 'A node executes exactly when its condition holds at its turn',
    'When a layer is considered, a node of it executes in that set if and only if its condition becomes satisfied given everything executed so far, including nodes already added to the same set (executions cascade within the set until no further node is satisfied). '
    'A layer in which nothing is satisfied yields nothing, and a pass in which nothing executed yields exactly one empty set. '
    'Hence the whole sequence of sets of a run is the one prescribed by the graph, the conditions and the termination conditions.',
    ['inputs', 'schedules', 'histories'],
    'all acyclic graphs, all assignments of conditions (every library condition, arbitrarily nested composites, cyclic condition dependencies among nodes), over several consecutive runs',
    'tests fix one condition per scenario and compare to hand-written sequences; nested combinations, cascades in larger layers and multi-run histories are sampled a handful of times',
    [S, C],
    [('Scheduler.run do-while over the consideration set', S), ('Condition.is_satisfied', C)],
    ['yielded sets of several consecutive runs'],
)
prop(
    'C03', 'Default behavior: a node runs once all its senders ran since its last run',
    'A node without a specified condition executes in its turn whenever it has no senders, or each of its direct senders in the current graph has executed at least once since the node last executed (since the start of the run, if it has not). '
    'In particular with no conditions at all every pass executes every layer completely, and a default run is exactly the list of layers. '
    'Nodes that get a condition removed, and nodes whose senders are changed by edits of the graph, follow the same rule in later runs.',
    ['inputs', 'histories', 'schedules'],
    'all acyclic graphs with any subset of nodes left unspecified while others have arbitrary conditions, and graph edits between runs',
    'tests cover default conditions only on small fixed graphs and never after graph edits',
    [S], [('Scheduler._validate_conditions', S)],
    ['yielded sets'],
)
prop(
    'C04', 'Runs end exactly when a termination condition holds',
    'A run considers no further layer once the environment-state-update or environment-sequence termination condition in force is satisfied, checked before each pass and before each layer, and it never ends while neither is satisfied; by default it ends when all nodes have run in this run. '
    'Conditions passed to a run (keyed by time scale or its name in any case) override the scheduler\'s own for that run and for their scale only; setting them on the scheduler changes only the scales given, and setting None restores those of construction. '
    'The dictionaries passed are left unchanged, and invalid entries are rejected with an error.',
    ['inputs', 'schedules', 'configurations'],
    'all termination conditions for both scales built from any non-consuming condition, given at construction, by assignment or per run, in any order of runs',
    'tests use a few termination conditions and never combine per-run overrides, string keys, and assignment over a sequence of runs',
    [S], [('Scheduler.run loop conditions', S), ('_combine_termination_conditions / _parse_termination_conditions', S), ('termination_conds setter', S)],
    ['end of the yielded sequence', 'Scheduler.termination_conds before and after runs'],
)
prop(
    'C05', 'Time-based conditions agree with the number of units of time that passed',
    'Every condition on consideration set executions, passes, environment state updates or environment sequences (before / at / after / after-n / every-n, and the start-of-unit conditions) is satisfied exactly when the count of such units completed since the start of the current enclosing unit given by its time scale compares as specified (less, equal, greater, at least, divisible). '
    'The default scale is the environment state update, and the environment sequence for conditions on environment state updates. '
    'This holds at any moment of any history of runs and completed sequences.',
    ['schedules', 'histories', 'inputs'],
    'all n, all admissible time scales, all moments during and between runs in histories with any number of runs, sequences and empty sets',
    'each condition is tested in one or two fixed scenarios, mostly with the default scale and within one run',
    [C, T], [('time-based Condition classes', C), ('Clock.get_total_times_relative', T)],
    ['is_satisfied at every yield and between runs', 'yielded sets of nodes governed by them'],
)
prop(
    'C06', 'Call-count conditions agree with the executions recorded in their time scale',
    'Every condition on numbers of executions (before / at / after / after-n calls, combined calls, all-have-run) is satisfied exactly when the number of executions of its node(s) within the current unit of its time scale compares as specified, where counts restart with each new unit of that scale and accumulate across finer units. '
    'Without nodes given, all-have-run refers to all nodes of the scheduler.',
    ['schedules', 'histories', 'inputs'],
    'all nodes, n, and every time scale, at all moments during and between runs, over several runs and sequences',
    'tests use the default scale and a single run in nearly all cases',
    [C, S], [('call-count Condition classes', C), ('counts_total updates and resets', S)],
    ['is_satisfied at every yield and between runs', 'yielded sets'],
    [('counts_total', 'executions per execution_id, time scale and node', S)],
)
prop(
    'C07', 'Relative conditions: every-n-calls uses up executions, just-ran looks one back',
    'EveryNCalls(D, n) owned by another node X is satisfied exactly when D has executed at least n times since X last executed in this run (or since the start of the run), no matter how many other nodes depend on D, how it is nested in composite conditions, or which owner it previously had. '
    'JustRan(D) is satisfied exactly when D was in the last recorded execution set, also across passes and runs, and is not satisfied before anything was recorded.',
    ['schedules', 'histories', 'inputs'],
    'all dependency structures among nodes (chains, mutual dependencies, several consumers of one producer, nested composites), all n and histories of runs',
    'tests check chains of two or three nodes with one consumer each',
    [C, S], [('EveryNCalls', C), ('JustRan', C), ('CompositeCondition.owner setter', C), ('counts_useable updates', S)],
    ['yielded sets', 'is_satisfied at every yield'],
    [('counts_useable', 'executions of a node not yet used up by another', S)],
)
prop(
    'C08', 'Composite conditions are the logical combination of their components',
    'At any moment All / Any / Not (and And, Or, WhileNot) are satisfied exactly when the conjunction / disjunction / negation of their components is, for any nesting, and evaluating them does not change the outcome of any later evaluation. '
    'NWhen(c, n) is satisfied on exactly the first n evaluations at which c is satisfied, counted separately for every execution context. '
    'All components act for the node that owns the composite, also after it is moved to another owner.',
    ['inputs', 'histories', 'schedules'],
    'all condition trees over all library conditions and custom functions, evaluated at all moments of runs in several contexts',
    'tests have one scenario per composite class',
    [C], [('CompositeCondition', C), ('All, Any, Not, NWhen, WhileNot', C)],
    ['is_satisfied of composites and of their components', 'owner of all components'],
)
prop(
    'C09', 'Custom condition functions get exactly their arguments, in the right context',
    'A custom condition calls its function with the positional arguments it was given, followed by those of the evaluation, limited to those the function can accept, and with exactly those keyword arguments (those given to the condition, updated by those of the evaluation, which always include the execution context and during a run the scheduler and the run\'s own keyword arguments) that the function can accept. '
    'It is satisfied exactly when the returned value is true. '
    'An error raised by the function reaches the caller unchanged.',
    ['inputs', 'programs'],
    'all function signatures (positional-only, optional, keyword-only, *args, **kwargs, methods, partials, callables) and all argument combinations valid for them',
    'tests use a few hand-written signatures',
    [C, U], [('Condition.is_satisfied', C), ('prune_unused_args', U)],
    ['arguments recorded by instrumented functions', 'results of is_satisfied and run'],
)
prop(
    'C10', 'The clock counts every unit of time exactly once, hierarchically',
    'At every moment the clock\'s value at each time scale is the number of units of that scale completed since the start of the current unit of the next coarser one: each recorded execution set counts one consideration set execution when the run proceeds past it, each completed traversal of the layers one pass, each finished run one environment state update, each signalled end one environment sequence; a coarser tick resets all finer values. '
    'Totals relative to any earlier or current unit of time equal the number of such ticks recorded in it, the previous time is the time before the last tick, and queries for units that do not exist are errors.',
    ['histories', 'schedules'],
    'all histories of ticks, whether driven by runs or directly, and all queries (scale, enclosing scale, index)',
    'tests check a handful of fixed tick sequences and queries',
    [T, S], [('Clock / TimeHistoryTree', T), ('Time._increment_by_time_scale', T), ('_increment_time calls', S)],
    ['Scheduler.get_clock(id).time, previous_time, simple_time and get_total_times_relative at each yield and between runs'],
)
prop(
    'C11', 'Execution contexts are independent of each other',
    'The sequence of sets, counts, history and time produced in one execution context are the same as if no other context existed, however runs of different contexts on one scheduler (or runs of different schedulers, also in different threads) are interleaved. '
    'A context that was never used starts from zero; without a context given, the scheduler\'s default context is used; a context created with a base context starts with that one\'s counts and history.',
    ['schedules', 'histories', 'configurations'],
    'all interleavings, at the granularity of single sets, of runs in several contexts and schedulers, with stateful conditions (NWhen) and shared graphs; threads with forced frequent switching',
    'tests never interleave contexts within runs and use no threads',
    [S, C, T], [('execution_id keyed state', S), ('NWhen.satisfactions', C), ('_init_counts', S)],
    ['yielded sets, counts_total, execution_list and clock per context'],
)
prop(
    'C12', 'Schedules do not depend on hashing, insertion order, labels or representation',
    'For conditions whose satisfaction does not depend on the arbitrary order within one layer, the sequence of sets depends only on the graph and conditions: it is the same in every process (hash seed), for every order of keys and set elements, for graph dictionaries and networkx graphs, and whatever other schedulers were used before in the process. '
    'Renaming nodes (to any hashable values) renames the sequence accordingly. '
    'Graph structure conditions give the same graph in every process and, unless a cycle has to be pruned, under every such change.',
    ['configurations', 'inputs'],
    'all graphs and condition assignments with unique outcomes, all permutations, labels and hash seeds',
    'tests run with one hash seed per session, one label type and fixed key order',
    [S, C, U], [('toposort use, set iteration in run', S), ('_handle_prune_cycles', C), ('networkx_digraph_to_dependency_dict', U)],
    ['yielded sets in several processes with different PYTHONHASHSEED and under permutations'],
)
prop(
    'C13', 'Recorded history and execution counts equal what was yielded',
    'At every moment the recorded execution list of a context is exactly the list of sets yielded in it over all runs, in order, and stays as it was when yielded; the value returned by a finished run is that history. '
    'The execution counts of every node at every time scale equal the number of yielded sets containing it within the current unit of that scale, and the usable count of A for B equals the executions of A since B last executed in the run. '
    'In absolute time, exactly one timestamp is recorded per yielded set.',
    ['histories', 'schedules'],
    'all graphs, conditions, numbers of runs, contexts, ended sequences and runs left unfinished after any yield',
    'tests read counts and history at the end of single runs only',
    [S], [('counts_total / counts_useable / execution_list updates', S), ('_reset_counts_total', S)],
    ['Scheduler.execution_list, counts_total, counts_useable, execution_timestamps at every yield'],
)
prop(
    'C14', 'Standard-mode absolute time advances by exact steps and repeats are exact',
    'When any condition in force is absolute, every layer considered yields a set (possibly empty), and successive sets of a run are separated by exactly the greatest common divisor of all repeat intervals divided by the number of layers (the default unit if there are no repeat intervals), without drift. The clock starts at the earliest start time of the nodes\' conditions and continues across runs, each of which starts, if there are repeat intervals, at the first multiple of that divisor at or after this. '
    'A node governed by a repeat interval executes exactly once per interval, at its layer\'s offset, while within [start, end]; start, end and termination times take effect at the first consideration at or after them (strictly after / before for exclusive bounds).',
    ['inputs', 'schedules'],
    'all graphs and combinations of repeat, start, end and termination times in any units, over several runs',
    'tests fix about twenty interval combinations, nearly all on nodes without edges',
    [C, S, T], [('TimeInterval / TimeTermination', C), ('_get_absolute_consideration_set_execution_unit and clock setup in run', S), ('Time._increment_by_time_scale', T)],
    ['yielded sets and Scheduler.execution_timestamps'],
)
prop(
    'C15', 'Exact-time mode hits every specified time exactly',
    'In exact time mode all nodes form one consideration set, and for every moment of absolute time considered a node executes exactly when its condition holds at that moment. '
    'Every start, end, termination and repeat time of the conditions that lies between the first and the last moment of the run is among the moments considered, moments are equally spaced, and a repeat interval with a start is measured from that start. '
    'Each node with conditions on absolute time executes at exactly the times its condition prescribes (start + k * repeat within the given bounds). Graph structure conditions change nothing that executes in this mode (where all conditions are given); consideration_queue_indices keeps the layers of the graph as the order it suggests.',
    ['inputs', 'schedules'],
    'all graphs and all combinations of repeat, start, end (inclusive or exclusive) and termination times with integer or fractional magnitudes in any time unit, alone or in composites',
    'tests have a handful of exact-time cases',
    [C, S], [('TimeInterval', C), ('Scheduler.consideration_queue in EXACT_TIME', S), ('_get_absolute_consideration_set_execution_unit', S)],
    ['yielded sets and Scheduler.execution_timestamps'],
)
prop(
    'C16', 'Absolute times mean the same however they are written',
    'A time given as number with unit (object or name), as quantity, or as text denotes the same duration in every condition and argument that takes a time: schedules, timestamps, interval properties and the rejection of a start later than the end do not depend on the notation or unit used. '
    'Conversion is exact for decimal magnitudes within the documented precision.',
    ['inputs'],
    'all magnitudes (integers, decimals), time units from nanoseconds to minutes, and notations, including mixed ones in one condition',
    'tests check a few notations of repeat only',
    [C, T], [('_parse_absolute_unit / _reduce_quantity_to_integer', C), ('TimeInterval.__init__', C)],
    ['attributes of conditions, yielded sets and timestamps of equivalent specifications'],
)
prop(
    'C17', 'Graph structure conditions are pure and keep the set of nodes',
    'Applying a graph structure condition returns a new graph over exactly the same nodes and leaves the given graph unchanged; the result shares no set with the given graph nor between nodes, refers only to nodes of the graph, and applying the condition again to the same graph gives an equal result. '
    'Conditions without an owner, with nodes that are missing from the graph, unhashable or absent nodes, or the owner among their nodes are rejected with a condition error.',
    ['inputs', 'programs'],
    'all graphs (also cyclic and with any hashable node types), all built-in graph structure conditions and option combinations',
    'tests compare results for a set of fixed graphs and do not check aliasing or purity',
    [C], [('GraphStructureCondition.modify_graph', C), ('_GSCWithOperations._process', C), ('_GSCUsingNodes validation', C)],
    ['modify_graph input and output'],
)
prop(
    'C18', 'Before / After / With conditions establish the position they promise',
    'After BeforeNode(s) every subject has the owner as direct sender, after AfterNode(s) the owner has every subject as direct sender, and after WithNode owner and subject have identical senders, with no edge between them; if the result is acyclic, the owner is thus considered strictly before, strictly after, or in the same layer as the subjects. '
    'Edges whose ends and reconnection do not involve the owner, its neighbors or the subjects stay as they were unless removed to break a cycle, no new self-edge appears, and a condition that already holds for all its nodes leaves the graph as it was.',
    ['inputs'],
    'all acyclic graphs, owners, subjects and option combinations for which no operation conflict is reported',
    'tests enumerate fixed small graphs and compare exact results',
    [C], [('BeforeNodes / AfterNodes / WithNode', C), ('_handle_prune_cycles / _is_required_edge', C), ('_GSCReposition', C)],
    ['modify_graph output', 'Scheduler.consideration_queue'],
)
prop(
    'C19', 'Neighbor operations compute the specified sets or report the conflict',
    'Each operation is the named set operation on source and comparison, and for the repositioning conditions the senders and receivers of owner and subjects before reconnection and cycle pruning are exactly those given by the operations applied to the original neighbors, not counting edges between owner and subjects (plus the edges the condition itself requires). '
    'Whenever two operations disagree about an edge a condition error is raised, and after removing the condition the graph is as before; when none disagree no error is raised; with conflicts ignored, receiver operations take precedence over sender operations. '
    'Operations may be given as members or names in any case, and per subject, in which case each subject must have one.',
    ['inputs', 'configurations'],
    'all graphs, owners, one to three subjects, all 9 operations for all four arguments (also per subject), with cycle pruning, reconnection and self-edge removal switched on or off',
    'tests sample operation combinations on fixed graphs',
    [C], [('Operation', C), ('_GSCWithOperations._process / _get_edge_conflicts', C)],
    ['modify_graph output or ConditionError'],
)
prop(
    'C20', 'Moving a node keeps its former senders connected to its former receivers',
    'With reconnection enabled (the default), after applying a Before, After or With condition every former sender of the owner still has a path to every former receiver of the owner that is not a subject, unless that receiver has become an ancestor of the sender. '
    'Reconnection adds no other edges: every edge of the result that existed neither before nor by the operations or the condition itself leads from a former sender to a former non-subject receiver of the owner whose connection through the owner was cut, and is part of no cycle; disabled, it adds none.',
    ['inputs'],
    'all acyclic graphs, owners, subjects, operation combinations and options without reported conflict',
    'tests cover a few chains',
    [C], [('_handle_reconnect_non_subject_receivers', C)],
    ['modify_graph output with and without reconnection'],
)
prop(
    'C21', 'The graph is always the base graph with the current structure conditions applied',
    'After any sequence of adding, removing, re-adding and re-assigning graph structure conditions and edges, at construction or later, on the scheduler or its condition set, the scheduler\'s graph (and its layers) equal the result of applying the conditions currently present to the base graph, one after the other in the order they were added. '
    'Removing all of them restores the base graph. '
    'When applying one fails the error is raised, and after removing that condition the same holds again.',
    ['histories', 'fault_sequences'],
    'all sequences of additions, removals, item assignments and failing applications of any length, interleaved with reads and runs',
    'tests perform short fixed sequences of adds and one or two removals and never continue after a failure',
    [S, C], [('Scheduler._handle_modified_structural_conditions', S), ('ConditionSet.add_condition / remove_condition', C)],
    ['Scheduler.graph, consideration_queue, consideration_queue_indices after every step'],
)
prop(
    'C22', 'Condition sets contain exactly what was added and not removed',
    'After any sequence of operations a condition set holds for each node its last assigned basic condition, if not removed, and all its graph structure conditions in order of addition, consistently in all of its views (by kind, combined mapping, iteration, membership, structural order), and the owner of each added condition is the node it was added for (default conditions a scheduler assigns when it is run count as added; item assignment also replaces the structure conditions of the node). '
    'Removal returns the removed condition, returns None if there was nothing to remove, and refuses ambiguous or ownerless requests with a condition error, without change. '
    'Adding a dictionary or another condition set equals adding its items one by one.',
    ['histories', 'inputs'],
    'all sequences of add, add set, item assignment, removal by owner and by condition, on condition sets and schedulers',
    'tests cover single operations',
    [C, S], [('ConditionSet', C), ('Scheduler.add_condition / add_condition_set / remove_condition', S)],
    ['ConditionSet views after every operation', 'return values and errors'],
)
prop(
    'C23', 'Cyclic graphs are never run; removing the cycle makes the scheduler usable',
    'If the current graph contains a cycle of two or more nodes, starting a run raises a scheduler error before anything is yielded or any count, history or clock value changes, and creating such a graph by adding a condition or edge is reported with a warning. '
    'If it contains none, starting a run raises no such error. '
    'As soon as the cycle is removed by further graph changes the scheduler behaves like one that never had it.',
    ['inputs', 'histories'],
    'all graphs, cycles present in the base graph or created and removed by any sequence of structure conditions',
    'tests have a few cyclic graphs and no recovery sequences',
    [S, C], [('Scheduler._validate_run_state', S), ('_push_graph', S)],
    ['errors and warnings on construction and run', 'state before and after'],
)
prop(
    'C24', 'Graph utilities compute what they say, without side effects',
    'Conversion between graph dictionaries and networkx graphs preserves exactly nodes and edges (with senders that are not keys added on request) and round-trips; ancestors, descendants, receivers and simple cycles equal those of the graph given at the time of each call. '
    'Copies of graphs are equal and independent; image output of a scheduler draws exactly the nodes and edges of its graph. '
    'Neither repeated calls, calls for other graphs, changes to a graph between calls, nor changes to returned results affect later results.',
    ['inputs', 'histories'],
    'all directed graphs, acyclic or not, with any hashable nodes, and sequences of calls interleaved with changes of the graphs',
    'tests check a few fixed graphs, once each',
    [U], [('clone_graph, conversions', U), ('cached_graph_function / HashableDict', U), ('get_ancestors, get_descendants, get_receivers, get_simple_cycles', U)],
    ['function results compared with independent traversal'],
)
prop(
    'C25', 'Time scale aliases are equivalent to the originals and fully removable',
    'While an alias for a time scale is set, the alias member, time attributes, condition classes and constructor arguments named by it are equivalent to the originals, schedules specified with either are equal, and existing names keep working. '
    'Removing aliases in any order restores the exported names, members and documentation exactly as before, and removing an unknown alias or setting one name twice has no effect on existing aliases.',
    ['histories', 'configurations'],
    'all sequences of setting and removing aliases (one per time scale at a time) with names distinct from existing ones',
    'tests set and remove single fixed aliases',
    [T], [('set_time_scale_alias / remove_time_scale_alias', T)],
    ['exported names, docstrings, TimeScale members, schedules'],
)
prop(
    'C26', 'State-based conditions reflect the state of the node at evaluation',
    'WhenFinished(node), and its any- and all-variants (over all nodes of the scheduler if none are given), are satisfied exactly when the finished status reported by the node(s) for the current execution context at that moment is (any / all) true. '
    'A threshold condition is satisfied exactly when the current value of the parameter (element selected by the given indices) compares with the threshold as specified, equality and inequality being within the absolute plus relative tolerance, also with custom getters. '
    'Unsupported nodes, missing parameters and unknown comparators are condition errors; a value of several items without indices is an error.',
    ['inputs', 'schedules', 'histories'],
    'all node states changing arbitrarily between evaluations and per context, all comparators, index paths, tolerances and values',
    'tests use a few fixed values',
    [C], [('WhenFinished, WhenFinishedAny, WhenFinishedAll', C), ('Threshold', C)],
    ['is_satisfied and yielded sets for instrumented nodes'],
)
prop(
    'C27', 'Unfinished and failing runs do not corrupt later runs',
    'A run left unfinished after any yielded set, closed, or ended by an error raised in a condition or termination condition, leaves history, counts and clock of that context consistent with the sets yielded, and leaves other contexts untouched. '
    'A later run in the same context starts with zero counts for the run, every node again eligible by its condition, and behaves as the graph, conditions, recorded history and clock prescribe; in a new context it behaves as on a new scheduler.',
    ['crash_points', 'fault_sequences', 'histories'],
    'all points (after every yield, in every condition evaluation) at which a run is abandoned or a condition raises, followed by further runs',
    'no test abandons a run or lets a condition fail within one',
    [S], [('Scheduler.run set-up and resets', S), ('_init_counts', S)],
    ['yielded sets, counts, history and clock after injected faults'],
)
prop(
    'C28', 'Inputs stay the caller\'s and observing a scheduler does not change it',
    'Constructing and running a scheduler changes none of the graphs, networkx graphs, condition dictionaries or sets, termination dictionaries or option dictionaries passed, and later changes of a passed graph do not affect the scheduler; schedulers built from the same graph object are independent. '
    'Reading graph, layers, clock, counts, conditions, absolute conditions, string forms, or evaluating conditions other than NWhen at any moment changes neither the following sets nor counts, history or time.',
    ['inputs', 'histories', 'schedules'],
    'all inputs and all interleavings of observations with sets of runs',
    'tests do not compare inputs before and after, nor runs with and without observation',
    [S, C, U], [('clone_graph in Scheduler.__init__', S), ('termination condition parsing', S), ('is_satisfied of all conditions', C)],
    ['deep comparison of inputs', 'paired runs with and without observation'],
)
prop(
    'C29', 'After any edits a scheduler behaves like a new one with the same content',
    'After any sequence of changes between runs (conditions added, replaced, removed or moved, graph edges and structure conditions added and removed, termination conditions or mode changed), a run in a new execution context yields exactly what a newly constructed scheduler with the resulting base graph, conditions in the same order, mode and termination conditions yields. '
    'The order and history of the edits has no other influence.',
    ['histories', 'configurations'],
    'all edit sequences, interleaved with complete and partial runs',
    'tests edit a scheduler once or twice before a single run',
    [S, C], [('Scheduler.add_condition / remove_condition', S), ('_validate_conditions', S), ('_handle_modified_structural_conditions', S)],
    ['yielded sets of edited and fresh schedulers'],
)
prop(
    'C30', 'Edge conditions and custom structure conditions change exactly the named edges',
    'AddEdgeTo and the add-edge method add exactly the edge from owner to node (sender to receiver), RemoveEdgeFrom and the remove-edge method remove exactly that edge if present and warn otherwise, and all other edges and nodes are unchanged. '
    'A custom structure condition replaces the graph by what its function returns for a copy of the current graph, with the condition as first argument if the function declares self. '
    'The layers of the scheduler are those of the resulting graph at once, and the conditions returned by the edge methods undo the change when removed.',
    ['inputs', 'histories'],
    'all graphs (also non-string nodes), pairs of nodes and sequences of edits',
    'tests check single edits of fixed graphs',
    [C, S], [('AddEdgeTo / RemoveEdgeFrom / CustomGraphStructureCondition', C), ('Scheduler.add_graph_edge / remove_graph_edge', S)],
    ['Scheduler.graph, consideration_queue, warnings'],
)
prop(
    'C31', 'Invalid requests are rejected where they are made and leave nothing behind',
    'Meaningless specifications raise the documented error when given, and valid ones next to them are accepted: time intervals without bounds or with a start after the end, unknown comparators and parameters of thresholds, structure conditions without node, with several where one is meant, unhashable nodes or operations for other nodes, custom ones that are no functions, undirected or missing graphs, termination conditions that are no map of time scales to basic conditions, unknown base contexts, times asked within absent or finer units. '
    'Conditions on time or calls that are evaluated without a scheduler are condition errors. '
    'A rejected request (also a structure condition naming its own owner, the removal of a condition without owner, an assignment of something that is no condition) leaves conditions, owners, graph, layers, termination conditions, counts, history and clock as before, also amid a run, which continues as prescribed.',
    ['inputs', 'configurations', 'histories'],
    'all specifications, valid or not, in all spellings, and all moments of a run at which an invalid request is made',
    'tests check a few single invalid arguments, and never what is left of a request or how a run goes on',
    [C, S, T], [('TimeInterval, Threshold, GraphStructureCondition constructors', C), ('termination condition parsing', S), ('TimeHistoryTree.get_total_times_relative', T)],
    ['errors raised', 'scheduler state before and after', 'yielded sets'],
)
prop(
    'C32', 'Schedulers of one process are independent of each other',
    'However the use of several schedulers in one process is interleaved (construction, single sets of runs, environment sequences, edits, failures and disposal, each in one or in several threads), in standard and in absolute time, each yields, records and counts exactly what it would alone. '
    'This holds whatever they share: graph objects, node objects, names of execution contexts, termination dictionaries and condition objects without state.',
    ['schedules', 'histories', 'configurations'],
    'all interleavings of operations on several schedulers and all ways of sharing inputs',
    'tests use one scheduler at a time',
    [S, C, T, U], [('Scheduler.__init__', S), ('Clock and time history', T), ('caches and module state', U)],
    ['yielded sets, history and clock of every scheduler'],
)
prop(
    'C33', 'Debug logging only adds messages',
    'Once debug logging is enabled, however often, every message logged under a name of the package appears exactly once (on standard error, or with the handlers a user has installed for the package instead), and after disabling it exactly those of at least the given level do; the level of the root logger is the one asked for and its handlers are left alone. '
    'Runs and structure conditions give the same sets, counts, history, times, graphs and errors while debug logging is enabled, disabled or switched between sets.',
    ['histories', 'inputs', 'configurations'],
    'all histories of enabling, disabling and logging, and all scenarios run under them',
    'tests enable and disable logging once and never run a scheduler under it',
    [U, C, S], [('enable_debug_logging, disable_debug_logging', U), ('messages in conditions', C)],
    ['captured messages', 'yielded sets and state of paired runs'],
)

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
