"""Writes /verif/properties.jsonl (kept as a script so that the long text
stays readable in review)."""
import json, pathlib

S = 'src/graph_scheduler/scheduler.py'
C = 'src/graph_scheduler/condition.py'
T = 'src/graph_scheduler/time.py'
U = 'src/graph_scheduler/utilities.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
        },
    }
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


prop('C01', 'Consideration queue is the longest-path layering of the graph',
     'For every directed acyclic graph given to a scheduler, as a dependency dictionary (values being any collection, and senders possibly absent as keys) or as a directed networkx graph, the consideration queue partitions exactly the nodes of the graph so that every node is in the layer whose position is the length of the longest path of senders leading to it, the reported position of each node is the position of its layer, both input formats give the same result, and the input is left unmodified. In exact-time mode the queue is one set holding all nodes while the reported positions stay those of the layering. A graph containing a cycle through two or more nodes is reported and a run over it is refused instead of silently executing nodes.',
     ['inputs'], 'all finite directed graphs with hashable nodes of any type, both input formats, both scheduling modes',
     'Tests assert the queue of a few hand-drawn graphs with string or letter-like nodes; the claim is over all graphs, node types and key/sender representations.',
     [S, U], [('_build_consideration_queue / _generate_consideration_queue_indices', S), ('Scheduler.__init__ graph parsing', S), ('Scheduler.consideration_queue', S), ('networkx_digraph_to_dependency_dict', U)],
     ['Scheduler.consideration_queue', 'Scheduler.consideration_queue_indices', 'Scheduler.run'])

prop('C02', 'A run yields exactly the sequence the documented algorithm prescribes',
     'For every graph, assignment of pre-specified conditions and sequence of runs, the sets yielded by running the scheduler are exactly those obtained from the documented algorithm: passes over the consideration sets, each node added at most once per consideration set as soon as its condition is satisfied given counts and time, re-checking the set until nothing more is added, an empty set only for a pass in which nothing ran. Counts, times and usable calls restart at the documented boundaries (a consideration set execution, a pass, an environment state update, an environment sequence) and at no others. The run ends exactly when a termination condition holds at the start of a pass or before a consideration set.',
     ['schedules', 'histories', 'inputs'], 'all DAGs, all assignments of basic and composite conditions to nodes, all sequences of runs and ended environment sequences, compared step by step with a reference interpreter that follows every allowed order within a consideration set',
     'Tests check the output of individually chosen examples with few nodes; interactions of conditions, layers, counts at several time scales and repeated runs are unbounded.',
     [S, C, T], [('Scheduler.run', S), ('Scheduler._reset_counts_total / _reset_counts_useable', S), ('Condition.is_satisfied', C), ('TimeHistoryTree.get_total_times_relative', T)],
     ['sets yielded by Scheduler.run', 'Scheduler.execution_list'])

prop('C03', 'Time-based conditions are satisfied exactly at their stated counts',
     'For every time-based condition over consideration set executions, passes, environment state updates or environment sequences, and every time scale it may be relative to, the condition is satisfied at a moment if and only if the number of those units that have completed within the current unit of the relative time scale stands in the stated relation to its number: fewer (before), equal (at), more (after), at least (after-n), or a multiple (every-n). Conditions for the start of an environment state update or sequence, or of the n-th one, are satisfied exactly in the corresponding first pass or first update. This holds at every moment of every history of runs and ended environment sequences.',
     ['histories', 'inputs', 'schedules'], 'all numbers n, all time-scale combinations, every moment of generated histories of runs and ended sequences',
     'Tests evaluate each class for one or two numbers and mostly the default time scale within one run.',
     [C, T, S], [('Before/At/After/AfterN/EveryN time conditions', C), ('Clock.get_total_times_relative', T)],
     ['Condition.is_satisfied', 'node executions'])

prop('C04', 'Node-based count conditions match the execution history',
     'For every node-based call-count condition (before, at, after, at-least n calls of a node; combined calls of several nodes; every n calls since the owner last ran; just ran; all have run), satisfaction at each moment is exactly that of the true number of executions of the named nodes within the current unit of the chosen time scale, or since the owner\'s own last execution within the run, or in the immediately preceding execution set, as derived from the yielded execution sets alone. Node identity is equality of nodes, whatever hashable type they have. An empty node list means all nodes.',
     ['histories', 'inputs', 'schedules'], 'all nodes, numbers, time scales, owners, histories of runs and ended environment sequences',
     'Tests cover each class on one small graph, mainly at the default time scale, in a single run.',
     [C, S], [('BeforeNCalls/AtNCalls/AfterCall/AfterNCalls/AfterNCallsCombined/EveryNCalls/JustRan/AllHaveRun', C), ('counts_total / counts_useable maintenance in Scheduler.run', S)],
     ['Condition.is_satisfied', 'sets yielded by Scheduler.run'])

prop('C05', 'Composite conditions obey boolean algebra and own their members',
     'For every expression built from all, any, not, first-n-times, while and while-not conditions over arbitrary parts, evaluating the expression gives the value of the corresponding boolean formula over its parts for the same arguments, with first-n-times satisfied for exactly the first n evaluations at which its part is satisfied, counted separately for each execution context. Convenience aliases for all and any are the same conditions. Assigning an owner to a composite makes that owner the owner of each unowned (or previously co-owned) part at any depth, and moving the composite moves them along, leaving members of all/any conditions with a different explicit owner untouched.',
     ['inputs', 'histories', 'programs'], 'all condition expression trees up to a generated depth, all truth assignments over time, all interleavings of execution contexts, all ownership histories',
     'Tests evaluate a few fixed two-level trees inside one scheduler run.',
     [C], [('CompositeCondition, All, Any, Not, NWhen, WhileNot', C), ('owner setters', C)],
     ['Condition.is_satisfied', 'ConditionBase.owner'])

prop('C06', 'Threshold and is-finished conditions reflect the live state of nodes',
     'At every evaluation a threshold condition compares the current value of the named parameter of the named node (through the given indices and custom getter, if any) with the threshold by the given comparator, using the documented absolute and relative tolerance for equality and inequality of value only, and a when-finished condition (one, any or all of the nodes; all scheduler nodes if none are named) reflects what the nodes report at that moment for the execution context being run. Unknown comparators, missing parameters and nodes that cannot report being finished are rejected with the package\'s condition error.',
     ['inputs', 'histories'], 'all comparators, numeric thresholds, tolerances, nested indices, parameter trajectories over time, subsets of nodes and execution contexts',
     'Tests fix one trajectory and a handful of comparator/tolerance combinations.',
     [C], [('Threshold', C), ('WhenFinished, WhenFinishedAny, WhenFinishedAll', C)],
     ['Condition.is_satisfied', 'node executions during Scheduler.run'])

prop('C07', 'Absolute-time intervals and terminations act at exactly the stated times',
     'In exact-time scheduling a node with a time-interval condition executes at exactly those times of the run that are a whole number of repeats after the start (or after zero) and lie within the start and end bounds, each bound included or excluded as specified, and no such time is skipped; a time termination ends the run at the first time at or after (or strictly after) its time. In standard scheduling the same holds relative to the offset of the node\'s consideration set within the pass. Composites of absolute and other conditions behave as the boolean combination at those times.',
     ['inputs', 'configurations', 'schedules'], 'all repeat/start/end/inclusiveness combinations in all supported time units, several nodes at once, both modes, all termination times',
     'Tests use a few round numbers in milliseconds; off-by-one steps, unit mixes and combinations of bounds are unbounded.',
     [C, S], [('TimeInterval, TimeTermination', C), ('Scheduler._get_absolute_consideration_set_execution_unit', S), ('absolute clock set-up in Scheduler.run', S)],
     ['sets yielded by Scheduler.run', 'Scheduler.execution_timestamps'])

prop('C08', 'The absolute timeline is uniform, complete and independent of units',
     'In every run with an absolute-time condition, each consideration set execution, including empty ones, has exactly one recorded timestamp, timestamps within a run increase by one constant positive step, never decrease across runs, and agree with the execution list in number and in their counts. The step makes every repeat a whole number of passes (or steps, in exact-time mode) and is the configured default when no condition determines one. Writing the same times in other units, as strings, quantities or numbers with a unit, or multiplying all times by a common factor, leaves the schedule unchanged and scales the timestamps accordingly.',
     ['inputs', 'configurations', 'schedules'], 'all sets of absolute conditions, units and notations, default units, modes, repeated runs',
     'Tests check single timelines in milliseconds.',
     [S, C, T], [('_parse_absolute_unit, _reduce_quantity_to_integer', C), ('Scheduler._get_absolute_consideration_set_execution_unit', S), ('Time._increment_by_time_scale', T), ('execution_timestamps', S)],
     ['Scheduler.execution_timestamps', 'Scheduler.get_clock'])

prop('C09', 'Runs end exactly when termination conditions hold',
     'A run ends exactly before the first consideration set (or pass) at which its environment-state-update or environment-sequence termination condition is satisfied, never earlier, never later, and yields nothing if one already holds. Conditions given to one run override the scheduler\'s own for the named time scales and only for that run; setting the scheduler\'s termination conditions updates only the named time scales and clearing them restores those given at construction, whose default is never / all nodes have run. Time scales may be named by members or by strings, and the caller\'s dictionaries are never changed.',
     ['inputs', 'histories', 'configurations'], 'all termination conditions at both time scales from constructor, setter and run arguments, in all orders of use',
     'Tests exercise each route once with one condition.',
     [S], [('Scheduler.run loop guards', S), ('Scheduler.termination_conds setter', S), ('_parse_termination_conditions / _combine_termination_conditions', S)],
     ['sets yielded by Scheduler.run', 'Scheduler.termination_conds'])

prop('C10', 'Execution contexts are isolated from one another',
     'Runs in different execution contexts, interleaved at any granularity, each yield exactly what they would yield alone: counts, usable calls, clocks, execution lists and timestamps are separate for each context. A run that names no context uses the scheduler\'s default context, and a context first used with a base context starts with a copy of that context\'s counts, execution list and timestamps (the clock is not part of this claim) which from then on evolves separately from the base.',
     ['schedules', 'histories'], 'all interleavings of steps of several runs in several contexts over generated graphs and conditions, with any hashable context identifiers, including None',
     'Tests interleave two contexts in one fixed way.',
     [S, C], [('per-execution-id dictionaries initialised in Scheduler._init_counts / _init_clock', S), ('NWhen satisfactions per execution_id', C)],
     ['sets yielded by Scheduler.run', 'Scheduler.execution_list', 'Scheduler.get_clock'])

prop('C11', 'A node without a condition runs when all its parents ran since it last did',
     'A node to which no basic condition was assigned executes, whenever it is considered, exactly if each of its direct senders in the current graph has executed since the node\'s own last execution in the run (so a node without senders always executes). This holds whatever conditions other nodes have, including structural conditions present before the first run, and assigning a condition later replaces the implicit one.',
     ['schedules', 'inputs', 'histories'], 'all DAGs, all subsets of nodes without conditions, all conditions on the others, repeated runs',
     'Tests check this on a few chains.',
     [S], [('Scheduler._validate_conditions', S), ('All(*[EveryNCalls(x, 1) ...]) default', S)],
     ['sets yielded by Scheduler.run'])

prop('C12', 'Ordering conditions enforce before, after and with',
     'Applying a before, after or with condition to an acyclic graph gives a graph over the same nodes, without modifying the input, in which the owner is a direct sender of each subject (before), each subject is a direct sender of the owner (after), or owner and subject have the same senders (with); no self edges appear, edges touching neither owner nor subjects are kept unless they close a cycle, senders of the owner remain connected to its former receivers outside the subjects when reconnection is on, and if the relation already holds for all subjects, the graph is returned unchanged; in a graph with cycles, too, the relation holds and no new self edges appear. With pruning on, the result of a before or after condition is acyclic, and so is that of a with condition unless the owner already was an indirect receiver of the subject; with a single subject and default options only edges adjacent to the owner are ever removed, and none if owner and subject were unrelated. Every consideration queue built from an acyclic result places the owner earlier than, later than, or together with the subjects.',
     ['inputs', 'configurations'], 'all DAGs and small graphs with cycles, owners, non-empty subject sets, option flags',
     'Tests assert results for a handful of graphs of fixed shape with string nodes.',
     [C], [('BeforeNodes, BeforeNode, AfterNodes, AfterNode, WithNode', C), ('_GSCReposition, _GSCWithOperations', C)],
     ['GraphStructureCondition.modify_graph', 'Scheduler.graph', 'Scheduler.consideration_queue'])

prop('C13', 'The scheduler graph is the fold of its current structural conditions',
     'After any sequence of adding and removing conditions and edges, successful or failing, and however often the graph is inspected in between, the scheduler\'s graph and consideration queue equal those obtained by applying the currently registered structural conditions, in their order of addition, to the original graph from scratch. Removing all of them restores the original graph exactly, and runs use the current graph. While a registered condition cannot be applied, asking for the graph raises the condition\'s error, and everything is consistent again once it is removed.',
     ['histories'], 'all sequences of structural additions, removals, edge additions and removals, item assignments and inspections',
     'Tests apply and remove at most a few conditions in fixed order.',
     [S, C], [('Scheduler._handle_modified_structural_conditions', S), ('ConditionSet.structural_condition_order', C)],
     ['Scheduler.graph', 'Scheduler.consideration_queue'])

prop('C14', 'Condition sets track exactly the conditions added and not removed',
     'After any sequence of additions, replacements, removals by owner or by condition, item assignments and bulk additions, a condition set reports for each owner exactly the last basic condition and the structural conditions in order of addition that were added and not removed, consistently through all its views (membership, iteration, indexing, the basic and structural mappings, the structural order). Item assignment replaces all structural conditions of the owner, and the basic one if the new condition is basic; each contained basic condition reports its owner, removal returns the removed condition or nothing, ambiguous removals raise the condition error and change nothing. Inputs given in bulk, as dictionaries, lists of conditions or other condition sets, give the same contents as adding one at a time in iteration order.',
     ['histories'], 'all operation sequences over several owners of any hashable type and all kinds of conditions',
     'Tests perform single operations from a fresh set.',
     [C], [('ConditionSet.add_condition, remove_condition, add_condition_set, __setitem__, conditions', C)],
     ['ConditionSet views'])

prop('C15', 'Graph operations and edge conditions compute exactly the stated edges',
     'Each graph operation returns exactly the stated set combination of its source and comparison sets without modifying them; adding or removing an edge changes exactly that edge, removing a missing edge changes nothing, and a custom graph condition\'s result is the user function\'s result on a copy of the graph. A condition with explicitly chosen operations gives the graph whose owner and subject neighbourhoods are those operations applied to the original neighbourhoods, independently of the order of nodes, or reports an operation conflict exactly when the two ends of an edge are given contradictory results and conflicts are not ignored (which end wins when they are ignored is unspecified).',
     ['inputs', 'configurations'], 'all DAGs, owners, subjects, choices of operations given as members, strings or per-subject dictionaries',
     'Tests cover a small fraction of the operation combinations, on fixed graphs.',
     [C], [('Operation', C), ('_GSCWithOperations._process', C), ('AddEdgeTo, RemoveEdgeFrom, CustomGraphStructureCondition', C)],
     ['GraphStructureCondition.modify_graph', 'Operation.__call__', 'Scheduler.graph'])

prop('C16', 'Graph helper functions are exact and never stale',
     'For every directed graph, the helper functions return exactly its ancestors, descendants (a node being neither of itself), receivers and simple cycles, copying a graph gives an equal graph sharing no mutable parts, and converting between dependency dictionary and networkx form and back is the identity on nodes and edges. Results are correct for the argument as it is at the time of each call, no matter how the argument or earlier results were modified between calls, and arguments are not modified.',
     ['inputs', 'histories'], 'all directed graphs (cyclic ones too, with self edges) and all interleavings of calls with modifications of arguments and results',
     'Tests call each helper on two or three graphs.',
     [U], [('get_ancestors, get_descendants, get_receivers, get_simple_cycles', U), ('cached_graph_function', U), ('clone_graph, dependency_dict_to_networkx_digraph, networkx_digraph_to_dependency_dict', U)],
     ['return values'])

prop('C17', 'Clock and time history count every event in its proper scope',
     'After any sequence of time increments, the clock\'s current time holds at each time scale the number of units completed since the enclosing unit began, and every query for the number of finer units within a coarser scope (the current one, or any past one given by index at the supported depth) returns exactly the number of such increments that happened during that scope. Incrementing a time scale resets all finer ones and only those, advances the absolute time by its interval if enabled for that time scale and never otherwise, and queries never change the clock, the time or their arguments. Requests for scopes that never existed or are not finer than the tree raise the time-scale error.',
     ['histories', 'inputs'], 'all increment sequences over all time scales, all query/base combinations, maximum depths down to passes',
     'Tests check a few fixed increment patterns.',
     [T], [('TimeHistoryTree.increment_time, get_total_times_relative', T), ('Time._increment_by_time_scale', T), ('Clock', T)],
     ['Clock.get_total_times_relative', 'Clock.time', 'TimeHistoryTree.total_times'])

prop('C18', 'Time scale aliases work everywhere and are fully removable',
     'After an alias for a time scale is set, its name can be used as a member of the time scale enumeration, as an attribute of times (of simple times for the scales these have), and inside condition class names, always meaning exactly the same thing as the original, so that schedules written with either are equal. Removing the alias restores the public names and documentation exactly as before for any order of settings and removals of several aliases, of one or of different time scales, and setting a name that is already in use, as an alias or otherwise, or an invalid target is rejected without effect.',
     ['histories', 'inputs'], 'all alias names (including ones overlapping existing class-name parts), all targets, all sequences of setting and removing them',
     'Tests use a fixed pair of aliases.',
     [T], [('set_time_scale_alias, remove_time_scale_alias', T)],
     ['module namespace', 'TimeScale', 'Time attributes'])

prop('C19', 'User functions receive exactly the arguments they declare',
     'A custom condition calls its function, whatever its signature, with the condition\'s own positional arguments first, then those given at evaluation, and with the keyword arguments it accepts, where those given at evaluation (including the scheduler and execution context, and extra keywords given to the run) override the condition\'s own; arguments the function cannot accept are dropped and no accepted argument is dropped (giving one parameter both by position and by keyword is outside this claim). The function\'s result alone decides satisfaction. The same holds for while-not conditions, with the result negated.',
     ['inputs', 'programs'], 'all function signatures (positional-only, positional, variadic, keyword-only, defaults) and argument combinations',
     'Tests use a few fixed lambdas.',
     [U, C], [('prune_unused_args, call_with_pruned_args', U), ('Condition.is_satisfied', C), ('WhileNot', C)],
     ['arguments recorded by user functions'])

prop('C20', 'The run protocol is respected for arbitrary black-box conditions',
     'Whatever the conditions answer, in each pass every consideration set is visited once in order, only nodes of that set are yielded together, every node of the set is evaluated at least once and is executed exactly if some evaluation in that visit succeeded, no node is evaluated again after having been added, and nodes are re-evaluated after another was added. The execution list is exactly the sequence of yielded sets, the final value of the run is that list, and the clock shown at each step and to each condition agrees with the yielded history, up to the point where a run is abandoned or a condition raises.',
     ['schedules', 'histories'], 'all answer sequences of black-box conditions (arbitrary functions of the evaluation number), graphs, numbers of passes and runs, early abandonment of a run included',
     'Tests use stateless conditions and look only at final execution lists.',
     [S], [('Scheduler.run inner loops', S), ('execution_list', S), ('clock increments', S)],
     ['calls received by conditions', 'sets yielded by Scheduler.run', 'Scheduler.get_clock'])

prop('C21', 'Schedules do not depend on names, hashes or insertion order',
     'Renaming the nodes of a scheduling problem by any bijection, to nodes of any hashable type, gives the correspondingly renamed schedule, and permuting the order in which graph entries, senders or condition entries are written down gives the same schedule, for all conditions whose satisfaction within a consideration set does not depend on the order of consideration. The same holds for graphs produced by structural conditions.',
     ['inputs', 'configurations'], 'all graphs, order-insensitive conditions, structural conditions, bijections (strings, large integers, tuples, user objects with arbitrary hashes) and permutations',
     'Tests use fixed node names, so that set iteration order and node identity are effectively constant.',
     [S, C], [('set-based consideration queue', S), ('equality-based node lookup', C), ('_GSCWithOperations', C)],
     ['sets yielded by Scheduler.run', 'Scheduler.graph'])

prop('C22', 'Observing a scheduler never changes what it does',
     'Reading any public view of a scheduler, its conditions, clocks or times (graph, queue, positions, representations, clock queries, contexts not yet run, condition evaluations of stateless conditions), at any moment, including between the steps of a run, and switching debug logging on or off, changes neither the following execution sets nor the recorded history. Modifying the objects originally passed in by the caller after construction does not change the schedule either.',
     ['histories', 'schedules'], 'all interleavings of read-only operations with steps of runs over generated problems',
     'Tests never compare an observed with an unobserved run.',
     [S, C, T, U], [('lazy graph handling', S), ('clock lookup', S), ('logging calls', U)],
     ['sets yielded by Scheduler.run', 'Scheduler.execution_list'])

prop('C23', 'Schedulers in one process are independent',
     'Constructing, modifying and running several schedulers, in any interleaving, gives for each the same results as when used alone, even if they were given the same graph object, termination-condition dictionary or equal nodes. In particular modifying one scheduler\'s graph, termination conditions or conditions never shows in another.',
     ['histories', 'schedules'], 'all interleavings of operations on several schedulers sharing inputs',
     'Tests build one scheduler at a time.',
     [S, C, U], [('default termination conditions copies', S), ('graph cloning', S), ('graph function caches', U)],
     ['sets yielded by Scheduler.run', 'Scheduler.graph', 'Scheduler.termination_conds'])

prop('C24', 'Invalid requests are rejected with a package error and change nothing',
     'Ill-formed specifications (structural conditions owned by or naming nodes outside the graph, a structural condition on itself or on no or unhashable nodes, missing or surplus per-subject operations, structural termination conditions, malformed termination dictionaries, undirected or missing graphs, empty or reversed time intervals, unknown comparators) are rejected with the documented error type. The rejection happens no later than the next use of the graph or the next run, and leaves the scheduler or condition set able to continue as if the request had not been made, once an offending registered condition is removed.',
     ['inputs', 'histories', 'fault_sequences'], 'all kinds of invalid requests inserted at any point of generated valid usage',
     'Tests check error types in isolation, never the state left behind.',
     [S, C], [('Scheduler._validate_conditions, _validate_run_state', S), ('_validate_nodes, _validate_owner, _validate_graph', C), ('_parse_termination_conditions', S)],
     ['exceptions raised', 'later behaviour of the scheduler'])

prop('C25', 'Probable mistakes are reported by one warning each, regular use by none',
     'A request that is accepted although it is probably mistaken gives exactly one user warning, no later than with the next use of the graph: giving an owner that has a basic condition another one, removing a condition or the condition of an owner where there is none, removing an edge that does not exist, a before, after or with condition some of whose subjects already are in that relation, a structural condition that makes the graph cyclic (the warning names it), a run in exact-time mode with structural conditions, and a tolerance given with an inequality comparator. Regular requests, looking at anything, and running give none, however often and in whatever order they are made. Replacing implicit conditions, and conditions applied again after an earlier one was removed, are outside this claim.',
     ['inputs', 'histories'], 'all histories of additions, replacements, removals, edges, looks and runs on one scheduler, and all ordering conditions on all DAGs',
     'Tests expect a warning in single chosen situations and never that none is given, nor how many.',
     [S, C], [('ConditionSet.add_condition / remove_condition', C), ('_GSCReposition._validate_graph', C), ('RemoveEdgeFrom', C), ('Threshold', C), ('Scheduler._push_graph, _validate_conditions', S)],
     ['warnings issued'])

prop('C26', 'Graph images and debug logs show exactly what is there',
     'For every graph, given as a dependency dictionary or a networkx graph (directed or not, with or without parallel edges), the image written contains exactly its nodes and edges, in one file of the given (or the documented default) name, and the graph is left unmodified. After any sequence of switching debug logging on and off, the root level is the one last asked for, and each record of the package of at least that level is shown exactly once, others not at all.',
     ['inputs', 'histories'], 'all finite graphs with plainly named nodes, all sequences of switching logging on and off',
     'Tests only check that images can be written, and the logging levels of one sequence of calls.',
     [U], [('output_graph_image', U), ('enable_debug_logging / disable_debug_logging', U)],
     ['files written', 'standard error'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, p['title']
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
print(len(P))
