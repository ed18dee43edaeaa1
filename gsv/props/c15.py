"""C15: graph operations and edge conditions compute the stated edges."""
import warnings

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import build, gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D, dep_dict, layers_of
from gsv.nodes import Nodes
from gsv.props import c12
from gsv.structural import edges_of


# ---------------------------------------------------------------------------
# single operations
# ---------------------------------------------------------------------------
@st.composite
def strategy_operation(draw):
    d = D(draw)
    n = d.int(1, 7)
    return {'n': n, 'kind': gen.node_kind(d), 'op': d.pick(structural.OPERATION_NAMES),
            'source': d.subset(range(n)), 'comparison': d.subset(range(n)), 'same': d.chance(1, 8)}


def run_operation(case):
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    source = {nodes.get(i) for i in case['source']}
    comparison = source if case['same'] else {nodes.get(i) for i in case['comparison']}
    s0, c0 = set(source), set(comparison)
    expected = structural.OPERATIONS[case['op']](s0, c0)
    for member in (getattr(gs.Operation, case['op']), gs.Operation[case['op']]):
        res = member(source, comparison)
        check(isinstance(res, set), 'not a set: {!r}', res)
        check_equal(res, expected, f'{case["op"]} of {s0} and {c0}')
        check_equal(source, s0, 'source afterwards')
        check_equal(comparison, c0, 'comparison afterwards')
    return Result(bool(s0) and bool(c0) and s0 != c0, [case['op']])


# ---------------------------------------------------------------------------
# conditions with explicit operations
# ---------------------------------------------------------------------------
def strategy_explicit(max_n):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n) if not d.chance(1, 12) else d.int(7, 9)
        edges = gen.dag_edges(d, n) if n < 7 else gen.sparse_edges(d, n)
        owner = d.int(0, n - 1)
        spec = structural.ordering(d, n, owner, flags=True, ops=True)
        style = d.int(0, 3)
        if style == 0:
            # nothing but the operations
            spec[2].update(prune_cycles=False, reconnect_non_subject_receivers=False)
        elif style == 1:
            spec[2].update(ignore_conflicts=True, prune_cycles=False,
                           reconnect_non_subject_receivers=False)
        if style <= 1 and d.chance(1, 4):
            # existing edges of nodes to themselves are edges like others
            edges = edges + [[i, i] for i in d.subset(range(n), 1)]
        return {'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'owner': owner,
                'spec': spec, 'style': d.int(0, 3),
                'key_order': d.perm(n) if d.bool() else list(range(n))}
    return s()


def run_loops(case):
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    owner, spec = case['owner'], case['spec']
    base = dep_dict(case['n'], case['edges'])
    cond = structural.build(spec, nodes, case['style'])
    cond.owner = nodes.get(owner)
    graph = build.graph_dict(case['n'], case['edges'], nodes, case['key_order'])
    kept = {k: set(v) for k, v in graph.items()}
    ignore = spec[2].get('ignore_conflicts', False)
    valid = structural.already_valid(base, spec, owner)
    direct, conflicts = structural.direct_result(base, spec, owner)
    try:
        result = build.index_graph(cond.modify_graph(graph), nodes)
    except gs.ConditionError:
        check(conflicts and not ignore and not valid, 'conflict reported, but there is none')
        return Result(True, ['conflict', 'self edges'])
    check_equal(graph, kept, 'input afterwards')
    if valid:
        check_equal(result, base, 'graph in which the relation already held')
        return Result(False, ['already valid', 'self edges'])
    check(not conflicts or ignore, 'conflict for {} not reported', sorted(conflicts))
    if not conflicts:
        model = structural.finish(
            direct, spec, owner, base if spec[2].get('remove_new_self_referential_edges', True) else None
        )
        check_equal(result, model, 'result of the operations')
    return Result(True, ['self edges'])


def run_explicit(case):
    if any(s == r for s, r in case['edges']):
        return run_loops(case)
    res = c12.run(case)
    owner, spec = case['owner'], case['spec']
    name, subjects, opts = spec
    base = dep_dict(case['n'], case['edges'])
    res.labels.append(f'{sum(1 for k in opts if k not in structural.FLAGS)} operations')
    if structural.already_valid(base, spec, owner):
        return res
    direct, conflicts = structural.direct_result(base, spec, owner)
    _, _, result = c12.apply(case)
    if result is None or opts.get('prune_cycles', True) or opts.get('reconnect_non_subject_receivers', True):
        return res
    model = structural.finish(direct, spec, owner)
    if not conflicts:
        check_equal(result, model, 'result of the operations')
        res.labels.append('exact')
        return res
    # conflicts ignored: any other edge is exact
    res.labels.append('conflicts ignored')
    free = set(conflicts)
    if structural.kind_of(name) == 'With':
        # a sender of one becomes a sender of the other
        (sub,) = subjects
        for s, r in conflicts:
            if r in (owner, sub):
                free |= {(s, owner), (s, sub)}
    diff = (edges_of(result) ^ edges_of(model)) - free
    check(not diff, 'edges {} differ from {}, conflicts only for {}', sorted(diff), model, sorted(conflicts))
    return res


# ---------------------------------------------------------------------------
# single edges and custom functions
# ---------------------------------------------------------------------------
def strategy_edges(max_n):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n)
        edges = gen.dag_edges(d, n) if d.chance(3, 4) else gen.digraph_edges(d, n, self_loops=False)
        owner = d.int(0, n - 1)
        others = [i for i in range(n) if i != owner]
        what = d.int(0, 3)
        if what == 0:
            spec = ['AddEdgeTo', [d.pick(others)], {}]
        elif what == 1:
            senders = [s for s, r in edges if r == owner]
            spec = ['RemoveEdgeFrom', [d.pick(senders if senders and d.chance(2, 3) else others)], {}]
        elif what == 2:
            spec = ['Custom', d.int(0, structural.N_CUSTOM - 1), {}]
        else:
            spec = ['function', [[d.int(0, n - 1), d.int(0, n - 1)] for _ in range(d.int(0, 4))],
                    {'self': d.bool(), 'in_place': d.bool(), 'kwargs': d.bool()}]
        return {'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'owner': owner, 'spec': spec}
    return s()


def run_edges(case):
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    base = dep_dict(case['n'], case['edges'])
    owner, spec = case['owner'], case['spec']
    name, arg, opts = spec
    expected = structural.copy_graph(base)
    calls = []

    def make():
        if name != 'function':
            return structural.build(spec, nodes)

        def change(graph):
            res = graph if opts['in_place'] else {k: set(v) for k, v in graph.items()}
            for s, r in arg:
                res[nodes.get(r)] ^= {nodes.get(s)}
            return res

        def with_self(self, graph):
            calls.append(self)
            check(self.owner == nodes.get(owner), 'wrong owner {}', self.owner)
            if opts['kwargs']:
                check_equal(self.extra, 5, 'argument stored with the condition')
            return change(graph)

        def without_self(graph):
            calls.append(None)
            return change(graph)
        kwargs = {'extra': 5} if opts['kwargs'] else {}
        return gs.CustomGraphStructureCondition(with_self if opts['self'] else without_self, **kwargs)

    if name == 'AddEdgeTo':
        expected[arg[0]].add(owner)
    elif name == 'RemoveEdgeFrom':
        expected[owner].discard(arg[0])
    elif name == 'Custom':
        a, b = 0, 1 % case['n']
        if arg == 0:
            expected = {k: set() for k in base}
        elif arg == 1:
            expected = {k: v - {owner} if k != owner else set() for k, v in base.items()}
        elif arg == 3:
            expected = {k: {a} if k == b else set() for k in base}
    else:
        for s, r in arg:
            expected[r] ^= {s}

    graph = build.graph_dict(case['n'], case['edges'], nodes)
    kept = {k: set(v) for k, v in graph.items()}
    cond = make()
    cond.owner = nodes.get(owner)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        result = cond.modify_graph(graph)
    check_equal(graph, kept, 'input afterwards')
    check_equal(build.index_graph(result, nodes), expected, 'result')
    missing = name == 'RemoveEdgeFrom' and arg[0] not in base[owner]
    check((len(w) > 0) == missing, 'warnings {}', [str(x.message) for x in w])
    for k, v in result.items():
        check(all(v is not x for x in graph.values()), 'sender set of {} shared with the input', k)
    if name == 'function':
        check_equal(calls, [cond if opts['self'] else None], 'calls of the function')

    # a second application gives the same
    check_equal(build.index_graph(cond.modify_graph(graph), nodes), expected, 'second application')

    # through a scheduler, with the shortcuts
    s = gs.Scheduler(graph=build.graph_dict(case['n'], case['edges'], nodes))
    if name == 'AddEdgeTo':
        c = s.add_graph_edge(nodes.get(owner), nodes.get(arg[0]))
        check(isinstance(c, gs.AddEdgeTo), 'add_graph_edge returned {}', c)
    elif name == 'RemoveEdgeFrom':
        c = s.remove_graph_edge(nodes.get(arg[0]), nodes.get(owner))
        check(isinstance(c, gs.RemoveEdgeFrom), 'remove_graph_edge returned {}', c)
    else:
        c = make()
        s.add_condition(nodes.get(owner), c)
    check_equal(build.index_graph(s.graph, nodes), expected, 'graph of the scheduler')
    layers = layers_of({k: v - {k} for k, v in expected.items()})
    if layers is not None:
        check_equal([nodes.indices(cs) for cs in s.consideration_queue], layers, 'consideration queue')
    s.remove_condition(c)
    check_equal(build.index_graph(s.graph, nodes), base, 'graph after removal')
    return Result(expected != base or missing, [name])


CHECK = Check(
    'C15',
    'A case is a pair of sets with an operation, or a DAG with an owner and an '
    'ordering condition with explicit operations, or a graph with an edge or custom '
    'condition; non-trivial: sets differ and are non-empty, the condition changes the '
    'graph or conflicts.',
    [
        Sub('operation', lambda t: strategy_operation(), run_operation, 15000),
        Sub('explicit', lambda t: strategy_explicit(5 if t == 'quick' else 8), run_explicit, 36000),
        Sub('edges', lambda t: strategy_edges(5 if t == 'quick' else 8), run_edges, 18000),
    ],
    assumptions=['which of two contradictory operations wins when conflicts are ignored is not specified'],
)
