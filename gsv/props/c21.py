"""C21: schedules do not depend on names, hashes or insertion order."""
from hypothesis import strategies as st

import graph_scheduler as gs
import networkx as nx

from gsv import build, gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.drive import term_objects
from gsv.gen import ESU, LIFE, SEQ, D, dep_dict, layers_of
from gsv.nodes import Nodes
from gsv.structural import Ambiguous, Fails

CONTAINERS = {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset}


class Renamed:
    """Nodes, with index i standing for the node of index perm[i]"""

    def __init__(self, kind, perm):
        self.nodes = Nodes(kind[0], len(perm), kind[1])
        self.n = len(perm)
        self.perm = perm
        self.inverse = {p: i for i, p in enumerate(perm)}

    def get(self, i):
        return self.nodes.get(self.perm[i])

    def index(self, obj):
        return self.inverse[self.nodes.index(obj)]

    def indices(self, objs):
        return frozenset(self.index(o) for o in objs)


def variant(d, n, edges):
    return {
        'kind': gen.node_kind(d), 'perm': d.perm(n), 'keys': d.perm(n),
        'edges': d.perm(len(edges)), 'container': d.pick(list(CONTAINERS)),
        'nx': d.chance(1, 4), 'conds': d.perm(n), 'ts_str': d.bool(),
        'how': d.int(0, 2), 'style': d.int(0, 3),
    }


PLAIN = {'kind': ['str', 0], 'container': 'set', 'nx': False, 'ts_str': False, 'how': 0, 'style': 0}


def plain(n, edges):
    return {**PLAIN, 'perm': list(range(n)), 'keys': list(range(n)),
            'edges': list(range(len(edges))), 'conds': list(range(n))}


def real_graph(case, v, nodes):
    n = case['n']
    senders = {i: [] for i in range(n)}
    for k in v['edges']:
        s, r = case['edges'][k]
        senders[r].append(s)
    if v['nx']:
        g = nx.DiGraph()
        g.add_nodes_from(nodes.get(i) for i in v['keys'])
        g.add_edges_from((nodes.get(case['edges'][k][0]), nodes.get(case['edges'][k][1])) for k in v['edges'])
        return g
    return {nodes.get(i): CONTAINERS[v['container']](nodes.get(s) for s in senders[i]) for i in v['keys']}


# --- schedules -------------------------------------------------------------------
def rename_graph_of(g, nodes):
    return build.index_graph(g, nodes)


def outcome(case, v):
    """what a user sees of the problem, by index"""
    n = case['n']
    nodes = Renamed(v['kind'], v['perm'])
    res = []
    basic = {nodes.get(i): build.condition(case['conds'][i], nodes)
             for i in v['conds'] if case['conds'][i] is not None}
    term = term_objects(case['term'], nodes, v['ts_str'])
    if v['keys'][:1] and v['keys'][0] % 2:
        term = dict(reversed(list(term.items())))
    kw = {'termination_conds': term}
    graph = real_graph(case, v, nodes)
    if v['how'] == 0:
        s = gs.Scheduler(graph, conditions=gs.ConditionSet(basic), **kw)
    elif v['how'] == 1:
        s = gs.Scheduler(graph, conditions=basic, **kw)
    else:
        s = gs.Scheduler(graph, **kw)
        for k, c in basic.items():
            s.add_condition(k, c)
    for owner, spec in case['structural']:
        s.add_condition(nodes.get(owner), structural.build(spec, nodes, v['style']))
    res.append(('graph', sorted((k, sorted(x)) for k, x in build.index_graph(s.graph, nodes).items())))
    res.append(('queue', [sorted(nodes.indices(x)) for x in s.consideration_queue]))
    res.append(('positions', sorted((nodes.index(k), p) for k, p in s.consideration_queue_indices.items())))
    for op in case['ops']:
        if op[0] == 'endseq':
            s.end_environment_sequence()
            continue
        sets = []
        g = s.run(termination_conds=term_objects(op[1], nodes, v['ts_str']))
        for k, x in enumerate(g):
            sets.append(sorted(nodes.indices(x)))
            if k > 60:
                break
        res.append(('run', sets))
        if k_exceeded(sets):
            break
    res.append(('list', [sorted(nodes.indices(x)) for x in s.execution_list.get(s.default_execution_id, [])]))
    counts = s.counts_total.get(s.default_execution_id)
    if counts is not None:
        res.append(('counts', sorted((nodes.index(k), c) for k, c in counts[gs.TimeScale.LIFE].items())))
    return res


def k_exceeded(sets):
    return len(sets) > 61


def run_schedule(case):
    want = outcome(case, plain(case['n'], case['edges']))
    for v in case['variants']:
        got = outcome(case, v)
        for a, b in zip(got, want):
            check_equal(a, b, f'{b[0]} of a renamed, reordered problem {v}')
        check_equal(len(got), len(want), 'length of the history')
    sets = [x for kind, s in want if kind == 'run' for x in s]
    labels = set()
    if case['structural']:
        labels.add('structural conditions')
    if max(map(len, sets), default=0) > 1:
        labels.add('nodes together')
    if any(v['nx'] for v in case['variants']):
        labels.add('networkx')
    return Result(len(sets) > 2 and case['n'] > 1, labels)


def simple_structural(d, n, owner):
    others = [i for i in range(n) if i != owner]
    k = d.int(0, 5)
    if k == 0:
        return ['AddEdgeTo', [d.pick(others)], {}]
    if k == 1:
        return ['RemoveEdgeFrom', [d.pick(others)], {}]
    return [d.pick(structural.ORDERING), [d.pick(others)], {}]


@st.composite
def schedule_strategy(draw, tier):
    d = D(draw)
    n = d.int(1, 5 if tier == 'quick' else 8)
    edges = gen.dag_edges(d, n)
    case = {'n': n, 'edges': edges}
    final = dep_dict(n, edges)
    added = []
    if n > 1 and d.bool():
        for _ in range(d.int(1, 3)):
            owner = d.int(0, n - 1)
            spec = simple_structural(d, n, owner)
            try:
                g = structural.apply_reference(final, spec, owner)
            except (Ambiguous, Fails):
                continue
            if layers_of(g) is not None:
                final = g
                added.append([owner, spec])
    case['structural'] = added
    conds = [gen.condition(d, n, i) if d.chance(3, 4) else None for i in range(n)]
    case['conds'] = gen.insensitive_conditions(
        conds, n, [[s, r] for r in final for s in sorted(final[r])])
    case['term'] = [[ESU, ['AfterNPasses', d.int(1, 6), None]]]
    ops = []
    for _ in range(d.int(1, 4)):
        if d.chance(1, 5):
            ops.append(['endseq'])
        else:
            ops.append(['run', d.pick([
                None, [[ESU, ['AfterNCalls', d.int(0, n - 1), d.int(1, 4), d.pick([None, SEQ, LIFE])]],
                       [SEQ, ['AfterNPasses', 8, ESU]]],
                [[SEQ, ['AfterNConsiderationSetExecutions', d.int(1, 12), LIFE]]],
            ])])
    case['ops'] = ops
    case['variants'] = [variant(d, n, edges) for _ in range(2)]
    return case


# --- structural conditions ---------------------------------------------------------
def graphs(case, v):
    nodes = Renamed(v['kind'], v['perm'])
    s = gs.Scheduler(real_graph(case, v, nodes))
    res = []
    for owner, spec in case['structural']:
        try:
            s.add_condition(nodes.get(owner), structural.build(spec, nodes, v['style']))
        except gs.ConditionError:
            res.append('error')
            break
        g = build.index_graph(s.graph, nodes)
        res.append(sorted((k, sorted(x)) for k, x in g.items()))
        if layers_of(g) is None:
            # how a cycle is resolved afterwards is not specified
            break
    return res


def run_structural(case):
    want = graphs(case, plain(case['n'], case['edges']))
    for v in case['variants']:
        check_equal(graphs(case, v), want, f'graphs of the renamed, reordered problem {v}')
    labels = {spec[0] for _, spec in case['structural']}
    if want and want[-1] == 'error':
        labels.add('refused')
    base = sorted((k, sorted(x)) for k, x in dep_dict(case['n'], case['edges']).items())
    return Result(bool(want) and want != ['error'] and want[-1] != base, labels)


@st.composite
def structural_strategy(draw, tier):
    d = D(draw)
    n = d.int(2, 6 if tier == 'quick' else 9)
    edges = gen.dag_edges(d, n)
    added = []
    for _ in range(d.int(1, 3)):
        owner = d.int(0, n - 1)
        k = d.int(0, 3)
        if k == 0:
            spec = simple_structural(d, n, owner)
        elif k == 1:
            spec = ['Custom', d.int(0, 2), {}]
        else:
            spec = structural.ordering(d, n, owner, flags=False, ops=d.bool())
            if len(spec[1]) > 1 or spec[2]:
                # resolving cycles for several subjects is not specified
                spec[2]['prune_cycles'] = False
                if d.bool():
                    spec[2]['reconnect_non_subject_receivers'] = False
        added.append([owner, spec])
    return {'n': n, 'edges': edges, 'structural': added,
            'variants': [variant(d, n, edges) for _ in range(2)]}


CHECK = Check(
    'C21',
    'A case is a scheduling problem or a graph with structural conditions, and two variants of it with other node '
    'objects (a bijection to nodes of another type with other hashes) and other orders of graph entries, senders and '
    'condition entries; non-trivial: more than one node and more than two sets yielded, or a graph changed by the '
    'conditions.',
    [
        Sub('schedule', lambda t: schedule_strategy(t), run_schedule, 9000),
        Sub('structural', lambda t: structural_strategy(t), run_structural, 12000),
    ],
    assumptions=[
        'conditions of a node do not depend on the executions of other nodes in the same consideration set',
        'which edges are removed when one structural condition with several subjects closes cycles is unspecified',
    ],
)
