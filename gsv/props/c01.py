"""C01: consideration queue is the longest-path layering of the graph."""
import collections
import warnings

import networkx as nx
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D, dep_dict, layers_of
from gsv.nodes import Nodes

CONTAINERS = {
    'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset,
    # with repeated entries
    'twice': lambda x: [y for y in x for _ in range(2)],
    'deque': collections.deque,
    'keys': lambda x: dict.fromkeys(x).keys(),
    'dict': dict.fromkeys,
}
MAPPINGS = {
    'dict': dict, 'ordered': collections.OrderedDict,
    'default': lambda x: collections.defaultdict(set, x),
}


class SubDiGraph(nx.DiGraph):
    pass


def nx_graph(form, names, edges):
    """networkx graphs that are directed graphs of the same nodes and edges"""
    if form == 'multi':
        g = nx.MultiDiGraph()
        g.add_nodes_from(names)
        g.add_edges_from(edges)
        g.add_edges_from(edges[::2])
    elif form == 'attributes':
        g = SubDiGraph(name='x')
        g.add_nodes_from(names, weight=0)
        g.add_edges_from(edges, weight=0)
    elif form == 'reversed':
        g = nx.DiGraph()
        g.add_nodes_from(names)
        g.add_edges_from((r, s) for s, r in edges)
        return g.reverse(copy=False)
    elif form == 'view':
        g = nx.DiGraph()
        g.add_nodes_from(names)
        g.add_edges_from(edges)
        hidden = ('hidden', 'node')
        g.add_edges_from((hidden, x) for x in names)
        return nx.subgraph_view(g, filter_node=lambda x: x is not hidden)
    else:
        g = nx.DiGraph()
        g.add_nodes_from(names)
        g.add_edges_from(edges)
        if form == 'frozen':
            nx.freeze(g)
    return g


def strategy(max_n):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(9, 24) if d.chance(1, 30) else d.int(2, max_n) if d.chance(2, 3) else d.int(0, 5)
        edges = gen.dag_edges(d, n)
        order = d.perm(n) if d.bool() else list(range(n))
        if edges and d.bool():
            rot = d.int(0, len(edges) - 1)
            edges = edges[rot:] + edges[:rot]
        return {
            'n': n, 'kind': gen.node_kind(d), 'edges': edges,
            'key_order': order,
            'container': d.pick(['set', 'set', *CONTAINERS]),
            'mapping': d.pick(['dict', 'dict', *MAPPINGS]),
            'nx': d.pick(['plain', 'plain', 'multi', 'attributes', 'frozen', 'reversed', 'view']),
            'toggle': d.bool(),
            # keys left out where a node has receivers but no senders
            'omit': d.subset(range(n)) if d.chance(1, 3) else [],
            'passes': d.int(1, 2),
        }
    return s()


def parts(case):
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    model = dep_dict(case['n'], case['edges'])
    cont = CONTAINERS[case['container']]
    is_sender = {s for s, r in case['edges']}
    omit = {i for i in case['omit'] if i in is_sender and not model[i]}
    senders = {i: [] for i in range(case['n'])}
    for s, r in case['edges']:
        senders[r].append(s)

    def real():
        return MAPPINGS[case['mapping']]({
            nodes.get(i): cont(nodes.get(s) for s in senders[i])
            for i in case['key_order'] if i not in omit
        })

    def real_nx():
        return nx_graph(case['nx'], [nodes.get(i) for i in case['key_order']],
                        [(nodes.get(s), nodes.get(r)) for s, r in case['edges']])
    return nodes, model, real, real_nx


def queue_of(s, nodes):
    q = s.consideration_queue
    check(all(isinstance(cs, (set, frozenset)) for cs in q), 'queue of non-sets: {}', q)
    flat = [x for cs in q for x in cs]
    check(len(flat) == len({nodes.index(x) for x in flat}), 'node repeated in queue {}', q)
    return [nodes.indices(cs) for cs in q]


def run_dag(case):
    nodes, model, real, real_nx = parts(case)
    layers = layers_of(model)
    position = {i: k for k, layer in enumerate(layers) for i in layer}
    for form in ('dict', 'networkx'):
        graph = real() if form == 'dict' else real_nx()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            s = gs.Scheduler(graph=graph)
        check(not w, '{} graph: unexpected warning {}', form, [str(x.message) for x in w])
        check_equal(queue_of(s, nodes), layers, f'consideration queue ({form})')
        check_equal(
            {nodes.index(k): v for k, v in s.consideration_queue_indices.items()},
            position, f'positions ({form})'
        )
        check_equal(
            {nodes.index(k): set(nodes.index(x) for x in v) for k, v in s.graph.items()},
            model, f'graph ({form})'
        )
        check_equal(sorted(nodes.index(x) for x in s.nodes), list(range(case['n'])), 'nodes')

        # the queue drives execution
        for i in range(case['n']):
            s.add_condition(nodes.get(i), gs.Always())
        ran = [
            nodes.indices(x) for x in s.run(termination_conds={
                gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(case['passes'])
            })
        ]
        check_equal(ran, (layers or [frozenset()]) * case['passes'], f'unconditional run ({form})')

        exact = gs.Scheduler(graph=graph, mode=gs.SchedulingMode.EXACT_TIME)
        check_equal(queue_of(exact, nodes), [frozenset(range(case['n']))], f'exact-time queue ({form})')
        check_equal(
            {nodes.index(k): v for k, v in exact.consideration_queue_indices.items()},
            position, f'exact-time positions ({form})'
        )
        if case['toggle']:
            exact.mode = gs.SchedulingMode.STANDARD
            check_equal(queue_of(exact, nodes), layers, f'queue after leaving exact time ({form})')
            s.mode = gs.SchedulingMode.EXACT_TIME
            check_equal(queue_of(s, nodes), [frozenset(range(case['n']))], f'queue after entering exact time ({form})')
        # input unchanged
        if form == 'dict':
            ref = real()
            check_equal(list(graph), list(ref), 'keys of the input after use')
            for k in ref:
                check(type(graph[k]) is type(ref[k]), 'type of input entry changed: {!r}', graph[k])
                check(graph[k] == ref[k] or list(graph[k]) == list(ref[k]), 'entry of the input after use: {!r}', graph[k])
        else:
            ref = real_nx()
            check_equal(list(graph.nodes), list(ref.nodes), 'nodes of the input after use')
            check_equal(set(graph.edges), set(ref.edges), 'edges of the input after use')
            check_equal(graph.number_of_edges(), ref.number_of_edges(), 'edges of the input after use')
    labels = [case['mapping'], case['container'], 'networkx ' + case['nx'], f'{len(layers)} layers' if len(layers) < 4 else '4+ layers', case['kind'][0]]
    if any(i in case['omit'] for i in range(case['n'])):
        labels.append('keys omitted')
    skip_edge = any(position[r] - position[s] > 1 for s, r in case['edges'])
    if skip_edge:
        labels.append('layer-skipping edge')
    return Result(len(layers) >= 2, labels)


def strategy_cyclic(max_n):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n)
        edges = gen.dag_edges(d, n)
        k = d.int(2, n)
        ring = d.perm(n)[:k]
        for a, b in zip(ring, ring[1:] + ring[:1]):
            if [a, b] not in edges:
                edges.append([a, b])
        return {
            'n': n, 'kind': gen.node_kind(d), 'edges': edges,
            'key_order': d.perm(n) if d.bool() else list(range(n)),
            'container': 'set', 'omit': [], 'mapping': 'dict', 'nx': 'plain',
            'mode': d.pick(['STANDARD', 'EXACT_TIME']),
        }
    return s()


def run_cyclic(case):
    nodes, model, real, real_nx = parts(case)
    check(layers_of(model) is None, 'generator: not cyclic')
    for form in (real, real_nx):
        reported = False
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                s = gs.Scheduler(graph=form(), mode=getattr(gs.SchedulingMode, case['mode']))
            except Exception as e:
                # refusing to construct would be fine as well
                if not isinstance(e, (gs.SchedulerError, ValueError)):
                    raise
                continue
            reported = len(w) > 0
        check(reported, 'cycle in {} not reported', model)
        for i in range(case['n']):
            s.add_condition(nodes.get(i), gs.Always())
        yielded = []
        try:
            for x in s.run(termination_conds={
                gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)
            }):
                yielded.append(x)
                if len(yielded) > 5:
                    break
        except gs.SchedulerError:
            pass
        else:
            raise Violation(f'run over a cyclic graph was not refused, yielded {yielded}')
        check(not yielded, 'run over a cyclic graph yielded {} before being refused', yielded)
    return Result(True, [f'{len(case["edges"])} edges' if len(case['edges']) < 6 else '6+ edges'])


CHECK = Check(
    'C01',
    'A case is a directed graph with its spelling (node kind, key order, sender '
    'collection type, omitted keys); non-trivial: at least two layers, or a cycle.',
    [
        Sub('dag', lambda t: strategy(8 if t == 'quick' else 14), run_dag, 15000),
        Sub('cyclic', lambda t: strategy_cyclic(5 if t == 'quick' else 8), run_cyclic, 4500),
    ],
    assumptions=['a self edge alone is not counted as a cycle (the topological sort ignores it)'],
)
