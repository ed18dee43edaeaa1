"""C16: graph helper functions are exact, and never stale."""
import itertools

import networkx as nx
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

HELPERS = ['get_ancestors', 'get_descendants', 'get_receivers', 'get_simple_cycles',
           'clone_graph', 'to_networkx', 'round_trip', 'scheduler']
N_GRAPHS = 3


def strategy(max_n, max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(1, max_n)
        graphs = []
        for _ in range(N_GRAPHS):
            style = d.int(0, 3)
            if style == 0:
                edges = gen.digraph_edges(d, n)
            elif style == 1:
                edges = gen.digraph_edges(d, n, self_loops=False)
            elif style == 2:
                edges = gen.dag_edges(d, n)
            else:
                edges = graphs[-1] if graphs else []
            graphs.append(edges)
        ops = []
        for _ in range(d.int(1, max_ops)):
            k = d.int(0, 7)
            g = d.int(0, N_GRAPHS - 1)
            if k <= 3:
                ops.append(['call', d.pick(HELPERS[:4]) if d.chance(4, 5) else d.pick(HELPERS), g])
            elif k <= 5:
                ops.append(['toggle', g, d.int(0, n - 1), d.int(0, n - 1)])
            elif k == 6:
                ops.append(['spoil', d.int(0, 3)])
            else:
                ops.append(d.pick([['clear', g], ['drop_keys', g], ['reinsert', g], ['other', g, d.int(0, N_GRAPHS - 1)]]))
        return {'n': n, 'kind': gen.node_kind(d), 'graphs': graphs, 'ops': ops}
    return s()


def canonical_cycles(cycles):
    res = []
    for c in cycles:
        check(isinstance(c, list), 'a cycle is not a list: {!r}', c)
        k = c.index(min(c))
        res.append(tuple(c[k:] + c[:k]))
    return sorted(res)


def simple_cycles(g, n):
    """all simple cycles, each starting at its smallest node"""
    rec = {i: {r for r in g if i in g[r]} for i in range(n)}
    res = []

    def extend(path):
        for x in rec[path[-1]]:
            if x == path[0]:
                res.append(tuple(path))
            elif x > path[0] and x not in path:
                extend(path + [x])
    for i in range(n):
        extend([i])
    return sorted(res)


class World:
    def __init__(self, case):
        self.n = case['n']
        self.nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
        self.model = []
        self.real = []
        for edges in case['graphs']:
            self.model.append({i: {s for s, r in edges if r == i} for i in range(self.n)})
            self.real.append({
                self.nodes.get(i): {self.nodes.get(s) for s, r in edges if r == i}
                for i in range(self.n)
            })
        self.results = []       # (helper, result): free to be spoiled by the caller

    def idx(self, g):
        return {self.nodes.index(k): {self.nodes.index(x) for x in v} for k, v in g.items()}

    def full(self, m):
        """model with entries for nodes listed as senders only"""
        res = {k: set(v) for k, v in m.items()}
        for v in m.values():
            for x in v:
                res.setdefault(x, set())
        return res

    def call(self, helper, k):
        real, m = self.real[k], self.model[k]
        full = self.full(m)
        if helper in ('get_ancestors', 'get_descendants', 'get_receivers'):
            res = getattr(gs, helper)(real)
            got = self.idx(res)
            check(all(isinstance(v, set) for v in res.values()), '{}: values are not sets: {}', helper, res)
            if helper == 'get_receivers':
                want = {i: {r for r in m if i in m[r]} for i in full}
            else:
                reach = structural.reachable(full)
                if helper == 'get_descendants':
                    want = {i: reach[i] - {i} for i in m}
                else:
                    want = {i: {x for x in full if i in reach[x]} - {i} for i in m}
        elif helper == 'get_simple_cycles':
            res = gs.get_simple_cycles(real)
            got = canonical_cycles([[self.nodes.index(x) for x in c] for c in res])
            want = simple_cycles(full, self.n)
        elif helper == 'clone_graph':
            res = gs.clone_graph(real)
            check_equal(list(res), list(real), 'keys of the clone')
            check_equal(res, real, 'clone')
            check(res is not real, 'the clone is the graph itself')
            for key in real:
                check(res[key] is not real[key], 'senders of {} shared with the clone', key)
                check(isinstance(res[key], set), 'senders in the clone are no set: {!r}', res[key])
            for x, y in itertools.combinations(res.values(), 2):
                check(x is not y, 'sets shared within the clone')
            got, want = self.idx(res), m
            # other ways to write senders
            for cont in (list, tuple, frozenset):
                c = gs.clone_graph({key: cont(v) for key, v in real.items()})
                check_equal(c, real, f'clone of a graph with senders given as {cont.__name__}')
                check(all(isinstance(v, set) for v in c.values()), 'senders in the clone are no sets')
        elif helper == 'to_networkx':
            for nx_type in (nx.DiGraph, nx.MultiDiGraph):
                g = gs.dependency_dict_to_networkx_digraph(real, nx_type) if nx_type is not nx.DiGraph \
                    else gs.dependency_dict_to_networkx_digraph(real)
                check(type(g) is nx_type, 'type {}', type(g))
                check_equal(sorted(self.nodes.index(x) for x in g.nodes), sorted(full), 'nodes of the networkx graph')
                check_equal(
                    sorted((self.nodes.index(a), self.nodes.index(b)) for a, b in g.edges()),
                    sorted((s, r) for r in m for s in m[r]), 'edges of the networkx graph'
                )
            return
        elif helper == 'round_trip':
            g = gs.dependency_dict_to_networkx_digraph(real)
            edges = set(g.edges)
            res = gs.networkx_digraph_to_dependency_dict(g)
            got, want = self.idx(res), full
            check_equal(set(g.edges), edges, 'edges of the networkx graph afterwards')
            some = gs.networkx_digraph_to_dependency_dict(g, add_missing=False)
            check_equal(self.idx(some), {k: v for k, v in full.items() if v}, 'without missing nodes')
            g2 = nx.DiGraph()
            g2.add_nodes_from(self.nodes.get(i) for i in reversed(sorted(full)))
            g2.add_edges_from((self.nodes.get(s), self.nodes.get(r)) for r in m for s in m[r])
            check_equal(self.idx(gs.networkx_digraph_to_dependency_dict(g2)), full, 'from networkx')
            # attributes, parallel edges and views make no difference
            g3 = nx.MultiDiGraph(g2)
            for r in m:
                for s in m[r]:
                    w = (s + 2 * r) % 3
                    g2.add_edge(self.nodes.get(s), self.nodes.get(r), weight=w, color=None)
                    if w:
                        g3.add_edge(self.nodes.get(s), self.nodes.get(r), key='second', weight=0)
            for i in full:
                g2.add_node(self.nodes.get(i), weight=i % 2)
            for g in (g2, g3, nx.freeze(g2.copy()), g2.reverse().reverse(copy=False), g2.subgraph(list(g2))):
                check_equal(self.idx(gs.networkx_digraph_to_dependency_dict(g)), full, f'from {type(g).__name__}')
        else:
            layers = gen.layers_of({key: v - {key} for key, v in full.items()})
            if layers is None or any(i in v for i, v in m.items()):
                return
            s = gs.Scheduler(real)
            check_equal([self.nodes.indices(cs) for cs in s.consideration_queue], layers, 'consideration queue')
            self.results.append(('get_receivers', s.graph))
            return
        check_equal(got, want, f'{helper} of {m}')
        self.results.append((helper, res))

    def spoil(self, k):
        """modify the results the caller was given"""
        for helper, res in self.results:
            if isinstance(res, list):
                for c in res:
                    if k != 1:
                        c.append('junk')
                    else:
                        c.reverse()
                res.append(['junk'])
            else:
                for v in res.values():
                    if k == 0:
                        v.clear()
                    else:
                        v.add('junk')
                if k == 2:
                    res.clear()
                elif k == 3:
                    res['junk'] = {'junk'}
        self.results = []


def run(case):
    w = World(case)
    labels = set()
    calls = 0
    changed_between = False
    called = set()
    for op in case['ops']:
        name = op[0]
        if name == 'call':
            w.call(op[1], op[2])
            calls += 1
            called.add(op[2])
            labels.add(op[1])
        elif name == 'toggle':
            _, k, a, b = op
            key = w.nodes.get(b)
            if b not in w.model[k]:
                w.model[k][b] = set()
                w.real[k][key] = set()
            w.model[k][b] ^= {a}
            w.real[k][key] ^= {w.nodes.get(a)}
            changed_between |= k in called
        elif name == 'spoil':
            if w.results:
                labels.add('results modified')
            w.spoil(op[1])
        elif name == 'clear':
            for v in (w.model[op[1]], w.real[op[1]]):
                for x in v.values():
                    x.clear()
            changed_between |= op[1] in called
        elif name == 'drop_keys':
            # entries of nodes without senders, which others name as a sender
            m = w.model[op[1]]
            for i in list(m):
                if not m[i] and any(i in v for v in m.values()):
                    del m[i]
                    del w.real[op[1]][w.nodes.get(i)]
                    labels.add('keys missing')
        elif name == 'reinsert':
            # the same graph, in another order
            w.real[op[1]] = {
                key: set(reversed(list(v))) for key, v in reversed(list(w.real[op[1]].items()))
            }
            w.model[op[1]] = structural.copy_graph(w.model[op[1]])
        else:
            # two references to one graph
            w.real[op[2]] = w.real[op[1]]
            w.model[op[2]] = w.model[op[1]]
        for m, r in zip(w.model, w.real):
            check_equal(w.idx(r), m, f'a graph of the caller after {op}')
    for k in range(N_GRAPHS):
        for helper in HELPERS:
            w.call(helper, k)
    if changed_between:
        labels.add('changed between calls')
    return Result(any(v for m in w.model for v in m.values()), sorted(labels))


def strategy_clone():
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(1, 5)
        return {'n': n, 'kind': [d.pick(['str', 'word', 'int', 'ident', 'obj']), d.int(0, 15)],
                'entries': [[d.int(0, 4), d.subset(range(n))] for _ in range(n)]}
    return s()


def run_clone(case):
    """senders given as collections of any kind, or as a single node"""
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    graph, want = {}, {}
    single = False
    for i, (form, senders) in enumerate(case['entries']):
        key = nodes.get(i)
        if form == 4 and senders:
            graph[key] = nodes.get(senders[0])
            want[key] = {nodes.get(senders[0])}
            single = True
        else:
            cont = [set, list, tuple, frozenset, dict.fromkeys][form]
            graph[key] = cont([nodes.get(s) for s in senders])
            want[key] = {nodes.get(s) for s in senders}
    kept = dict(graph)
    res = gs.clone_graph(graph)
    check_equal(res, want, 'clone')
    check(all(type(v) is set for v in res.values()), 'not sets: {}', res)
    check(all(graph[k] is kept[k] for k in kept) and list(graph) == list(kept), 'argument changed')
    return Result(any(s for _, s in case['entries']), ['single sender'] if single else [])


CHECK = Check(
    'C16',
    'A case is up to three directed graphs (self edges and cycles included) and a '
    'sequence of helper calls, modifications of the graphs and of earlier results; '
    'non-trivial: some graph has an edge.',
    [
        Sub('history', lambda t: strategy(5, 14) if t == 'quick' else strategy(7, 40), run, 25000),
        Sub('clone', lambda t: strategy_clone(), run_clone, 8000),
    ],
    assumptions=['a node does not count as its own ancestor or descendant, even on a cycle'],
)
