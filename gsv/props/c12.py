"""C12: before, after and with conditions establish their relation."""
import itertools

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import build, gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D, dep_dict, layers_of
from gsv.nodes import Nodes
from gsv.structural import edges_of, kind_of, reachable


def strategy(max_n, single):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n) if d.bool() else max_n - d.int(0, 2)
        edges = gen.dag_edges(d, n)
        owner = d.int(0, n - 1)
        others = None
        style = d.int(0, 2)
        if style and edges:
            # an owner with neighbours, subjects connected with it
            owner = edges[d.int(0, len(edges) - 1)][d.int(0, 1)]
            reach = reachable(dep_dict(n, edges))
            others = sorted(reach[owner] | {i for i in reach if owner in reach[i]})
            if style == 2:
                others = [i for i in others if [i, owner] not in edges and [owner, i] not in edges] or others
        spec = structural.ordering(d, n, owner, flags=not single, single=single or None, others=others)
        return {'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'owner': owner,
                'spec': spec, 'style': d.int(0, 3),
                'key_order': d.perm(n) if d.bool() else list(range(n))}
    return s()


@st.composite
def wide(draw, tier):
    """an owner or subject with many senders and receivers"""
    d = D(draw)
    m, k = d.int(3, 8), d.int(2, 8)
    hub = m
    n = m + 1 + k
    edges = [[i, hub] for i in range(m) if not d.chance(1, 10)]
    edges += [[hub, hub + 1 + j] for j in range(k) if not d.chance(1, 10)]
    for _ in range(d.int(0, 4)):
        a, b = sorted([d.int(0, n - 1), d.int(0, n - 1)])
        if a != b and [a, b] not in edges:
            edges.append([a, b])
    twin = None
    if d.chance(1, 3):
        # another node with (nearly) the same neighbours
        twin, n = n, n + 1
        edges += [[a, twin] for a, b in edges if b == hub] + [[twin, b] for a, b in edges if a == hub]
        near = [e for e in edges if twin in e]
        if near and d.bool():
            # one neighbour of it is another node
            e = near.pop(d.int(0, len(near) - 1))
            edges.remove(e)
            edges.append([n, twin] if e[1] == twin else [twin, n])
            n += 1
        for _ in range(d.int(0, 2)):
            if near and d.bool():
                edges.remove(near.pop(d.int(0, len(near) - 1)))
            else:
                e = [d.int(0, m - 1), twin] if d.bool() else [twin, d.int(m + 1, m + k)]
                if e not in edges:
                    edges.append(e)
    order = d.perm(n)
    edges = [[order[a], order[b]] for a, b in edges]
    owner = order[hub] if d.chance(2, 3) else d.int(0, n - 1)
    others = None if owner == order[hub] or d.bool() else [order[hub]]
    if twin is not None and d.chance(3, 4):
        owner, others = d.pick([(order[hub], [order[twin]]), (order[twin], [order[hub]])])
    single = d.chance(1, 3)
    spec = structural.ordering(d, n, owner, flags=not single, single=single or None, others=others)
    return {'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'owner': owner, 'single': single,
            'spec': spec, 'style': d.int(0, 3), 'key_order': d.perm(n) if d.bool() else list(range(n))}


def run_wide(case):
    return run_single(case) if case['single'] else run(case)


@st.composite
def cyclic(draw, tier):
    """a graph with cycles"""
    d = D(draw)
    n = d.int(3, 5 if tier == 'quick' else 7)
    edges = gen.digraph_edges(d, n, self_loops=False)
    near = [e for e in edges if [e[1], e[0]] in edges and e[0] != e[1]]
    owner = d.pick(d.pick(near)) if near and d.bool() else d.int(0, n - 1)
    spec = structural.ordering(d, n, owner, ops=d.chance(1, 4))
    return {'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'owner': owner,
            'spec': spec, 'style': d.int(0, 3), 'key_order': d.perm(n) if d.bool() else list(range(n))}


def run_cyclic(case):
    nodes, base, result = apply(case)
    owner, (name, subjects, opts) = case['owner'], case['spec']
    if result is None:
        return Result(False, ['conflict'])
    kind = kind_of(name)
    for sub in subjects:
        if kind == 'Before':
            check(owner in result[sub], 'owner is no sender of {}', sub)
        elif kind == 'After':
            check(sub in result[owner], '{} is no sender of the owner', sub)
        else:
            check_equal(result[owner], result[sub], f'senders of the owner and of {sub}')
    if opts.get('remove_new_self_referential_edges', True):
        new = [k for k in result if k in result[k] and k not in base[k]]
        check(not new, 'new self edges of {} in {}', new, result)
    cycles = not structural.acyclic(base)
    return Result(cycles and result != base, ['cyclic' if cycles else 'acyclic'])


def apply(case):
    """-> (base by index, result by index or None for a conflict)"""
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    base = dep_dict(case['n'], case['edges'])
    graph = build.graph_dict(case['n'], case['edges'], nodes, case['key_order'])
    cond = structural.build(case['spec'], nodes, case['style'])
    cond.owner = nodes.get(case['owner'])
    kept = {k: set(v) for k, v in graph.items()}
    ids = {k: id(v) for k, v in graph.items()}
    try:
        result = cond.modify_graph(graph)
    except gs.ConditionError as e:
        result = None
        if 'onflict' not in str(e):
            raise
    check_equal(list(graph), list(kept), 'keys of the input afterwards')
    check_equal(graph, kept, 'input afterwards')
    check(all(ids[k] == id(v) for k, v in graph.items()), 'entries of the input were exchanged')
    if result is None:
        return nodes, base, None
    check(result is not graph, 'the input itself was returned')
    shared = [k for k in result if any(result[k] is v for v in graph.values())]
    check(not shared, 'sender sets shared with the input: {}', shared)
    for a, b in itertools.combinations(result, 2):
        check(result[a] is not result[b], 'sender set shared by {} and {}', a, b)
    check(all(isinstance(v, set) for v in result.values()), 'senders are not sets: {}', result)
    check_equal(sorted(nodes.index(x) for x in result), list(range(case['n'])), 'nodes of the result')
    result = build.index_graph(result, nodes)

    # the same by way of a scheduler
    try:
        sched = gs.Scheduler(
            graph=build.graph_dict(case['n'], case['edges'], nodes, case['key_order']),
            conditions={nodes.get(case['owner']): structural.build(case['spec'], nodes, case['style'])},
        )
        got = build.index_graph(sched.graph, nodes)
    except gs.ConditionError:
        raise Violation('the scheduler could not apply the condition')
    check(
        edges_of(got) == edges_of(result) or not structural.acyclic(got) or len(case['spec'][1]) > 1,
        'graph of a scheduler {} differs from the result {}', got, result
    )
    queue = [nodes.indices(cs) for cs in sched.consideration_queue]
    layers = layers_of(got)
    if layers is not None:
        check_equal(queue, layers, 'consideration queue')
        pos = {i: k for k, cs in enumerate(queue) for i in cs}
        kind = kind_of(case['spec'][0])
        for sub in case['spec'][1]:
            o = pos[case['owner']]
            check(
                {'Before': o < pos[sub], 'After': o > pos[sub], 'With': o == pos[sub]}[kind],
                'owner {} and subject {} at {} and {} of {}', case['owner'], sub, o, pos[sub], queue
            )
    return nodes, base, result


def run(case):
    nodes, base, result = apply(case)
    owner, spec = case['owner'], case['spec']
    name, subjects, opts = spec
    kind = kind_of(name)
    labels = [name]
    opts = {**structural.FLAG_DEFAULTS, **opts}
    if any(opts[k] != v for k, v in structural.FLAG_DEFAULTS.items()):
        labels.append('other flags')

    if structural.already_valid(base, spec, owner):
        check(result is not None, 'conflict although the relation already holds')
        check_equal(result, base, 'graph in which the relation already held')
        labels.append('already valid')
        return Result(bool(case['edges']), labels)

    direct, conflicts = structural.direct_result(base, spec, owner)
    if result is None:
        check(not opts['ignore_conflicts'], 'conflict not ignored')
        check(conflicts, 'conflict reported, but there is none')
        labels.append('conflict')
        return Result(True, labels)
    check(not conflicts or opts['ignore_conflicts'], 'conflict for {} not reported', sorted(conflicts))

    # the relation
    for sub in subjects:
        if kind == 'Before':
            check(owner in result[sub], 'owner is no sender of {}', sub)
        elif kind == 'After':
            check(sub in result[owner], '{} is no sender of the owner', sub)
        else:
            check_equal(result[owner], result[sub], f'senders of the owner and of {sub}')
    check(all(k not in v for k, v in result.items()), 'self edge in {}', result)

    if not conflicts:
        model = structural.finish(direct, spec, owner)
        on_cycle = structural.same_component(model)
        lost = edges_of(model) - edges_of(result)
        if on_cycle:
            labels.append('cycle to prune')
        if not opts['prune_cycles']:
            check(not lost, 'edges {} lost without pruning', sorted(lost))
        check(lost <= on_cycle, 'edges {} lost, which close no cycle', sorted(lost - on_cycle))
        added = structural.check_reconnected(base, spec, owner, model, result, check)
        if added:
            labels.append('reconnected')
        # edges of nodes not concerned
        for s, r in edges_of(base):
            if owner not in (s, r) and not {s, r} & set(subjects):
                check(s in result[r] or (s, r) in on_cycle, 'edge {} of other nodes lost', (s, r))
    cyclic = not structural.acyclic(result)
    labels.append('cyclic' if cyclic else 'acyclic')
    if kind != 'With' and opts['prune_cycles']:
        check(not cyclic, 'cycles of {} not pruned', result)
    changed = edges_of(result) != edges_of(base)
    return Result(changed, labels)


def run_single(case):
    res = run(case)
    nodes, base, result = apply(case)
    owner, spec = case['owner'], case['spec']
    if structural.already_valid(base, spec, owner):
        return res
    (sub,) = spec[1]
    kind = kind_of(spec[0])
    check(result is not None, 'a single subject with default options conflicts')
    reach = reachable(base)
    indirect = any(x in reach[sub] for x in base[owner])
    if not (kind == 'With' and indirect):
        check(structural.acyclic(result), 'the result {} is cyclic', result)
    else:
        res.labels.append('owner indirectly after subject')
    if kind != 'After' or owner not in reach[sub]:
        check_equal(result, structural.exact_single(base, spec, owner), 'result')
    # the owner is moved, other nodes stay
    lost = edges_of(base) - edges_of(result)
    for e in lost:
        check(owner in e, 'edge {} of other nodes was removed', e)
    if owner not in reach[sub] and sub not in reach[owner]:
        check(not lost, 'edges {} removed although owner and subject were unrelated', sorted(lost))
        res.labels.append('unrelated')
    else:
        res.labels.append('related')
    return res


CHECK = Check(
    'C12',
    'A case is a DAG, an owner and an ordering condition with its flags; '
    'non-trivial: the condition changes the graph or is rejected (already valid '
    'relations: the graph has edges).',
    [
        Sub('ordering', lambda t: strategy(6 if t == 'quick' else 9, False), run, 36000),
        Sub('single', lambda t: strategy(6 if t == 'quick' else 8, True), run_single, 24000),
        Sub('wide', wide, run_wide, 10000),
        Sub('cyclic', cyclic, run_cyclic, 10000),
    ],
    assumptions=['for input graphs with cycles, only the relation itself and the absence of new self edges is claimed'],
)
