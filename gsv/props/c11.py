"""C11: a node without a condition runs when all its parents ran."""
from hypothesis import strategies as st

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gsv import build, gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D, dep_dict, layers_of
from gsv.nodes import Nodes


def structural(spec, nodes):
    name, owner, subject = spec
    return nodes.get(owner), getattr(gs, name)(nodes.get(subject))


def run(case):
    n = case['n']
    nodes = Nodes(case['kind'][0], n, case['kind'][1])
    s = gs.Scheduler(build.graph_dict(n, case['edges'], nodes, case.get('key_order')))
    labels = set()

    def scripted(i, table):
        def func(scheduler, execution_id):
            return bool(table[scheduler.get_clock(execution_id).time.pass_ % len(table)])
        return gs.Condition(func)

    explicit = {}
    for i, table in enumerate(case['tables']):
        if table is not None:
            explicit[i] = True
            s.add_condition(nodes.get(i), scripted(i, table))
    for k in range(case.get('others', 0)):
        # for something that is not in the graph
        s.add_condition(('elsewhere', k), gs.Always())
        labels.add('conditions of others')
    for spec in case['structural']:
        try:
            s.add_condition(*structural(spec, nodes))
            labels.add(spec[0])
        except gs.ConditionError:
            # contradictory or impossible on this graph
            return Result(False, {'structural condition refused'})
    graph = build.index_graph(s.graph, nodes)
    layers = layers_of(graph)
    if layers is None:
        return Result(False, {'cycle'})
    if graph != dep_dict(n, case['edges']):
        labels.add('graph changed')
    defaults_seen = 0
    skipped = 0
    ctx = case.get('ctx')
    ctx_kw = {} if ctx is None else {'execution_id': ctx}
    for r, ops in enumerate(case['runs']):
        by_seq = ['seq'] in ops
        for op in ops:
            i = op[1] if len(op) > 1 else None
            if op[0] == 'add':
                s.add_condition(nodes.get(i), scripted(i, op[2]))
                explicit[i] = True
                labels.add('condition added later')
            elif op[0] == 'remove':
                basic = s.conditions.conditions_basic
                if nodes.get(i) in basic:
                    s.conditions.remove_condition(basic[nodes.get(i)])
                explicit.pop(i, None)
                labels.add('condition removed')
            elif op[0] == 'endseq':
                s.end_environment_sequence(**ctx_kw)
        count = [0]
        cap = case['sets']

        def stop(scheduler, execution_id, count=count):
            return count[0] >= cap
        g = s.run(termination_conds={
            # satisfied from then on
            TimeScale.ENVIRONMENT_SEQUENCE: gs.Condition(stop), TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never()
        } if by_seq else {TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Condition(stop)}, **ctx_kw)
        observed = {}
        last_key = end = None
        for out in g:
            count[0] += 1
            t = s.get_clock(ctx).time
            out = nodes.indices(out)
            if not out:
                # nothing ran in this pass
                end = (t.pass_, len(layers) - 1)
                continue
            k = {k for k, layer in enumerate(layers) if out & layer}
            check(len(k) == 1, 'set {} is not part of one consideration set of {}', sorted(out), layers)
            key = (t.pass_, k.pop())
            check(last_key is None or key > last_key, 'consideration sets in wrong order')
            observed[key] = out
            last_key = end = key
        if count[0] == 0:
            continue
        calls = {(a, b): 0 for b in range(n) for a in graph[b]}
        p = 0
        while (p, -1) <= end:
            for k, layer in enumerate(layers):
                if (p, k) > end:
                    break
                out = observed.get((p, k), frozenset())
                for i in sorted(layer):
                    if i in explicit:
                        continue
                    defaults_seen += 1
                    want = all(calls[a, i] > 0 for a in graph[i])
                    if not want:
                        skipped += 1
                    check_equal(
                        i in out, want,
                        f'node {i} (senders {sorted(graph[i])}) executed in pass {p} of run {r}; '
                        f'sets by (pass, position): {[(a, sorted(b)) for a, b in observed.items()]}'
                    )
                for i in out:
                    for a in graph[i]:
                        calls[a, i] = 0
                for i in out:
                    for b in range(n):
                        if i in graph[b]:
                            calls[i, b] += 1
            p += 1
    if skipped:
        labels.add('default condition not satisfied')
    return Result(skipped > 0 and defaults_seen > 3, labels)


@st.composite
def strategy(draw, tier):
    d = D(draw)
    n = d.int(2, 5 if tier == 'quick' else 8)
    case = {'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n)}

    def table():
        return [d.int(0, 1) for _ in range(d.int(1, 5))]

    receivers = {r for _, r in case['edges']}
    case['tables'] = [
        table() if (d.chance(1, 4) if i in receivers else d.chance(5, 6)) else None for i in range(n)
    ]
    st_ops = []
    if d.chance(1, 2):
        for _ in range(d.int(1, 2)):
            owner = d.int(0, n - 1)
            subject = d.pick([i for i in range(n) if i != owner])
            st_ops.append([d.pick(['AddEdgeTo', 'RemoveEdgeFrom', 'BeforeNode', 'AfterNode', 'WithNode']), owner, subject])
    case['structural'] = st_ops
    case['sets'] = d.int(4, 24)
    runs = []
    for _ in range(d.int(1, 3)):
        ops = []
        for _ in range(d.int(0, 2) if runs else 0):
            i = d.int(0, n - 1)
            ops.append(['add', i, table()] if d.bool() else ['remove', i])
        if runs and d.chance(1, 3):
            ops.append(['endseq'])
        if d.chance(1, 3):
            ops.append(['seq'])
        runs.append(ops)
    case['runs'] = runs
    if d.chance(1, 6):
        case['others'] = d.int(1, n)
    case['ctx'] = gen.context(d)
    return case


@st.composite
def fan_strategy(draw, tier):
    """nodes with many senders, of which a few lack at times"""
    d = D(draw)
    m, sinks = d.int(5, 10), d.int(1, 2)
    n = m + sinks
    order = d.perm(n)
    edges = [[order[i], order[m]] for i in range(m) if not d.chance(1, 12)]
    if sinks == 2:
        edges += [[order[i], order[m + 1]] for i in range(m + 1) if d.chance(2, 3)]
    tables = [None] * n
    rare = d.subset(range(m), 1)
    for i in range(m):
        tables[order[i]] = [d.int(0, 1) for _ in range(d.int(2, 4))] if i in rare else [1]
    return {
        'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'key_order': d.perm(n),
        'tables': tables, 'structural': [], 'sets': d.int(4, 16), 'runs': [[] for _ in range(d.int(1, 2))],
    }


CHECK = Check(
    'C11',
    'A case is a graph (possibly changed by structural conditions), black-box conditions on some nodes that answer by '
    'pass number, and one to three runs between which conditions are added or removed; non-trivial: some node without a '
    'condition was considered and did not execute.',
    [
        Sub('history', lambda tier: strategy(tier), run, 34000),
        Sub('fan', lambda tier: fan_strategy(tier), run, 6000),
    ],
    assumptions=['the graph does not change after the first run (implicit conditions are then kept as they are)'],
)
