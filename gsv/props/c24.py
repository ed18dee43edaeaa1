"""C24: invalid requests are rejected with a package error and change nothing."""
import networkx as nx
from hypothesis import strategies as st

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gsv import build, gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.world import Side, gen_case

ConditionError, SchedulerError, TimeScaleError = gs.ConditionError, gs.SchedulerError, gs.TimeScaleError


class Outside:
    """a node of no graph"""
    def __repr__(self):
        return 'Outside()'


OUTSIDE = [('no', 'node'), 'no node', 10 ** 9 + 7, Outside()]


class Refused:
    """error expected from a request"""

    def __init__(self, *types):
        self.types = types

    def __call__(self, f, what):
        try:
            res = f()
        except self.types:
            return
        except Exception as e:
            raise Violation(f'{what} raised {type(e).__name__}: {e}; expected {[t.__name__ for t in self.types]}')
        raise Violation(f'{what} was accepted: {res!r}')


by_condition = Refused(ConditionError)
by_scheduler = Refused(SchedulerError)


def pick(seq, k):
    return seq[k % len(seq)]


ORDERING = [gs.BeforeNode, gs.AfterNode, gs.WithNode, gs.AddEdgeTo, gs.RemoveEdgeFrom]
MULTI = [gs.BeforeNodes, gs.AfterNodes]


def among(w, k, how, bad, owner=None):
    """**bad** anywhere among some of the nodes (except owner)"""
    nodes = [w.nodes.get((k + 1 + i) % w.n) for i in range(w.n)]
    nodes = [x for i, x in enumerate(nodes) if (k + 1 + i) % w.n != owner][:how % (w.n + 1)]
    nodes.insert(how // 3 % (len(nodes) + 1), bad)
    return nodes


# --- requests refused at once ------------------------------------------------------
def r_self(w, k, how):
    """structural condition on its own subject"""
    a = w.nodes.get(k)
    b = w.nodes.get((k + 1) % w.n)
    if how % 2:
        cond = pick(ORDERING, how // 2)(a)
    else:
        cond = pick(MULTI, how // 2)(*among(w, k, how, a, k) if how // 4 % 2 else (a, b))
    if how % 3 == 0:
        by_condition(lambda: w.s.add_condition(w.nodes.get(k), cond), 'condition on itself')
    elif how % 3 == 1:
        by_condition(lambda: w.s.conditions.__setitem__(w.nodes.get(k), cond), 'item assignment of a condition on itself')
    else:
        by_condition(lambda: w.s.add_condition_set({w.nodes.get(k): cond}), 'bulk addition of a condition on itself')
    check(cond.owner is None, 'the refused condition is owned by {}', cond.owner)


def r_edge_self(w, k, how):
    a = w.nodes.get(k)
    f = w.s.add_graph_edge if how % 2 else w.s.remove_graph_edge
    by_condition(lambda: f(a, w.nodes.get(k)), 'edge from a node to itself')


def r_no_nodes(w, k, how):
    if how % 2:
        by_condition(lambda: pick(MULTI, how // 2)(), 'condition without nodes')
    else:
        by_condition(lambda: pick(MULTI + [gs.BeforeNode, gs.AfterNode, gs.WithNode], how // 2)({}), 'condition on an unhashable node')
        by_condition(
            lambda: pick(MULTI, how)(*among(w, k, how, [k])), 'condition on nodes, one of them unhashable'
        )


def r_operations(w, k, how):
    """missing or surplus subject operations"""
    a, b = w.nodes.get(k), w.nodes.get((k + 1) % w.n)
    c = pick(OUTSIDE, how)
    arg = pick(['subject_senders', 'subject_receivers'], how)
    cls = pick(MULTI, how // 2)
    if how % 3 == 0:
        by_condition(lambda: cls(a, b, **{arg: {a: gs.Operation.KEEP}}) if a != b else cls(a, c, **{arg: {a: 'keep'}}), 'missing operation')
    elif how % 3 == 1:
        by_condition(lambda: cls(a, **{arg: {a: 'keep', c: 'keep'}}), 'surplus operation')
    else:
        by_condition(lambda: cls(a, c, **{arg: {}}), 'no operations')
    some = among(w, k, how, c)
    by_condition(
        lambda: cls(*some, **{arg: {x: 'merge' for x in some if x is not c}}), 'operations for all subjects but one'
    )


def r_termination(w, k, how):
    """malformed termination conditions, for the scheduler, a run or a new scheduler"""
    ts = pick(list(TimeScale)[1:4], k)
    bad = pick([
        {ts: gs.AddEdgeTo(w.nodes.get(k))},
        {ts.name: gs.AddEdgeTo(w.nodes.get(k))},
        {ts: True},
        {ts.name.lower(): 3},
        {'no time scale': gs.Always()},
        {ts.name.lower(): gs.Always(), 'no time scale': gs.Always()},
        {ts: gs.Always(), 3: gs.Never()},
        {ts: gs.Always},
        {TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Always(), TimeScale.ENVIRONMENT_SEQUENCE: None},
    ], how)
    keep = dict(bad)
    where = how // 9 % 3
    if where == 0:
        by_scheduler(lambda: setattr(w.s, 'termination_conds', bad), f'setting termination conditions {bad}')
    elif where == 1:
        by_scheduler(lambda: next(w.s.run(termination_conds=bad)), f'a run with termination conditions {bad}')
    else:
        by_scheduler(lambda: gs.Scheduler({'A': set()}, termination_conds=bad), f'a scheduler with termination conditions {bad}')
    check_equal(bad, keep, 'the refused dictionary afterwards')


def r_graph(w, k, how):
    bad = pick([None, nx.Graph(), nx.Graph([(1, 2)]), nx.MultiGraph()], how)
    by_scheduler(lambda: gs.Scheduler(bad), f'a scheduler for {bad!r}')


def r_interval(w, k, how):
    a, b = sorted([k + 1, how % 7 + k + 2])
    bad = pick([
        {}, {'start': b, 'end': a}, {'start': 0, 'end': -a}, {'start': '0s', 'end': f'-{a}ms', 'repeat': 1}, {'repeat': 1, 'start': f'{b}s', 'end': f'{b}ms'}, {'start': f'{a + 1}ms', 'end': f'{a}ms', 'unit': 's'},
        {'start': 1, 'end': '999us'}, {'start': 1001, 'end': gs._unit_registry.Quantity(1, 's')}, {'start': 2, 'end': '1999ms', 'unit': 's'},
    ], how)
    by_condition(lambda: gs.TimeInterval(**bad), f'interval {bad}')


class Holder:
    value = 1


def r_threshold(w, k, how):
    if how % 3:
        op = pick(['=', '=>', 'equal', '', None, '!', '<>', '>>'], how)
        by_condition(lambda: gs.Threshold(Holder(), 'value', 1, op), f'comparator {op!r}')
    else:
        by_condition(lambda: gs.Threshold(Holder(), 'missing', 1, '<'), 'missing parameter')


def r_remove(w, k, how):
    if how % 2:
        cond = pick([gs.Always(), gs.Never(), gs.AddEdgeTo(w.nodes.get(k)), gs.All(gs.Always())], how // 2)
        by_condition(lambda: w.s.remove_condition(cond), 'removing a condition without owner')
        return
    # an owner of several conditions
    cs = w.s.conditions
    for o in cs.conditions_structural:
        if len(cs.conditions_structural[o]) + (o in cs.conditions_basic) > 1:
            by_condition(lambda: w.s.remove_condition(o), 'removing by an owner of several conditions')
            break


def r_owner(w, k, how):
    cond = pick([gs.AddEdgeTo, gs.BeforeNodes, gs.WithNode], how)(w.nodes.get(k))
    by_condition(lambda: cond.modify_graph({w.nodes.get(k): set()}), 'applying a condition without owner')
    if how % 2:
        by_condition(lambda: setattr(cond, 'owner', w.nodes.get(k)), 'owner among the subjects')
        check(cond.owner is None, 'owner {} after it was refused', cond.owner)


def r_no_scheduler(w, k, how):
    """conditions that need a scheduler"""
    spec = w.case['needy'][how % len(w.case['needy'])]
    cond = build.condition(spec, w.nodes)
    cond.owner = w.nodes.get(k)
    by_condition(lambda: cond.is_satisfied(), f'evaluating {spec} without scheduler')


def r_context(w, k, how):
    base = ('context', 'never used', how)
    by_scheduler(
        lambda: next(w.s.run(execution_id=('new context', k, how), base_execution_id=base)), 'unknown base context'
    )


def r_clock(w, k, how):
    clock = w.s.get_clock(w.ctx(how % 2))
    times = Refused(TimeScaleError)
    scales = list(TimeScale)
    times(lambda: clock.get_total_times_relative(TimeScale.LIFE, pick(scales, k)), 'number of lives')
    fine, coarse = sorted([pick(scales[:4], k), pick(scales[:4], how)])
    if fine != coarse:
        times(lambda: clock.get_total_times_relative(fine, coarse, 10 ** 6), f'number of {fine} in a {coarse} never begun')


def r_custom(w, k, how):
    by_condition(lambda: gs.CustomGraphStructureCondition(pick([None, 3, 'x', {}], how)), 'custom condition without function')


# --- requests that are registered, refused when used, and removed ---------------------
def bad_structural(w, k, how):
    """(owner, condition)"""
    a, b = w.nodes.get(k), w.nodes.get((k + 1) % w.n)
    out = pick(OUTSIDE, how)
    j = how // 4 % 6
    if j == 0:
        return a, pick(ORDERING, how)(out)
    if j == 1:
        return out, pick(ORDERING, how)(a)
    if j == 2:
        return a, pick(MULTI, how)(*among(w, k, how, out, k))
    if j == 3:
        return out, pick(MULTI, how)(a)
    if j == 4:
        def f(graph, self):
            return graph
        return a, gs.CustomGraphStructureCondition(f)
    return a, pick(MULTI, how)(out, **{pick(['owner_senders', 'owner_receivers'], how): 'replace'})


def x_structural(w, k, how, uses):
    owner, cond = bad_structural(w, k, how)
    via = how % 5
    if via == 0:
        by_condition(lambda: w.s.add_condition(owner, cond), f'adding {cond} for {owner!r}')
    elif via == 1:
        by_condition(lambda: w.s.add_condition_set({owner: cond}), f'adding {{{owner!r}: {cond}}}')
    elif via == 2:
        by_condition(lambda: w.s.add_condition_set({owner: [cond]}), f'adding {{{owner!r}: [{cond}]}}')
    elif via == 3:
        w.s.conditions.add_condition(owner, cond)
    else:
        w.s.conditions.add_condition_set(gs.ConditionSet({owner: cond}))
    for u in uses:
        use = [
            lambda: w.s.graph, lambda: w.s.consideration_queue, lambda: w.s.consideration_queue_indices,
            lambda: next(w.s.run()), lambda: next(w.s.run(execution_id=w.ctx(1))), lambda: w.s.dependency_dict,
            # another addition does not hide it
            lambda: w.s.add_graph_edge(w.nodes.get(0), w.nodes.get(1 % w.n)),
        ][u if u < 6 or w.n > 1 else 0]
        by_condition(use, f'using the graph (way {u}) with {cond} for {owner!r}')
        if u == 6 and w.n > 1:
            w.s.remove_condition(w.s.conditions.structural_condition_order[-1])
    check(w.s.remove_condition(cond) is cond, 'removing the refused condition')


def x_edge(w, k, how, uses):
    """edges from or to nodes outside of the graph"""
    out = pick(OUTSIDE, how)
    a = w.nodes.get(k)
    f = w.s.add_graph_edge if how % 2 else w.s.remove_graph_edge
    ends = (a, out) if how // 2 % 2 else (out, a)
    before = list(w.s.conditions.structural_condition_order)
    by_condition(lambda: f(*ends), f'edge {ends}')
    left = w.s.conditions.structural_condition_order[len(before):]
    check(len(left) <= 1 and w.s.conditions.structural_condition_order[:len(before)] == before,
          'structural conditions after a refused edge')
    for c in left:
        w.s.remove_condition(c)


def x_cycle(w, k, how, uses):
    """a graph with a cycle: no run, until the edge is removed"""
    a, b = w.nodes.get(k), w.nodes.get((k + 1 + how) % w.n)
    if a == b:
        return
    graph = build.index_graph(w.s.graph, w.nodes)
    i, j = k, (k + 1 + how) % w.n
    conds = [w.s.add_graph_edge(a, b)]
    conds.append(w.s.add_graph_edge(w.nodes.get(j), w.nodes.get(i)))
    for u in uses[:2]:
        by_scheduler(lambda: next(w.s.run(execution_id=w.ctx(u % 3))), 'run on a cyclic graph')
    for c in conds[::-1] if how % 2 else conds:
        check(w.s.remove_condition(c) is c, 'removing an edge')
    check_equal(build.index_graph(w.s.graph, w.nodes), graph, 'graph after the cycle was removed')


AT_ONCE = [r_self, r_edge_self, r_no_nodes, r_operations, r_termination, r_graph, r_interval, r_threshold,
           r_remove, r_owner, r_no_scheduler, r_context, r_clock, r_custom]
LATER = [x_structural, x_edge, x_cycle]


class World(Side):
    def __init__(self, case):
        super().__init__(case)
        self.n = case['n']
        # a run that is refused may have assigned the implicit conditions before
        self.explicit = {i for i, c in enumerate(case['conds']) if c is not None}

    def op_condition(self, owner, spec):
        super().op_condition(owner, spec)
        self.explicit.add(owner)

    def own(self, owners):
        res = [self.nodes.index(o) for o in owners]
        return [i for i in res if i in self.explicit or self.nodes.get(i) in self.s.conditions.conditions_structural]

    def final(self):
        res = super().final()
        res['owners'] = sorted(self.own(self.s.conditions))
        return res

    def views(self):
        cs = self.s.conditions
        return (
            {self.nodes.index(o): id(c) for o, c in cs.conditions_basic.items() if self.nodes.index(o) in self.explicit},
            {self.nodes.index(o): [id(c) for c in v] for o, v in cs.conditions_structural.items()},
            [id(c) for c in cs.structural_condition_order],
            sorted(self.own(cs)),
            {ts.value: id(c) for ts, c in self.s.termination_conds.items()},
            {self.nodes.index(o): self.nodes.index(c.owner) for o, c in cs.conditions_basic.items()
             if self.nodes.index(o) in self.explicit},
            self.state(),
            [self.time(c) for c in range(3)],
            sorted((k, sorted(v)) for k, v in build.index_graph(self.s.graph, self.nodes).items()),
            [sorted(self.nodes.indices(x)) for x in self.s.consideration_queue],
            sorted((self.nodes.index(k), v) for k, v in self.s.consideration_queue_indices.items()),
        )


def same_views(a, b, what):
    names = ['basic conditions', 'structural conditions', 'structural order', 'owners', 'termination conditions',
             'owners of basic conditions', 'counts and lists', 'clocks', 'graph', 'queue', 'positions']
    for name, x, y in zip(names, a, b):
        check_equal(x, y, f'{name} after {what} was refused')


def run(case):
    plain = World(case)
    w = World(case)
    labels = set()
    requests = 0
    for op, bad in zip(case['ops'], case['bad']):
        plain.apply(op)
        for kind, which, k, how, uses in bad:
            before = w.views()
            if kind == 'now':
                f = AT_ONCE[which]
                if w.n < 2 and f in (r_operations,):
                    continue
                f(w, k, how)
            else:
                f = LATER[which]
                if w.n < 2 and f in (x_cycle,):
                    continue
                if w.active and f in (x_cycle,):
                    continue
                f(w, k, how, uses)
            after = w.views()
            same_views(after, before, f.__name__[2:])
            labels.add(f.__name__[2:])
            requests += 1
        w.apply(op)
        check_equal(w.log[-1], plain.log[-1], f'{op} after refused requests')
    check_equal(w.final(), plain.final(), 'final state after refused requests')
    sets = sum(len(x) for x in plain.final()['lists'])
    if w.active:
        labels.add('runs in progress')
    return Result(requests > 0 and sets > 0, labels)


NEEDY = ['BeforePass', 'AtPass', 'AfterPass', 'AfterNPasses', 'EveryNPasses', 'BeforeConsiderationSetExecution',
         'AtConsiderationSetExecution', 'AfterConsiderationSetExecution', 'AfterNConsiderationSetExecutions',
         'BeforeEnvironmentStateUpdate', 'AtEnvironmentStateUpdate', 'AfterEnvironmentStateUpdate',
         'AfterNEnvironmentStateUpdates']


@st.composite
def strategy(draw, tier):
    d = D(draw)
    case = gen_case(d, 5 if tier == 'quick' else 7, 8 if tier == 'quick' else 20)
    n = case['n']
    needy = []
    for _ in range(2):
        k = d.int(0, 3)
        if k == 0:
            needy.append([d.pick(NEEDY), d.int(1, 3), None])
        elif k == 1:
            needy.append([d.pick(['AtEnvironmentSequence', 'AfterEnvironmentSequence', 'AfterNEnvironmentSequences']), 1])
        else:
            c = gen.node_condition(d, n, None)
            if c[0] == 'JustRan' or c[0] in ('AfterNCallsCombined', 'AllHaveRun') and not c[1]:
                c = ['AtNCalls', 0, 0, None]
            needy.append(c)
    case['needy'] = needy
    case['bad'] = [
        [
            ['now', d.int(0, len(AT_ONCE) - 1), d.int(0, n - 1), d.int(0, 53), []] if d.chance(2, 3) else
            ['later', d.int(0, len(LATER) - 1), d.int(0, n - 1), d.int(0, 47), [d.int(0, 6) for _ in range(d.int(0, 3))]]
            for _ in range(d.int(0, 2))
        ] for _ in case['ops']
    ]
    return case


CHECK = Check(
    'C24',
    'A case is a scheduling problem, a sequence of valid operations, and invalid requests of several kinds in between, '
    'compared with the same operations alone; non-trivial: at least one request was refused, and sets were yielded.',
    [Sub('refused', lambda t: strategy(t), run, 10500)],
    assumptions=[
        'single requests only: a bulk addition may keep its valid part',
        'a structural condition that is only found invalid when it is applied stays registered until it is removed',
    ],
)
