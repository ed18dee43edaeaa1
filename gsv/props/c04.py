"""C04: node-based count conditions match the execution history."""
from hypothesis import strategies as st

from gsv import gen
from gsv.core import Check, Result, Sub
from gsv.gen import CSE, ESU, LIFE, PASS, SEQ, D
from gsv.probing import Prober
from gsv.props.c02 import termination
from gsv.props.c03 import long_ops, ops_strategy

TS = [None, ESU, SEQ, LIFE, PASS, CSE]


def node_spec(d, n):
    k = d.int(0, 8)
    if k <= 3:
        return [['AfterNCalls', 'AtNCalls', 'BeforeNCalls', 'AfterCall'][k], d.int(0, n - 1), d.int(0, 5), d.pick(TS)]
    if k == 4:
        return ['AfterNCallsCombined', d.subset(range(n), 1), d.int(0, 9), d.pick(TS)]
    if k in (5, 6):
        return ['EveryNCalls', d.int(0, n - 1), d.int(0, 4)]
    if k == 7:
        return ['JustRan', d.int(0, n - 1)]
    return ['AllHaveRun', d.subset(range(n)) if d.bool() else [], d.pick(TS)]


def simple(d, n, i):
    """conditions that make nodes run at different rates"""
    k = d.int(0, 6)
    if k <= 1:
        return ['Always']
    if k == 2:
        return None
    if k == 3:
        return ['EveryNPasses', d.int(1, 3), None]
    if k == 4:
        return ['AtPass', d.int(0, 2), None]
    if k == 5:
        return ['AfterNPasses', d.int(0, 2), d.pick([None, SEQ])]
    return gen.node_condition(d, n, i)


def strategy(max_n, max_ops, cap, in_nodes):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(1, max_n)
        conds = [
            node_spec(d, n) if in_nodes and d.chance(2, 3) else simple(d, n, i) for i in range(n)
        ]
        if n > 1 and in_nodes and d.chance(3, 4):
            conds[d.int(0, n - 1)] = ['Always']
        return {
            'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n),
            'conds': conds,
            'term': [[ESU, ['AfterNPasses', d.int(1, 5), None]]],
            'probes': [[d.int(0, n - 1), node_spec(d, n)] for _ in range(d.int(1, 10))],
            'ops': ops_strategy(d, n, max_ops, cap), 'ctx': gen.context(d),
        }
    return s()


@st.composite
def strategy_long(draw, tier):
    d = D(draw)
    n = d.int(1, 2)

    def spec():
        t = node_spec(d, n)
        if t[0] not in ('AllHaveRun', 'JustRan'):
            t[2] = d.int(255, 301) * (len(t[1]) if t[0] == 'AfterNCallsCombined' else 1)
        return t
    edges = [[0, 1]] if n == 2 and d.bool() else []
    conds = [['Always'], d.pick([['AtPass', 0, None], None, spec()])][:n]
    return {
        'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'conds': conds,
        'term': [[ESU, ['AfterNPasses', 1, None]]], 'probes': [[d.int(0, n - 1), spec()] for _ in range(d.int(2, 5))],
        'ops': long_ops(d), 'ctx': gen.context(d),
    }


def run(case):
    pr = Prober(case)
    how = pr.run(case['ops'])
    labels = {how}
    both = 0
    for (_, spec, _), v in zip(pr.probes, pr.values):
        if len(v) == 2:
            both += 1
            ts = ''
            if len(spec) == 4 or spec[0] == 'AllHaveRun':
                ts = f' {spec[-1]}'
            labels.add(spec[0] + ts)
    if pr.undetermined:
        labels.add('some order dependent')
    return Result(pr.moments >= 3 and both >= 1 and how != 'blowup', labels)


CHECK = Check(
    'C04',
    'A case is a scheduling problem, a history of runs and ended sequences, and up to ten '
    'call-count conditions with owners that are evaluated after every yield and run and '
    'compared with counts from the yielded sets; non-trivial: at least three moments and at '
    'least one condition observed both satisfied and unsatisfied.',
    [
        Sub('probe', lambda t: strategy(4, 6, 20, False) if t == 'quick' else strategy(6, 9, 40, False), run, 20000),
        Sub('long', strategy_long, run, 200),
        Sub('nodes', lambda t: strategy(5, 4, 30, True) if t == 'quick' else strategy(7, 8, 60, True), run, 16000),
    ],
    assumptions=['the order of consideration within a set is unspecified; every order is accepted'],
)
