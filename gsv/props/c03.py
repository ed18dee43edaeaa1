"""C03: time-based conditions are satisfied exactly at their stated counts."""
import graph_scheduler as gs
from hypothesis import strategies as st

from gsv import build, gen
from gsv.core import Check, Result, Sub, Violation
from gsv.gen import ESU, LIFE, SEQ, D
from gsv.nodes import Nodes
from gsv.probing import Prober
from gsv.props.c02 import termination

ALL_TIME = []
for name in gen.TIME_CSE + gen.TIME_PASS:
    for ts in (None, ESU, SEQ, LIFE):
        ALL_TIME.append([name, 'n', ts])
for name in gen.TIME_ESU + ['AtEnvironmentStateUpdateNStart']:
    for ts in (None, SEQ, LIFE):
        ALL_TIME.append([name, 'n', ts])
for name in gen.TIME_SEQ + ['AtEnvironmentSequenceNStart']:
    ALL_TIME.append([name, 'n'])
ALL_TIME += [['AtEnvironmentStateUpdateStart'], ['AtEnvironmentSequenceStart']]


def time_spec(d, nmax):
    t = list(d.pick(ALL_TIME))
    if len(t) > 1:
        low = 1 if t[0] == 'EveryNPasses' else 0
        big = t[0] in gen.TIME_CSE or (len(t) > 2 and t[2] in (SEQ, LIFE))
        if t[0] in gen.TIME_SEQ or 'Sequence' in t[0]:
            t[1] = d.int(0, 3)
        elif t[0] in gen.TIME_ESU or t[0] == 'AtEnvironmentStateUpdateNStart':
            t[1] = d.int(0, 5)
        else:
            t[1] = d.int(low, nmax * 2 if big else nmax)
    return t


def ops_strategy(d, n, max_ops, cap):
    ops = []
    for _ in range(d.int(1, max_ops)):
        if d.chance(1, 3):
            ops.append(['endseq'])
        else:
            ops.append(['run', cap, termination(d, n) if d.chance(1, 4) else None, d.chance(1, 12)])
    return ops


def strategy(max_n, max_ops, cap, in_nodes):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(1, max_n)
        case = {
            'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n),
            'conds': [
                d.weighted([(3, ['Always']), (2 if not in_nodes else 8, time_spec(d, 4)), (1, None)])
                for i in range(n)
            ],
            'term': [[ESU, ['AfterNPasses', d.int(1, 4), None]]],
            'probes': [[None, time_spec(d, 6)] for _ in range(d.int(1, 10))],
            'ops': ops_strategy(d, n, max_ops, cap), 'ctx': gen.context(d),
        }
        return case
    return s()


def long_ops(d):
    """a history of some hundred units of one kind"""
    k = d.int(257, 300)
    kind = d.int(0, 2)
    if kind == 0:
        return [['run', k + 10, [[ESU, ['AfterNPasses', k, None]]], False]]
    one = ['run', 4, [[ESU, ['AfterNPasses', 1, None]]], False]
    return [one] * k if kind == 1 else [one] + [['endseq']] * k + [one]


@st.composite
def strategy_long(draw, tier):
    d = D(draw)

    def spec():
        t = time_spec(d, 6)
        if len(t) > 1:
            t[1] = d.int(255, 301)
        return t
    return {
        'n': 1, 'kind': gen.node_kind(d), 'edges': [], 'conds': [d.pick([None, ['Always'], spec()])],
        'term': [[ESU, ['AfterNPasses', 1, None]]], 'probes': [[None, spec()] for _ in range(d.int(2, 5))],
        'ops': long_ops(d), 'ctx': gen.context(d),
    }


def run(case):
    pr = Prober(case)
    how = pr.run(case['ops'])
    both = sum(1 for v in pr.values if len(v) == 2)
    labels = {how}
    for (_, spec, _), v in zip(pr.probes, pr.values):
        if len(v) == 2:
            labels.add(spec[0])
    if ['endseq'] in case['ops']:
        labels.add('ended a sequence')
    return Result(pr.moments >= 3 and both >= 1 and how != 'blowup', labels)


def strategy_noscheduler():
    @st.composite
    def s(draw):
        d = D(draw)
        return {'spec': time_spec(d, 5)}
    return s()


def run_noscheduler(case):
    c = build.condition(case['spec'], Nodes('str', 3))
    for kw in ({}, {'scheduler': None}):
        try:
            v = c.is_satisfied(**kw)
        except gs.ConditionError:
            pass
        else:
            raise Violation(f'{case["spec"]} evaluated without a scheduler gave {v!r}, not ConditionError')
    return Result(True, [case['spec'][0]])


CHECK = Check(
    'C03',
    'A case is a small scheduling problem, a history of runs and ended sequences, and '
    'up to ten time conditions that are evaluated after every yield and run and compared '
    'with directly counted units; non-trivial: at least three moments, and at least one '
    'condition was observed both satisfied and unsatisfied.',
    [
        Sub('probe', lambda t: strategy(3, 6, 20, False) if t == 'quick' else strategy(5, 9, 40, False), run, 20000),
        Sub('nodes', lambda t: strategy(4, 6, 30, True) if t == 'quick' else strategy(6, 9, 60, True), run, 16000),
        Sub('long', strategy_long, run, 300),
        Sub('no-scheduler', lambda t: strategy_noscheduler(), run_noscheduler, 200, 400),
    ],
    assumptions=['conditions counting passes or consideration set executions are relative to a run, sequence or the scheduler\'s life (finer history is not kept by default)'],
)
