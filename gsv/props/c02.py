"""C02: a run yields exactly what the documented algorithm prescribes."""
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import build, gen
from gsv.core import Check, Result, Sub, check_equal
from gsv.drive import Problem, follow, term_objects, term_spec
from gsv.gen import ESU, LIFE, SEQ, D
from gsv.model import Tracker, useable_pairs


MODES = [gs.SchedulingMode.STANDARD, gs.SchedulingMode.EXACT_TIME]


def widen_ts(spec):
    """termination conditions: counts over runs or longer, no first-n-times"""
    name = spec[0]
    if name in ('All', 'Any'):
        return [name, [widen_ts(c) for c in spec[1]]]
    if name == 'Not':
        return [name, widen_ts(spec[1])]
    if name == 'NWhen':
        return widen_ts(spec[1])
    if name in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCallsCombined'):
        return [*spec[:3], spec[3] if spec[3] in (None, ESU, SEQ, LIFE) else ESU]
    if name == 'AllHaveRun':
        return [*spec[:2], spec[2] if spec[2] in (None, ESU, SEQ, LIFE) else ESU]
    if name == 'EveryNCalls':
        # needs an owner
        return ['AfterNCalls', spec[1], spec[2], None]
    return spec


def termination(d, n):
    res = []
    k = d.int(0, 7)
    if k <= 3:
        res.append([ESU, ['AfterNPasses', d.int(1, 6), d.pick([None, ESU, SEQ, LIFE])]])
    elif k == 4:
        res.append([ESU, ['AfterNCalls', d.int(0, n - 1), d.int(1, 4), d.pick([None, SEQ, LIFE])]])
    elif k == 5:
        res.append([ESU, widen_ts(gen.condition(d, n, None, 1, nwhen=False))])
    # else default
    if d.chance(1, 3):
        k = d.int(0, 3)
        if k == 0:
            spec = ['AfterNEnvironmentStateUpdates', d.int(1, 4), d.pick([None, SEQ, LIFE])]
        elif k == 1:
            spec = ['AfterNCalls', d.int(0, n - 1), d.int(1, 6), d.pick([SEQ, LIFE])]
        elif k == 2:
            spec = ['AfterNConsiderationSetExecutions', d.int(1, 12), d.pick([SEQ, LIFE])]
        else:
            spec = widen_ts(gen.condition(d, n, None, 1, nwhen=False))
        res.append([SEQ, spec])
    return res


def counts_only(d, n, owner):
    """no conditions on time, which is unspecified after an abandoned run"""
    k = d.int(0, 5)
    if k == 0:
        return None
    if k == 1:
        return [d.pick(['All', 'Any']), [gen.node_condition(d, n, owner) for _ in range(2)]]
    if k == 2:
        return ['Not', gen.node_condition(d, n, owner)]
    return gen.node_condition(d, n, owner)


def counts_termination(d, n):
    res = []
    if d.bool():
        res.append([ESU, ['AfterNCallsCombined', d.subset(range(n), 1), d.int(1, 6), d.pick([None, ESU, SEQ, LIFE])]])
    if d.chance(1, 4):
        res.append([SEQ, ['AfterNCalls', d.int(0, n - 1), d.int(2, 6), d.pick([SEQ, LIFE])]])
    return res


def make_strategy(max_n, max_ops, cap, focus=None):
    @st.composite
    def strategy(draw):
        d = D(draw)
        n = d.int(1, max_n)
        case = {
            'n': n,
            'kind': gen.node_kind(d),
            'edges': gen.dag_edges(d, n),
        }
        if d.bool():
            case['key_order'] = d.perm(n)
        conds = []
        for i in range(n):
            if focus == 'calls':
                c = None if d.chance(1, 4) else gen.node_condition(d, n, i)
                if c is not None and d.chance(1, 5):
                    c = ['Any', [c, ['AtPass', d.int(0, 2), None]]]
            elif focus == 'moved':
                dep = d.pick([j for j in range(n) if j != i] or [i])
                c = d.weighted([
                    (3, ['EveryNCalls', dep, d.int(1, 3)]), (2, gen.node_condition(d, n, i)), (1, ['Always']),
                    (1, [d.pick(['All', 'Any']), [['EveryNCalls', dep, d.int(1, 3)], gen.node_condition(d, n, i)]]),
                ])
            elif focus == 'abandoned':
                c = counts_only(d, n, i)
            elif focus == 'same-set':
                c = d.weighted([
                    (2, ['Always']), (1, None),
                    (5, gen.node_condition(d, n, i)),
                    (1, ['NWhen', gen.node_condition(d, n, i), d.int(0, 3)]),
                ])
            else:
                c = None if d.chance(1, 4) else gen.condition(d, n, i)
            conds.append(c)
        case['conds'] = conds
        if focus == 'same-set':
            case['edges'] = case['edges'][:d.int(0, 2)]
        term = counts_termination if focus == 'abandoned' else termination
        case['term'] = term(d, n)
        if case['edges'] and d.chance(1, 4):
            case['late'] = d.subset(range(len(case['edges'])))
        changing = focus in ('changing', 'moved')
        if changing:
            # implicit conditions are those of the graph at the first run
            case['conds'] = [c if c is not None else ['Always'] for c in conds]
        ops = []
        for _ in range(d.int(2 if changing else 1, max_ops + (3 if changing else 0))):
            if d.chance(1, 5):
                ops.append(['endseq'])
            elif changing and d.chance(1, 3):
                ops.append(['graph', gen.dag_edges(d, n)])
            elif changing and n > 1 and d.chance(1, 5):
                i, j = d.perm(n)[:2]
                ops.append(['move', i, j])
            elif focus == 'exact' and d.chance(1, 4):
                ops.append(['mode'])
            elif changing and d.chance(1, 3):
                i = d.int(0, n - 1)
                ops.append(['cond', i, gen.condition(d, n, i)])
            else:
                ops.append([
                    'run', cap,
                    term(d, n) if d.chance(1, 3) else None,
                    d.chance(1, 10),
                ])
                if focus == 'abandoned' and d.bool():
                    # given up after some sets
                    ops[-1] = ['abandon', d.int(0, 6), *ops[-1][2:], d.bool()]
        if focus == 'moved':
            run_op = ['run', cap, [[ESU, ['AfterNPasses', d.int(2, 5), None]]], False]
            ops = [run_op]
            for _ in range(d.int(1, 3)):
                if n > 1:
                    ops.append(['move', *d.perm(n)[:2]])
                if d.chance(1, 3):
                    i = d.int(0, n - 1)
                    ops.append(['cond', i, gen.node_condition(d, n, i)])
                if d.chance(2, 3):
                    ops.append(run_op)
            ops.append(run_op)
        if focus == 'exact':
            # all nodes are one consideration set
            case['exact'] = d.chance(3, 4)
        case['ops'] = ops
        case['ctx'] = gen.context(d)
        return case
    return strategy()


def run(case):
    exact = case.get('exact')
    p = Problem(case, **({} if exact is None else {'mode': MODES[exact]}))
    model = p.model(one_set=bool(exact))
    tracker = Tracker(model)
    s = p.scheduler
    history = []
    kept = []
    labels = set()
    if any(op[0] == 'move' for op in case['ops']):
        # any condition may become one of any node
        every = [c for c in model.conds] + [op[2] for op in case['ops'] if op[0] == 'cond']
        model.set_pairs(set().union(*[useable_pairs(c, i) for c in every for i in range(p.n)]))
        tracker = Tracker(model)
    elif any(op[0] == 'cond' for op in case['ops']):
        model.set_pairs(set(model.pairs).union(*[
            useable_pairs(op[2], op[1]) for op in case['ops'] if op[0] == 'cond'
        ]))
        tracker = Tracker(model)
    if case.get('late'):
        labels.add('edges added later')
    for op in case['ops']:
        before = tracker.clone() if op[0] == 'abandon' else None
        if op[0] == 'endseq':
            s.end_environment_sequence(**p.ctx_kw)
            tracker.end_sequence()
            labels.add('ended a sequence')
            continue
        if op[0] == 'mode':
            exact = not exact
            s.mode = MODES[exact]
            model.one_set = exact
            model.set_graph(p.graph)
            model.set_confluent()
            labels.add('mode changed')
            continue
        if op[0] == 'graph':
            p.change_graph(op[1])
            model.set_graph(p.graph)
            model.set_confluent()
            labels.add('graph changed')
            continue
        if op[0] == 'move':
            # the condition of one node is given to another one
            _, i, j = op
            c = s.conditions.conditions_basic[p.nodes.get(i)]
            s.remove_condition(c)
            s.add_condition(p.nodes.get(j), c)
            s.add_condition(p.nodes.get(i), gs.Always())
            model.conds[j] = model.conds[i]
            model.conds[i] = ['Always']
            model.set_confluent()
            tracker.forget(j)
            tracker.move(i, j)
            labels.add('condition moved')
            continue
        if op[0] == 'cond':
            _, i, spec = op
            s.add_condition(p.nodes.get(i), build.condition(spec, p.nodes))
            model.conds[i] = spec
            model.set_confluent()
            tracker.forget(i)
            labels.add('condition replaced')
            continue
        _, cap, raw, skip = op[:4]
        term = term_spec(raw, p.term)
        generator = s.run(
            termination_conds=term_objects(raw, p.nodes),
            skip_environment_state_update_time_increment=skip,
            **p.ctx_kw
        )
        how = follow(p, tracker, generator, term, cap, skip, history)
        if op[0] == 'abandon' and how == 'cap':
            # a generator that was not started has not done anything
            if cap == 0:
                tracker = before
            if op[4]:
                generator.close()
            kept.append(generator)
            labels.add('abandoned')
            continue
        labels.add(how)
        if how != 'end':
            break
    if 'blowup' not in labels:
        check_equal(
            [p.idx(x) for x in s.execution_list.get(p.ctx, ())], history,
            'execution list'
        )
    if len(history) > 20:
        labels.add('more than 20 sets')
    if any(len(h) == 0 for h in history):
        labels.add('empty pass')
    if model.branched:
        labels.add('order dependent set')
    if len([o for o in case['ops'] if o[0] == 'run']) > 1:
        labels.add('several runs')
    distinct = {c[0] for c in case['conds'] if c is not None}
    nontrivial = len(history) >= 2 and 'blowup' not in labels and len(distinct) >= 1
    return Result(nontrivial, labels)


@st.composite
def large(draw, max_n, cap):
    d = D(draw)
    n = d.int(7, max_n)
    case = {'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n)}
    conds = [None if d.bool() else gen.condition(d, n, i, 1) for i in range(n)]
    case['conds'] = gen.insensitive_conditions(conds, n, case['edges'])
    case['term'] = termination(d, n)
    case['ops'] = [
        ['endseq'] if d.chance(1, 6) else
        ['run', cap, termination(d, n) if d.chance(1, 3) else None, False]
        for _ in range(d.int(1, 3))
    ]
    return case


def strat(focus=None):
    def f(tier):
        if focus == 'large':
            return large(12, 25) if tier == 'quick' else large(16, 50)
        if tier == 'quick':
            return make_strategy(5, 4, 30, focus)
        return make_strategy(8, 6, 60, focus)
    return f


CHECK = Check(
    'C02',
    'A case is a DAG, a basic or composite condition (or none) per node, termination '
    'conditions and a sequence of runs / ended sequences; non-trivial: at least two '
    'sets were yielded, some node has an explicit condition, and the reference '
    'interpreter followed the run to its end (or to the cap on yielded sets).',
    [
        Sub('mixed', strat(), run, 18000),
        Sub('calls', strat('calls'), run, 9000),
        Sub('same-set', strat('same-set'), run, 9000),
        Sub('changing', strat('changing'), run, 6000),
        Sub('moved', strat('moved'), run, 3000),
        Sub('exact', strat('exact'), run, 5000),
        Sub('large', strat('large'), run, 2000),
        Sub('abandoned', strat('abandoned'), run, 6000),
    ],
    assumptions=[
        'conditions relative to a pass or a consideration set execution are only used for call counts (the clock keeps no finer history by default)',
        'first-n-times conditions are only used at the top level of a node condition (evaluation order inside composites is unspecified)',
        'the order of consideration within a set is unspecified; every order is accepted',
    ],
)
