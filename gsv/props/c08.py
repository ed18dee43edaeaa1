"""C08: the absolute timeline is uniform, complete, independent of units."""
import math
from fractions import Fraction

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv.absolute import (
    QUANTA, UNITS, AbsProblem, changing_case, far_case, gen_case, is_absolute, leaves, microseconds, notation,
    units_for, write_group,
)
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D

COUNTS = [
    ('consideration_set_execution', 0), ('pass_', 1), ('environment_state_update', 2),
    ('environment_sequence', 3), ('life', 4),
]


def run_all(case, p, cap):
    res = []
    for spec, endseq, *change in case['runs']:
        for ch in change:
            p.change(ch)
        r = p.run(spec, cap)
        r.exact, r.n_layers, r.conds, r.default, r.grid = p.exact, p.n_layers, list(p.conds), p.default, p.grid
        r.total_sets = len(p.scheduler.execution_list[p.ctx])
        res.append(r)
        if r.how != 'end':
            break
        if endseq:
            p.scheduler.end_environment_sequence(**p.ctx_kw)
    return res


def run_timeline(case):
    p = AbsProblem(case)
    cap = 60 * len(p.layer)
    labels = {'exact' if case['exact'] else 'standard'}
    last = Fraction(0)
    total = 0
    updates = seqs = 0
    for k, r in enumerate(run_all(case, p, cap)):
        spec, endseq, *change = case['runs'][k]
        labels |= {f'{x} changed' for ch in change for x in ch}
        n_sets = r.total_sets - total
        total = r.total_sets
        check_equal(n_sets, len(r.sets), 'sets added to the execution list by the run')
        if not r.absolute:
            labels.add('run without absolute conditions')
            check_equal(len(r.stamps), 0, 'timestamps of a run without absolute conditions')
            check(all(t == r.times[0] for t in r.times), 'absolute time passes: {}', r.times)
        else:
            times = [p.snap(microseconds(t.absolute, 'timestamp') / p.q, r.grid) for t in r.stamps]
            check_equal(len(r.stamps), len(r.sets), 'number of timestamps')
            check_equal(times, r.times, 'timestamps compared to the clock at the yields')
            if times:
                labels.add(f'{min(len(times), 5)}+ steps')
                check(times[0] >= last, 'time goes back from {} to {}', last, times[0])
                step = r.step
                check(step > 0, 'step {} is not positive', step)
                for a, b in zip(times, times[1:]):
                    check_equal(b - a, step, 'distance of timestamps')
                if r.how == 'end':
                    check_equal(r.end - times[-1], step, 'distance of the end of the run from its last set')
            # sizes
            abs_conds = [
                x for c in [*r.conds, spec] for x in leaves(c) if is_absolute(x)
            ]
            per_pass = r.step * (1 if r.exact else r.n_layers)
            reps = [x[1] for x in abs_conds if x[0] == 'TimeInterval' and x[1] is not None]
            for rep in reps:
                check(rep % per_pass == 0, 'repeat {} is not a whole number of steps/passes ({})', rep, per_pass)
            if reps and not r.exact:
                labels.add('step from repeats')
                check_equal(per_pass, Fraction(math.gcd(*reps)), 'length of a pass')
            determined = bool(reps)
            if r.exact:
                for x in abs_conds:
                    if x[0] == 'TimeInterval':
                        determined = determined or bool(x[2]) or bool(x[3] and x[5])
                    else:
                        determined = determined or bool(x[1] and x[2])
            if not determined:
                labels.add('default step')
                check_equal(r.step, r.default, 'step not determined by any condition')
            # counts carried by the timestamps
            width = r.n_layers
            for j, t in enumerate(r.stamps):
                check_equal(
                    [getattr(t, a) for a, _ in COUNTS],
                    [j % width, j // width, updates, seqs, 0],
                    f'counts of timestamp {j} of a run'
                )
                check(t.absolute_enabled is True, 'absolute time not enabled in timestamp')
            last = r.end if r.end is not None else last
        updates += 1
        if endseq and r.how == 'end':
            updates = 0
            seqs += 1
    return Result('default step' in labels or total >= 3, labels)


def run_units(case):
    """the same times in other units and notations: same everything"""
    a, b = AbsProblem(case), AbsProblem(case, alt=1)
    cap = 40 * a.n_layers
    ra, rb = run_all(case, a, cap), run_all(case, b, cap)
    check_equal([r.sets for r in rb], [r.sets for r in ra], 'sets with other notations')
    check_equal([r.times for r in rb], [r.times for r in ra], 'times with other notations')
    return Result(sum(len(r.sets) for r in ra) >= 3, {'notations'})


def run_scale(case):
    """all times multiplied by a factor: same sets, scaled times"""
    q2 = QUANTA[case['q2']]
    a, b = AbsProblem(case), AbsProblem(case, q=q2, alt=1)
    cap = 40 * a.n_layers
    ra, rb = run_all(case, a, cap), run_all(case, b, cap)
    check_equal([r.sets for r in rb], [r.sets for r in ra], 'sets with scaled times')
    # both are in units of their quantum
    check_equal([r.times for r in rb], [r.times for r in ra], 'times with scaled times')
    return Result(sum(len(r.sets) for r in ra) >= 3 and case['q'] != case['q2'], {'scaled'})


def run_parse(case):
    """one time in all notations means the same to each condition class"""
    value = Fraction(case['value'][0]) * Fraction(10) ** case['value'][1]
    hows = case['hows']
    labels = set()
    for how in hows:
        (arg,), unit = write_group([value], [how], how[1] % 2 == 0)
        kw = {} if unit is None else {'unit': unit}
        labels.add(how[0])
        for what, cond, attr in [
            ('repeat', lambda: gs.TimeInterval(repeat=arg, **kw), 'repeat'),
            ('start', lambda: gs.TimeInterval(start=arg, **kw), 'start'),
            ('end', lambda: gs.TimeInterval(end=arg, **kw), 'end'),
            ('t', lambda: gs.TimeTermination(arg, **kw), 't'),
        ]:
            got = getattr(cond(), attr)
            check_equal(microseconds(got, what), value, f'{what} given as {arg!r} {kw}')
    return Result(len({h[0] for h in hows}) > 1, labels)


def strat(make, exact=None, scale=False, comparing=False):
    @st.composite
    def strategy(draw, tier):
        d = D(draw)
        case = make(d, 4 if tier == 'quick' else 6, 3, exact if exact is not None else d.bool())
        if comparing:
            # the order within a consideration set must be the same
            case['kind'] = [d.pick(['str', 'int', 'word', 'tuple']), case['kind'][1]]
        if scale:
            case['q2'] = d.int(0, len(QUANTA) - 1)
            if case['default'] is None:
                case['default'] = [1, notation(d), notation(d)]
        return case

    return lambda tier: strategy(tier)


@st.composite
def changing(draw, tier):
    return changing_case(D(draw), 4 if tier == 'quick' else 6)


@st.composite
def parse_strategy(draw, tier):
    d = D(draw)
    digits = d.int(1, 9)
    return {
        'value': [d.int(0, 10 ** digits), d.int(-3, 6)],
        'hows': [notation(d) for _ in range(d.int(1, 5))],
    }


CHECK = Check(
    'C08',
    'A case is a scheduling problem with absolute conditions (see C07) run one to three times; non-trivial: at '
    'least three sets were executed or the step was the default one.  For notations: at least two different ones.',
    [
        Sub('timeline', strat(gen_case), run_timeline, 2500),
        Sub('timeline-far', strat(far_case), run_timeline, 600),
        Sub('changing', lambda t: changing(t), run_timeline, 1200),
        Sub('notations', strat(gen_case, comparing=True), run_units, 1200),
        Sub('notations-far', strat(far_case, comparing=True), run_units, 400),
        Sub('scaling', strat(gen_case, scale=True, comparing=True), run_scale, 1200),
        Sub('parsing', lambda tier: parse_strategy(tier), run_parse, 3000),
    ],
    assumptions=[
        'the standard mode domain restrictions of C07 apply',
        'times are exactly representable with at most 6 decimals in the unit they are written in',
    ],
)
