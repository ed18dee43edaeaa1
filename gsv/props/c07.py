"""C07: absolute conditions act at exactly the stated times."""
from fractions import Fraction

from hypothesis import strategies as st

from gsv import gen
from gsv.absolute import AbsProblem, changing_case, far_case, gen_case, leaves, many_case, units_case
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.model import State, Tracker, in_interval, satisfied


def necessary_times(spec, lo, hi):
    """times at which the interval condition changes what may happen"""
    _, rep, start, end, si, ei, _ = spec
    first = start if start is not None else 0
    last = min(hi, end) if end is not None else hi
    res = set()
    if rep is not None:
        t = Fraction(first)
        while t <= last:
            res.add(t)
            t += rep
    elif start is not None:
        res.add(Fraction(start))
    if rep is None and end is not None and ei:
        res.add(Fraction(end))
    return {t for t in res if lo <= t < hi and in_interval(spec, t, None)}


#: conditions that do not change within a set
AT_ZERO = gen.TIME_CSE + gen.TIME_PASS + gen.TIME_ESU + gen.TIME_SEQ + gen.TIME_START


def holds_at_zero(spec, source):
    """at time 0, before any execution: True, False or None (not known)"""
    if spec is None:
        return True if source else None
    name = spec[0]
    if name == 'TimeInterval':
        return bool(in_interval(spec, Fraction(0), None))
    if name == 'Always':
        return True
    if name == 'Never':
        return False
    if name in AT_ZERO:
        return satisfied(spec, State(1, set()), 0, 1)
    if name == 'Not':
        x = holds_at_zero(spec[1], source)
        return None if x is None else not x
    if name in ('All', 'Any'):
        got = {holds_at_zero(c, source) for c in spec[1]}
        decisive = name == 'Any'
        if decisive in got:
            return decisive
        return None if None in got else not decisive
    return None


def run(case):
    p = AbsProblem(case)
    tracker = Tracker(p.model())
    labels = {'exact' if case['exact'] else 'standard'}
    executed = considered = 0
    prev = None
    for k, (spec, endseq, *change) in enumerate(case['runs']):
        for ch in change:
            p.change(ch, tracker)
            labels |= {f'{x} changed' for x in ch}
        r = p.run(spec, 60 * p.n_layers, tracker)
        labels.add(r.how)
        if k > 0:
            labels.add('several runs')
        hi = r.end if r.how == 'end' else (r.times[-1] if r.times else None)
        if k == 0 and r.absolute and r.times:
            # some node executes at time 0 unless none may
            receivers = {b for _, b in case['edges']}
            if any(holds_at_zero(c, i not in receivers) and (i not in receivers or p.exact)
                   for i, c in enumerate(p.conds)):
                labels.add('starts at 0')
                limit = Fraction(0) if p.exact else r.step * p.n_layers
                check(r.times[0] <= limit,
                      'the first set is executed at {} although a node may at 0', r.times[0])
        if r.absolute and r.times and hi is not None:
            visited = set(r.times)
            for i, c in enumerate(p.conds):
                for leaf in leaves(c):
                    if leaf[0] != 'TimeInterval':
                        continue
                    if p.exact:
                        lo = prev if prev is not None else Fraction(0)
                        need = necessary_times(leaf, max(lo, Fraction(leaf[2] or 0)), hi)
                        missed = sorted(need - visited)
                        if missed:
                            raise Violation(
                                f'times {[str(t) for t in missed[:5]]} of {leaf[:6]} are skipped; '
                                f'the run visits {[str(t) for t in r.times]} and ends at {hi}'
                            )
                if c is not None and c[0] == 'TimeInterval':
                    # explicit statement for plain intervals
                    ran = {t for t, s in zip(r.times, r.sets) if i in s}
                    executed += len(ran)
                    considered += len(r.times)
                    if p.exact or p.n_layers == 1:
                        want = {t for t in r.times if in_interval(c, t, None)}
                        check_equal(sorted(ran), sorted(want), f'times at which node {i} ran')
                    elif c[1] is not None:
                        # phase: multiples of repeat after the layer's offset
                        for t in ran:
                            check((t - p.layer[i] * r.step) % c[1] == 0,
                                  'node {} of layer {} ran at {} with step {}, repeat {}',
                                  i, p.layer[i], t, r.step, c[1])
                        # no repetition is skipped while the run lasts
                        t = max(r.times[0] - r.times[0] % c[1] - p.n_layers * c[1], Fraction(0))
                        while t + p.layer[i] * r.step < hi:
                            at = t + p.layer[i] * r.step
                            if at >= r.times[0] and in_interval([*c[:1], None, *c[2:]], at, None):
                                check(at in ran, 'node {} of layer {} did not run at {} (ran at {})',
                                      i, p.layer[i], at, sorted(map(str, ran)))
                            t += c[1]
        if spec[0] == 'TimeTermination' and r.how == 'end':
            labels.add('time termination')
            t, inc = spec[1], spec[2]
            if r.times:
                check(r.times[-1] < t if inc else r.times[-1] <= t,
                      'a set was executed at {} although the run ends at {} (inclusive {})', r.times[-1], t, inc)
            check(r.end >= t if inc else r.end > t, 'ended at {} before {}', r.end, t)
            if p.exact and r.times and inc:
                check_equal(r.end, Fraction(t), 'end of the run')
        if r.how != 'end':
            break
        prev = r.end
        if endseq:
            p.scheduler.end_environment_sequence(**p.ctx_kw)
            tracker.end_sequence()
            labels.add('ended a sequence')
    for c in p.conds:
        labels |= {x[0] for x in leaves(c) if x[0] == 'TimeInterval'}
        if c is not None and c[0] in ('All', 'Any', 'Not', 'NWhen') and any(
            x[0] == 'TimeInterval' for x in leaves(c)
        ):
            labels.add(f'{c[0]} of intervals')
    nontrivial = executed > 0 and considered > executed or (
        any('of intervals' in x for x in labels) and considered >= 0 and bool(r.times)
    )
    return Result(nontrivial, labels)


@st.composite
def many(draw, tier):
    return many_case(D(draw))


@st.composite
def units(draw, tier):
    return units_case(D(draw))


@st.composite
def changing(draw, tier):
    return changing_case(D(draw), 4 if tier == 'quick' else 6)


def strat(exact, make=gen_case):
    @st.composite
    def strategy(draw, tier):
        return make(D(draw), 4 if tier == 'quick' else 6, 3, exact)

    return lambda tier: strategy(tier)


CHECK = Check(
    'C07',
    'A case is a graph with interval (or composite, or non-absolute) conditions, all times multiples of a '
    'quantum written in random units and notations, and one to three runs ended by time terminations or '
    'numbers of passes; non-trivial: a node with a plain interval ran at some but not all visited times, '
    'or composites of intervals were evaluated.',
    [
        Sub('exact', strat(True), run, 4000),
        Sub('standard', strat(False), run, 3200),
        Sub('many', lambda t: many(t), run, 800),
        Sub('units', lambda t: units(t), run, 1000),
        Sub('changing', lambda t: changing(t), run, 1500),
        Sub('far', strat(True, far_case), run, 1200),
        Sub('far-standard', strat(False, far_case), run, 1200),
    ],
    assumptions=[
        'standard mode: starts are multiples of every pass length and only the last run may end within a pass (other phases are documented as inexact)',
        'times are exactly representable with at most 6 decimals in the unit they are written in (8 are documented)',
        'intervals are not used as termination conditions (documented as unexpected)',
    ],
)
