"""C17: clock and time history count every event in its proper scope."""
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import CSE, D, ESU, LIFE, PASS, SEQ

TS = gs.TimeScale
ATTRS = {CSE: 'consideration_set_execution', PASS: 'pass_', ESU: 'environment_state_update',
         SEQ: 'environment_sequence', LIFE: 'life'}


def incrementer(obj):
    """the method that advances a clock or time"""
    names = [x for x in dir(type(obj)) if 'increment' in x]
    return getattr(obj, sorted(names)[0])


def increments(d, max_ops):
    """runs of the same increment, nested like a real history or arbitrary"""
    style = d.int(0, 2)
    res = []
    for _ in range(d.int(0, max_ops)):
        if style == 0:
            ts = d.int(CSE, SEQ)
        elif style == 1:
            ts = d.pick([CSE, CSE, CSE, PASS, PASS, ESU, SEQ])
        else:
            ts = d.pick([CSE, PASS, PASS, ESU, ESU, SEQ])
        res.append([ts, d.int(1, 3)])
    return res


def strategy(max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        return {
            'depth': d.pick([ESU, PASS, SEQ]),
            'ops': increments(d, max_ops),
            'queries': [
                [d.int(CSE, LIFE), [d.pick([None, 0, 1, 2, 3]) for _ in range(3)]]
                for _ in range(d.int(1, 6))
            ],
        }
    return s()


class History:
    """The reference: every increment with the time it happened at"""
    def __init__(self):
        self.now = {ts: 0 for ts in range(5)}
        self.events = []

    def increment(self, ts):
        self.events.append((ts, dict(self.now)))
        self.now[ts] += 1
        for x in range(ts):
            self.now[x] = 0

    def count(self, query, scope):
        """scope: {ts: index}"""
        return sum(
            1 for ts, at in self.events
            if ts == query and all(at[k] == v for k, v in scope.items())
        )

    def latest(self, ts, scope):
        """index of the latest unit ts within the scope; None: no such scope"""
        return self.count(ts, scope)

    def resolve(self, base, indices):
        """full scope of base, unspecified coarser units are the latest ones;
        None if it never existed"""
        scope = {}
        for ts in (SEQ, ESU, PASS):
            if ts < base:
                break
            latest = self.latest(ts, scope)
            i = indices.get(ts)
            if i is None:
                i = latest
            if i > latest:
                return None
            scope[ts] = i
        return scope


def time_values(t):
    return {ts: getattr(t, ATTRS[ts]) for ts in ATTRS}


def check_query(tree, h, depth, query, indices, what):
    """indices: {ts: index} for some of SEQ, ESU, PASS"""
    finer = [ts for ts in indices if indices[ts] is not None and ts > query]
    base = min(finer, default=LIFE)
    arg = {TS(ts): i for ts, i in indices.items() if i is not None}
    try:
        got = tree.get_total_times_relative(TS(query), arg or None)
    except gs.time.TimeScaleError:
        got = 'error'
    if query >= LIFE or base < depth:
        want = 'error'
    else:
        # indices finer than the base have no meaning
        scope = h.resolve(base, {ts: i for ts, i in indices.items() if ts >= base})
        want = 'error' if scope is None else h.count(query, scope)
    check_equal(got, want, f'{what}: number of {query} within {indices}')
    # the caller may ask with the same dictionary again
    check_equal(arg, {TS(ts): i for ts, i in indices.items() if i is not None}, 'dictionary given to the query')
    return got


def check_tree(node, h, scope, depth):
    ts = node.time_scale.value
    check_equal(node.time_scale, TS(ts), 'time scale')
    check_equal(
        {k.value: v for k, v in node.total_times.items()},
        {k: h.count(k, scope) for k in range(ts)},
        f'total times of {ts} {scope}'
    )
    check_equal(node.max_depth, TS(depth), 'depth')
    check_equal(node.child_time_scale, TS(ts - 1), 'child time scale')
    if ts - 1 < depth:
        check_equal(len(node.children), 0, 'children below the maximum depth')
        return
    check_equal(len(node.children), h.latest(ts - 1, scope) + 1, f'units of {ts - 1} in {scope}')
    for i, child in enumerate(node.children):
        check_equal(child.index, i, 'index')
        check(child.parent is node, 'parent of a child is wrong')
        check_tree(child, h, {**scope, ts - 1: i}, depth)


def run_tree(case):
    depth = case['depth']
    tree = gs.TimeHistoryTree(max_depth=TS(depth)) if depth != ESU else gs.TimeHistoryTree()
    h = History()
    previous = None
    check(tree.previous_time is None, 'previous time before the first increment: {}', tree.previous_time)
    errors = answers = 0
    for ts, times in case['ops']:
        for _ in range(times):
            previous = dict(h.now)
            tree.increment_time(TS(ts))
            h.increment(ts)
            check_equal(time_values(tree.current_time), h.now, 'current time')
            check_equal(time_values(tree.previous_time), previous, 'previous time')
    check_tree(tree, h, {}, depth)
    values = set()
    for query, idx in case['queries']:
        got = check_query(tree, h, depth, query, dict(zip((SEQ, ESU, PASS), idx)), 'tree')
        errors += got == 'error'
        answers += got != 'error'
        values.add(got)
    # queries leave everything as it was
    check_tree(tree, h, {}, depth)
    check_equal(time_values(tree.current_time), h.now, 'current time after queries')
    if previous is not None:
        check_equal(time_values(tree.previous_time), previous, 'previous time after queries')
    # queries of parts are refused
    if tree.children:
        try:
            tree.children[0].get_total_times_relative(TS.CONSIDERATION_SET_EXECUTION)
        except gs.time.TimeScaleError:
            pass
        else:
            raise Violation('query of a part of the tree was not refused')
    return Result(
        len(h.events) > 1 and answers > 0 and values != {0},
        [f'depth {depth}'] + (['nonexistent scope'] if errors else []) + (['answered'] if answers else [])
    )


def strategy_clock(max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        ops = []
        for ts, times in increments(d, max_ops):
            ops.append(['inc', ts, times])
            if d.bool():
                base = d.pick([SEQ, ESU, LIFE, SEQ, ESU, PASS])
                query = d.int(CSE, base - 1) if d.chance(5, 6) else d.int(CSE, LIFE)
                ops.append(['ask', query, base, d.pick([None, None, 0, 1, 2, 3])])
        return {'ops': ops}
    return s()


def run_clock(case):
    clock = gs.Clock()
    h = History()
    answers = set()
    simple = clock.simple_time
    for op in case['ops']:
        if op[0] == 'inc':
            for _ in range(op[2]):
                incrementer(clock)(TS(op[1]))
                h.increment(op[1])
        else:
            _, query, base, index = op
            got, want = ask(clock, h, query, base, index)
            if want is not None:
                check_equal(got, want, f'number of {query} within {base} {index}')
                answers.add(got)
        check_equal(time_values(clock.time), h.now, f'time after {op}')
        for ts in range(5):
            check_equal(clock.get_time_by_time_scale(TS(ts)), h.now[ts], f'time of {ts}')
            check_equal(clock.time[TS(ts)], h.now[ts], f'time[{ts}]')
        for ts in (SEQ, ESU, CSE):
            check_equal(getattr(simple, ATTRS[ts]), h.now[ts], f'simple time of {ts}')
        check(clock.simple_time is simple, 'simple time was exchanged')
    return Result(len(h.events) > 1 and len(answers - {'error', 0}) > 0, [
        'error' if 'error' in answers else 'no error', f'{min(len(answers), 4)} answers'])


def ask(clock, h, query, base, index):
    """one query of a clock, -> (answer, expected answer or None)"""
    try:
        got = clock.get_total_times_relative(TS(query), TS(base), index) if index is not None \
            else clock.get_total_times_relative(TS(query), TS(base))
    except gs.time.TimeScaleError:
        got = 'error'
    if base == LIFE:
        # there is one life
        want = h.count(query, {}) if query < LIFE and not index else None
        if query >= LIFE:
            want = 'error'
    elif base <= query:
        # the base says nothing: not specified beyond being an answer
        want = None
    elif base < ESU:
        want = 'error'
    else:
        scope = h.resolve(base, {base: h.now[base] if index is None else index})
        want = 'error' if scope is None else h.count(query, scope)
    return got, want


def strategy_scheduled(max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        return {
            'layers': d.int(1, 3),
            'never': d.chance(1, 4),
            'absolute': d.chance(1, 3),
            'ops': [
                ['endseq'] if d.chance(1, 4) else ['run', d.int(0, 7), d.chance(1, 6)]
                for _ in range(d.int(1, max_ops))
            ],
            'queries': [
                [d.int(CSE, LIFE), d.pick([SEQ, ESU, LIFE, SEQ, ESU, PASS]), d.pick([None, None, 0, 1, 2, 3])]
                for _ in range(d.int(1, 4))
            ],
        }
    return s()


def run_scheduled(case):
    """the clock of a scheduler whose runs consist of known events"""
    names = 'ABC'[:case['layers']]
    s = gs.Scheduler({x: {names[k - 1]} if k else set() for k, x in enumerate(names)})
    for x in names:
        s.add_condition(x, gs.Never() if case['never'] else gs.Always())
    if case['absolute']:
        s.add_condition(names[0], gs.Any(gs.TimeInterval(repeat=3), gs.Never() if case['never'] else gs.Always()))
    # sets executed in a pass
    width = 1 if case['never'] and not case['absolute'] else case['layers']
    clock = s.get_clock()
    h = History()
    answers = set()

    def compare(what):
        check(s.get_clock() is clock, 'another clock')
        check_equal(time_values(clock.time), h.now, f'time {what}')
        check_equal(str(clock.simple_time.absolute), str(clock.time.absolute), f'absolute simple time {what}')
        for q in case['queries']:
            got, want = ask(clock, h, *q)
            if want is not None:
                check_equal(got, want, f'number of {q[0]} within {q[1:]} {what}')
                answers.add(got)

    for op in case['ops']:
        if op[0] == 'endseq':
            s.end_environment_sequence()
            h.increment(SEQ)
            compare('after an ended sequence')
            continue
        _, sets, skip = op
        seen = []
        for out in s.run(
            {TS.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: len(seen) >= sets)},
            skip_environment_state_update_time_increment=skip,
        ):
            if seen:
                h.increment(CSE)
                if len(seen) % width == 0:
                    h.increment(PASS)
            seen.append(out)
            compare(f'in set {len(seen)} of a run')
        check_equal(len(seen), sets, 'sets of the run')
        if seen:
            h.increment(CSE)
            # also for a pass that was not finished
            h.increment(PASS)
        if not skip:
            h.increment(ESU)
        compare('after a run')
    return Result(len(h.events) > 1 and len(answers - {'error', 0}) > 0, [
        'absolute' if case['absolute'] else 'nothing executed' if case['never'] else 'executed'])


@st.composite
def strategy_time(draw):
    d = D(draw)
    return {'values': [d.int(0, 9) for _ in range(5)],
            'ops': [[d.int(0, 2), d.int(0, 4), d.int(0, 9)] for _ in range(d.int(0, 8))],
            'given': d.subset(range(5)),
            # thousandths of the unit, whether in ms or s
            'absolute': [d.int(0, 9), d.bool()] if d.bool() else None,
            'interval': [d.int(1, 9), d.bool()] if d.bool() else None,
            'scale': d.int(0, 4) if d.bool() else None,
            'enabled': d.bool() if d.bool() else None}


def quantity(spec, default):
    """a time as it is given, and in ms"""
    if spec is None:
        return None, default
    n, seconds = spec
    return gs._unit_registry.Quantity(n, 's' if seconds else 'ms'), n * (1000 if seconds else 1)


def run_time(case):
    model = {ts: case['values'][ts] if ts in case['given'] else 0 for ts in range(5)}
    kwargs = {}
    kwargs['absolute'], absolute = quantity(case['absolute'], 0)
    kwargs['absolute_interval'], interval = quantity(case['interval'], 1)
    kwargs['absolute_time_unit_scale'] = None if case['scale'] is None else TS(case['scale'])
    kwargs['absolute_enabled'] = case['enabled']
    kwargs = {k: v for k, v in kwargs.items() if v is not None}
    t = gs.Time(**{ATTRS[ts]: case['values'][ts] for ts in case['given']}, **kwargs)
    for k, v in kwargs.items():
        check(getattr(t, k) == v, '{}: {} was given, is {}', k, v, getattr(t, k))
    scale = TS(case['scale'] or 0)
    check_equal(t.absolute_time_unit_scale, scale, 'time unit scale')
    check_equal(bool(t.absolute_enabled), bool(case['enabled']), 'whether absolute time is used')
    simple = gs.SimpleTime(t)
    for op, ts, v in [[3, 0, 0], *case['ops']]:
        if op == 0:
            t[TS(ts)] = v
            model[ts] = v
        elif op == 1:
            setattr(t, ATTRS[ts], v)
            model[ts] = v
        elif op == 2:
            incrementer(t)(TS(ts))
            model[ts] += 1
            for x in range(ts):
                model[x] = 0
            if case['enabled'] and TS(ts) == scale:
                absolute += interval
        check_equal(time_values(t), model, 'values')
        check_equal({x: t[TS(x)] for x in range(5)}, model, 'items')
        check_equal({x: simple[TS(x)] for x in range(5)}, model, 'items of simple time')
        for x in (CSE, ESU, SEQ):
            check_equal(getattr(simple, ATTRS[x]), model[x], f'{ATTRS[x]} of simple time')
        ms = t.absolute.to('ms').magnitude
        check(abs(ms - absolute) < 1e-6, 'absolute time: {} ms, not {}', absolute, t.absolute)
        check(simple.absolute == t.absolute, 'absolute simple time')
    # scales are ordered from fine to coarse
    for a in range(5):
        for b in range(5):
            check_equal((TS(a) < TS(b), TS(a) <= TS(b), TS(a) > TS(b), TS(a) >= TS(b)), (a < b, a <= b, a > b, a >= b), f'order of {TS(a)}, {TS(b)}')
        if a < 4:
            check_equal(TS.get_parent(TS(a)), TS(a + 1), 'parent')
            check_equal(TS.get_child(TS(a + 1)), TS(a), 'child')
    return Result(bool(case['given'] or kwargs) and bool(case['ops']),
                  ['absolute' if kwargs else 'counts only'])


CHECK = Check(
    'C17',
    'A case is a sequence of time increments with queries; non-trivial: at least two '
    'increments and a query answered by a positive number.',
    [
        Sub('tree', lambda t: strategy(10) if t == 'quick' else strategy(30), run_tree, 42000),
        Sub('clock', lambda t: strategy_clock(10) if t == 'quick' else strategy_clock(40), run_clock, 42000),
        Sub('scheduled', lambda t: strategy_scheduled(4) if t == 'quick' else strategy_scheduled(12), run_scheduled, 6000),
        Sub('time', lambda t: strategy_time(), run_time, 3000, 20000),
    ],
    assumptions=['indices are not negative'],
)
