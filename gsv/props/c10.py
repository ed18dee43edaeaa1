"""C10: execution contexts are isolated from one another."""
from hypothesis import strategies as st

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gsv import build, gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.drive import Problem, term_objects
from gsv.gen import ESU, LIFE, SEQ, D
from gsv.model import END, Model, State, TooManyStates, Tracker, satisfied

FIELDS = ['consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life']


class Ctx:
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f'Ctx({self.key})'


class OwnCtx(Ctx):
    """has an execution id of its own, as compositions of models have"""

    @property
    def default_execution_id(self):
        return ('own', str(self.key))


def context(i, kind):
    """hashable execution ids; equal but not identical where possible"""
    if kind == 'own':
        return kind_cache.setdefault(('own', i), OwnCtx(i))
    if kind == 'falsy':
        # false in a boolean context, all different
        return ['default', '', 0, (), None, frozenset()][i]
    if kind == 'text':
        # different, but written the same
        return ['1', 1, 'None', None, '()', ()][i]
    if kind == 'falsy2':
        return [0, None, '', 'x', ()][i]
    if kind == 'mixed':
        kind = ['none', 'int', 'str', 'tuple', 'float'][i % 5]
    if kind == 'none':
        return None if i == 0 else ('c', i)
    if kind == 'int':
        return int(str(i))
    if kind == 'str':
        return ''.join(['context', str(i)])
    if kind == 'tuple':
        return ('c', str(i))
    if kind == 'float':
        return i / 2
    return kind_cache.setdefault(i, Ctx(i))


kind_cache = {}


class Side:
    """one scheduler and the runs in progress in its contexts"""

    def __init__(self, case):
        self.p = Problem(case, default_execution_id=context(0, case['ids']))
        self.case = case
        self.active = {}
        self.log = {}
        self.default = 0

    def id_args(self, c):
        if c == self.default and self.case['implicit']:
            return {}
        return {'execution_id': context(c, self.case['ids'])}

    def step(self, c, raw):
        """start a run in the context, or advance the one in progress"""
        log = self.log.setdefault(c, [])
        if c not in self.active:
            self.active[c] = self.p.scheduler.run(
                termination_conds=term_objects(raw, self.p.nodes), **self.id_args(c)
            )
        try:
            out = sorted(self.p.idx(next(self.active[c])))
        except StopIteration as e:
            del self.active[c]
            out = 'end'
            check(e.value is None or e.value == self.p.scheduler.execution_list[context(c, self.case['ids'])],
                  'value of the run')
        log.append((out, self.times(c)))

    def endseq(self, c):
        self.p.scheduler.end_environment_sequence(**self.id_args(c))
        self.log.setdefault(c, []).append(('endseq', self.times(c)))

    def times(self, c):
        t = self.p.scheduler.get_clock(context(c, self.case['ids'])).time
        return [getattr(t, f) for f in FIELDS] + [str(t.absolute)]

    def lists(self, c):
        s = self.p.scheduler
        i = context(c, self.case['ids'])
        return (
            [sorted(self.p.idx(x)) for x in s.execution_list.get(i, [])],
            [str(t) for t in s.execution_timestamps.get(i, [])],
        )


def apply(side, op):
    if op[0] == 'step':
        for _ in range(op[3]):
            side.step(op[1], op[2])
    elif op[0] == 'endseq':
        # only between runs
        if op[1] not in side.active:
            side.endseq(op[1])
    elif op[0] == 'default':
        side.p.scheduler.default_execution_id = context(op[1], side.case['ids'])
        side.default = op[1]


def prepare(case):
    """time intervals make a problem absolute"""
    return case


def run_interleaved(case):
    together = Side(case)
    todo = list(range(len(case['ops'])))
    busy = set()
    nested = []

    def advance(k):
        todo.remove(k)
        op = case['ops'][k]
        busy.add(op[1])
        apply(together, op)
        busy.discard(op[1])

    def within():
        # go on in another context while a condition is evaluated
        k = next((k for k in todo if case['ops'][k][1] not in busy), None)
        if k is not None:
            nested.append(k)
            advance(k)

    together.p.hook = within
    while todo:
        advance(todo[0])
    used = sorted({op[1] for op in case['ops']})
    switches = sum(a[1] != b[1] for a, b in zip(case['ops'], case['ops'][1:]))
    for c in used:
        alone = Side(case)
        for op in case['ops']:
            if op[1] == c or op[0] == 'default':
                apply(alone, op)
        check_equal(together.log.get(c), alone.log.get(c), f'history of context {c} among others')
        check_equal(together.lists(c), alone.lists(c), f'execution list and timestamps of context {c}')
    keys = set(together.p.scheduler.execution_list)
    check(
        keys <= {context(c, case['ids']) for c in [0, *used]},
        'contexts with an execution list: {}', keys
    )
    labels = {f'{len(used)} contexts'}
    if nested:
        labels.add('step within an evaluation')
    if together.active:
        labels.add('runs in progress at the end')
    sets = sum(1 for log in together.log.values() for x in log if x[0] not in ('end', 'endseq'))
    return Result(len(used) > 1 and switches > 1 and sets > 2, labels)


def make_term(d, n):
    k = d.int(0, 5)
    if k <= 2:
        return [[ESU, ['AfterNPasses', d.int(1, 5), None]]]
    if k == 3:
        return [[ESU, ['AfterNCalls', d.int(0, n - 1), d.int(1, 4), d.pick([None, SEQ, LIFE])]],
                [SEQ, ['AfterNPasses', d.int(5, 9), d.pick([None, SEQ, LIFE])]]]
    if k == 4:
        return [[SEQ, ['AfterNConsiderationSetExecutions', d.int(1, 12), LIFE]]]
    return None


@st.composite
def interleaved_strategy(draw, tier):
    d = D(draw)
    case = gen.problem(d, 5 if tier == 'quick' else 7)
    n = case['n']
    if any(gen.uses(c, ['NWhen']) for c in case['conds']) is False and d.bool():
        i = d.int(0, n - 1)
        if case['conds'][i] is not None:
            case['conds'][i] = ['NWhen', case['conds'][i], d.int(0, 4)]
    case['ids'] = d.pick(['none', 'str', 'int', 'tuple', 'mixed', 'obj', 'own', 'falsy', 'falsy2', 'text'])
    case['implicit'] = d.bool()
    n_ctx = d.int(2, 3)
    if d.chance(1, 4):
        case['hooks'] = [d.int(0, n - 1)]
    ops = []
    for k in range(d.int(4, 24 if tier == 'quick' else 50)):
        c = k if k < 2 else d.int(0, n_ctx - 1)
        if d.chance(1, 10):
            ops.append(['endseq', c])
        elif case['implicit'] and d.chance(1, 16):
            ops.append(['default', c])
        else:
            ops.append(['step', c, make_term(d, n), d.weighted([(4, 1), (2, 2), (1, 6)])])
    case['ops'] = ops
    case['term'] = [[ESU, ['AfterNPasses', d.int(1, 6), None]]]
    return case


# --- base contexts -----------------------------------------------------------
def fork(state, model):
    """what a new context takes over from its base: counts and history"""
    s = State(model.n, model.pairs)
    s.counts = [c[:] for c in state.counts]
    s.last = state.last
    return s


def clock_of(s, case, k):
    clock = s.get_clock(context(k, case['ids']))
    now = {f: getattr(clock.time, f) for f in FIELDS}
    return now, [clock.get_total_times_relative(ts, TimeScale.LIFE) for ts in TimeScale if ts is not TimeScale.LIFE], repr(clock.previous_time)


def run_base(case):
    p = Problem(case, default_execution_id=context(0, case['ids']))
    s = p.scheduler
    model = p.model()
    trackers = {0: Tracker(model)}
    lists = {0: []}
    labels = set()
    forks = later = 0
    for op in case['ops']:
        c, base, raw, cap = op
        kw = {'execution_id': context(c, case['ids'])}
        if base is not None:
            kw['base_execution_id'] = context(base, case['ids'])
            if base not in lists and c not in lists:
                g = s.run(**kw)
                try:
                    next(g)
                except gs.SchedulerError:
                    labels.add('unknown base')
                    continue
                except StopIteration:
                    pass
                raise Violation(f'base context {base} does not exist, but is accepted')
        if c not in trackers:
            trackers[c] = Tracker(model)
            lists[c] = []
            if base is not None:
                trackers[c].states = [fork(x, model) for x in trackers[base].states]
                lists[c] = list(lists[base])
                forks += 1
        elif base is not None:
            labels.add('base of an existing context')
        elif forks:
            later += 1
        clocks = {k: clock_of(s, case, k) for k in trackers if k != c}
        tr = trackers[c]
        term = {ESU: raw, SEQ: ['Never']}
        tr.start(term)
        g = s.run(termination_conds=term_objects([[ESU, raw]], p.nodes), **kw)
        ended = False
        for _ in range(cap):
            try:
                out = p.idx(next(g))
            except StopIteration:
                out = END
            allowed = tr.step(out)
            if allowed is not None:
                raise Violation(
                    f'context {c} (base {base}) yielded {out}; allowed {allowed}; '
                    f'so far {[sorted(x) for x in lists[c]]}'
                )
            if out == END:
                tr.finish()
                ended = True
                break
            lists[c].append(out)
        if not ended:
            break
        check_equal({k: clock_of(s, case, k) for k in clocks}, clocks, f'clocks of contexts other than {c}, which ran')
        for k, want in lists.items():
            check_equal(
                [p.idx(x) for x in s.execution_list[context(k, case['ids'])]], want,
                f'execution list of context {k}'
            )
            counts = s.counts_total[context(k, case['ids'])]
            got = [
                {p.nodes.index(x): v for x, v in counts[TimeScale(t)].items()} for t in (SEQ, LIFE)
            ]
            check_equal(
                got, [dict(enumerate(trackers[k].states[0].counts[t])) for t in (SEQ, LIFE)],
                f'counts of context {k}'
            )
    if forks:
        labels.add('forked')
    return Result(forks > 0 and any(lists.values()), labels)


@st.composite
def base_strategy(draw, tier):
    d = D(draw)
    n = d.int(1, 4) if not d.chance(1, 12) else d.int(6, 8)
    case = {'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n)}
    conds = []
    for i in range(n):
        k = d.int(0, 3)
        if k == 0:
            conds.append(None)
        elif k == 1:
            conds.append(['Always'])
        else:
            c = gen.node_condition(d, n, i)
            # the time of a new context is not specified, its counts are
            if c[0] in ('AfterNCalls', 'AtNCalls', 'BeforeNCalls', 'AfterCall', 'AfterNCallsCombined'):
                c[-1] = d.pick([SEQ, LIFE, LIFE, ESU])
            conds.append(c)
    case['conds'] = gen.insensitive_conditions(conds, n, case['edges'])
    case['ids'] = d.pick(['none', 'str', 'int', 'tuple', 'mixed', 'obj', 'own', 'falsy', 'falsy2', 'text'])
    ops = []
    for k in range(d.int(2, 7)):
        c = d.int(0, 3)
        term = d.pick([
            ['AfterNCalls', d.int(0, n - 1), d.int(1, 6), d.pick([ESU, SEQ, LIFE])],
            ['AfterNPasses', d.int(0, 4), None],
            ['AllHaveRun', [], d.pick([None, LIFE])],
        ])
        base = d.int(0, 3) if d.chance(2, 3) else None
        if k == 0:
            c, base = 0, None
        elif k == 1:
            base = 0
        ops.append([c, base, term, 12])
    case['ops'] = ops
    return case


# --- absolute time -------------------------------------------------------------
def fresh(c, case):
    """equal ids, but another object each time"""
    return tuple(['c', c]) if c is not None and case.get('fresh') else c


def run_absolute(case):
    """Two contexts advanced alternately keep their own absolute time"""
    def make():
        s = gs.Scheduler({'A': set(), 'B': {'A'}}, mode=gs.SchedulingMode.EXACT_TIME if case['exact'] else gs.SchedulingMode.STANDARD)
        s.add_condition('A', gs.TimeInterval(repeat=case['a']))
        s.add_condition('B', gs.TimeInterval(repeat=case['b']))
        return s

    def step(s, active, log, c, end):
        if c not in active:
            active[c] = s.run(
                termination_conds={TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(end)},
                execution_id=fresh(c, case)
            )
        try:
            out = sorted(next(active[c]))
        except StopIteration:
            del active[c]
            out = 'end'
        log.setdefault(c, []).append((out, str(s.get_clock(fresh(c, case)).time)))

    together, active, log = make(), {}, {}
    for c, end in case['ops']:
        step(together, active, log, c, end)
    used = sorted({c for c, _ in case['ops']}, key=str)
    for c in used:
        s, act, lg = make(), {}, {}
        for k, end in case['ops']:
            if k == c:
                step(s, act, lg, k, end)
        check_equal(log[c], lg[c], f'history of context {c!r}')
        check_equal(
            [str(t) for t in together.execution_timestamps[fresh(c, case)]], [str(t) for t in s.execution_timestamps[fresh(c, case)]],
            f'timestamps of context {c!r}'
        )
    return Result(len(used) > 1, {f'{len(used)} contexts'})


def run_absolute_base(case):
    """a context started from another one under absolute time"""
    s = gs.Scheduler(
        {'A': set(), 'B': {'A'}},
        mode=gs.SchedulingMode.EXACT_TIME if case['exact'] else gs.SchedulingMode.STANDARD
    )
    s.add_condition('A', gs.TimeInterval(repeat=case['a']))
    s.add_condition('B', gs.TimeInterval(repeat=case['b']))
    # the default context exists from the start
    lists = {None: ([], [])}
    forks = 0
    for c, base, end in case['ops']:
        kw = {}
        if base is not None and base in lists:
            kw['base_execution_id'] = fresh(base, case)
        new = c not in lists
        got = [x for x in s.run(
            termination_conds={TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(end)},
            execution_id=fresh(c, case), **kw
        )]
        old = lists.get(c, lists[base] if kw and new else ([], []))
        forks += bool(kw and new and base != c)
        stamps = [str(t) for t in s.execution_timestamps[fresh(c, case)]]
        check_equal([set(x) for x in s.execution_list[fresh(c, case)]], [*old[0], *map(set, got)], f'execution list of {c!r}')
        check_equal(len(stamps), len(old[0]) + len(got), f'number of timestamps of {c!r}')
        check_equal(stamps[:len(old[1])], old[1], f'earlier timestamps of {c!r}')
        lists[c] = ([set(x) for x in s.execution_list[fresh(c, case)]], stamps)
        for k, (sets, st_) in lists.items():
            check_equal([set(x) for x in s.execution_list[fresh(k, case)]], sets, f'execution list of {k!r}')
            check_equal([str(t) for t in s.execution_timestamps[fresh(k, case)]], st_, f'timestamps of {k!r}')
    return Result(forks > 0, {f'{forks} forks'})


@st.composite
def absolute_base_strategy(draw, tier):
    d = D(draw)
    ops = [[c, d.pick([None, 'x', 0, 'y']), d.int(0, 4)] for c in
           [d.pick(['x', 0, '', None, 'y', 1]) for _ in range(d.int(2, 8))]]
    return {'exact': d.bool(), 'a': d.int(1, 6), 'b': d.int(1, 6), 'ops': ops, 'fresh': d.bool()}


@st.composite
def absolute_strategy(draw, tier):
    d = D(draw)
    return {
        'exact': d.bool(), 'a': d.int(1, 6), 'b': d.int(1, 6), 'fresh': d.bool(),
        'ops': [[d.pick([None, 'x', 0, '']), d.int(1, 5)] for _ in range(d.int(2, 40))],
    }


CHECK = Check(
    'C10',
    'interleaved: steps of runs in several contexts in any order, compared with each context on its own; non-trivial: '
    'at least two contexts, two switches and three yielded sets. base: contexts started from others, followed by the '
    'reference interpreter on forked states; non-trivial: some context was started from another one.',
    [
        Sub('interleaved', lambda tier: interleaved_strategy(tier), run_interleaved, 10000),
        Sub('base', lambda tier: base_strategy(tier), run_base, 8000),
        Sub('absolute', lambda tier: absolute_strategy(tier), run_absolute, 2000),
        Sub('absolute-base', lambda tier: absolute_base_strategy(tier), run_absolute_base, 1000),
    ],
    assumptions=[
        'problems whose schedule does not depend on the order within a consideration set',
        'what a context started from another one takes over of its clock is not specified',
    ],
)
