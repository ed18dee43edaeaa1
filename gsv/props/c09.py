"""C09: runs end exactly when termination conditions hold."""
from hypothesis import strategies as st

import graph_scheduler as gs
from graph_scheduler import TimeScale
from graph_scheduler.scheduler import default_termination_conds

from gsv import gen
from gsv.core import Check, Result, Sub, check, check_equal
from gsv.drive import Problem
from gsv.gen import ESU, SEQ, D


class Counting:
    """Termination on the number of sets yielded in the current run"""

    def __init__(self, scheduler, ctx=None):
        self.s = scheduler
        self.ctx = ctx
        self.base = 0

    def start(self):
        self.base = len(self.s.execution_list.get(self.ctx, ()))

    def condition(self, when):
        """when: set of numbers, or a number (at least)"""
        def func(scheduler, execution_id):
            check_equal(execution_id, self.ctx, 'context of a termination condition')
            m = len(scheduler.execution_list[execution_id]) - self.base
            return m >= when if isinstance(when, int) else m in when
        return gs.Condition(func)


def drain(gen_, cap):
    res = []
    for _ in range(cap):
        try:
            res.append(next(gen_))
        except StopIteration:
            return res, True
    return res, False


# --- truncation ------------------------------------------------------------
def run_truncation(case):
    def prepare():
        p = Problem(case)
        c = Counting(p.scheduler, p.ctx)
        for when in case['before']:
            c.start()
            sets, ended = drain(p.scheduler.run(termination_conds={
                TimeScale.ENVIRONMENT_STATE_UPDATE: c.condition(when)
            }, **p.ctx_kw), when + 1)
            check(ended, 'run to be ended after {} sets yielded {}', when, len(sets))
        c.start()
        return p, c

    cap = 40
    p, c = prepare()
    full, _ = drain(p.scheduler.run(termination_conds={
        TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never(),
    }, **p.ctx_kw), cap)
    full = [p.idx(x) for x in full]
    p, c = prepare()
    esu, seq = set(case['esu']), set(case['seq'])
    first = min(esu | seq)
    term = {}
    # an empty set of numbers stands for a condition that never holds
    term[TimeScale.ENVIRONMENT_STATE_UPDATE] = c.condition(esu)
    if seq:
        term[TimeScale.ENVIRONMENT_SEQUENCE] = c.condition(seq)
    got, ended = drain(p.scheduler.run(termination_conds=term, **p.ctx_kw), cap)
    check_equal([p.idx(x) for x in got], full[:first], f'sets of a run ended when {first} were yielded')
    check(ended, 'the run goes on after {} sets', first)
    return Result(0 < first, {'nothing to do' if first == 0 else 'truncated', *(['sequence'] if seq else [])})


@st.composite
def truncation_strategy(draw, tier):
    d = D(draw)
    case = gen.problem(d, 5 if tier == 'quick' else 8)
    # the order of nodes must be the same in both schedulers
    case['kind'] = [d.pick(['str', 'word', 'int', 'tuple']), case['kind'][1]]
    case['ctx'] = gen.context(d)
    case['before'] = [d.int(0, 5) for _ in range(d.int(0, 2))]
    case['esu'] = [d.int(0, 20) for _ in range(d.int(0, 3))]
    case['seq'] = [d.int(0, 20) for _ in range(d.int(0 if case['esu'] else 1, 2))]
    return case


# --- routes ----------------------------------------------------------------
def key(ts, style):
    t = TimeScale(ts)
    return [t, t.name, t.name.lower(), t.name.title()][style]


def run_routes(case):
    n, chain = case['n'], case['chain']
    names = [f'n{i}' for i in range(n)]
    graph = {x: ({names[i - 1]} if i and chain else set()) for i, x in enumerate(names)}
    layers = n if chain else 1
    labels = set()

    class Late:
        pass
    late = Late()
    late.c = None
    module_before = dict(default_termination_conds)

    def make(raw):
        """-> (dict given to the scheduler, {ts: (k, condition)})"""
        given, meaning = {}, {}
        for ts, style, k in raw:
            if style > 0:
                labels.add('named by a string')
            cond = Counting.condition(late, k)
            given[key(ts, style)] = cond
            meaning[ts] = (k, cond)
        return given, meaning

    late.base = 0
    late.ctx = ctx = case.get('ctx')
    ctx_kw = {} if ctx is None else {'execution_id': ctx}
    ctor = None
    base_meaning = {ESU: (layers, None), SEQ: (10 ** 6, None)}
    if case['ctor'] is not None:
        ctor, m = make(case['ctor'])
        base_meaning.update(m)
    ctor_before = dict(ctor) if ctor is not None else None
    s = gs.Scheduler(graph, termination_conds=ctor)
    for x in names:
        s.add_condition(x, gs.Always())
    current = dict(base_meaning)

    def check_dicts(given, before, what):
        if given is not None:
            check_equal(given, before, f'dictionary given to {what}')
        check_equal(default_termination_conds, module_before, 'default termination conditions of the module')
        real = s.termination_conds
        check_equal(set(real), {TimeScale(ts) for ts in current}, 'time scales of termination_conds')
        for ts, (k, cond) in current.items():
            if cond is not None:
                check(real[TimeScale(ts)] is cond, 'termination condition for {} is not the one set', ts)
            else:
                check(
                    type(real[TimeScale(ts)]) is (gs.Never if ts == SEQ else gs.AllHaveRun),
                    'default condition for {} is {}', ts, real[TimeScale(ts)]
                )

    check_dicts(ctor, ctor_before, 'the constructor')
    runs = 0
    for op in case['ops']:
        if op[0] == 'set':
            given, m = make(op[1])
            before = dict(given)
            s.termination_conds = given
            current.update(m)
            labels.add('set')
            check_dicts(given, before, 'the setter')
            if op[2]:
                # the scheduler does not depend on the dictionary later on
                given.clear()
        elif op[0] == 'clear':
            if len(op) > 1:
                # a change of what the scheduler shows, whatever it does, is undone by clearing
                try:
                    s.termination_conds[TimeScale(op[1])] = Counting.condition(late, op[2])
                except TypeError:
                    pass
                labels.add('changed, then cleared')
            s.termination_conds = None
            current = dict(base_meaning)
            labels.add('cleared')
            check_dicts(None, None, None)
        else:
            given, m = (None, {}) if op[1] is None else make(op[1])
            before = dict(given) if given is not None else None
            effective = {**current, **m}
            k = min(v[0] for v in effective.values())
            late.base = len(s.execution_list.get(ctx, ()))
            g = s.run(termination_conds=given, **ctx_kw)
            got, ended = [], False
            if len(op) > 2 and k:
                # the scheduler's own conditions change during the run, which has begun when its first set is drawn
                got, ended = drain(g, min(op[2], k))
                change, m = make(op[3])
                s.termination_conds = change
                current.update(m)
                labels.add('set during a run')
            if not ended:
                rest, ended = drain(g, k + 2 - len(got))
                got += rest
            check_equal(len(got), k, f'number of sets of a run under {sorted((a, b[0]) for a, b in effective.items())}')
            check(ended, 'run does not end')
            check_equal(
                got, [set(names) if not chain else {names[i % n]} for i in range(k)], 'sets of the run'
            )
            check_dicts(given, before, 'run')
            runs += 1
            if given is not None:
                labels.add('run arguments')
    return Result(runs >= 1 and len(labels) >= 1, labels)


@st.composite
def routes_strategy(draw, tier):
    d = D(draw)
    n = d.int(1, 4)

    def raw():
        scales = d.pick([[ESU], [SEQ], [ESU, SEQ], [SEQ, ESU], []])
        return [[ts, d.int(0, 3), d.int(0, 7)] for ts in scales]

    ops = []
    for _ in range(d.int(1, 8 if tier == 'quick' else 14)):
        k = d.int(0, 6)
        if k <= 2:
            ops.append(['run', None if d.bool() else raw()])
            if d.chance(1, 4):
                ops[-1] += [d.int(1, 4), raw()]
        elif k <= 5:
            ops.append(['set', raw(), d.bool()])
        else:
            ops.append(['clear', d.pick([ESU, SEQ]), d.int(0, 7)] if d.bool() else ['clear'])
    ops.append(['run', None])
    return {
        'n': n, 'chain': d.bool(), 'ctor': raw() if d.chance(2, 3) else None, 'ops': ops,
        'ctx': gen.context(d),
    }


CHECK = Check(
    'C09',
    'truncation: a scheduling problem and arbitrary sets of numbers of yielded sets at which each termination '
    'condition holds, compared with the same run without termination; non-trivial: the run yields something. '
    'routes: a history of constructor, setter and run termination dictionaries; non-trivial: some dictionary was used.',
    [
        Sub('truncation', lambda tier: truncation_strategy(tier), run_truncation, 12500),
        Sub('routes', lambda tier: routes_strategy(tier), run_routes, 20000),
    ],
    assumptions=['a dictionary names each time scale once', 'termination conditions have no side effects'],
)
