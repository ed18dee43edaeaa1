"""C22: observing a scheduler never changes what it does."""
import contextlib
import copy
import io
import logging
import sys

from hypothesis import strategies as st

import graph_scheduler as gs
import networkx as nx
from graph_scheduler import TimeScale

from gsv import gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.world import Side, gen_case


def stateless(cond):
    if isinstance(cond, gs.NWhen):
        return False
    parts = [a for a in getattr(cond, 'args', ()) if isinstance(a, gs.ConditionBase)]
    return all(stateless(p) for p in parts) and cond.func.__module__.startswith('graph_scheduler')


def evaluate(w, k):
    s = w.s
    basic = list(s.conditions.conditions_basic.values())
    ctx = w.ctx(k % 2)
    if ctx not in s.counts_total or not basic:
        return None
    c = basic[k % len(basic)]
    if not stateless(c):
        return None
    try:
        return bool(c.is_satisfied(scheduler=s, execution_id=ctx))
    except gs.ConditionError:
        return 'error'


def clock_queries(w, k):
    clock = w.s.get_clock(w.ctx(k % 3))
    return [
        clock.get_total_times_relative(f, c)
        for f in TimeScale for c in (TimeScale.ENVIRONMENT_STATE_UPDATE, TimeScale.ENVIRONMENT_SEQUENCE, TimeScale.LIFE)
        if f < c
    ]


def clock_base_queries(w, k):
    clock = w.s.get_clock(w.ctx(k % 3))
    return [
        clock.get_total_times_relative(f, c, base_index=i)
        for f in TimeScale for c in (TimeScale.ENVIRONMENT_STATE_UPDATE, TimeScale.ENVIRONMENT_SEQUENCE)
        if f < c
        for i in sorted({0, clock.get_time_by_time_scale(c)})
        if i <= clock.get_time_by_time_scale(c)
    ]


def bad_query(w, k):
    clock = w.s.get_clock(w.ctx(k % 3))
    try:
        clock.get_total_times_relative(TimeScale.LIFE, TimeScale.PASS)
    except (gs.TimeScaleError, ValueError, KeyError):
        return 'refused'


def graph_helpers(w, k):
    g = w.s.graph
    # results of the helpers are the caller's
    r = gs.get_receivers(g)
    for v in r.values():
        v.clear()
    a = gs.get_ancestors(g)
    a.clear()
    gs.get_descendants(g).clear()
    c = gs.clone_graph(g)
    for v in c.values():
        v.clear()
    n = gs.dependency_dict_to_networkx_digraph(g)
    n.clear()
    gs.get_simple_cycles(g)
    return None


def copies(w, k):
    t = copy.copy(w.s.get_clock(w.ctx(k % 3)).time)
    t.pass_ += 1
    e = list(w.s.execution_list[w.ctx(0)])
    e.clear()
    return None


def unstarted(w, k):
    w.s.run(execution_id=w.ctx(k % 3))
    return None


OBSERVATIONS = [
    ('graph', lambda w, k: {x: set(y) for x, y in w.s.graph.items()}),
    ('dependency_dict', lambda w, k: {x: set(y) for x, y in w.s.dependency_dict.items()}),
    ('queue', lambda w, k: [set(x) for x in w.s.consideration_queue]),
    ('positions', lambda w, k: dict(w.s.consideration_queue_indices)),
    ('repr conditions', lambda w, k: (repr(w.s.conditions), str(w.s.conditions))),
    ('str condition', lambda w, k: [(str(c), repr(c) and None) for c in w.s.conditions.conditions_basic.values()]),
    ('conditions view', lambda w, k: list(w.s.conditions.conditions.items())),
    ('contains', lambda w, k: [(w.nodes.get(i) in w.s.conditions, w.nodes.get(i) in w.s) for i in range(w.case['n'])]),
    ('iterate', lambda w, k: [w.s.conditions[o] for o in w.s.conditions]),
    ('structural order', lambda w, k: list(w.s.conditions.structural_condition_order)),
    ('termination', lambda w, k: {t: str(c) for t, c in w.s.termination_conds.items()}),
    ('clock', lambda w, k: (repr(w.s.get_clock()), repr(w.s.get_clock().time), repr(w.s.get_clock().simple_time))),
    ('clock of any context', lambda w, k: repr(w.s.get_clock(w.ctx(k % 3)))),
    ('clock of a new context', lambda w, k: repr(w.s.get_clock(('unused', k)))),
    ('previous time', lambda w, k: repr(w.s.get_clock(w.ctx(k % 3)).previous_time)),
    ('time items', lambda w, k: [w.s.get_clock(w.ctx(k % 3)).time[t] for t in TimeScale]),
    ('simple time', lambda w, k: [
        getattr(w.s.get_clock(w.ctx(k % 3)).simple_time, a) for a in
        ('environment_sequence', 'environment_state_update', 'consideration_set_execution')]),
    ('clock queries', clock_queries),
    ('clock base queries', clock_base_queries),
    ('refused query', bad_query),
    ('absolute conditions', lambda w, k: [str(c) for c in w.s.get_absolute_conditions().values()]),
    ('evaluate', evaluate),
    ('helpers', graph_helpers),
    ('copies', copies),
    ('not started', unstarted),
    ('lists', lambda w, k: ([set(x) for x in w.s.execution_list[w.ctx(0)]], [str(t) for t in w.s.execution_timestamps[w.ctx(0)]])),
    ('repr scheduler', lambda w, k: (str(w.s), w.s.mode, w.s.nodes and list(w.s.nodes), w.s.default_execution_id,
                                     w.s.date_creation, w.s.date_last_run_end)),
    ('intervals', lambda w, k: [
        (str(c.absolute_intervals), str(c.absolute_fixed_points), c.is_absolute)
        for c in w.s.conditions.conditions_basic.values()]),
    ('counts', lambda w, k: copy.deepcopy({k: sorted((w.nodes.index(n), c) for n, c in v[TimeScale.LIFE].items()) for k, v in w.s.counts_total.items()})),
]
NAMES = [name for name, _ in OBSERVATIONS]


def observe(w, seq, labels):
    for what, k in seq:
        name, f = OBSERVATIONS[what]
        first = f(w, k)
        again = f(w, k)
        check_equal(again, first, f'reading {name} twice')
        labels.add(name)


@contextlib.contextmanager
def logging_state():
    root, pkg = logging.getLogger(), logging.getLogger('graph_scheduler')
    level, handlers, propagate = root.level, list(pkg.handlers), pkg.propagate
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        yield
    finally:
        sys.stderr = err
        root.setLevel(level)
        pkg.handlers[:] = handlers
        pkg.propagate = propagate


def mutate_inputs(w, how):
    """the caller goes on using the objects it gave to the scheduler"""
    g = w.inputs.graph
    n = w.case['n']
    a, b = w.nodes.get(how % n), w.nodes.get((how + 1) % n)
    if how % 3 == 0:
        if isinstance(g, nx.DiGraph):
            g.remove_node(a)
            g.add_edge(a, 'new')
        else:
            if isinstance(g.get(a), set):
                g[a].clear()
            elif isinstance(g.get(a), list):
                g[a].append('new')
            if b in g and how % 2:
                g[b] = {a}
            g['new'] = set()
    elif how % 3 == 1 and w.inputs.term is not None:
        w.inputs.term.clear()
        w.inputs.term[TimeScale.ENVIRONMENT_STATE_UPDATE] = gs.Always()
        w.inputs.term[TimeScale.ENVIRONMENT_SEQUENCE] = gs.Always()
    else:
        c = w.conds
        if isinstance(c, gs.ConditionSet):
            c.add_condition(a, gs.Never())
            c.add_condition(b, gs.AddEdgeTo(a) if n > 1 else gs.Always())
        else:
            for v in c.values():
                if isinstance(v, list):
                    v.clear()
            c.clear()
            c[a] = gs.Never()


def run(case):
    plain = Side(case)
    labels = set()
    inside = case['inside']

    def hook(w):
        if w.s is not None and w.observing:
            observe(w, inside, labels)
            return True
        return True

    seen = Side(case, hook=hook)
    done = 0
    with logging_state():
        for op, before in zip(case['ops'], case['before']):
            plain.apply(op)
            for item in before:
                if item[0] == 'log':
                    gs.enable_debug_logging() if item[1] else gs.disable_debug_logging()
                    labels.add('logging')
                elif item[0] == 'mutate':
                    mutate_inputs(seen, item[1])
                    labels.add('inputs modified')
                else:
                    observe(seen, [item], labels)
            seen.observing = True
            seen.apply(op)
            seen.observing = False
            check_equal(seen.log[-1], plain.log[-1], f'{op} (operation {done}) when observed')
            done += 1
        observe(seen, [[k, 1] for k in range(len(OBSERVATIONS))], set())
        check_equal(seen.final(), plain.final(), 'final state when observed')
    sets = sum(len(x) for x in plain.final()['lists'])
    if case['exact'] or case['intervals']:
        labels.add('absolute time')
    if any(x[1] and x[1][0] == 'error' for x in plain.log):
        labels.add('refused operations')
    return Result(sets > 1 and any(case['before']), labels)


@st.composite
def strategy(draw, tier):
    d = D(draw)
    case = gen_case(d, 5 if tier == 'quick' else 7, 10 if tier == 'quick' else 25)
    before = []
    for _ in case['ops']:
        items = []
        for _ in range(d.int(0, 3)):
            k = d.int(0, 9)
            if k == 0:
                items.append(['log', d.bool()])
            elif k == 1:
                items.append(['mutate', d.int(0, 11)])
            else:
                items.append([d.int(0, len(OBSERVATIONS) - 1), d.int(0, 5)])
        before.append(items)
    case['before'] = before
    case['inside'] = [[d.int(0, len(OBSERVATIONS) - 1), d.int(0, 5)] for _ in range(d.int(0, 2))]
    # evaluating a condition within an evaluation would not end
    case['inside'] = [x for x in case['inside'] if NAMES[x[0]] != 'evaluate']
    return case


CHECK = Check(
    'C22',
    'A case is a scheduling problem (several contexts, structural changes, absolute time or not), a sequence of '
    'operations, and read-only operations, changes of the log level and modifications of the input objects in between '
    'and during evaluations of conditions; non-trivial: more than one set was yielded and something was observed.',
    [Sub('observed', lambda t: strategy(t), run, 12000)],
    assumptions=[
        'objects returned by the observed views are not modified by the caller',
        'only conditions without own state are evaluated by the observer',
    ],
)
