"""C06: Threshold and WhenFinished* reflect the live state of nodes."""
import warnings
from fractions import Fraction

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

COMPARATORS = ['<', '<=', '>', '>=', '==', '!=']


class Holder:
    """a node with parameters"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'Holder({self.name})'


def dyadic(d, lo=-16, hi=16, den=4):
    """quarter-integers: all sums and products below are exact in floats"""
    return d.int(lo, hi) / den


def nested(d, shape, target, path):
    """nested list of the given shape with `target` at `path`"""
    if not path:
        return target
    size = shape[0]
    res = []
    for i in range(size):
        if i == path[0] % size:
            res.append(nested(d, shape[1:], target, path[1:]))
        else:
            res.append(nested(d, shape[1:], d.int(-4, 4), [0] * (len(path) - 1)))
    return res


def strategy_threshold(max_steps):
    @st.composite
    def s(draw):
        d = D(draw)
        comparator = d.pick(COMPARATORS)
        thr = dyadic(d)
        if d.chance(1, 8):
            thr += d.pick([-1, 1]) * 2 ** d.pick([10, 20, 30])
        atol = d.pick([0, 0, 0.25, 0.5, 1, 2])
        rtol = d.pick([0, 0, 0, 0.25, 0.5, 1])
        depth = d.int(0, 3)
        if d.chance(1, 6):
            depth = d.int(4, 6)
        shape = [d.int(1, 3 if depth <= 3 else 2) for _ in range(depth)]
        path = [d.int(-k, k - 1) for k in shape]
        scalar_index = depth == 1 and d.bool()
        scale_index = depth == 1 and not scalar_index and d.bool()
        if scale_index:
            # a time scale stands for its position
            path = [d.int(0, 4)]
            shape = [5]
        steps = []
        for _ in range(d.int(1, max_steps)):
            k = d.int(0, 4)
            tol = atol + rtol * abs(thr)
            v = {
                0: lambda: dyadic(d), 1: lambda: thr,
                2: lambda: thr + tol, 3: lambda: thr - tol,
                4: lambda: thr + d.pick([-1, 1]) * (tol + d.pick([-0.25, 0.25])),
            }[k]()
            steps.append(nested(d, shape, v, path))
        return {
            'comparator': comparator, 'threshold': thr, 'atol': atol, 'rtol': rtol,
            'path': path, 'scalar_index': scalar_index, 'scale_index': scale_index, 'steps': steps,
            'how': d.pick(['attr', 'getter', 'getter_ctx', 'dict']),
            'container': d.pick(['list', 'tuple', 'array', 'dict']),
            'owned': d.bool(),
            'shape': shape, 'series': d.pick(['list', 'tuple', 'array']),
        }
    return s()


def convert(v, how):
    if how == 'dict' and isinstance(v, list):
        return {f'k{i}': convert(x, how) for i, x in enumerate(v)}
    if how == 'array' and isinstance(v, list):
        import numpy as np
        return np.array(v, dtype=float)
    if how == 'tuple' and isinstance(v, list):
        return tuple(convert(x, how) for x in v)
    return v


def expected_threshold(case, value):
    v = value
    for i in case['path']:
        v = v[i]
    v, t = Fraction(v), Fraction(case['threshold'])
    tol = Fraction(case['atol']) + Fraction(case['rtol']) * abs(t)
    return {
        '<': v < t, '<=': v <= t, '>': v > t, '>=': v >= t,
        '==': abs(v - t) <= tol, '!=': abs(v - t) > tol,
    }[case['comparator']]


def make_threshold(case, holder, store):
    kwargs = {}
    if case['path'] and case['container'] == 'dict':
        keys = [f'k{i % k}' for i, k in zip(case['path'], case['shape'])]
        kwargs['indices'] = tuple(keys) if case['series'] == 'tuple' else keys
    elif case['path'] and not case['scalar_index'] and not case.get('scale_index') and case.get('series', 'list') != 'list':
        if case['series'] == 'tuple':
            kwargs['indices'] = tuple(case['path'])
        else:
            import numpy as np
            kwargs['indices'] = np.array(case['path'])
    elif case['path']:
        kwargs['indices'] = (
            case['path'][0] if case['scalar_index']
            else gs.TimeScale(case['path'][0]) if case.get('scale_index')
            else list(case['path'])
        )
    if case['atol']:
        kwargs['atol'] = case['atol']
    if case['rtol']:
        kwargs['rtol'] = case['rtol']
    calls = []
    if case['how'] == 'getter':
        def getter(dep, param):
            calls.append((dep, param))
            return store[id(dep), param]
        kwargs['custom_parameter_getter'] = getter
        kwargs['custom_parameter_validator'] = lambda dep, param: None
    elif case['how'] == 'getter_ctx':
        def getter(dep, param, execution_id):
            calls.append((dep, param))
            return store[id(dep), param] if execution_id == 'ctx' else 1e6
        kwargs['custom_parameter_getter'] = getter
        kwargs['custom_parameter_validator'] = lambda dep, param: None
    elif case['how'] == 'dict':
        # attribute missing, validator accepts it, set later
        kwargs['custom_parameter_validator'] = lambda dep, param: None
    else:
        setattr(holder, 'level', 0)
    cond = gs.Threshold(holder, 'level', case['threshold'], case['comparator'], **kwargs)
    if case['owned']:
        cond.owner = 'someone'
    return cond


def run_threshold(case):
    holder = Holder('h')
    store = {}
    cond = make_threshold(case, holder, store)
    seen = set()
    for k, value in enumerate(case['steps']):
        v = convert(value, case['container'])
        if case['how'] in ('attr', 'dict'):
            holder.level = v
        else:
            store[id(holder), 'level'] = v
        got = bool(cond.is_satisfied(execution_id='ctx', scheduler=None))
        want = expected_threshold(case, value)
        check_equal(got, want, f'value {value} {case["comparator"]} {case["threshold"]} at step {k}')
        seen.add(want)
    return Result(len(seen) == 2, [
        case['comparator'], f'depth {len(case["path"])}', case['how'],
        'with tolerance' if case['atol'] or case['rtol'] else 'no tolerance',
    ])


# ---------------------------------------------------------------------------
def strategy_run(max_steps):
    """a node conditioned on a value that changes while the scheduler runs"""
    @st.composite
    def s(draw):
        d = D(draw)
        steps = [dyadic(d, -4, 4) for _ in range(d.int(2, max_steps))]
        return {
            'comparator': d.pick(COMPARATORS), 'threshold': dyadic(d, -3, 3),
            'atol': 0, 'rtol': 0, 'path': [], 'scalar_index': False,
            'how': 'attr', 'owned': False,
            'steps': steps, 'self': d.bool(), 'runs': d.int(1, 2),
            # the value becomes visible when the first node executes
        }
    return s()


def run_run(case):
    holder, other = Holder('h'), Holder('o')
    cond = make_threshold(case, holder, {})
    s = gs.Scheduler({holder: set(), other: {holder}})
    s.add_condition(holder, gs.Always())
    s.add_condition(other, cond)
    seen = set()
    for r in range(case['runs']):
        it = s.run(termination_conds={
            gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(len(case['steps']))
        })
        out = []
        want = []
        k = 0
        for x in it:
            out.append(x)
            if x == {holder}:
                holder.level = case['steps'][k]
                want.append({holder})
                ok = expected_threshold(case, case['steps'][k])
                seen.add(ok)
                if ok:
                    want.append({other})
                k += 1
        check_equal(out, want, f'execution sets of run {r} for values {case["steps"]}')
    return Result(len(seen) == 2, [case['comparator']])


# ---------------------------------------------------------------------------
class Fin:
    def __init__(self, name, table):
        self.name, self.table, self.calls = name, table, []

    def is_finished(self, execution_id=None):
        self.calls.append(execution_id)
        return self.table[execution_id]

    def __repr__(self):
        return f'Fin({self.name})'


CTX = ['a', 0, None]


def strategy_finished(max_steps):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(1, 4)
        cls = d.pick(['WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'])
        if cls == 'WhenFinished':
            deps = [d.int(0, n - 1)]
        else:
            deps = d.subset(range(n))
        steps = [
            [d.int(0, 2), [d.int(0, 2 ** n - 1) for _ in CTX]]
            for _ in range(d.int(1, max_steps))
        ]
        return {'n': n, 'cls': cls, 'deps': deps, 'steps': steps, 'run': d.bool()}
    return s()


def run_finished(case):
    n = case['n']
    fins = [Fin(i, {}) for i in range(n)]
    cond = getattr(gs, case['cls'])(*[fins[i] for i in case['deps']])
    watcher = 'watcher'
    # when no nodes are named, all nodes of the scheduler count
    graph = {f: set() for f in fins}
    if case['run'] and (case['deps'] or case['cls'] == 'WhenFinished'):
        graph[watcher] = set(fins)
    else:
        watcher = None
    s = gs.Scheduler(graph)
    for f in fins:
        s.add_condition(f, gs.Always())
    if watcher:
        s.add_condition(watcher, cond)
    deps = case['deps'] or list(range(n))
    seen = set()
    for k, (c, masks) in enumerate(case['steps']):
        ctx = CTX[c]
        for f in range(n):
            for j, e in enumerate(CTX):
                fins[f].table[e] = bool(masks[j] >> f & 1)
        vals = [bool(masks[c] >> f & 1) for f in deps]
        want = any(vals) if case['cls'] == 'WhenFinishedAny' else all(vals)
        got = cond.is_satisfied(scheduler=s, execution_id=ctx)
        check_equal(bool(got), want, f'{case["cls"]} of {deps} at step {k} in context {ctx!r}: {masks}')
        seen.add(want)
        if watcher:
            out = list(s.run(
                execution_id=ctx,
                termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}
            ))
            check_equal(out, [set(fins)] + ([{watcher}] if want else []), f'run in context {ctx!r} at step {k}')
    return Result(len(seen) == 2, [case['cls'], 'all nodes' if not case['deps'] else 'named nodes'])


# ---------------------------------------------------------------------------
def strategy_errors():
    @st.composite
    def s(draw):
        d = D(draw)
        kind = d.pick(['comparator', 'attribute', 'validator', 'finished', 'finished_any', 'finished_all'])
        return {'kind': kind, 'text': d.pick(['=', '<>', '===', '', 'lt', '!', ' <', '=<', 'is']),
                'pos': d.int(0, 2), 'value': d.int(0, 1)}
    return s()


def expect_error(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    raise Violation(f'{what}: no {exc.__name__}, returned {r!r}')


class MyError(Exception):
    pass


def run_errors(case):
    h = Holder('h')
    h.level = 1
    k = case['kind']
    if k == 'comparator':
        expect_error(gs.ConditionError, lambda: gs.Threshold(h, 'level', 0, case['text']), f'comparator {case["text"]!r}')
    elif k == 'attribute':
        expect_error(gs.ConditionError, lambda: gs.Threshold(h, 'missing', 0, '<'), 'missing parameter')
    elif k == 'validator':
        def val(dep, param):
            if (dep, param) != (h, 'ok'):
                raise MyError
        gs.Threshold(h, 'ok', 0, '<', custom_parameter_validator=val)
        expect_error(MyError, lambda: gs.Threshold(h, 'level', 0, '<', custom_parameter_validator=val), 'rejected by validator')
    else:
        # a node that cannot report being finished; the answers of the others
        # do not decide the result before it is reached
        unsure = k == 'finished_all'
        good = [Fin(i, {'c': unsure}) for i in range(2)]
        deps = good[:case['pos']] + [h] + good[case['pos']:]
        if k == 'finished':
            c = gs.WhenFinished(h)
        elif k == 'finished_any':
            c = gs.WhenFinishedAny(*deps)
        else:
            c = gs.WhenFinishedAll(*deps)
        expect_error(gs.ConditionError, lambda: c.is_satisfied(scheduler=None, execution_id='c'), f'{k} on a node without is_finished')
    return Result(True, [k])


CHECK = Check(
    'C06',
    'A case is a threshold condition with a trajectory of (nested) parameter values, or '
    'a when-finished condition with a trajectory of answers per node and context, evaluated '
    'directly and in runs; non-trivial: observed both satisfied and unsatisfied (or an '
    'error case).',
    [
        Sub('threshold', lambda t: strategy_threshold(8 if t == 'quick' else 20), run_threshold, 24000),
        Sub('threshold-run', lambda t: strategy_run(6 if t == 'quick' else 15), run_run, 8000),
        Sub('finished', lambda t: strategy_finished(6 if t == 'quick' else 15), run_finished, 16000),
        Sub('errors', lambda t: strategy_errors(), run_errors, 400, 800),
    ],
    assumptions=['values, thresholds and tolerances are quarter-integers, for which the documented tolerance formula is exact in floating point'],
)
