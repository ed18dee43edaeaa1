"""C19: user functions receive exactly the arguments they declare."""
import functools

from hypothesis import strategies as st

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gsv import gen
from gsv.core import Check, Result, Sub, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

NAMES = ['a', 'b', 'c', 'd', 'scheduler', 'execution_id', 'e', 'f']
#: always given by keyword when a condition is evaluated by a scheduler
GIVEN = ['scheduler', 'execution_id']
FORMS = ['def', 'lambda', 'method', 'callable', 'partial', 'wrapped', 'unhashable', 'slots', 'static', 'equal', 'class']
RESULTS = [True, False, 1, 0, None, 'x', '', [0], [], 2.5, 0.0]


# --- functions -----------------------------------------------------------------
def signature(d, names=NAMES):
    """[[kind, name, has default], ...]; kinds po, pk, va, ko, vk"""
    names = [names[i] for i in d.perm(len(names))]
    params = []
    defaults = False
    for kind, most in (('po', 2), ('pk', 3)):
        for _ in range(d.int(0, most) if kind == 'pk' or d.chance(1, 3) else 0):
            if len(names) <= 1:
                break
            defaults = defaults or d.chance(1, 3)
            params.append([kind, names.pop(), defaults])
    if d.chance(1, 4):
        params.append(['va', 'rest', False])
    for _ in range(d.int(0, 2) if d.bool() else 0):
        if len(names) <= 1:
            break
        params.append(['ko', names.pop(), d.bool()])
    if d.chance(1, 4):
        params.append(['vk', 'others', False])
    return params


def render(params):
    parts = []
    star = any(p[0] == 'va' for p in params)
    for i, (kind, name, default) in enumerate(params):
        text = f"{name}='default {name}'" if default else name
        if kind == 'va':
            text = '*' + name
        elif kind == 'vk':
            text = '**' + name
        elif kind == 'ko' and not star:
            parts.append('*')
            star = True
        parts.append(text)
        if kind == 'po' and (i + 1 == len(params) or params[i + 1][0] != 'po'):
            parts.append('/')
    return ', '.join(parts)


class Recorder:
    """collects the calls of one user function"""

    def __init__(self, results):
        self.calls = []
        self.results = results

    def __call__(self, params, values):
        self.calls.append({p[1]: values[p[1]] for p in params})
        return self.results[(len(self.calls) - 1) % len(self.results)]


def make_function(params, form, rec):
    """a callable with the given signature that records its arguments"""
    sig = render(params)
    pre = {'method': 'self', 'callable': 'self', 'unhashable': 'self', 'slots': 'self', 'equal': 'self',
           'partial': '_pre', 'wrapped': '', 'class': 'cls'}.get(form, '')
    if pre and any(p[0] == 'po' for p in params):
        full = f'{pre}, {sig}'
    elif pre:
        full = f'{pre}, /, {sig}' if sig else f'{pre}, /'
    else:
        full = sig
    ns = {'_rec': rec, '_params': params}
    if form == 'lambda':
        exec(f'f = lambda {full}: _rec(_params, locals())', ns)
        return ns['f']
    exec(f'def f({full}):\n    return _rec(_params, locals())', ns)
    f = ns['f']
    if form in ('def', 'lambda'):
        return f
    if form == 'partial':
        return functools.partial(f, 'preset')
    if form == 'wrapped':
        @functools.wraps(f)
        def wrapper(*args, **kwargs):
            return f(*args, **kwargs)
        return wrapper
    if form == 'static':
        return type('C', (), {'m': staticmethod(f)})().m
    if form == 'class':
        return type('C', (), {'m': classmethod(f)}).m
    body = {}
    if form == 'method':
        body['m'] = f
        return type('C', (), body)().m
    body['__call__'] = f
    if form == 'unhashable':
        body['__eq__'] = lambda self, other: type(self) is type(other)
        body['__hash__'] = None
    elif form == 'equal':
        body['__eq__'] = lambda self, other: type(self) is type(other)
        body['__hash__'] = lambda self: 7
    elif form == 'slots':
        body['__slots__'] = ()
    return type('C', (), body)()


# --- oracle --------------------------------------------------------------------
class OutOfDomain(Exception):
    pass


def expected(params, args, kwargs):
    """arguments received, by parameter name"""
    kwargs = dict(kwargs)
    names = {p[1] for p in params if p[0] in ('pk', 'ko')}
    variadic = any(p[0] == 'va' for p in params)
    res = {}
    left = list(args)
    blocked = False
    for kind, name, default in params:
        if kind == 'po':
            if left:
                res[name] = left.pop(0)
            elif not default:
                raise OutOfDomain('missing')
        elif kind == 'pk':
            if name in kwargs:
                if left and not blocked and not default:
                    raise OutOfDomain('required parameter given twice')
                blocked = True
                res[name] = kwargs[name]
            elif left and not blocked:
                res[name] = left.pop(0)
            elif not default:
                raise OutOfDomain('missing')
        elif kind == 'va':
            if blocked and left:
                raise OutOfDomain('variadic after a parameter given by keyword')
            res[name] = tuple(left)
        elif kind == 'ko':
            if name in kwargs:
                res[name] = kwargs[name]
            elif not default:
                raise OutOfDomain('missing')
        else:
            res[name] = {k: v for k, v in kwargs.items() if k not in names}
        if default and name not in res:
            res[name] = f'default {name}'
    return res


# --- generation ----------------------------------------------------------------
def arguments(d, params, by_scheduler, allow_args=True):
    """(positional values, keyword values) acceptable for the signature"""
    pos = [p for p in params if p[0] in ('po', 'pk')]
    need = sum(p[0] == 'po' and not p[2] for p in pos)
    k_max = len(pos)
    for i, (kind, name, default) in enumerate(pos):
        if kind == 'pk' and not default and name in GIVEN:
            k_max = min(k_max, i)
    k = d.int(need, k_max) if k_max >= need else need
    names = []
    for i, (kind, name, default) in enumerate(pos):
        if kind == 'pk' and i >= k and name not in GIVEN:
            if not default or d.bool():
                names.append(name)
        elif kind == 'pk' and default and d.chance(1, 4):
            names.append(name)
        elif kind == 'po' and any(p[0] == 'vk' for p in params) and d.chance(1, 4):
            names.append(name)
    for kind, name, default in params:
        if kind == 'ko' and (not default or d.bool()):
            names.append(name)
    unused = [n for n in NAMES + ['g', 'h'] if n not in [p[1] for p in params]]
    for _ in range(d.int(0, 2)):
        names.append(d.pick(unused))
    names = [n for n in dict.fromkeys(names) if n not in GIVEN]
    count = k
    if k == len(pos) or (pos[k][0] == 'pk' and pos[k][2]):
        count += d.int(0, 2)
    return count, names


def function_case(d, names=NAMES):
    params = signature(d, names)
    return {'params': params, 'form': d.pick(FORMS), 'results': [d.int(0, len(RESULTS) - 1) for _ in range(d.int(1, 3))]}


@st.composite
def direct_strategy(draw, tier):
    d = D(draw)
    fs = []
    for _ in range(d.int(1, 3)):
        f = function_case(d)
        f['wrap'] = d.pick(['Condition', 'WhileNot', 'Condition', 'WhileNot', 'All', 'Any', 'Not', 'NWhen'])
        count, names = arguments(d, f['params'], False)
        own = d.int(0, count)
        # composites are evaluated with keyword arguments only
        fixed = f['wrap'] in ('All', 'Any', 'Not')
        if fixed:
            own = count
        f['own_args'] = own
        f['own_kwargs'] = d.subset(names + GIVEN)
        # given with the value None at evaluation
        f['none'] = d.subset(NAMES) if d.chance(1, 3) else []
        evals = []
        for k in range(d.int(1, 4)):
            if k and not fixed:
                # same signature, other arguments at this evaluation
                count, names = arguments(d, f['params'], False)
                count = max(count, own)
            at_eval = [n for n in names if n not in f['own_kwargs'] or d.bool()]
            evals.append([count - own, at_eval, d.chance(3, 4), d.chance(3, 4)])
        f['evals'] = evals
        fs.append(f)
    return {'functions': fs, 'rounds': d.bool()}


def build_condition(f, rec, args, kwargs):
    func = make_function(f['params'], f['form'], rec)
    cls = gs.WhileNot if f['wrap'] == 'WhileNot' else gs.Condition
    c = cls(func, *args, **kwargs)
    if f['wrap'] in ('All', 'Any'):
        return c, getattr(gs, f['wrap'])(c)
    if f['wrap'] == 'Not':
        return c, gs.Not(c)
    if f['wrap'] == 'NWhen':
        return c, gs.NWhen(c, 1000)
    return c, c


def run_direct(case):
    built = []
    for i, f in enumerate(case['functions']):
        rec = Recorder([RESULTS[r] for r in f['results']])
        args = [f'own {i}.{j}' for j in range(f['own_args'])]
        kwargs = {n: f'own {i}.{n}' for n in f['own_kwargs']}
        inner, outer = build_condition(f, rec, args, kwargs)
        built.append((f, rec, args, kwargs, inner, outer))
    steps = [(i, e) for i, f in enumerate(case['functions']) for e in range(len(f['evals']))]
    if case['rounds']:
        steps.sort(key=lambda s: (s[1], s[0]))
    labels = set()
    judged = 0
    received = False
    for i, e in steps:
        f, rec, args, kwargs, inner, outer = built[i]
        n_args, names, with_sched, with_id = f['evals'][e]
        eval_args = [f'given {i}.{e}.{j}' for j in range(n_args)]
        given = {n: f'given {i}.{e}.{n}' for n in names}
        if with_sched or f['wrap'] == 'NWhen' or 'scheduler' in f['own_kwargs']:
            given['scheduler'] = f'scheduler {e}'
        if with_id or 'execution_id' in f['own_kwargs']:
            given['execution_id'] = ('id', e)
        given = {n: None if n in f.get('none', []) else v for n, v in given.items()}
        merged = {**kwargs, 'execution_id': None, **given}
        try:
            want = expected(f['params'], args + eval_args, merged)
        except OutOfDomain as err:
            labels.add(f'out of domain: {err}')
            continue
        value = rec.results[len(rec.calls) % len(rec.results)]
        before = len(rec.calls)
        got = outer.is_satisfied(*eval_args, **given)
        check_equal(len(rec.calls), before + 1, 'number of calls of the function')
        check_equal(
            rec.calls[-1], want,
            f'arguments received by ({render(f["params"])}) of {f["wrap"]}({args}, {kwargs}) '
            f'evaluated with {eval_args}, {given}'
        )
        truth = bool(value)
        if f['wrap'] in ('WhileNot', 'Not'):
            truth = not truth
        check_equal(bool(got), truth, f'satisfaction when the function returns {value!r}')
        check_equal(list(inner.args), args, 'own arguments afterwards')
        check_equal(dict(inner.kwargs), kwargs, 'own keyword arguments afterwards')
        judged += 1
        if want:
            received = True
        labels.add(f['form'])
        if any(k in f['own_kwargs'] for k in given):
            labels.add('own argument overridden')
        dropped = len(args + eval_args) > sum(p[0] in ('po', 'pk') for p in f['params'])
        if dropped:
            labels.add('surplus positional arguments')
        if any(p[0] in ('va', 'vk') for p in f['params']):
            labels.add('variadic')
    return Result(judged > 0 and received, labels)


# --- by a scheduler --------------------------------------------------------------
@st.composite
def scheduler_strategy(draw, tier):
    d = D(draw)
    n = d.int(1, 4)
    extras = [['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'][i] for i in d.subset(range(8))]
    case = {'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n), 'extras': extras}
    conds = []
    for _ in range(n + 2):
        f = function_case(d)
        f['wrap'] = d.pick(['Condition', 'WhileNot', 'All', 'Any', 'Not', 'NWhen'])
        count, names = arguments(d, f['params'], True)
        # parameters filled by the run must not be given by position, too
        pos = [p for p in f['params'] if p[0] in ('po', 'pk')]
        for i, p in enumerate(pos):
            if p[0] == 'pk' and not p[2] and p[1] in extras:
                count = min(count, i)
                for q in pos[i:]:
                    if q[0] == 'pk' and q[1] not in names:
                        names.append(q[1])
                break
        f['own_args'] = count
        f['own_kwargs'] = [x for x in names if x not in GIVEN or d.bool()]
        conds.append(f)
    case['functions'] = conds
    case['none'] = [x for x in extras if d.chance(1, 4)]
    case['runs'] = [[d.int(0, 2), d.int(1, 8), d.bool()] for _ in range(d.int(1, 3))]
    return case


def run_scheduler(case):
    n = case['n']
    nodes = Nodes(case['kind'][0], n, case['kind'][1])
    edges = gen.dep_dict(n, case['edges'])
    recs, conds, owns = [], [], []
    labels = set()
    for i, f in enumerate(case['functions']):
        term = i >= n
        # terminations: satisfied at the end only
        stop = {'on': False}
        results = [RESULTS[r] for r in f['results']]
        rec = Recorder(results)
        if term:
            negated = f['wrap'] in ('WhileNot', 'Not')

            class Results(list):
                def __getitem__(self, _, stop=stop, negated=negated):
                    return stop['on'] != negated

                def __len__(self):
                    return 1
            rec.results = Results()
        rec.stop = stop
        args = [f'own {i}.{j}' for j in range(f['own_args'])]
        kwargs = {x: f'own {i}.{x}' for x in f['own_kwargs']}
        try:
            expected(f['params'], args, {**kwargs, 'scheduler': 0, 'execution_id': 0, **{x: 0 for x in case['extras']}})
        except OutOfDomain as e:
            return Result(False, [f'out of domain: {e}'])
        conds.append(build_condition(f, rec, args, kwargs)[1])
        recs.append(rec)
        owns.append((args, kwargs))
    s = gs.Scheduler(
        graph={nodes.get(k): {nodes.get(x) for x in v} for k, v in edges.items()},
        conditions=gs.ConditionSet({nodes.get(i): conds[i] for i in range(n)}),
        termination_conds={TimeScale.ENVIRONMENT_STATE_UPDATE: conds[n], TimeScale.ENVIRONMENT_SEQUENCE: conds[n + 1]},
    )
    sets = 0
    for r, (ctx, cap, use_default) in enumerate(case['runs']):
        extras = {x: None if x in case.get('none', []) else f'extra {r}.{x}' for x in case['extras']}
        context = ('ctx', ctx)
        kw = dict(extras)
        if use_default:
            context = s.default_execution_id
        else:
            kw['execution_id'] = context
        for rec in recs:
            rec.calls.clear()
            rec.stop['on'] = False
        for k, _ in enumerate(s.run(**kw)):
            sets += 1
            if k + 1 >= cap:
                recs[n].stop['on'] = True
        check(recs[n].calls and recs[n + 1].calls, 'termination conditions are evaluated')
        for i, (f, rec) in enumerate(zip(case['functions'], recs)):
            args, kwargs = owns[i]
            want = expected(f['params'], args, {**kwargs, 'scheduler': s, 'execution_id': context, **extras})
            for call in rec.calls:
                for name, v in want.items():
                    got = call[name]
                    check(
                        (got is v) if v is s else got == v,
                        'parameter {} of ({}) in condition {} received {!r}, expected {!r}',
                        name, render(f['params']), i, got, v
                    )
    if case['extras']:
        labels.add('extra keywords')
    labels.add(f'{len(case["runs"])} runs')
    return Result(sets > 0 and any(f['params'] for f in case['functions']), labels)


# --- one function in several guises ----------------------------------------------
GUISES = ['first', 'second', 'function', 'partial']


@st.composite
def shared_strategy(draw, tier):
    d = D(draw)
    params = signature(d)
    uses = []
    for _ in range(d.int(2, 4)):
        count, names = arguments(d, params, False)
        uses.append([d.pick(GUISES), d.pick(['Condition', 'WhileNot']), count, names])
    return {'params': params, 'uses': uses, 'steps': [d.int(0, len(uses) - 1) for _ in range(d.int(2, 8))]}


def run_shared(case):
    params = case['params']
    sig = render(params)
    rec = Recorder([True])
    every = [['po', 'self', False], *params]
    full = f'self, {sig}' if any(p[0] == 'po' for p in params) else f'self, /, {sig}' if sig else 'self, /'
    ns = {'_rec': rec, '_params': every}
    exec(f'def f({full}):\n    return _rec(_params, locals())', ns)
    cls = type('C', (), {'m': ns['f']})
    objects = [cls(), cls()]
    built = []
    for i, (guise, wrap, count, names) in enumerate(case['uses']):
        args = [f'own {i}.{j}' for j in range(count)]
        kwargs = {n: f'own {i}.{n}' for n in names}
        func, before, me = {
            'first': (objects[0].m, [], objects[0]),
            'second': (objects[1].m, [], objects[1]),
            'function': (cls.m, [f'me {i}'], f'me {i}'),
            'partial': (functools.partial(cls.m, f'preset {i}'), [], f'preset {i}'),
        }[guise]
        built.append((getattr(gs, wrap)(func, *before, *args, **kwargs), wrap, me, args, kwargs))
    judged = set()
    for k, i in enumerate(case['steps']):
        c, wrap, me, args, kwargs = built[i]
        try:
            want = expected(params, args, {'scheduler': k, 'execution_id': k, **{n: v for n, v in kwargs.items() if n not in GIVEN}})
        except OutOfDomain:
            continue
        got = c.is_satisfied(scheduler=k, execution_id=k)
        check_equal(bool(got), wrap == 'Condition', f'satisfaction by {case["uses"][i]}')
        check_equal(rec.calls[-1], {'self': me, **want}, f'arguments received by ({full}) used as {case["uses"][i]}')
        if case['uses'][i][0] in ('first', 'second'):
            check(rec.calls[-1]['self'] is me, 'called with another first argument')
        judged.add(case['uses'][i][0])
    return Result(len(judged) > 1, judged)


CHECK = Check(
    'C19',
    'A case is a set of user functions (generated signatures and kinds of callables), their own arguments and the '
    'arguments of several evaluations, directly or by runs of a scheduler with extra keywords; non-trivial: at least '
    'one evaluation was judged whose function declares parameters.',
    [
        Sub('direct', lambda t: direct_strategy(t), run_direct, 40000),
        Sub('shared', lambda t: shared_strategy(t), run_shared, 6000),
        Sub('scheduler', lambda t: scheduler_strategy(t), run_scheduler, 15000),
    ],
    assumptions=[
        'calls whose arguments do not fit the signature in any documented way (a required parameter missing, or given both by position and by keyword) are out of domain',
        'callables without an inspectable signature (some builtins) are out of domain',
    ],
)
