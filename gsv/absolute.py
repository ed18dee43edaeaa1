"""Scheduling problems with absolute time conditions.

Times are whole multiples k of a quantum q of the case, which is an exact
fraction of microseconds.  Every time is written in a notation of its own.
"""
import math
from fractions import Fraction

import graph_scheduler as gs
from graph_scheduler import _unit_registry as ureg

from gsv import build, gen
from gsv.core import HarnessError, Violation, check
from gsv.drive import DEFAULT_TERM, InContext
from gsv.gen import ESU, LIFE, SEQ, dep_dict
from gsv.model import END, Model, TooManyStates, Tracker, useable_pairs
from gsv.nodes import Nodes

#: in microseconds
UNITS = {
    'us': Fraction(1), 'ms': Fraction(1000), 's': Fraction(10 ** 6), 'min': Fraction(60 * 10 ** 6),
    'ns': Fraction(1, 1000), 'cs': Fraction(10 ** 4), 'hour': Fraction(3600 * 10 ** 6),
}
_PREFIX = {
    'quecto': -30, 'ronto': -27, 'yocto': -24, 'zepto': -21, 'atto': -18,
    'femto': -15, 'pico': -12, 'nano': -9, 'micro': -6, 'milli': -3,
    'centi': -2, 'deci': -1, '': 0, 'deca': 1, 'hecto': 2, 'kilo': 3,
    'mega': 6, 'giga': 9, 'tera': 12, 'peta': 15,
}
_NAMES = {f'{p}second': Fraction(10) ** (e + 6) for p, e in _PREFIX.items()}
_NAMES.update(minute=UNITS['min'], hour=UNITS['hour'])

#: quanta in microseconds
QUANTA = [
    Fraction(1000), Fraction(7000), Fraction(1), Fraction(250), Fraction(125, 1000),
    Fraction(10 ** 6), Fraction(500000), Fraction(1500000), Fraction(100000), Fraction(20 * 10 ** 6),
    Fraction(60 * 10 ** 6), Fraction(3600 * 10 ** 6), Fraction(3, 1000), Fraction(125000),
]


def writable(value, unit):
    """can `value` microseconds be written in the unit with few digits"""
    x = value / UNITS[unit]
    return 10 ** 6 % x.denominator == 0 and x < 10 ** 13 and (x < 10 ** 7 or x.denominator == 1)


def units_for(value):
    return [u for u in UNITS if writable(value, u)]


def decimal(x):
    """Fraction -> exact decimal notation"""
    if x.denominator == 1:
        return str(x.numerator)
    s = f'{x.numerator * 10 ** 6 // x.denominator:07d}'
    return (s[:-6] + '.' + s[-6:]).rstrip('0')


def number(x):
    return int(x) if x.denominator == 1 else float(x)


def write(value, how):
    """-> (argument, unit it has to be combined with or None)"""
    style, pick = how
    us = units_for(value)
    u = us[pick % len(us)]
    x = value / UNITS[u]
    if style == 'str':
        return f'{decimal(x)} {u}', None
    if style == 'strtight':
        return f'{decimal(x)}{u}', None
    if style == 'quantity':
        return number(x) * getattr(ureg, u), None
    raise HarnessError(style)


def write_group(values, how, unit_as_object):
    """Arguments of one condition; scalar notations share a unit.
    -> ([argument, ...], unit or None)"""
    common = None
    for u in UNITS:
        if all(v is None or writable(v, u) for v in values):
            common = u
            break
    res, unit = [], None
    common_options = [
        u for u in UNITS if all(v is None or writable(v, u) for v in values)
    ]
    for v, h in zip(values, how):
        if v is None:
            res.append(None)
        elif h[0] in ('number', 'numstr') and common_options:
            unit = common_options[how[0][1] % len(common_options)]
            x = v / UNITS[unit]
            res.append(number(x) if h[0] == 'number' else decimal(x))
        else:
            res.append(write(v, h if h[0] not in ('number', 'numstr') else ['str', h[1]])[0])
    if unit is not None and unit_as_object:
        unit = getattr(ureg, unit)
    return res, unit


STYLES = ['number', 'str', 'quantity', 'numstr', 'strtight']


def notation(d):
    return [d.pick(STYLES), d.int(0, 6)]


def microseconds(q, what):
    """exact value of a quantity returned by the code under test"""
    try:
        name = str(q.u)
        m = q.m
    except AttributeError:
        raise Violation(f'{what}: {q!r} is not a quantity')
    if name not in _NAMES:
        raise Violation(f'{what}: {q!r} is not in a time unit')
    if isinstance(m, float):
        m = Fraction(m).limit_denominator(10 ** 9)
    return Fraction(m) * _NAMES[name]


# ---------------------------------------------------------------------------
# objects
# ---------------------------------------------------------------------------
class Writer:
    """Builds conditions; `alt`: use the second set of notations"""

    def __init__(self, q, alt=0):
        self.q = q
        self.alt = alt

    def condition(self, spec, nodes):
        name = spec[0]
        if name == 'TimeInterval':
            _, rep, start, end, si, ei, how = spec
            (r, s, e), unit = write_group(
                [None if k is None else k * self.q for k in (rep, start, end)],
                how[self.alt], how[2]
            )
            kw = {'repeat': r, 'start': s, 'end': e}
            if unit is not None:
                kw['unit'] = unit
            kw = {k: v for k, v in kw.items() if v is not None}
            if not si:
                kw['start_inclusive'] = False
            if not ei:
                kw['end_inclusive'] = False
            return gs.TimeInterval(**kw)
        if name == 'TimeTermination':
            _, k, inc, how = spec
            (t,), unit = write_group([k * self.q], how[self.alt], how[2])
            return gs.TimeTermination(t, inc, **({} if unit is None else {'unit': unit}))
        if name in ('All', 'Any'):
            return getattr(gs, name)(*[self.condition(c, nodes) for c in spec[1]])
        if name == 'Not':
            return gs.Not(self.condition(spec[1], nodes))
        if name == 'NWhen':
            return gs.NWhen(self.condition(spec[1], nodes), spec[2])
        return build.condition(spec, nodes)


def leaves(spec):
    if spec is None:
        return []
    if spec[0] in ('All', 'Any'):
        return [x for c in spec[1] for x in leaves(c)]
    if spec[0] in ('Not', 'NWhen'):
        return leaves(spec[1])
    return [spec]


def is_absolute(spec):
    return any(x[0] in ('TimeInterval', 'TimeTermination') for x in leaves(spec))


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------
def how_group(d, n):
    return [[notation(d) for _ in range(n)], [notation(d) for _ in range(n)], d.bool()]


def interval(d, exact, grid=None):
    """grid: starts and ends are multiples of it (standard mode)"""
    kind = d.int(0, 7)
    rep = d.int(1, 8) if kind not in (5, 6) else None
    start = d.int(0, 14) if kind in (1, 2, 4, 5) else None
    end = d.int(0, 20) if kind in (3, 4, 6) else None
    if rep is None and start is None and end is None:
        rep = d.int(1, 8)
    if start is not None and end is not None and end < start:
        start, end = end, start
    return ['TimeInterval', rep, start, end, not d.chance(1, 4), not d.chance(1, 4), how_group(d, 3)]


def condition(d, n, owner, exact):
    k = d.int(0, 13)
    if k <= 5:
        return interval(d, exact)
    if k >= 12:
        # composites within composites
        inner = d.pick([
            ['Any', [interval(d, exact), interval(d, exact)]],
            ['Any', [interval(d, exact), ['AtPass', d.int(0, 3), None]]],
            ['All', [interval(d, exact), interval(d, exact)]],
            ['Not', interval(d, exact)],
            ['Any', [interval(d, exact)]],
        ])
        outer = d.int(0, 5)
        if outer == 5:
            # many parts
            parts = [interval(d, exact) for _ in range(d.int(5, 9))]
            return [d.pick(['Any', 'Any', 'All']), parts]
        if outer == 0:
            return ['Not', inner]
        if outer == 1:
            return ['All', [inner]]
        parts = [inner, d.pick([interval(d, exact), ['Always'], ['AfterPass', 1, None]])]
        return [d.pick(['All', 'Any']), parts[::-1] if d.bool() else parts]
    if k == 6:
        return gen.condition(d, n, owner, 1, nwhen=False)
    if k == 7:
        return ['All', [interval(d, exact), gen.condition(d, n, owner, 0, nwhen=False)]]
    if k == 8:
        parts = [interval(d, exact), gen.condition(d, n, owner, 0, nwhen=False)]
        return ['Any', parts[::-1] if d.bool() else parts]
    if k == 9:
        return ['Not', interval(d, exact)]
    if k == 10:
        return ['NWhen', interval(d, exact), d.int(0, 3)]
    return [d.pick(['All', 'Any']), [interval(d, exact), interval(d, exact)]]


def snap(spec, grid):
    """move starts to multiples of grid"""
    if spec is None:
        return
    if spec[0] in ('All', 'Any'):
        for c in spec[1]:
            snap(c, grid)
    elif spec[0] in ('Not', 'NWhen'):
        snap(spec[1], grid)
    elif spec[0] == 'TimeInterval' and spec[2] is not None:
        spec[2] -= spec[2] % grid
    elif spec[0] == 'TimeTermination':
        spec[1] -= spec[1] % grid


def grid_of(case):
    reps = [x[1] for c in case['conds'] for x in leaves(c) if x[0] == 'TimeInterval' and x[1]]
    return math.gcd(*reps) if reps else None


def gen_case(d, max_n, max_runs, exact=None, cond=condition):
    n = d.int(1, max_n)
    exact = d.bool() if exact is None else exact
    case = {
        'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n),
        'exact': exact, 'mode_when': d.weighted([(4, 0), (1, 1), (1, 2)]), 'q': d.int(0, len(QUANTA) - 1),
    }
    conds = []
    for i in range(n):
        c = None if d.chance(1, 6) else cond(d, n, i, exact)
        if c is not None and c[0] == 'Not' and len(leaves(c)) == 1 and d.chance(1, 2):
            c = c[1]
        conds.append(c)
    case['conds'] = conds
    grid = grid_of(case)
    if not exact and grid is not None:
        for c in conds:
            snap(c, grid)
    case['default'] = [d.int(1, 5), notation(d), notation(d)] if d.bool() else None
    case['late'] = d.subset(range(len(case['edges']))) if d.chance(1, 3) else []
    runs = []
    n_runs = d.int(1, max_runs)
    t = 0
    for r in range(n_runs):
        k = d.int(0, 4)
        last = r == n_runs - 1
        if k <= 2 or (last and not any(is_absolute(c) for c in conds)):
            t = t + d.int(1, 24) if not d.chance(1, 8) else d.int(0, 24)
            spec = ['TimeTermination', t, not d.chance(1, 3), how_group(d, 1)]
            if not exact and grid is not None and not last:
                snap(spec, grid)
                spec[2] = True
        elif k == 3:
            spec = ['AfterNPasses', d.int(1, 12), None]
        else:
            t += d.int(1, 12)
            spec = ['AfterNPasses', d.int(1, 12), None]
            if last or exact or grid is None:
                spec = ['Any', [['AfterNPasses', d.int(4, 20), None],
                                ['TimeTermination', t, True, how_group(d, 1)]]]
        runs.append([spec, d.bool() and d.bool()])
    case['runs'] = runs
    case['ctx'] = gen.context(d)
    return case


def shift(spec, base):
    if spec is None:
        return
    if spec[0] in ('All', 'Any'):
        for c in spec[1]:
            shift(c, base)
    elif spec[0] in ('Not', 'NWhen'):
        shift(spec[1], base)
    elif spec[0] == 'TimeInterval':
        spec[2] = (spec[2] or 0) + base
        if spec[3] is not None:
            spec[3] += base
    elif spec[0] == 'TimeTermination':
        spec[1] += base


def far_case(d, max_n, max_runs, exact=True):
    """nothing can happen before a time far from zero"""
    def cond(d, n, i, exact):
        c = interval(d, exact)
        return ['All', [c, gen.condition(d, n, i, 0, nwhen=False)]] if d.chance(1, 4) else c

    case = gen_case(d, max_n, max_runs, exact, cond)
    grid = grid_of(case) or 1
    case['conds'] = [
        c if c is not None else ['TimeInterval', None, 3 * grid, None, True, True, how_group(d, 3)]
        for c in case['conds']
    ]
    # powers of ten and one of two, so that many roundings occur
    base = d.pick([10 ** 3, 10 ** 5, 10 ** 6 + 1, 10 ** 7 + 9, 2 ** 23, 10 ** 9])
    if not exact:
        base *= grid
    for c in case['conds']:
        shift(c, base)
    for spec, _ in case['runs']:
        shift(spec, base)
    return case


LATTICES = {2: [1, 2], 4: [1, 2, 4], 6: [1, 2, 3, 6], 12: [2, 3, 4, 6, 12]}


def lay(spec, lattice):
    """repeats divide the lattice, starts are multiples of it"""
    if spec is None:
        return
    if spec[0] in ('All', 'Any'):
        for c in spec[1]:
            lay(c, lattice)
    elif spec[0] in ('Not', 'NWhen'):
        lay(spec[1], lattice)
    elif spec[0] == 'TimeInterval':
        if spec[1] is not None:
            spec[1] = LATTICES[lattice][spec[1] % len(LATTICES[lattice])]
        snap(spec, lattice)


def changing_case(d, max_n):
    """conditions, graph, mode and default unit change between runs"""
    n = d.int(1, max_n)
    exact = d.bool()
    toggle = d.chance(1, 3)
    free = exact and not toggle
    lattice = d.pick(list(LATTICES))
    edges = gen.dag_edges(d, n)

    def make(i):
        if i == 0 and not free:
            c = ['TimeInterval', d.int(1, 8), d.pick([None, d.int(0, 12)]), None, True, True, how_group(d, 3)]
        else:
            c = condition(d, n, i, exact)
        if not free:
            lay(c, lattice)
        return c

    case = {
        'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'exact': exact,
        'mode_when': d.weighted([(4, 0), (1, 1), (1, 2)]), 'q': d.int(0, len(QUANTA) - 1),
        'conds': [make(i) for i in range(n)],
        'default': [d.int(1, 5), notation(d), notation(d)] if d.bool() else None,
        'late': [], 'ctx': gen.context(d),
    }
    runs = []
    t = 0
    m = d.int(2, 4)
    for k in range(m):
        if free and d.chance(1, 4):
            spec = ['AfterNPasses', d.int(1, 8), None]
        else:
            t = t + (d.int(1, 12) if free else lattice * d.int(1, 3))
            spec = ['TimeTermination', t, True, how_group(d, 1)]
        change = {}
        if k > 0:
            if d.chance(2, 3):
                change['conds'] = [[i, make(i)] for i in d.subset(range(n), 1)]
            if d.chance(1, 3):
                change['edges'] = gen.dag_edges(d, n)
            if toggle and d.bool():
                change['exact'] = True
            if d.chance(1, 4):
                change['default'] = [d.int(1, 5), ['quantity', d.int(0, len(UNITS) - 1)]]
        runs.append([spec, d.chance(1, 4), change])
    case['runs'] = runs
    return case


def many_case(d, exact=True):
    """many nodes or many parts, of which one is unlike the others"""
    # nothing happens at 0
    late = d.bool()

    def plain(coarse):
        kind = d.int(1 if late else 0, 3)
        rep = d.int(1, 3) * coarse if kind in (0, 1) else None
        start = d.int(1 if late else 0, 5) * coarse if kind in (1, 2, 3) else None
        end = start + d.int(0, 4) * coarse if kind == 3 else None
        return ['TimeInterval', rep, start, end, not d.chance(1, 6), not d.chance(1, 6), how_group(d, 3)]

    def series(m, coarse):
        odd = d.int(0, m - 1)
        return [plain(1 if k == odd else coarse) for k in range(m)]

    coarse = d.pick([2, 4, 6, 10])
    if d.bool():
        n = d.int(5, 9)
        conds = series(n, coarse)
        edges = gen.dag_edges(d, n) if d.chance(1, 3) else []
    else:
        n = d.int(1, 2)
        conds = [[d.pick(['Any', 'Any', 'Any', 'All']), series(d.int(5, 9), coarse)] for _ in range(n)]
        edges = []
    case = {
        'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'exact': exact, 'q': d.int(0, len(QUANTA) - 1),
        'conds': conds, 'default': [d.int(1, 5), notation(d), notation(d)] if d.bool() else None,
        'runs': [[['TimeTermination', d.int(4, 24), True, how_group(d, 1)], False] for _ in range(d.int(1, 2))],
        'ctx': gen.context(d),
    }
    case['runs'].sort(key=lambda r: r[0][1])
    return case


def units_case(d):
    """equal numbers of different units: all times are k or 1000 k"""
    k = d.int(1, 5)

    def time():
        return (k if d.chance(3, 4) else d.int(1, 6)) * d.pick([1, 1000])

    def plain():
        kind = d.int(0, 4)
        rep = time() if kind in (0, 1, 4) else None
        start = time() if kind != 0 else None
        end = start + time() if kind in (3, 4) else None
        return ['TimeInterval', rep, start, end, not d.chance(1, 6), not d.chance(1, 6), how_group(d, 3)]

    n = d.int(1, 3)
    conds = []
    for _ in range(n):
        c = plain()
        if d.chance(2, 3):
            c = [d.pick(['Any', 'Any', 'All']), [c, *[plain() for _ in range(d.int(1, 2))]]]
        conds.append(c)
    runs = []
    t = 0
    for _ in range(d.int(1, 2)):
        t += time()
        runs.append([d.pick([['TimeTermination', t, True, how_group(d, 1)], ['AfterNPasses', d.int(2, 12), None]]), False])
    return {
        'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n) if d.chance(1, 3) else [], 'exact': True,
        'q': d.int(0, len(QUANTA) - 1), 'conds': conds, 'runs': runs,
        'default': [d.int(1, 5), notation(d), notation(d)] if d.chance(1, 4) else None, 'ctx': gen.context(d),
    }


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------
class Run:
    """what one run showed; times in units of q"""
    def __init__(self):
        self.sets = []
        self.times = []        # absolute times at the yields
        self.end = None        # absolute time at the end
        self.how = None
        self.absolute = False
        self.stamps = []       # recorded timestamps
        self.step = None


def fraction_gcd(a, b):
    d = math.lcm(a.denominator, b.denominator)
    return Fraction(math.gcd(int(a * d), int(b * d)), d)


class AbsProblem(InContext):
    def __init__(self, case, q=None, alt=0):
        self.case = case
        self.q = QUANTA[case['q']] if q is None else q
        self.n = case['n']
        self.nodes = Nodes(case['kind'][0], self.n, case['kind'][1])
        self.graph = dep_dict(self.n, case['edges'])
        self.writer = Writer(self.q, alt)
        self.exact = case['exact']
        kw = {}
        mode = gs.SchedulingMode.EXACT_TIME if self.exact else gs.SchedulingMode.STANDARD
        # set at construction, before or after conditions are added
        when = case.get('mode_when', 0)
        if when == 0:
            kw['mode'] = mode
        elif not self.exact:
            kw['mode'] = gs.SchedulingMode.EXACT_TIME
        if case['default'] is not None:
            k, *how = case['default']
            how = how[alt]
            if how[0] in ('number', 'numstr'):
                how = ['str', how[1]]
            kw['default_absolute_time_unit'] = write(k * self.q, how)[0]
            self.default = Fraction(k)
        else:
            self.default = Fraction(1000) / self.q
        # edges listed in 'late' are added after construction
        late = case.get('late') or []
        self.scheduler = gs.Scheduler(
            build.graph_dict(self.n, [e for k, e in enumerate(case['edges']) if k not in late], self.nodes), **kw
        )
        if when == 1:
            self.scheduler.mode = mode
        for i, c in enumerate(case['conds']):
            if c is not None:
                self.scheduler.add_condition(self.nodes.get(i), self.writer.condition(c, self.nodes))
        for k in late:
            a, b = case['edges'][k]
            self.scheduler.add_graph_edge(self.nodes.get(a), self.nodes.get(b))
        if when == 2:
            self.scheduler.mode = mode
        self.fine = None
        self.edges = case['edges']
        self.conds = list(case['conds'])
        self.settle()

    def settle(self):
        layers = gen.layers_of(self.graph)
        self.n_layers = 1 if self.exact else len(layers)
        self.layer = {x: k for k, layer in enumerate(layers) for x in layer}
        # every time is a multiple of this
        self.fine = fraction_gcd(self.fine, self.default) if self.fine else self.default
        self.grid = self.fine / (self.fine.numerator * self.n_layers)
        self.node_absolute = any(is_absolute(c) for c in self.conds)

    def change(self, change, tracker=None):
        """between two runs"""
        for i, c in change.get('conds', ()):
            self.scheduler.add_condition(self.nodes.get(i), self.writer.condition(c, self.nodes))
            self.conds[i] = c
            if tracker is not None:
                tracker.model.conds[i] = c
                tracker.forget(i)
        if 'edges' in change:
            old, new = {tuple(e) for e in self.edges}, {tuple(e) for e in change['edges']}
            for a, b in sorted(old - new):
                self.scheduler.remove_graph_edge(self.nodes.get(a), self.nodes.get(b))
            for a, b in sorted(new - old):
                self.scheduler.add_graph_edge(self.nodes.get(a), self.nodes.get(b))
            self.edges = change['edges']
            self.graph = dep_dict(self.n, self.edges)
        if 'exact' in change:
            self.exact = not self.exact
            self.scheduler.mode = gs.SchedulingMode.EXACT_TIME if self.exact else gs.SchedulingMode.STANDARD
        if 'default' in change:
            k, how = change['default']
            self.scheduler.default_absolute_time_unit = write(k * self.q, how)[0]
            self.default = Fraction(k)
        self.settle()
        if tracker is not None:
            tracker.model.one_set = self.exact
            tracker.model.set_graph(self.graph)
            tracker.model.set_confluent()

    def time(self):
        return microseconds(
            self.scheduler.get_clock(self.ctx).time.absolute, 'clock'
        ) / self.q

    def model(self):
        m = Model(self.graph, self.conds, absolute=True, one_set=self.exact)
        later = [x for r in self.case['runs'] for x in (r[2] if len(r) > 2 else {}).get('conds', ())]
        if later:
            m.set_pairs(set(m.pairs).union(*[useable_pairs(c, i) for i, c in later]))
        return m

    def snap(self, t, grid=None):
        """absolute times may carry rounding errors of 8 decimals"""
        grid = grid or self.grid
        near = Fraction(round(t / grid)) * grid
        return near if abs(near - t) < grid / 1000 else t

    def run(self, spec, cap, tracker=None):
        """one run under the termination condition"""
        s = self.scheduler
        res = Run()
        res.absolute = self.node_absolute or is_absolute(spec)
        n_stamps = len(s.execution_timestamps.get(self.ctx, ()))
        term = {ESU: spec, SEQ: DEFAULT_TERM[SEQ]}
        g = s.run(termination_conds={
            gs.TimeScale.ENVIRONMENT_STATE_UPDATE: self.writer.condition(spec, self.nodes)
        }, **self.ctx_kw)
        if tracker is not None:
            tracker.model.absolute = res.absolute
            tracker.start(term)
        res.clocks = []
        while True:
            if len(res.sets) >= cap:
                res.how = 'cap'
                break
            try:
                out = self.nodes.indices(next(g))
            except StopIteration:
                out = END
            t = self.snap(self.time())
            step = self.snap(microseconds(s.get_clock(self.ctx).time.absolute_interval, 'step') / self.q)
            if res.absolute:
                res.step = step
            if tracker is not None:
                tracker.set_time(t, step, self.layer, self.exact or self.n_layers == 1)
                try:
                    allowed = tracker.step(out)
                except TooManyStates:
                    res.how = 'blowup'
                    break
                if allowed is not None:
                    raise Violation(
                        f'at time {t} (step {step}) the run yielded {out}; allowed {allowed}; '
                        f'so far {list(zip(map(str, res.times), res.sets))}'
                    )
            if out == END:
                res.how = 'end'
                res.end = t
                if tracker is not None:
                    tracker.finish()
                break
            res.sets.append(out)
            res.times.append(t)
            res.clocks.append(s.get_clock(self.ctx).time)
        res.stamps = s.execution_timestamps[self.ctx][n_stamps:]
        return res
