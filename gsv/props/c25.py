"""C25: probable mistakes are reported by one warning each, nothing else is."""
import warnings

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import build, gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D, dep_dict
from gsv.nodes import Nodes
from gsv.structural import Ambiguous

MANY = 10 ** 6


def recorded(f, *errors):
    """-> (result or error, number of user warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            res = f()
        except errors as e:
            res = e
    return res, [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def valid_subjects(g, sp, owner):
    kind = structural.kind_of(sp[0])
    if kind == 'Before':
        return [s for s in sp[1] if owner in g[s]]
    if kind == 'After':
        return [s for s in sp[1] if s in g[owner]]
    return [s for s in sp[1] if g[s] == g[owner]]


def irregular(g, sp, owner):
    """warnings due when sp is applied to g, cycles aside"""
    if sp[0] == 'RemoveEdgeFrom':
        return int(sp[1][0] not in g[owner])
    if sp[0] in ('AddEdgeTo', 'Custom'):
        return 0
    return int(len(valid_subjects(g, sp, owner)) > 0)


# ---------------------------------------------------------------------------
# a condition on its own
# ---------------------------------------------------------------------------
def direct_strategy(max_n):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n)
        owner = d.int(0, n - 1)
        if d.chance(1, 5):
            sp = ['RemoveEdgeFrom', [d.pick([i for i in range(n) if i != owner])], {}]
        else:
            sp = structural.ordering(d, n, owner, ops=d.chance(1, 4))
        edges = gen.dag_edges(d, n)
        if sp[0] == 'WithNode' and d.bool():
            # often with equal senders
            a, b = owner, sp[1][0]
            edges = [e for e in edges if e[1] != b and e != [b, a]]
            edges += [[e[0], b] for e in edges if e[1] == a]
        return {'n': n, 'kind': gen.node_kind(d), 'edges': edges, 'owner': owner, 'spec': sp,
                'times': d.int(1, 2)}
    return s()


def run_direct(case):
    nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
    g = dep_dict(case['n'], case['edges'])
    sp, owner = case['spec'], case['owner']
    cond, w = recorded(lambda: structural.build(sp, nodes))
    check(not w, 'creating {}: unexpected warning {}', sp, w)
    _, w = recorded(lambda: setattr(cond, 'owner', nodes.get(owner)))
    check(not w, 'assigning the owner: unexpected warning {}', w)
    want = irregular(g, sp, owner)
    failed = False
    for _ in range(case['times']):
        graph = build.graph_dict(case['n'], case['edges'], nodes)
        res, w = recorded(lambda: cond.modify_graph(graph), gs.ConditionError)
        if isinstance(res, gs.ConditionError):
            failed = True
            continue
        check_equal(len(w), want, f'number of warnings {w} of {sp} owned by {owner} on {g}')
    subs = len(sp[1])
    labels = ['irregular' if want else 'regular']
    if subs > 1 and want and sp[0] != 'RemoveEdgeFrom' and len(valid_subjects(g, sp, owner)) < subs:
        labels.append('in part')
    return Result(not failed, labels)


# ---------------------------------------------------------------------------
# histories
# ---------------------------------------------------------------------------
def spec(d, n, owner):
    others = [i for i in range(n) if i != owner]
    k = d.int(0, 8)
    if k <= 2:
        return ['AddEdgeTo', [d.pick(others)], {}]
    if k <= 4:
        return ['RemoveEdgeFrom', [d.pick(others)], {}]
    if k <= 7:
        return structural.ordering(d, n, owner, flags=False, single=True)
    return ['Custom', d.int(0, structural.N_CUSTOM - 1), {}]


def history_strategy(max_n, max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n)
        ops = []
        for _ in range(d.int(1, max_ops)):
            k = d.int(0, 15)
            owner = d.int(0, n - 1)
            if k <= 3:
                ops.append(['basic', owner, d.int(0, 3), d.int(0, 2)])
            elif k <= 6:
                ops.append(['add', owner, spec(d, n, owner), d.int(0, 2)])
            elif k == 7:
                ops.append([d.pick(['edge', 'cut']), owner, d.pick([i for i in range(n) if i != owner])])
            elif k == 8:
                ops.append(['setitem', owner, spec(d, n, owner) if d.bool() else None])
            elif k <= 10:
                ops.append(['remove', d.int(0, 7), d.bool()])
            elif k == 11:
                ops.append(['remove_owner', owner, d.bool()])
            elif k == 12:
                ops.append(['remove_gone', d.int(0, 7), d.bool()])
            elif k == 13:
                ops.append(['bulk', [[o, d.bool(), [spec(d, n, o) for _ in range(d.int(0, 2))]]
                                     for o in d.subset(range(n), 1)[:3]], d.bool()])
            elif k == 14:
                ops.append(['run'])
            else:
                ops.append(['look', d.int(0, 4)])
        return {
            'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n), 'ops': ops,
            'mode': 'EXACT_TIME' if d.chance(1, 4) else 'STANDARD',
        }
    return s()


class World:
    def __init__(self, case):
        self.n = case['n']
        self.nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
        self.base = dep_dict(case['n'], case['edges'])
        self.exact = case['mode'] == 'EXACT_TIME'
        self.s, w = recorded(lambda: gs.Scheduler(
            build.graph_dict(case['n'], case['edges'], self.nodes), mode=getattr(gs.SchedulingMode, case['mode'])
        ))
        check(not w, 'constructor: unexpected warning {}', w)
        self.basic = {}     # owner -> condition, None: implicit
        self.order = []     # (owner, spec, condition)
        self.gone = []      # replaced basic and removed structural conditions
        # number of warnings due with the next update of the graph
        self.due = [0, 0]
        # conditions that have to be named as making the graph cyclic
        self.culprits = []
        self.labels = set()
        self.irregular = 0

    def make_basic(self, k):
        return (gs.Always, lambda: gs.EveryNPasses(2), lambda: gs.All(gs.Always(), gs.AtPass(0)),
                lambda: gs.Condition(lambda: True))[k]()

    def expect(self, f, what, now=(0, 0), update=False, errors=()):
        """run f, which has to give a number of warnings, and those due if
        it brings the graph up to date.  (Otherwise these may come as well.)"""
        res, w = recorded(f, *errors)
        lo, hi = now
        if update:
            lo, hi = lo + self.due[0], hi + self.due[1]
            self.due = [0, 0]
            for owner, cond in self.culprits:
                check(any(cond in m and owner in m for m in w), '{}: {} of {} makes the graph cyclic, reported was {}', what, cond, owner, w)
            self.culprits = []
        check(lo <= len(w) <= hi, '{}: {} to {} warnings expected, got {}', what, lo, hi, w)
        if lo:
            self.irregular += 1
        return res

    # -- what is due
    def steps(self, culprits=None):
        """[(lo, hi)] of all structural conditions, from the original graph"""
        g = structural.copy_graph(self.base)
        res = []
        for owner, sp, _ in self.order:
            if g is None:
                res.append((0, MANY))
                continue
            lo = hi = irregular(g, sp, owner)
            try:
                after = structural.apply_reference(g, sp, owner)
            except Ambiguous:
                res.append((lo, MANY))
                g = None
                continue
            if not structural.acyclic(after):
                hi += 1
                if structural.acyclic(g):
                    lo += 1
                    self.labels.add('cycle')
                    if culprits is not None:
                        culprits.append((owner, sp))
            res.append((lo, hi))
            g = after
        return res, g

    def added(self):
        culprits = []
        lo, hi = self.steps(culprits)[0][-1]
        owner, sp, _ = self.order[-1]
        if culprits and culprits[-1][1] is sp:
            self.culprits.append((str(self.nodes.get(owner)), str(structural.build(sp, self.nodes))))
        self.due = [self.due[0] + lo, self.due[1] + hi]

    def removed(self):
        """conditions may or may not be applied again"""
        self.due = [0, sum(hi for _, hi in self.steps()[0])]
        self.culprits = []

    def replacing(self, owner):
        """warnings for a basic condition given to owner"""
        if owner not in self.basic:
            return 0, 0
        if self.basic[owner] is None:
            return 0, 1
        return 1, 1

    def put(self, owner, cond):
        if self.basic.get(owner) is not None:
            self.gone.append(self.basic[owner])
        self.basic[owner] = cond

    def step(self, op):
        s, cs, nodes = self.s, self.s.conditions, self.nodes
        name = op[0]
        if name in ('basic', 'add'):
            owner, how = nodes.get(op[1]), op[3]
            if name == 'basic':
                cond = self.make_basic(op[2])
                now = self.replacing(op[1])
                self.put(op[1], cond)
            else:
                cond = structural.build(op[2], nodes)
                now = 0, 0
                self.order.append((op[1], op[2], cond))
                self.added()
            if how == 0:
                self.expect(lambda: s.add_condition(owner, cond), op, now, True)
            elif how == 1:
                self.expect(lambda: cs.add_condition(owner, cond), op, now)
            else:
                new = {owner: cond} if op[1] % 2 else gs.ConditionSet({owner: [cond]})
                self.expect(lambda: s.add_condition_set(new), op, now, True)
        elif name in ('edge', 'cut'):
            a, b = op[1:]
            f, *r = (s.add_graph_edge, a, ['AddEdgeTo', [b], {}]) if name == 'edge' else \
                (s.remove_graph_edge, b, ['RemoveEdgeFrom', [a], {}])
            self.order.append((*r, None))
            self.added()
            cond = self.expect(lambda: f(nodes.get(a), nodes.get(b)), op, update=True)
            self.order[-1] = (*r, cond)
        elif name == 'setitem':
            owner = nodes.get(op[1])
            now = 0, 0
            mine = [r for r in self.order if r[0] == op[1]]
            self.order = [r for r in self.order if r[0] != op[1]]
            self.gone += [r[2] for r in mine]
            if mine:
                self.removed()
            if op[2] is None:
                cond = gs.Always()
                now = self.replacing(op[1])
                self.put(op[1], cond)
            else:
                cond = structural.build(op[2], nodes)
                self.order.append((op[1], op[2], cond))
                self.added()
            self.expect(lambda: cs.__setitem__(owner, cond), op, now)
        elif name == 'remove':
            everything = [c for c in self.basic.values() if c is not None] + [r[2] for r in self.order]
            if not everything:
                return
            cond = everything[op[1] % len(everything)]
            self.drop(cond)
            self.expect(lambda: (s if op[2] else cs).remove_condition(cond), op)
        elif name == 'remove_owner':
            owner = nodes.get(op[1])
            mine = [r[2] for r in self.order if r[0] == op[1]]
            if op[1] in self.basic:
                mine.append(self.basic[op[1]])
            f = lambda: (s if op[2] else cs).remove_condition(owner)
            if len(mine) > 1:
                check(isinstance(self.expect(f, op, errors=(gs.ConditionError,)), gs.ConditionError),
                      'ambiguous removal was not refused')
                return
            if not mine:
                self.labels.add('nothing to remove')
            elif op[1] in self.basic:
                del self.basic[op[1]]
            else:
                self.drop(mine[0])
            self.expect(f, op, (not mine, not mine))
        elif name == 'remove_gone':
            # a condition that was replaced, or removed before
            rest = [c for c in self.gone if not any(c is r[2] for r in self.order)]
            if not rest:
                return
            cond = rest[op[1] % len(rest)]
            self.labels.add('removed twice')
            self.expect(lambda: (s if op[2] else cs).remove_condition(cond), op, (1, 1))
        elif name == 'bulk':
            new = {}
            lo = hi = 0
            for o, basic, specs in op[1]:
                conds = []
                if basic:
                    x = self.replacing(o)
                    lo, hi = lo + x[0], hi + x[1]
                    conds.append(gs.Always())
                    self.put(o, conds[0])
                new[nodes.get(o)] = conds
                for sp in specs:
                    conds.append(structural.build(sp, nodes))
            if op[2]:
                # iterated in an order of its own
                first = new
                new = self.expect(lambda: gs.ConditionSet(first), 'condition set')
                check_equal({nodes.index(k) for k in new}, {o for o, b, x in op[1] if b or x}, 'owners')
            specs = {o: list(x) for o, _, x in op[1]}
            for k in new:
                o = nodes.index(k)
                for c in [new[k]] if isinstance(new[k], gs.condition.ConditionBase) else list(new[k]):
                    if isinstance(c, gs.GraphStructureCondition):
                        self.order.append((o, specs[o].pop(0), c))
                        self.added()
            self.expect(lambda: s.add_condition_set(new), op, (lo, hi), True)
        elif name == 'look':
            f = (lambda: s.graph, lambda: s.consideration_queue, lambda: s.consideration_queue_indices,
                 lambda: s.dependency_dict, lambda: (s.graph, s.consideration_queue, list(s.conditions), repr(cs)))[op[1]]
            self.expect(f, op, update=True)
            self.expect(f, 'second look', update=True)
        elif name == 'run':
            g = self.steps()[1]
            if self.exact and self.order:
                now = (1, 1)
                self.labels.add('exact time')
            else:
                now = (0, 0)
            if g is None or not structural.acyclic(g):
                # refused
                now = (0, now[1])
            res = self.expect(lambda: list(s.run(termination_conds={
                gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)
            })), op, now, True, (gs.SchedulerError,))
            if not isinstance(res, gs.SchedulerError):
                for i in range(self.n):
                    self.basic.setdefault(i, None)
                self.labels.add('run')
        else:
            raise Violation(name)

    def drop(self, cond):
        k = [i for i, r in enumerate(self.order) if r[2] is cond]
        if k:
            self.order.pop(k[0])
            self.gone.append(cond)
            self.removed()
        else:
            del self.basic[[o for o, c in self.basic.items() if c is cond][0]]


def run_history(case):
    w = World(case)
    try:
        for op in case['ops']:
            w.step(op)
        w.step(['look', 4])
    except gs.ConditionError:
        # a conflict, which is possible on a graph that has cycles already
        if w.steps()[1] is not None:
            raise
        w.labels.add('conflict')
    return Result(w.irregular > 0, sorted(w.labels))


# ---------------------------------------------------------------------------
# thresholds
# ---------------------------------------------------------------------------
class Holder:
    value = 1


@st.composite
def threshold_strategy(draw):
    d = D(draw)
    return {
        'comparator': d.pick(['<', '<=', '>', '>=', '==', '!=']),
        'atol': d.pick([None, 0, 0, 0.5, 1, 1e-9]), 'rtol': d.pick([None, 0, 0, 0.25, 2]),
        'threshold': d.int(-1, 3), 'indices': d.pick([None, None, [0], [0, 0]]), 'how': d.int(0, 2),
    }


def run_threshold(case):
    h = Holder()
    for _ in case['indices'] or ():
        h.value = [h.value]
    kwargs = {k: case[k] for k in ('atol', 'rtol') if case[k] is not None}
    make = lambda: gs.Threshold(h, 'value', case['threshold'], case['comparator'], case['indices'], **kwargs)
    want = int(case['comparator'] not in ('==', '!=') and any(kwargs.values()))
    cond, w = recorded(make)
    check_equal(len(w), want, f'number of warnings {w}')
    # using it gives none
    s = gs.Scheduler({'A': set()})
    f = [lambda: s.add_condition('A', gs.Any(cond, gs.Always())),
         lambda: s.add_condition('A', gs.Any(gs.Not(cond), cond)),
         lambda: [cond.is_satisfied(scheduler=s, execution_id=k) for k in range(2)]][case['how']]
    _, w = recorded(lambda: (f(), list(s.run())))
    check(not w, 'use: unexpected warning {}', w)
    return Result(bool(kwargs), ['warned' if want else 'none'])


CHECK = Check(
    'C25',
    'A case is an ordering condition and a graph, a history of additions, replacements, removals, '
    'edges, looks and runs on one scheduler, or a threshold with tolerances; non-trivial: '
    'the condition could be applied, some operation had to be reported, or a tolerance was given.',
    [
        Sub('direct', lambda t: direct_strategy(6 if t == 'quick' else 10), run_direct, 16000),
        Sub('history', lambda t: history_strategy(5, 12) if t == 'quick' else history_strategy(7, 40), run_history, 20000),
        Sub('threshold', lambda t: threshold_strategy(), run_threshold, 2500),
    ],
    assumptions=[
        'replacing an implicit condition, and applying conditions again after the removal of an earlier one, may be reported or not',
        'a condition that leaves a graph cyclic may be reported again or not',
        'assigning a condition to a node it depends on is outside this claim',
    ],
)
