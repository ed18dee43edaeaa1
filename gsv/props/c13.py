"""C13: the scheduler's graph is the fold of its structural conditions."""
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import build, gen, structural
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D, dep_dict, layers_of
from gsv.nodes import Nodes
from gsv.structural import Ambiguous, Fails, UserError


def spec(d, n, owner):
    """specifications with an exact reference most of the time"""
    others = [i for i in range(n) if i != owner]
    k = d.int(0, 11)
    if k <= 3:
        return ['AddEdgeTo', [d.pick(others)], {}]
    if k <= 5:
        return ['RemoveEdgeFrom', [d.pick(others)], {}]
    if k <= 7:
        return structural.ordering(d, n, owner, flags=False, single=True)
    if k == 8:
        res = structural.ordering(d, n, owner, flags=False, ops=True)
        res[2].update(prune_cycles=False, reconnect_non_subject_receivers=False)
        return res
    if k == 9:
        return ['Custom', d.int(0, structural.N_CUSTOM - 1), {}]
    # the ones that fail: sometimes at once, sometimes depending on the graph
    if k == 10:
        return d.pick([['Broken', 0, {}], ['AddEdgeTo', [n + 3], {}], ['BeforeNode', [n + 2], {}]])
    return ['AfterNodes', d.subset(others, 1), {}]


def strategy(max_n, max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(2, max_n)
        ops = []
        for _ in range(d.int(1, max_ops)):
            k = d.int(0, 16)
            owner = d.int(0, n - 1)
            if k <= 4:
                ops.append(['add', owner, spec(d, n, owner), d.int(0, 3)])
            elif k <= 7:
                ops.append(['remove', d.int(0, 5), d.int(0, 1)])
            elif k == 8:
                ops.append(['setitem', owner, spec(d, n, owner) if d.chance(3, 4) else None])
            elif k == 9:
                ops.append(['remove_owner', owner])
            elif k == 10:
                b = d.pick([i for i in range(n) if i != owner])
                ops.append([d.pick(['edge', 'cut']), owner, b])
            elif k == 11:
                ops.append(['bulk', [[o, [spec(d, n, o) for _ in range(d.int(1, 2))]]
                                     for o in d.subset(range(n), 1)[:3]]])
            elif k == 12:
                ops.append(['run'])
            elif k == 13:
                ops.append(['again', d.int(0, 5), d.int(0, 4)])
            elif k == 14:
                ops.append(['permute', [d.int(0, 9) for _ in range(d.int(1, 4))], d.bool()])
            else:
                ops.append(['look', d.int(0, 2)])
        return {
            'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n), 'ops': ops,
            'mode': 'EXACT_TIME' if d.chance(1, 6) else 'STANDARD',
            'nx': d.chance(1, 4),
        }
    return s()


def make(sp, nodes):
    if sp[0] == 'Broken':
        return gs.CustomGraphStructureCondition(structural.raises)
    return structural.build(sp, nodes)


class World:
    def __init__(self, case):
        self.case = case
        self.n = case['n']
        self.nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
        self.base = dep_dict(case['n'], case['edges'])
        graph = build.graph_dict(case['n'], case['edges'], self.nodes)
        if case['nx']:
            graph = gs.dependency_dict_to_networkx_digraph(graph)
        self.s = gs.Scheduler(graph, mode=getattr(gs.SchedulingMode, case['mode']))
        self.exact = case['mode'] == 'EXACT_TIME'
        self.registered = []    # (owner, spec, condition)
        self.all = []           # the same, of all times
        self.basic = {}         # owner -> condition
        self.labels = set()

    def expected(self):
        """('graph', g), ('fails', kind) or ('ambiguous', None)"""
        try:
            return 'graph', structural.fold(self.base, [(o, sp) for o, sp, _ in self.registered])
        except Fails as e:
            return 'fails', e.kind
        except Ambiguous:
            self.labels.add('ambiguous')
            return 'ambiguous', None

    def attempt(self, f, what):
        """run f, which brings the graph up to date; -> result or None"""
        status, value = self.expected()
        try:
            res = f()
        except gs.ConditionError:
            kind = 'condition'
        except UserError:
            kind = 'user'
        else:
            check(status != 'fails', '{} did not raise although a condition cannot be applied', what)
            return res
        check(
            status == 'ambiguous' or status == 'fails' and value == kind,
            '{} raised a {} error, expected {} {}', what, kind, status, value
        )
        self.labels.add('failing')
        return None

    def look(self, how):
        status, expected = self.expected()
        for what in (('graph', 'queue', 'indices'), ('queue', 'graph'), ('indices', 'queue', 'graph'))[how]:
            f = {'graph': lambda: self.s.graph,
                 'queue': lambda: self.s.consideration_queue,
                 'indices': lambda: self.s.consideration_queue_indices}[what]
            res = self.attempt(f, what)
            if status != 'graph':
                continue
            layers = layers_of(expected)
            if what == 'graph':
                check_equal(build.index_graph(res, self.nodes), expected, 'graph')
                check_equal(build.index_graph(self.s.dependency_dict, self.nodes), expected, 'dependency_dict')
            elif what == 'queue':
                got = [self.nodes.indices(cs) for cs in res]
                if self.exact:
                    check_equal(got, [frozenset(range(self.n))], 'queue')
                elif layers is not None:
                    check_equal(got, layers, 'queue')
                else:
                    check_equal(got, [frozenset()], 'queue of a cyclic graph')
            elif layers is not None:
                check_equal(
                    {self.nodes.index(k): v for k, v in res.items()},
                    {i: k for k, cs in enumerate(layers) for i in cs}, 'positions'
                )

    def add(self, owner, sp, how, cond=None):
        if cond is None:
            cond = make(sp, self.nodes)
        o = self.nodes.get(owner)
        self.registered.append((owner, sp, cond))
        if how == 0:
            self.attempt(lambda: self.s.add_condition(o, cond), 'add_condition')
        elif how == 1:
            self.s.conditions.add_condition(o, cond)
        elif how == 2:
            self.attempt(lambda: self.s.add_condition_set({o: cond}), 'add_condition_set')
        else:
            self.s.conditions.add_condition_set(gs.ConditionSet({o: [cond]}))

    def step(self, op):
        name = op[0]
        self.all += [r for r in self.registered if r[2] is not None and not any(r[2] is a[2] for a in self.all)]
        if name == 'add':
            self.add(op[1], op[2], op[3])
        elif name == 'look':
            self.look(op[1])
        elif name == 'remove':
            if not self.registered:
                return
            k = op[1] % len(self.registered)
            _, _, cond = self.registered.pop(k)
            target = self.s if op[2] else self.s.conditions
            check(target.remove_condition(cond) is cond, 'remove_condition returned something else')
            if k < len(self.registered):
                self.labels.add('removed in the middle')
        elif name == 'again':
            # a condition of before, registered or not, added (last)
            if not self.all:
                return
            r = self.all[op[1] % len(self.all)]
            owner, _, cond = r
            mine = any(x[2] is cond for x in self.registered)
            if op[2] == 4:
                self.registered = [x for x in self.registered if x[0] != owner] + [r]
                self.s.conditions[self.nodes.get(owner)] = cond
            else:
                if mine:
                    check(self.s.conditions.remove_condition(cond) is cond, 'remove_condition returned something else')
                self.registered = [x for x in self.registered if x[2] is not cond]
                self.add(owner, r[1], op[2], cond)
            self.labels.add('added again')
        elif name == 'permute':
            keys = op[1]
            old = self.registered[op[2]:]
            new = [r for _, r in sorted(enumerate(old), key=lambda x: (keys[x[0] % len(keys)], x[0]))]
            for r in old:
                check(self.s.conditions.remove_condition(r[2]) is r[2], 'remove_condition returned something else')
                self.registered.remove(r)
            for r in new:
                self.add(r[0], r[1], 1, r[2])
        elif name == 'setitem':
            o = self.nodes.get(op[1])
            self.registered = [r for r in self.registered if r[0] != op[1]]
            if op[2] is None:
                cond = gs.Always()
                self.basic[op[1]] = cond
            else:
                cond = make(op[2], self.nodes)
                self.registered.append((op[1], op[2], cond))
            self.s.conditions[o] = cond
        elif name == 'remove_owner':
            o = self.nodes.get(op[1])
            mine = [r for r in self.registered if r[0] == op[1]]
            if len(mine) + (op[1] in self.basic) > 1:
                try:
                    self.s.remove_condition(o)
                except gs.ConditionError:
                    return
                raise Violation('ambiguous removal by owner did not raise')
            res = self.s.remove_condition(o)
            if mine:
                check(res is mine[0][2], 'remove_condition by owner returned {}', res)
                self.registered.remove(mine[0])
            elif op[1] in self.basic:
                check(res is self.basic.pop(op[1]), 'remove_condition by owner returned {}', res)
            else:
                check(res is None, 'nothing to remove, but returned {}', res)
        elif name in ('edge', 'cut'):
            a, b = op[1], op[2]
            before = len(self.s.conditions.structural_condition_order)
            if name == 'edge':
                sp, owner = ['AddEdgeTo', [b], {}], a
                f = self.s.add_graph_edge
            else:
                sp, owner = ['RemoveEdgeFrom', [a], {}], b
                f = self.s.remove_graph_edge
            self.registered.append((owner, sp, None))
            self.attempt(lambda: f(self.nodes.get(a), self.nodes.get(b)), name)
            order = self.s.conditions.structural_condition_order
            check_equal(len(order), before + 1, 'number of structural conditions')
            self.registered[-1] = (owner, sp, order[-1])
        elif name == 'bulk':
            d = {}
            for owner, specs in op[1]:
                conds = [make(sp, self.nodes) for sp in specs]
                d[self.nodes.get(owner)] = conds
                self.registered.extend(zip([owner] * len(conds), specs, conds))
            self.attempt(lambda: self.s.add_condition_set(d), 'add_condition_set')
        elif name == 'run':
            for i in range(self.n):
                if i not in self.basic:
                    self.basic[i] = gs.Always()
                    self.s.conditions.add_condition(self.nodes.get(i), self.basic[i])
            status, expected = self.expected()
            it = self.s.run(termination_conds={
                gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)
            })
            if status == 'ambiguous':
                try:
                    for _ in it:
                        pass
                except (gs.ConditionError, gs.SchedulerError, UserError):
                    pass
                return
            if status == 'graph' and not structural.acyclic(expected):
                try:
                    next(it)
                except gs.SchedulerError:
                    self.labels.add('cyclic')
                    return
                raise Violation(f'run over the cyclic graph {expected}')
            ran = self.attempt(lambda: list(it), 'run')
            if status == 'graph':
                layers = [frozenset(range(self.n))] if self.exact else layers_of(expected)
                check_equal([self.nodes.indices(x) for x in ran], layers * 2, 'unconditional run')
                self.labels.add('run')


def run(case):
    w = World(case)
    changed = 0
    for op in case['ops']:
        before = len(w.registered)
        w.step(op)
        changed += before != len(w.registered)
        got = [id(c) for c in w.s.conditions.structural_condition_order]
        check_equal(got, [id(r[2]) for r in w.registered], f'registered conditions after {op}')
    w.look(0)
    for how in (1, 2):
        w.look(how)
    if len(w.registered) > 1:
        w.labels.add('several at the end')
    # removing all restores the original
    while w.registered:
        k = changed % len(w.registered)
        w.s.remove_condition(w.registered.pop(k)[2])
    w.look(0)
    return Result(changed > 1, sorted(w.labels))


CHECK = Check(
    'C13',
    'A case is a DAG and a sequence of structural additions (some of which cannot be '
    'applied), removals, item assignments, inspections and runs on one scheduler; '
    'non-trivial: the set of structural conditions changed at least twice.',
    [
        Sub('history', lambda t: strategy(5, 14) if t == 'quick' else strategy(7, 40), run, 32000),
    ],
    assumptions=[
        'pruning of cycles is only compared where its result is specified (one subject, default options, acyclic input)',
    ],
)
