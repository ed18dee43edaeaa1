"""C14: condition sets hold exactly what was added and not removed."""
import collections
import types

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

N = 4
BASIC, COMPOSITE, STRUCTURAL, EDGE, CUSTOM = range(5)


def new_kind(d):
    return d.weighted([(3, BASIC), (1, COMPOSITE), (3, STRUCTURAL), (1, EDGE), (1, CUSTOM)])


def strategy(max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        ops = []
        for _ in range(d.int(1, max_ops)):
            k = d.int(0, 16)
            owner = d.int(0, N - 1)
            look = d.int(0, 2)
            if k <= 4:
                ops.append([look, 'add', owner, new_kind(d)])
            elif k <= 6:
                ops.append([look, 'remove', d.int(0, 7)])
            elif k == 7:
                ops.append([look, 'remove_old', d.int(0, 7)])
            elif k <= 9:
                ops.append([look, 'remove_owner', owner])
            elif k == 10:
                ops.append([look, 'readd', owner, d.int(0, 7)])
            elif k <= 12:
                ops.append([look, 'setitem', owner, new_kind(d)])
            elif k == 13:
                ops.append([look, 'bulk', d.int(0, 5), [
                    [o, [new_kind(d) for _ in range(d.int(1, 3))], d.int(0, 4)]
                    for o in d.perm(N)[:d.int(1, 3)]
                ]])
            elif k == 14 and d.bool():
                ops.append([look, 'copy', d.int(0, 2)])
            elif k == 14:
                # a new set from several collections
                parts = [[
                    [o, [new_kind(d) for _ in range(d.int(1, 3))], d.int(0, 4)]
                    for o in d.perm(N)[:d.int(1, 3)]
                ] for _ in range(d.int(1, 3))]
                ops.append([look, 'build', parts, [d.int(0, 2) for _ in parts], d.bool()])
            elif k == 16:
                ops.append([look, d.pick(['again', 'assign_again']), d.int(0, 7)])
            else:
                ops.append([look, d.pick(['remove_unowned', 'add_invalid', 'set_invalid']), owner])
        return {'kind': gen.node_kind(d), 'ops': ops, 'scheduler': d.chance(1, 4)}
    return s()


class World:
    def __init__(self, case):
        self.nodes = Nodes(case['kind'][0], N, case['kind'][1])
        self.cs = gs.ConditionSet()
        self.basic = {}         # owner -> condition
        self.order = []         # (owner, condition)
        self.gone = []          # (owner or None, condition): not contained any more
        self.labels = set()

    # -- objects
    def make(self, kind, owner):
        """a condition that may be added to owner"""
        other = self.nodes.get((owner + 1) % N)
        if kind == BASIC:
            return gs.EveryNPasses(1)
        if kind == COMPOSITE:
            return gs.All(gs.Always(), gs.Not(gs.Never()))
        if kind == STRUCTURAL:
            return gs.BeforeNode(other)
        if kind == EDGE:
            return gs.AddEdgeTo(other)
        return gs.CustomGraphStructureCondition(lambda graph: graph)

    def mine(self, owner):
        return [c for o, c in self.order if o == owner]

    # -- model
    def put(self, owner, cond):
        if isinstance(cond, gs.GraphStructureCondition):
            self.order.append((owner, cond))
        else:
            if owner in self.basic and self.basic[owner] is not cond:
                self.gone.append((owner, self.basic[owner]))
            self.basic[owner] = cond

    def drop_structural(self, owner, cond):
        k = [i for i, (o, c) in enumerate(self.order) if c is cond][0]
        del self.order[k]
        # a removed structural condition still knows its last owner
        if not any(c is cond for _, c in self.order):
            self.gone.append((owner, cond))

    # -- views
    def look(self, how=2):
        cs, nodes = self.cs, self.nodes
        views = ['basic', 'structural', 'order', 'all', 'contains', 'iter', 'item', 'repr', 'owner']
        if how == 0:
            return
        if how == 1:
            views = views[::-1]
        for v in views:
            if v == 'basic':
                got = {nodes.index(k): c for k, c in cs.conditions_basic.items()}
                check_equal(sorted(got), sorted(self.basic), 'owners of basic conditions')
                for k, c in got.items():
                    check(c is self.basic[k], 'basic condition of {} is {}, not {}', k, c, self.basic[k])
            elif v == 'structural':
                got = {nodes.index(k): list(c) for k, c in cs.conditions_structural.items()}
                check_equal(sorted(got), sorted({o for o, _ in self.order}), 'owners of structural conditions')
                for k, c in got.items():
                    check_equal([id(x) for x in c], [id(x) for x in self.mine(k)], f'structural conditions of {k}')
            elif v == 'order':
                check_equal(
                    [id(c) for c in cs.structural_condition_order], [id(c) for _, c in self.order],
                    'structural condition order'
                )
            elif v in ('all', 'item'):
                owners = set(self.basic) | {o for o, _ in self.order}
                got = {nodes.index(k): c for k, c in cs.conditions.items()}
                check_equal(sorted(got), sorted(owners), 'owners')
                for o in owners:
                    c = got[o] if v == 'all' else cs[nodes.get(o)]
                    want = ([self.basic[o]] if o in self.basic else []) + self.mine(o)
                    if len(want) == 1:
                        check(c is want[0], 'condition of {} is {}, not {}', o, c, want[0])
                    else:
                        check_equal([id(x) for x in c], [id(x) for x in want], f'conditions of {o}')
            elif v == 'contains':
                for o in range(N):
                    check_equal(nodes.get(o) in cs, o in self.basic or bool(self.mine(o)), f'{o} in set')
                check_equal('no such node' in cs, False, 'unknown node in set')
            elif v == 'iter':
                check_equal(
                    sorted(nodes.index(x) for x in cs),
                    sorted(set(self.basic) | {o for o, _ in self.order}), 'iteration'
                )
            elif v == 'repr':
                text = repr(cs)
                for o in set(self.basic) | {o for o, _ in self.order}:
                    check(repr(nodes.get(o)) in text, '{} is missing from {}', nodes.get(o), text)
            else:
                for o, c in [*self.basic.items(), *self.order]:
                    check_equal(c.owner, nodes.get(o), 'owner of a contained condition')

    # -- operations
    def step(self, op):
        name, cs, nodes = op[1], self.cs, self.nodes
        if name == 'add':
            c = self.make(op[3], op[2])
            cs.add_condition(nodes.get(op[2]), c)
            self.put(op[2], c)
        elif name == 'remove':
            present = [*self.basic.items(), *self.order]
            if not present:
                return
            o, c = present[op[2] % len(present)]
            res = cs.remove_condition(c)
            check(res is c, 'remove_condition returned {}', res)
            if self.basic.get(o) is c:
                del self.basic[o]
                self.gone.append((None, c))
                check_equal(c.owner, None, 'owner of a removed basic condition')
            else:
                self.drop_structural(o, c)
        elif name == 'remove_old':
            if not self.gone:
                return
            o, c = self.gone[op[2] % len(self.gone)]
            try:
                res = cs.remove_condition(c)
            except gs.ConditionError:
                check(o is None, 'removal of a condition that had an owner raised')
                self.labels.add('removal without owner')
            else:
                check(o is not None, 'removal of a condition without owner did not raise')
                check(res is None, 'removal of a condition not contained returned {}', res)
                self.labels.add('removal of a removed one')
        elif name == 'remove_owner':
            o = op[2]
            present = ([self.basic[o]] if o in self.basic else []) + self.mine(o)
            try:
                res = cs.remove_condition(nodes.get(o))
            except gs.ConditionError:
                check(len(present) > 1, 'removal by owner of {} raised', present)
                self.labels.add('ambiguous removal')
                return
            check(len(present) <= 1, 'ambiguous removal of {} did not raise', present)
            check(res is (present[0] if present else None), 'removal by owner returned {}, not {}', res, present)
            if not present:
                self.labels.add('removal of nothing')
            elif o in self.basic:
                del self.basic[o]
                self.gone.append((None, res))
                check_equal(res.owner, None, 'owner of a removed basic condition')
            else:
                self.drop_structural(o, res)
        elif name in ('again', 'assign_again'):
            present = [*self.basic.items(), *self.order]
            if not present:
                return
            o, c = present[op[2] % len(present)]
            old = self.mine(o)
            if name == 'again':
                cs.add_condition(nodes.get(o), c)
                self.put(o, c)
            else:
                cs[nodes.get(o)] = c
                self.put(o, c)
                for x in old:
                    self.drop_structural(o, x)
            self.labels.add('a contained one again')
        elif name == 'readd':
            if not self.gone:
                return
            _, c = self.gone[op[3] % len(self.gone)]
            o = op[2]
            if nodes.get(o) in getattr(c, 'nodes', ()):
                return
            self.gone = [g for g in self.gone if g[1] is not c]
            cs.add_condition(nodes.get(o), c)
            self.put(o, c)
            self.labels.add('added again')
        elif name == 'setitem':
            o = op[2]
            c = self.make(op[3], o)
            old = self.mine(o)
            cs[nodes.get(o)] = c
            for x in old:
                self.drop_structural(o, x)
            self.put(o, c)
            if old:
                self.labels.add('assignment over structural')
        elif name == 'bulk':
            how = op[2]
            content, d = self.collection(op[3])
            if how == 0:
                cs.add_condition_set(d)
            elif how == 5:
                cs.add_condition_set(types.MappingProxyType(d))
            elif how == 1:
                other = gs.ConditionSet(d)
                content = self.as_iterated(other)
                cs.add_condition_set(other)
            elif how == 2:
                for o, conds in content:
                    cs.add_condition_set({nodes.get(o): conds})
            elif how == 3:
                other = gs.ConditionSet(conditions=d)
                content = self.as_iterated(other)
                cs.add_condition_set(other)
            else:
                other = gs.ConditionSet(*[{k: v} for k, v in d.items()], None)
                content = self.as_iterated(other)
                cs.add_condition_set(other)
            for o, conds in content:
                for c in conds:
                    self.put(o, c)
            self.labels.add('bulk')
        elif name == 'copy':
            # continue with a set made from this one
            content = self.as_iterated(cs)
            total = len(self.basic) + len(self.order)
            if op[2] == 0:
                self.cs = gs.ConditionSet(cs)
            elif op[2] == 1:
                self.cs = gs.ConditionSet(conditions=cs)
            else:
                self.cs = gs.ConditionSet(dict(cs.conditions))
            check_equal(sum(len(c) for _, c in content), total, 'number of conditions iterated')
            self.basic, self.order = {}, []
            for o, conds in content:
                for c in conds:
                    self.put(o, c)
            self.labels.add('copied')
        elif name == 'build':
            # a collection given by name comes along with others of other owners only
            named = op[4] and not {o for part in op[2][:-1] for o, *_ in part} & {o for o, *_ in op[2][-1]} and (
                len(op[2]) == 1 or all(k in (BASIC, COMPOSITE) for _, kinds, _ in op[2][-1] for k in kinds)
            )
            self.basic, self.order = {}, []
            given = []
            for part, how in zip(op[2], op[3]):
                content, d = self.collection(part)
                if how == 1:
                    d = gs.ConditionSet(d)
                    content = self.as_iterated(d)
                elif how == 2:
                    given.append(None)
                given.append(d)
                for o, conds in content:
                    for c in conds:
                        self.put(o, c)
            if named:
                self.cs = gs.ConditionSet(*given[:-1], conditions=given[-1])
            else:
                self.cs = gs.ConditionSet(*given)
            self.labels |= {'copied', 'built'}
        elif name == 'remove_unowned':
            c = self.make(op[2], 0)
            try:
                cs.remove_condition(c)
            except gs.ConditionError:
                return
            raise Violation('removal of a condition without owner did not raise')
        else:
            c = gs.BeforeNode(nodes.get(op[2]))
            try:
                if name == 'add_invalid':
                    cs.add_condition(nodes.get(op[2]), c)
                else:
                    cs[nodes.get(op[2])] = c
            except gs.ConditionError:
                self.labels.add('invalid')
                return
            raise Violation('a structural condition on its own owner was accepted')

    def collection(self, entries):
        content = []
        d = {}
        for o, kinds, form in entries:
            conds = [self.make(k, o) for k in kinds]
            if form == 0 or len(conds) == 1:
                conds = conds[:1]
                d[self.nodes.get(o)] = conds[0]
            else:
                # an iterator can be read only once
                d[self.nodes.get(o)] = (list, tuple, collections.deque, iter)[form - 1](conds)
            content.append((o, conds))
        return content, d

    def as_iterated(self, other):
        """[(owner, [conditions])] by iteration, the order of a bulk addition"""
        res = []
        for k in other:
            v = other[k]
            res.append((self.nodes.index(k), list(v) if isinstance(v, list) else [v]))
        return res


def run(case):
    w = World(case)
    if case['scheduler']:
        # the set of a scheduler, changed behind its back
        s = gs.Scheduler({w.nodes.get(i): set() for i in range(N)})
        w.cs = s.conditions
    sizes = set()
    for op in case['ops']:
        w.step(op)
        w.look(op[0])
        sizes.add((len(w.basic), len(w.order)))
    w.look()
    if case['scheduler'] and 'copied' not in w.labels:
        for i in range(N):
            check_equal(w.nodes.get(i) in s, w.nodes.get(i) in w.cs, f'{i} in scheduler')
    return Result(len(sizes) > 2, sorted(w.labels))


CHECK = Check(
    'C14',
    'A case is a sequence of additions, replacements, removals, item assignments and '
    'bulk additions on a condition set; non-trivial: the numbers of basic and structural '
    'conditions took at least three different values.',
    [
        Sub('history', lambda t: strategy(14) if t == 'quick' else strategy(50), run, 60000),
    ],
    assumptions=['a condition object belongs to one owner at a time'],
)
