"""C05: composite conditions obey boolean algebra and own their members."""
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen
from gsv.core import Check, Result, Sub, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

LEAVES = 4


def n_parts(d):
    return d.int(1, 4) if not d.chance(1, 10) else d.int(5, 9)


def expression(d, depth, unary=True):
    """unary: only not / first-n-times conditions above (so that the number of
    evaluations of a first-n-times condition is well defined)"""
    k = d.int(0, 9) if depth > 0 else d.int(0, 3)
    if k <= 1:
        return ['leaf', d.int(0, LEAVES - 1)]
    if k == 2:
        return ['whilenot', d.int(0, LEAVES - 1)]
    if k == 3:
        return d.pick([['leaf', 0], ['Always'], ['Never'], ['while', d.int(0, LEAVES - 1)]])
    if k in (4, 5):
        return [d.pick(['All', 'And']), [expression(d, depth - 1, False) for _ in range(n_parts(d))]]
    if k in (6, 7):
        return [d.pick(['Any', 'Or']), [expression(d, depth - 1, False) for _ in range(n_parts(d))]]
    if k == 8 and unary:
        return ['NWhen', expression(d, depth - 1, True), d.pick([None, 0, 1, 2, 3, 5])]
    return ['Not', expression(d, depth - 1, unary)]


def contains(e, name):
    if e[0] == name:
        return True
    if e[0] in ('All', 'And', 'Any', 'Or'):
        return any(contains(x, name) for x in e[1])
    if e[0] in ('Not', 'NWhen'):
        return contains(e[1], name)
    return False


def strategy(max_depth, max_steps):
    @st.composite
    def s(draw):
        d = D(draw)
        expr = expression(d, d.int(1, max_depth))
        if d.chance(1, 2) and expr[0] != 'NWhen':
            expr = ['NWhen', expr, d.pick([None, 0, 1, 2, 3])] if not contains(expr, 'NWhen') or expr[0] == 'Not' else expr
        steps = [
            [d.pick([None, 0, 'b', 1]), d.int(0, 2 ** LEAVES - 1)]
            for _ in range(d.int(1, max_steps))
        ]
        return {'expr': expr, 'steps': steps}
    return s()


class World:
    def __init__(self):
        self.truth = 0
        self.seen = []

    def leaf(self, i, token=None, execution_id=NotImplemented):
        self.seen.append((token, execution_id))
        return bool(self.truth >> i & 1)


def build_expr(e, w):
    name = e[0]
    if name == 'leaf':
        return gs.Condition(w.leaf, e[1])
    if name == 'while':
        return gs.While(w.leaf, i=e[1])
    if name == 'whilenot':
        return gs.WhileNot(w.leaf, e[1])
    if name in ('Always', 'Never'):
        return getattr(gs, name)()
    if name in ('All', 'And', 'Any', 'Or'):
        return getattr(gs, name)(*[build_expr(x, w) for x in e[1]])
    if name == 'Not':
        return gs.Not(build_expr(e[1], w))
    if e[2] is None:
        return gs.NWhen(build_expr(e[1], w))
    return gs.NWhen(build_expr(e[1], w), e[2])


def value(e, truth, ctx, counters, path=()):
    """counters: {(path, ctx): satisfactions so far} for NWhen nodes"""
    name = e[0]
    if name in ('leaf', 'while'):
        return bool(truth >> e[1] & 1)
    if name == 'whilenot':
        return not truth >> e[1] & 1
    if name == 'Always':
        return True
    if name == 'Never':
        return False
    if name in ('All', 'And'):
        return all(value(x, truth, ctx, counters, (*path, k)) for k, x in enumerate(e[1]))
    if name in ('Any', 'Or'):
        return any(value(x, truth, ctx, counters, (*path, k)) for k, x in enumerate(e[1]))
    if name == 'Not':
        return not value(e[1], truth, ctx, counters, (*path, 0))
    limit = 1 if e[2] is None else e[2]
    key = (path, repr(ctx))
    if counters.get(key, 0) >= limit:
        return False
    if value(e[1], truth, ctx, counters, (*path, 0)):
        counters[key] = counters.get(key, 0) + 1
        return True
    return False


def run_algebra(case):
    w = World()
    cond = build_expr(case['expr'], w)
    counters = {}
    seen = set()
    exhausted = False
    for k, (ctx, truth) in enumerate(case['steps']):
        w.truth = truth
        w.seen = []
        got = cond.is_satisfied(execution_id=ctx, scheduler=None, token=k)
        want = value(case['expr'], truth, ctx, counters)
        check_equal(bool(got), want, f'{case["expr"]} at step {k} (context {ctx!r}, truth {truth:04b})')
        for token, e in w.seen:
            check(token == k and e == ctx, 'leaf evaluated with token {}, context {!r} instead of {}, {!r}', token, e, k, ctx)
        seen.add(want)
    labels = set()
    for name in ('All', 'Any', 'Not', 'NWhen', 'whilenot'):
        if contains(case['expr'], name):
            labels.add(name)
    if len({repr(c) for c, _ in case['steps']}) > 1:
        labels.add('several contexts')
    return Result(len(seen) == 2 and case['expr'][0] not in ('leaf', 'while'), labels)


# ---------------------------------------------------------------------------
# inside a scheduler: the formula over the parts evaluated at the same moment
# ---------------------------------------------------------------------------
def strategy_sched(max_steps):
    @st.composite
    def s(draw):
        d = D(draw)
        expr = expression(d, 3, False)
        n_when = d.pick([None, None, 1, 2, 4])
        return {
            'expr': expr, 'nwhen': n_when,
            'truth': [d.int(0, 2 ** LEAVES - 1) for _ in range(d.int(1, max_steps))],
            'runs': d.int(1, 3),
            'contexts': d.int(1, 2),
        }
    return s()


def run_sched(case):
    """one node per context-run: executes at pass p iff the formula holds"""
    w = World()
    expr = case['expr'] if case['nwhen'] is None else ['NWhen', case['expr'], case['nwhen']]
    cond = build_expr(expr, w)
    s = gs.Scheduler({'X': set()}, conditions=gs.ConditionSet({'X': cond}))
    check_equal(cond.owner, 'X', 'owner')
    counters = {}
    total = 0
    both = set()
    for r in range(case['runs']):
        ctx = f'c{r % case["contexts"]}'
        it = s.run(
            execution_id=ctx,
            termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(len(case['truth']))},
            token='t',
        )
        for p, truth in enumerate(case['truth']):
            w.truth = truth
            w.seen = []
            got = next(it)
            # a stateless formula is evaluated once more after having been
            # added only for other nodes, so exactly once here
            want = value(expr, truth, ctx, counters)
            check_equal(got, {'X'} if want else set(), f'execution at pass {p} of run {r} in {ctx}: {expr}, {truth:04b}')
            for token, e in w.seen:
                check(token == 't' and e == ctx, 'leaf got token {!r}, context {!r}', token, e)
            both.add(want)
            total += 1
        check(next(it, None) is None, 'run did not end after the last pass')
    return Result(len(both) == 2, [f'{case["contexts"]} contexts', f'{case["runs"]} runs', expr[0]])


# ---------------------------------------------------------------------------
# ownership
# ---------------------------------------------------------------------------
def own_tree(d, depth):
    k = d.int(0, 5) if depth > 0 else 0
    if k <= 1:
        return ['leaf', d.int(0, LEAVES - 1)]
    if k <= 3:
        return [d.pick(['All', 'Any']), [own_tree(d, depth - 1) for _ in range(d.int(1, 3))]]
    if k == 4:
        return ['Not', own_tree(d, depth - 1)]
    return ['NWhen', own_tree(d, depth - 1), 1]


def tree_size(e):
    if e[0] in ('All', 'Any'):
        return 1 + sum(tree_size(x) for x in e[1])
    if e[0] in ('Not', 'NWhen'):
        return 1 + tree_size(e[1])
    return 1


def strategy_owner(max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        tree = own_tree(d, d.int(1, 4))
        size = tree_size(tree)
        ops = []
        for _ in range(d.int(1, max_ops)):
            k = d.int(0, 3)
            target = 0 if k <= 1 else d.int(0, size - 1)
            ops.append(['set' if k != 3 else d.pick(['add', 'drop']), target, d.int(0, 3)])
        return {'tree': tree, 'ops': ops, 'kind': gen.node_kind(d)}
    return s()


class MNode:
    def __init__(self, kind, kids, real):
        self.kind, self.kids, self.real, self.owner = kind, kids, real, None

    def assign(self, v):
        prev = self.owner
        self.owner = v
        for kid in self.kids:
            if self.kind in ('Not', 'NWhen') or kid.owner is None or kid.owner == prev:
                kid.assign(v)

    def walk(self):
        yield self
        for kid in self.kids:
            yield from kid.walk()


def build_tree(e, w):
    if e[0] == 'leaf':
        return MNode('leaf', [], gs.Condition(w.leaf, e[1]))
    if e[0] in ('All', 'Any'):
        kids = [build_tree(x, w) for x in e[1]]
        return MNode(e[0], kids, getattr(gs, e[0])(*[k.real for k in kids]))
    kid = build_tree(e[1], w)
    return MNode(e[0], [kid], gs.Not(kid.real) if e[0] == 'Not' else gs.NWhen(kid.real, 1))


def run_owner(case):
    w = World()
    nodes = Nodes(case['kind'][0], 4, case['kind'][1])
    canon = nodes.all()
    root = build_tree(case['tree'], w)
    flat = list(root.walk())
    moved = dropped = False
    for k, (op, target, owner) in enumerate(case['ops']):
        t = flat[target]
        before = [x.owner for x in flat]
        t.assign(owner)
        if op == 'add':
            cs = gs.ConditionSet()
            cs.add_condition(nodes.get(owner), t.real)
        elif op == 'drop':
            # added to a set and removed from it
            cs = gs.ConditionSet({nodes.get(owner): t.real})
            cs.remove_condition(t.real if k % 2 else nodes.get(owner))
            t.assign(None)
            dropped = True
        else:
            t.real.owner = nodes.get(owner)
        for i, x in enumerate(flat):
            check_equal(
                x.real.owner, None if x.owner is None else canon[x.owner],
                f'owner of part {i} ({x.kind}) after step {k} {case["ops"][k]}, before {before}'
            )
        if t.kids and before[target] is not None and before[target] != owner:
            moved = True
    kept = any(
        kid.owner is not None and kid.owner != x.owner for x in flat for kid in x.kids
    )
    return Result(len(flat) > 1, (['moved'] if moved else []) + (['removed'] if dropped else []) + (['part with another owner'] if kept else []))


def run_alias(case):
    check(gs.And is gs.All and gs.Or is gs.Any, 'And/Or are not All/Any')
    return Result(True)


CHECK = Check(
    'C05',
    'A case is a condition expression tree with a history of truth assignments of its '
    'leaves in several execution contexts, or an ownership history; non-trivial: a '
    'composite that was observed both satisfied and unsatisfied, or a tree with parts.',
    [
        Sub('algebra', lambda t: strategy(3, 12) if t == 'quick' else strategy(5, 30), run_algebra, 36000),
        Sub('scheduler', lambda t: strategy_sched(6) if t == 'quick' else strategy_sched(15), run_sched, 15000),
        Sub('owner', lambda t: strategy_owner(6) if t == 'quick' else strategy_owner(14), run_owner, 24000),
        Sub('alias', lambda t: st.just(0), run_alias, 8, 8),
    ],
    assumptions=[
        'first-n-times conditions appear only below not / first-n-times conditions: how often parts of all/any are evaluated is unspecified',
    ],
)
