"""C23: schedulers in one process are independent."""
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen
from gsv.core import Check, Result, Sub, check, check_equal
from gsv.gen import D
from gsv.world import KINDS, Inputs, Side, gen_case


def defaults():
    from graph_scheduler import scheduler
    return sorted((ts.value, str(c)) for ts, c in scheduler.default_termination_conds.items())


def run(case):
    sides = case['sides']
    shared = Inputs(sides[0])
    together = {}
    pos = [0] * len(sides)
    labels = set()
    switches = 0
    previous = None
    before = defaults()
    busy = []

    def advance(i):
        op = sides[i]['ops'][pos[i]]
        pos[i] += 1
        busy.append(i)
        together[i].apply(op)
        busy.pop()

    def within(_):
        # an operation on another scheduler while a condition is evaluated
        for i in together:
            if i not in busy and pos[i] < len(sides[i]['ops']):
                labels.add('operation within an evaluation')
                advance(i)
                break
        return True

    for i in case['order']:
        if i not in together:
            together[i] = Side(sides[i], inputs=shared, hook=within if case.get('within') else None)
        if pos[i] < len(sides[i]['ops']):
            advance(i)
            switches += previous is not None and previous != i
            previous = i
    check_equal(defaults(), before, 'default termination conditions afterwards')
    sets = []
    for i, w in together.items():
        alone = Side(sides[i])
        for k, op in enumerate(sides[i]['ops'][:pos[i]]):
            alone.apply(op)
            check_equal(w.log[k], alone.log[k], f'{op} (operation {k} of scheduler {i}) among others')
        final = w.final()
        check_equal(final, alone.final(), f'final state of scheduler {i} among others')
        sets.append(sum(len(x) for x in final['lists']))
        if any(x[1] and x[1][0] == 'error' for x in w.log):
            labels.add('refused operations')
        if sides[i]['exact'] or sides[i]['intervals']:
            labels.add('absolute time')
        if any(op[0] in ('edge', 'structural') for op in sides[i]['ops']):
            labels.add('graph modified')
    labels.add(f'{len(together)} schedulers')
    if sum(bool(sides[i].get('share')) for i in together) > 1:
        labels.add('one set of conditions')
    if sides[0]['term'] is None:
        labels.add('default terminations')
    return Result(len(together) > 1 and switches > 1 and sum(x > 0 for x in sets) > 1, labels)


@st.composite
def strategy(draw, tier):
    d = D(draw)
    size = 5 if tier == 'quick' else 7
    ops = 6 if tier == 'quick' else 15
    first = gen_case(d, size, ops)
    if d.chance(1, 3):
        first['term'] = None
    sides = [first]
    for _ in range(d.int(1, 2)):
        if d.chance(2, 5):
            # the same problem once more, from other operations on
            other = dict(first, ops=[op for op in first['ops'] if d.chance(3, 4)])
            if any(op[0] in ('unstructural', 'edge', 'structural') for op in first['ops']):
                other['ops'] = first['ops']
            # counting evaluations, hence not shared
            if not any(gen.uses(c, ['NWhen']) for c in first['conds']) and d.bool():
                first['share'] = other['share'] = True
        else:
            other = gen_case(d, size, ops, n=first['n'], edges=first['edges'], kind=first['kind'])
        sides.append(dict(other, term=first['term'], graph_form=first['graph_form']))
    order = []
    for i in range(len(sides)):
        order += [i] * (len(sides[i]['ops']) + 1)
    order = [order[k] for k in d.perm(len(order))]
    return {'sides': sides, 'order': order, 'within': d.chance(1, 3)}


# ---------------------------------------------------------------------------
# conditions on all nodes, shared by schedulers of different graphs
# ---------------------------------------------------------------------------
class Finishing:
    def __init__(self, key):
        self.key = key
        self.finished = False

    def __eq__(self, other):
        return isinstance(other, Finishing) and self.key == other.key

    def __hash__(self):
        return hash(('Finishing', self.key))

    def __repr__(self):
        return f'Finishing({self.key})'

    def is_finished(self, execution_id=None):
        return self.finished


def any_node_condition(spec):
    name = spec[0]
    if name in ('All', 'Any'):
        return getattr(gs, name)(*[any_node_condition(c) for c in spec[1]])
    if name == 'Not':
        return gs.Not(any_node_condition(spec[1]))
    if name == 'AllHaveRun':
        return gs.AllHaveRun() if spec[1] is None else gs.AllHaveRun(time_scale=gs.TimeScale(spec[1]))
    if name == 'AfterNPasses':
        return gs.AfterNPasses(spec[1])
    return getattr(gs, name)()


class Family:
    """schedulers that share nodes and termination conditions"""

    def __init__(self, case):
        self.case = case
        self.nodes = [Finishing(i) for i in range(case['n'])]
        self.terms = {gs.TimeScale(ts): any_node_condition(c) for ts, c in case['terms']}
        self.basic = any_node_condition(case['basic']) if case['basic'] else None
        self.schedulers = {}
        self.runs = {}
        self.log = {}

    def scheduler(self, i):
        if i not in self.schedulers:
            side = self.case['sides'][i]
            graph = {self.nodes[k]: set() for k in side['members']}
            for a, b in side['edges']:
                graph[self.nodes[side['members'][b]]].add(self.nodes[side['members'][a]])
            self.schedulers[i] = gs.Scheduler(
                graph,
                conditions={self.nodes[side['members'][0]]: self.basic} if self.basic and side['basic'] else None,
                termination_conds=self.terms if side['at'] == 'construction' else None
            )
        return self.schedulers[i]

    def apply(self, op):
        if op[0] == 'finish':
            self.nodes[op[1]].finished = op[2]
            return
        i = op[1]
        s = self.scheduler(i)
        if i not in self.runs:
            self.runs[i] = s.run(termination_conds=self.terms) if self.case['sides'][i]['at'] == 'run' else s.run()
        try:
            out = sorted(x.key for x in next(self.runs[i]))
        except StopIteration:
            del self.runs[i]
            out = 'end'
        self.log.setdefault(i, []).append(out)


def run_terms(case):
    together = Family(case)
    for op in case['ops']:
        together.apply(op)
    for i in together.log:
        alone = Family(case)
        for op in case['ops']:
            if op[0] == 'finish' or op[1] == i:
                alone.apply(op)
        check_equal(together.log[i], alone.log[i], f'history of scheduler {i} among others')
    labels = {f'{len(together.log)} schedulers'}
    if any('end' in x for x in together.log.values()):
        labels.add('runs that ended')
    different = len({tuple(sorted(case['sides'][i]['members'])) for i in together.log})
    if together.basic:
        labels.add('one basic condition')
    return Result(different > 1 and any('end' in x for x in together.log.values()), labels)


def any_node_spec(d, depth=0):
    k = d.int(0, 5 if depth < 2 else 3)
    if k == 0:
        return ['AllHaveRun', d.pick([None, None, gen.PASS, gen.LIFE])]
    if k == 1:
        return ['WhenFinishedAll']
    if k == 2:
        return ['WhenFinishedAny']
    if k == 3:
        return ['AfterNPasses', d.int(1, 3)]
    if k == 4:
        return ['Not', any_node_spec(d, depth + 1)]
    return [d.pick(['All', 'Any']), [any_node_spec(d, depth + 1) for _ in range(d.int(1, 2))]]


@st.composite
def terms_strategy(draw, tier):
    d = D(draw)
    n = d.int(2, 5)
    sides = []
    for _ in range(d.int(2, 3)):
        members = d.subset(range(n), 1)
        members = [members[k] for k in d.perm(len(members))]
        sides.append({
            'members': members, 'edges': gen.dag_edges(d, len(members)),
            'at': d.pick(['construction', 'run']), 'basic': d.bool(),
        })
    scales = [gen.ESU] if d.bool() else [gen.SEQ] if d.bool() else [gen.ESU, gen.SEQ]
    ops = []
    for _ in range(d.int(4, 16 if tier == 'quick' else 40)):
        if d.chance(1, 4):
            ops.append(['finish', d.int(0, n - 1), d.bool()])
        else:
            ops.append(['next', d.int(0, len(sides) - 1)])
    return {
        'n': n, 'sides': sides, 'terms': [[ts, any_node_spec(d)] for ts in scales],
        'basic': any_node_spec(d) if d.bool() else None, 'ops': ops,
    }


CHECK = Check(
    'C23',
    'A case is two or three scheduling problems on one graph object, one dictionary of termination conditions, '
    'the same nodes and sometimes one set of conditions, and an interleaving of their operations; non-trivial: at least two schedulers yielded sets, and '
    'operations alternated more than once. Or (terms) schedulers of different graphs over the same nodes that share '
    'conditions on all nodes, with their runs interleaved; non-trivial: different sets of nodes, and a run that ended.',
    [
        Sub('several', lambda t: strategy(t), run, 7500),
        Sub('terms', lambda t: terms_strategy(t), run_terms, 10000),
    ],
    assumptions=[
        'condition objects are shared between schedulers only if they do not count evaluations, and are not removed then',
    ],
)
