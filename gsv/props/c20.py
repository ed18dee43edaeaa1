"""C20: the run protocol is respected for arbitrary black-box conditions."""
from hypothesis import strategies as st

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gsv import gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

CSE, PASS, ESU, SEQ, LIFE = list(TimeScale)
TRUE = [True, 1, 'yes', [0], 2.5]
FALSE = [False, 0, None, '', []]
#: evaluations of one condition after which it is never satisfied again
LIMIT = 4000


class Boom(Exception):
    """raised by a black-box condition"""


class Overriding(gs.Condition):
    """decides without a function"""

    def __init__(self, answer):
        super().__init__(None)
        self.answer = answer

    def is_satisfied(self, *args, scheduler=None, execution_id=None, **kwargs):
        return self.answer(scheduler, execution_id)


class Deriving(gs.Condition):
    """with a method as the function"""

    def __init__(self, answer):
        super().__init__(self.decide)
        self.answer = answer

    def decide(self, execution_id, scheduler):
        return self.answer(scheduler, execution_id)


class World:
    """graph, scheduler, the script of each node and the events of one context"""

    def __init__(self, case):
        self.case = case
        self.n = n = case['n']
        self.nodes = Nodes(case['kind'][0], n, case['kind'][1])
        self.graph = gen.dep_dict(n, case['edges'])
        self.visiting = None
        self.evals = [0] * n
        self.boom = None
        self.ctx = case['ctx']
        self.reconsidered = False
        self.s = gs.Scheduler(
            graph={self.nodes.get(k): {self.nodes.get(x) for x in v} for k, v in self.graph.items()},
            conditions=gs.ConditionSet({
                self.nodes.get(i): self.condition(i) for i in range(n)
            }),
            mode=gs.SchedulingMode.EXACT_TIME if case['exact'] else gs.SchedulingMode.STANDARD,
            default_execution_id=case['ctx'] if case['ctx'] == 'default' else 'unused',
        )
        # what the clock should show
        self.reset_clock()
        self.clock_known = True
        self.lists = []

    # --- clock ----------------------------------------------------------------
    def reset_clock(self):
        # counts of finer units since the start of the current coarser unit
        self.count = {(f, c): 0 for f in TimeScale for c in TimeScale if f < c}

    def tick(self, ts):
        for (f, c) in self.count:
            if f == ts:
                self.count[f, c] += 1
            elif c == ts:
                self.count[f, c] = 0

    def check_clock(self, where):
        if not self.clock_known:
            return
        clock = self.s.get_clock(self.ctx)
        t = clock.time
        check_equal(
            [t.consideration_set_execution, t.pass_, t.environment_state_update, t.environment_sequence],
            [self.count[CSE, PASS], self.count[PASS, ESU], self.count[ESU, SEQ], self.count[SEQ, LIFE]],
            f'time {where}'
        )
        for (f, c), v in self.count.items():
            # the history of finer units is not kept
            if c >= ESU:
                check_equal(clock.get_total_times_relative(f, c), v, f'{f} in {c} {where}')

    # --- conditions --------------------------------------------------------------
    def condition(self, i):
        """a condition of a user's own class, or one that has others as parts"""
        form = self.case.get('forms', [0] * self.n)[i]
        f = self.make(i)
        return [
            lambda: gs.Condition(f), lambda: gs.While(f), lambda: Overriding(f), lambda: Deriving(f),
            lambda: gs.All(gs.Condition(f)), lambda: gs.Any(Overriding(f), gs.Never()),
        ][form]()

    def make(self, i):
        def black_box(scheduler, execution_id, i=i):
            k = self.evals[i]
            self.evals[i] += 1
            if self.boom is not None:
                self.boom -= 1
                if self.boom < 0:
                    self.boom = None
                    raise Boom(i)
            check(
                scheduler is self.s and execution_id == self.ctx,
                'condition of node {} was evaluated for {}', i, execution_id
            )
            answer = self.answer(i, k)
            self.on_eval(i, answer)
            return (TRUE if answer else FALSE)[(k + i) % 5]
        return black_box

    def answer(self, i, k):
        script = self.case['scripts'][i]
        if k > LIMIT:
            return False
        if script[0] == 'bits':
            return bool(script[1] >> (k % script[2]) & 1)
        if script[0] == 'after':
            # once the mate has been added since the last yield
            return (script[1], True) in self.recent
        # at a certain evaluation since the last yield
        return sum(j == i for j, _ in self.recent) == script[1]

    # --- protocol ----------------------------------------------------------------
    def layers(self):
        if self.case['exact']:
            return [frozenset(range(self.n))]
        return gen.layers_of(self.graph)

    def start(self, absolute):
        self.queue = self.layers()
        self.absolute = absolute
        self.pos = 0            # set to be considered next
        self.visiting = None    # [(node, answer), ...] of the set at pos
        self.empty = True       # nothing was executed in this pass
        self.passes = self.yields = 0
        self.recent = []

    def on_eval(self, i, answer):
        if self.visiting is not None and i not in self.queue[self.pos]:
            added = self.close()
            check(not added and not self.absolute, 'nothing was yielded after {} were to be executed', sorted(added))
            self.end_of_pass(False)
        if self.visiting is None:
            check(
                i in self.queue[self.pos],
                'node {} was considered when it was the turn of set {}: {}', i, self.pos, sorted(self.queue[self.pos])
            )
            self.visiting = []
        check((i, True) not in self.visiting, 'node {} was evaluated again after it was added', i)
        self.visiting.append((i, answer))
        self.recent.append((i, answer))
        self.check_clock(f'during an evaluation of node {i} after {self.yields} sets')
        check_equal(len(self.s.execution_list[self.ctx]), len(self.lists), 'length of the execution list at an evaluation')

    def close(self):
        """The set has been considered -> nodes to execute"""
        layer, evals = self.queue[self.pos], self.visiting
        last = {i: k for k, (i, _) in enumerate(evals)}
        check_equal(set(last), set(layer), 'nodes evaluated when their consideration set was considered')
        added = [i for i, answer in evals if answer]
        last_add = max([k for k, (_, answer) in enumerate(evals) if answer], default=-1)
        for i in layer:
            check(
                i in added or last[i] > last_add,
                'node {} was not considered again after {} was added', i, added[-1:]
            )
        self.reconsidered = self.reconsidered or (len(evals) > len(last) and len(added) > 1)
        self.visiting = None
        self.pos += 1
        return frozenset(added)

    def end_of_pass(self, yielded):
        """if all sets were considered"""
        if self.pos == len(self.queue):
            check(
                yielded or not self.empty,
                'nothing was yielded in a pass in which nothing was to be executed'
            )
            self.tick(PASS)
            self.passes += 1
            self.pos, self.empty = 0, True

    def on_yield(self, out):
        check(self.visiting is not None, 'yielded {} without considering any node', out)
        layer = self.pos
        added = self.close()
        check_equal(
            self.nodes.indices(out), added,
            f'set yielded when considering {sorted(self.queue[layer])} (number {layer})'
        )
        if added:
            self.empty = False
        elif not self.absolute:
            check(self.pos == len(self.queue) and self.empty, 'empty set yielded in a pass with executions, or before its end')
        self.check_clock(f'at yield {self.yields}')
        self.lists.append(added)
        self.yields += 1
        self.recent = []
        check_equal(len(self.s.execution_list[self.ctx]), len(self.lists), 'length of the execution list at a yield')
        self.tick(CSE)
        self.end_of_pass(True)

    def on_end(self):
        if self.visiting is not None:
            added = self.close()
            check(not added and not self.absolute, '{} not yielded before the end of the run', sorted(added))
            self.end_of_pass(False)
        if self.pos:
            self.tick(PASS)
        self.tick(ESU)
        self.check_clock('after the run')

    def run(self, kind, value, cap, boom):
        s = self.s
        self.start(kind == 'absolute')
        stop = len(self.lists) + value
        enough = gs.Condition(lambda: len(self.lists) >= stop)
        term = {
            'passes': {ESU: gs.AfterNPasses(value)},
            'yields': {ESU: enough},
            'sequence': {ESU: gs.Never(), SEQ: enough},
            'absolute': {ESU: gs.All(enough, gs.TimeTermination(1))},
        }[kind]
        self.boom = boom
        g = s.run(termination_conds=term, execution_id=self.ctx)
        while True:
            if self.yields >= cap:
                g.close()
                how = 'abandoned'
                break
            try:
                out = next(g)
            except StopIteration as e:
                self.on_end()
                check(e.value == s.execution_list[self.ctx], 'the value of the run is {}', e.value)
                if kind == 'passes' and self.clock_known:
                    check_equal(self.passes, value, 'passes of the run')
                elif kind != 'passes' and (kind != 'absolute' or value > 0):
                    check_equal(self.yields, value, 'sets yielded')
                how = 'end'
                break
            except Boom:
                how = 'condition raised'
                break
            check(isinstance(out, (set, frozenset)), 'yielded {!r}', out)
            self.on_yield(out)
        if how != 'end':
            # counting goes on from within the pass
            self.clock_known = False
        check_equal(
            [self.nodes.indices(x) for x in s.execution_list.get(self.ctx, [])], self.lists, 'execution list'
        )
        return how


def run(case):
    w = World(case)
    labels = set()
    total = 0
    for op in case['ops']:
        if op[0] == 'endseq':
            w.s.end_environment_sequence(w.ctx)
            w.tick(SEQ)
            w.check_clock('after the sequence')
        elif op[0] == 'edge':
            _, a, b = op
            w.graph[b].add(a)
            if gen.layers_of(w.graph) is None:
                w.graph[b].discard(a)
                continue
            w.s.add_condition(w.nodes.get(a), gs.AddEdgeTo(w.nodes.get(b)))
            labels.add('edge added')
        else:
            labels.add(w.run(*op[1:]))
            labels.add(op[1])
            total += w.yields
    if w.reconsidered:
        labels.add('added after reconsideration')
    if any(not x for x in w.lists):
        labels.add('empty set')
    if case['exact']:
        labels.add('exact time mode')
    return Result(total > 1 and any(w.lists), labels)


@st.composite
def strategy(draw, tier):
    d = D(draw)
    n = d.int(1, 6 if tier == 'quick' else 9)
    case = {'n': n, 'kind': gen.node_kind(d), 'edges': gen.dag_edges(d, n), 'exact': d.chance(1, 6)}
    if d.chance(1, 3):
        case['edges'] = case['edges'][:d.int(0, 2)]
    layers = gen.layers_of(gen.dep_dict(n, case['edges']))
    mates = {i: [j for j in layer if j != i] for layer in layers for i in layer}
    scripts = []
    for i in range(n):
        k = d.int(0, 5)
        if k <= 2 or (k <= 4 and not mates[i]):
            length = d.int(1, 12)
            scripts.append(['bits', d.mask(length), length])
        elif k <= 4:
            scripts.append(['after', d.pick(mates[i])])
        else:
            scripts.append(['nth', d.int(0, 2)])
    case['scripts'] = scripts
    case['forms'] = [d.int(0, 5) if d.chance(1, 2) else 0 for _ in range(n)]
    case['ctx'] = d.pick(['default', 'other', 3])
    cap = 40 if tier == 'quick' else 150
    ops = []
    for _ in range(d.int(1, 5 if tier == 'quick' else 10)):
        k = d.int(0, 9)
        if k == 0:
            ops.append(['endseq'])
        elif k == 1 and n > 1 and not case['exact']:
            ops.append(['edge', d.int(0, n - 1), d.int(0, n - 1)])
        else:
            ops.append([
                'run', d.pick(['passes', 'yields', 'sequence', 'absolute']), d.int(0, 12),
                d.int(0, 10) if d.chance(1, 10) else cap,
                d.int(0, 30) if d.chance(1, 10) else None,
            ])
    case['ops'] = ops
    return case


CHECK = Check(
    'C20',
    'A case is a DAG, a script of answers for the black-box condition of each node and a sequence of runs (some '
    'abandoned or interrupted by an exception of a condition), ended sequences and added edges; non-trivial: at least '
    'two sets were yielded, one of them not empty.',
    [Sub('protocol', lambda t: strategy(t), run, 20000)],
    assumptions=[
        'after a run was abandoned or interrupted, the clock of its context is unspecified',
        'how often termination conditions are evaluated is unspecified',
    ],
)
