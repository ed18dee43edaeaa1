"""A scheduler driven by operations, everything it shows being logged.

For comparisons of several such worlds.  Case fields: n, kind, edges, conds,
term, ids, exact, intervals {node: k} (a time interval of k ms), graph_form,
cond_form.
"""
import networkx as nx

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gsv import build, gen, structural
from gsv.drive import term_objects
from gsv.gen import ESU, LIFE, SEQ, D, dep_dict, layers_of
from gsv.nodes import Nodes
from gsv.structural import Ambiguous, Fails

#: hashes do not depend on addresses
KINDS = ['str', 'word', 'int', 'tuple', 'obj', 'falsy']
FIELDS = ['consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life']


class Inputs:
    """the objects given to a scheduler"""

    def __init__(self, case):
        self.case = case
        self.nodes = nodes = Nodes(case['kind'][0], case['n'], case['kind'][1])
        graph = build.graph_dict(case['n'], case['edges'], nodes)
        if case['graph_form'] == 'nx':
            g = nx.DiGraph()
            g.add_nodes_from(graph)
            g.add_edges_from((s, r) for r in graph for s in graph[r])
            graph = g
        elif case['graph_form'] == 'list':
            graph = {k: sorted(v, key=nodes.index) for k, v in graph.items()}
        self.graph = graph
        self.term = term_objects(case['term'], nodes)
        self.shared = None

    def conditions(self, case, hook=None):
        if case.get('share'):
            # one object for all schedulers
            if self.shared is None:
                self.shared = self.new_conditions(case, hook)
            return self.shared
        return self.new_conditions(case, hook)

    def new_conditions(self, case, hook=None):
        """a new set of conditions"""
        nodes = self.nodes
        res = {}
        for i, c in enumerate(case['conds']):
            if c is None:
                continue
            c = build.condition(c, nodes)
            k = case['intervals'].get(str(i))
            if k is not None:
                c = gs.Any(c, gs.TimeInterval(repeat=k)) if k % 2 else gs.TimeInterval(repeat=k)
            if i in case['hooks']:
                c = gs.All(c, gs.Condition(hook or (lambda: True)))
            res[nodes.get(i)] = c
        if case['cond_form'] == 'set':
            return gs.ConditionSet(res)
        if case['cond_form'] == 'lists':
            return {k: [c] for k, c in res.items()}
        return res


class Side:
    def __init__(self, case, inputs=None, hook=None):
        self.case = case
        self.inputs = inputs or Inputs(case)
        self.nodes = self.inputs.nodes
        self.conds = self.inputs.conditions(case, hook and (lambda: hook(self)))
        self.s = None
        self.s = gs.Scheduler(
            self.inputs.graph, conditions=self.conds, termination_conds=self.inputs.term,
            mode=gs.SchedulingMode.EXACT_TIME if case['exact'] else gs.SchedulingMode.STANDARD,
        )
        self.active = {}
        self.added = []
        self.log = []
        self.observing = False

    def ctx(self, c):
        return self.s.default_execution_id if c == 0 else ('context', c)

    # --- operations --------------------------------------------------------------
    def apply(self, op):
        try:
            res = getattr(self, 'op_' + op[0])(*op[1:])
        except (gs.ConditionError, gs.SchedulerError) as e:
            res = ('error', type(e).__name__)
        self.log.append((op[0], res, self.state()))

    def op_step(self, c, raw, times):
        res = []
        for _ in range(times):
            if c not in self.active:
                self.active[c] = self.s.run(
                    termination_conds=term_objects(raw, self.nodes), execution_id=self.ctx(c)
                )
            try:
                out = next(self.active[c])
                res.append((sorted(self.nodes.indices(out)), self.time(c)))
            except StopIteration:
                del self.active[c]
                res.append(('end', self.time(c)))
            except BaseException:
                del self.active[c]
                raise
        return res

    def op_endseq(self, c):
        if c not in self.active:
            self.s.end_environment_sequence(self.ctx(c))
        return self.time(c)

    def op_edge(self, how, a, b):
        if how == 'add':
            self.added.append(self.s.add_graph_edge(self.nodes.get(a), self.nodes.get(b)))
        else:
            self.added.append(self.s.remove_graph_edge(self.nodes.get(a), self.nodes.get(b)))

    def op_structural(self, owner, spec):
        c = structural.build(spec, self.nodes)
        self.added.append(c)
        self.s.add_condition(self.nodes.get(owner), c)

    def op_unstructural(self, k):
        if self.added:
            self.s.remove_condition(self.added.pop(k % len(self.added)))

    def op_condition(self, owner, spec):
        self.s.add_condition(self.nodes.get(owner), build.condition(spec, self.nodes))

    def op_term(self, raw):
        self.s.termination_conds = term_objects(raw, self.nodes)

    def op_termitem(self, raw):
        try:
            for ts, c in term_objects(raw, self.nodes).items():
                self.s.termination_conds[ts] = c
        except TypeError:
            pass

    # --- what is seen --------------------------------------------------------------
    def time(self, c):
        t = self.s.get_clock(self.ctx(c)).time
        return [getattr(t, f) for f in FIELDS] + [str(t.absolute)]

    def state(self):
        s = self.s
        res = []
        for c in range(3):
            i = self.ctx(c)
            counts = s.counts_total.get(i)
            res.append((
                len(s.execution_list.get(i, [])),
                [str(t) for t in s.execution_timestamps.get(i, [])[-2:]],
                None if counts is None else [
                    sorted((self.nodes.index(k), v) for k, v in counts[ts].items()) for ts in TimeScale
                ],
            ))
        return res

    def final(self):
        s = self.s
        return {
            'lists': [[sorted(self.nodes.indices(x)) for x in s.execution_list.get(self.ctx(c), [])] for c in range(3)],
            'graph': sorted((k, sorted(v)) for k, v in build.index_graph(s.graph, self.nodes).items()),
            'queue': [sorted(self.nodes.indices(x)) for x in s.consideration_queue],
            'term': sorted((ts.value, str(c)) for ts, c in s.termination_conds.items()),
            'owners': sorted(self.nodes.index(o) for o in s.conditions),
        }


def terminations(d, n):
    return d.pick([
        None,
        [[ESU, ['AfterNPasses', d.int(1, 5), None]]],
        [[ESU, ['AfterNCalls', d.int(0, n - 1), d.int(1, 4), d.pick([None, SEQ, LIFE])]],
         [SEQ, ['AfterNPasses', 7, ESU]]],
        [[SEQ, ['AfterNConsiderationSetExecutions', d.int(1, 12), LIFE]], [ESU, ['AfterNPasses', 4, None]]],
    ])


def gen_case(d, max_n, max_ops, absolute=True, n=None, edges=None, kind=None):
    n = d.int(1, max_n) if n is None else n
    edges = gen.dag_edges(d, n) if edges is None else edges
    case = {'n': n, 'kind': kind or [d.pick(KINDS), d.int(0, 60)], 'edges': edges}
    # graphs that may occur, for conditions that are insensitive to order
    graph = dep_dict(n, edges)
    graphs = [graph]
    ops = []
    added = []
    changing = n > 1 and d.chance(1, 2)
    for k in range(d.int(1, max_ops)):
        j = d.int(0, 13)
        if j <= 6:
            ops.append(['step', d.weighted([(6, 0), (2, 1), (1, 2)]), terminations(d, n), d.weighted([(3, 1), (3, 4), (2, 9)])])
        elif j == 7:
            ops.append(['endseq', d.int(0, 1)])
        elif j == 8:
            raw = terminations(d, n)
            ops.append([d.pick(['term', 'termitem']) if raw else 'term', raw])
        elif j == 9 and changing:
            if added and d.bool():
                q = d.int(0, len(added) - 1)
                op, entry = ['unstructural', q], None
                trial = added[:q] + added[q + 1:]
            else:
                owner = d.int(0, n - 1)
                other = d.pick([i for i in range(n) if i != owner])
                if d.bool():
                    how = d.pick(['add', 'remove'])
                    op = ['edge', how, owner, other]
                    # owned by the sender, or by the receiver
                    entry = (owner, ['AddEdgeTo', [other], {}]) if how == 'add' else (other, ['RemoveEdgeFrom', [owner], {}])
                else:
                    spec = [d.pick(structural.ORDERING), [other], {}]
                    op, entry = ['structural', owner, spec], (owner, spec)
                trial = added + [entry]
            try:
                g = structural.fold(dep_dict(n, edges), trial)
            except (Ambiguous, Fails):
                continue
            if layers_of(g) is None:
                continue
            added = trial
            graphs.append(g)
            ops.append(op)
        else:
            ops.append(['condition', d.int(0, n - 1), gen.condition(d, n, None, 1, nwhen=False)])
    mates = {i: frozenset() for i in range(n)}
    for g in graphs:
        for layer in layers_of(g):
            for i in layer:
                mates[i] |= layer
    fix = lambda c, i: gen.insensitive(c, i, mates[i], n)
    conds = [gen.condition(d, n, i) if d.chance(3, 4) else (['Always'] if len(graphs) > 1 else None) for i in range(n)]
    case['conds'] = [fix(c, i) for i, c in enumerate(conds)]
    for op in ops:
        if op[0] == 'condition':
            op[2] = fix(op[2], op[1])
    case['ops'] = ops
    case['term'] = d.pick([
        [[ESU, ['AfterNPasses', d.int(1, 6), None]]],
        [[SEQ, ['AfterNEnvironmentStateUpdates', d.int(1, 3), d.pick([SEQ, LIFE])]], [ESU, ['AfterNPasses', d.int(1, 3), None]]],
    ])
    absolute = absolute and d.chance(1, 4)
    case['exact'] = absolute and d.bool()
    case['intervals'] = {str(i): d.int(1, 6) for i in range(n) if d.bool()} if absolute else {}
    case['intervals'] = {k: v for k, v in case['intervals'].items() if case['conds'][int(k)] is not None}
    if case['exact']:
        # all nodes in one set
        case['conds'] = [gen.insensitive(c, i, frozenset(range(n)), n) for i, c in enumerate(case['conds'])]
        case['conds'] = [c if c is not None else ['Always'] for c in case['conds']]
        for op in ops:
            if op[0] == 'condition':
                op[2] = gen.insensitive(op[2], op[1], frozenset(range(n)), n)
    case['hooks'] = [i for i in range(n) if d.chance(1, 5)]
    case['graph_form'] = d.pick(['dict', 'list', 'nx'])
    case['cond_form'] = d.pick(['dict', 'set', 'lists'])
    return case
