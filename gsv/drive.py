"""Running generated problems on the real scheduler next to the model."""
import graph_scheduler as gs

from gsv import build
from gsv.core import Violation, check, check_equal
from gsv.gen import ESU, LIFE, SEQ, dep_dict
from gsv.model import END, Model, TooManyStates, Tracker
from gsv.nodes import Nodes

TimeScale = gs.TimeScale

DEFAULT_TERM = {ESU: ['AllHaveRun', [], None], SEQ: ['Never']}


def term_spec(raw, base=None):
    """raw: [[ts, spec], ...] -> {ts: spec} over the given defaults"""
    res = dict(base if base is not None else DEFAULT_TERM)
    for ts, spec in raw or []:
        res[ts] = spec
    return res


def term_objects(raw, nodes, as_str=False):
    if raw is None:
        return None
    return {
        (TimeScale(ts).name if as_str else TimeScale(ts)): build.condition(spec, nodes)
        for ts, spec in raw
    }


class InContext:
    """case field ctx: the context the case runs in; None is the default"""
    @property
    def ctx(self):
        # another object each time
        c = self.case.get('ctx')
        return ''.join(list(c)) if isinstance(c, str) else c

    @property
    def ctx_kw(self):
        return {} if self.case.get('ctx') is None else {'execution_id': self.ctx}


class Problem(InContext):
    """case fields: kind [name, salt], n, edges, conds, optional key_order,
    term (constructor), nx (give the graph as a networkx DiGraph)"""

    def __init__(self, case, **scheduler_kwargs):
        self.case = case
        #: called while conditions of the nodes in case['hooks'] are evaluated
        self.hook = None
        self.n = case['n']
        self.nodes = Nodes(case['kind'][0], self.n, case['kind'][1])
        self.graph = dep_dict(self.n, case['edges'])
        self.term = term_spec(case.get('term'))
        self.scheduler = gs.Scheduler(
            graph=self.real_graph(),
            conditions=self.real_conditions(),
            termination_conds=term_objects(case.get('term'), self.nodes),
            **scheduler_kwargs
        )
        self.edges = case['edges']
        for k in case.get('late') or ():
            a, b = case['edges'][k]
            self.scheduler.add_graph_edge(self.nodes.get(a), self.nodes.get(b))

    def real_graph(self):
        # edges listed in 'late' are added after construction
        late = set(self.case.get('late') or ())
        return build.graph_dict(
            self.n, [e for k, e in enumerate(self.case['edges']) if k not in late],
            self.nodes, self.case.get('key_order')
        )

    def change_graph(self, new_edges):
        old = {tuple(e) for e in self.edges}
        new = {tuple(e) for e in new_edges}
        for a, b in sorted(old - new):
            self.scheduler.remove_graph_edge(self.nodes.get(a), self.nodes.get(b))
        for a, b in sorted(new - old):
            self.scheduler.add_graph_edge(self.nodes.get(a), self.nodes.get(b))
        self.edges = [list(e) for e in sorted(new)]
        self.graph = dep_dict(self.n, self.edges)

    def real_conditions(self):
        res = {
            i: build.condition(c, self.nodes)
            for i, c in enumerate(self.case['conds']) if c is not None
        }
        for i in self.case.get('hooks', ()):
            if i in res:
                res[i] = gs.All(res[i], gs.Condition(self.call_hook))
        return gs.ConditionSet({self.nodes.get(i): c for i, c in res.items()})

    def call_hook(self):
        if self.hook is not None:
            self.hook()
        return True

    def model(self, **kw):
        return Model(self.graph, self.case['conds'], **kw)

    def idx(self, real_set):
        check(isinstance(real_set, (set, frozenset)), 'yielded {!r}, not a set', real_set)
        return self.nodes.indices(real_set)


def follow(problem, tracker, gen, term, cap, skip=False, history=None):
    """Iterate generator `gen` of a real run against the model.

    Returns 'end', 'cap' or 'blowup' (model too ambiguous; inconclusive)."""
    tracker.start(term)
    count = 0
    try:
        while True:
            if count >= cap:
                return 'cap'
            try:
                out = problem.idx(next(gen))
            except StopIteration:
                out = END
            allowed = tracker.step(out)
            if allowed is not None:
                raise Violation(
                    f'run yielded {sorted(out) if out != END else END} after '
                    f'{[sorted(h) for h in history or []]}; the algorithm allows '
                    f'{[sorted(a) if a != END else END for a in allowed]}'
                )
            if out == END:
                tracker.finish(skip)
                return 'end'
            if history is not None:
                history.append(out)
            count += 1
    except TooManyStates:
        return 'blowup'
