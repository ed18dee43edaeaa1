"""Reference interpreter of the documented scheduling algorithm.

Written from the documentation (module docstrings of scheduler, condition and
time), not from the implementation: nodes are indices, conditions are the
plain specifications of gsv.gen, and time is kept as a table "number of units
q since the current unit b began".

Which node of a consideration set is considered first is not specified, and a
few conditions (e.g. "before n calls" of a node in the same set) depend on it.
The interpreter therefore follows every order: `advance` maps one state to all
(output, next state) pairs that some order allows.
"""
from gsv.gen import CSE, ESU, LIFE, PASS, SEQ, layers_of

END = 'END'
_SCOPES = [(q, b) for q in range(5) for b in range(5) if b > q]


class TooManyStates(Exception):
    pass


def count_deps(spec, n):
    """nodes whose execution counts the condition reads"""
    name = spec[0]
    if name in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'EveryNCalls'):
        return {spec[1]}
    if name == 'AfterNCallsCombined':
        return set(spec[1])
    if name == 'AllHaveRun':
        return set(spec[1]) or set(range(n))
    if name in ('All', 'Any', 'And', 'Or'):
        return set().union(*[count_deps(c, n) for c in spec[1]])
    if name in ('Not', 'NWhen'):
        return count_deps(spec[1], n)
    return set()


def useable_pairs(spec, owner):
    name = spec[0]
    if name == 'EveryNCalls':
        return {(spec[1], owner)}
    if name in ('All', 'Any', 'And', 'Or'):
        return set().union(*[useable_pairs(c, owner) for c in spec[1]])
    if name in ('Not', 'NWhen'):
        return useable_pairs(spec[1], owner)
    return set()


def default_spec(graph, node):
    parents = sorted(graph[node])
    if not parents:
        return ['Always']
    return ['All', [['EveryNCalls', p, 1] for p in parents]]


class State:
    """Everything a context remembers"""
    __slots__ = ('time', 'rel', 'counts', 'use', 'nwhen', 'last', 'pos', 'layer', 'ran',
                 'abs')

    def __init__(self, n, pairs):
        self.time = [0] * 5
        self.rel = {s: 0 for s in _SCOPES}
        self.counts = [[0] * n for _ in range(5)]
        self.use = {p: 0 for p in pairs}
        self.nwhen = {}
        self.last = None
        self.pos = 'idle'
        self.layer = 0
        self.ran = False
        # (current absolute time, step, layer of each node, exact time mode)
        self.abs = None

    def copy(self):
        new = State.__new__(State)
        new.time = self.time[:]
        new.rel = dict(self.rel)
        new.counts = [c[:] for c in self.counts]
        new.use = dict(self.use)
        new.nwhen = dict(self.nwhen)
        new.last = self.last
        new.pos = self.pos
        new.layer = self.layer
        new.ran = self.ran
        new.abs = self.abs
        return new

    def key(self):
        return (
            tuple(self.time), tuple(self.rel.values()),
            tuple(map(tuple, self.counts)), tuple(self.use.values()),
            tuple(sorted(self.nwhen.items())), self.last, self.pos,
            self.layer, self.ran,
        )

    # time ------------------------------------------------------------------
    def inc(self, ts):
        for q, b in _SCOPES:
            if b <= ts:
                self.rel[q, b] = 0
            elif q == ts:
                self.rel[q, b] += 1
        self.time[ts] += 1
        for t in range(ts):
            self.time[t] = 0

    # counts ----------------------------------------------------------------
    def reset_counts(self, ts):
        for t in range(ts + 1):
            self.counts[t] = [0] * len(self.counts[t])

    def reset_useable(self):
        for p in self.use:
            self.use[p] = 0

    def executed(self, node):
        for c in self.counts:
            c[node] += 1
        for p in self.use:
            if p[1] == node:
                self.use[p] = 0
        for p in self.use:
            if p[0] == node:
                self.use[p] += 1


def _default_ts(v, default=ESU):
    return default if v is None else v


_CMP = {
    'Before': lambda a, n: a < n,
    'At': lambda a, n: a == n,
    'After': lambda a, n: a > n,
    'AfterN': lambda a, n: a >= n,
}


def _split(name):
    """('AfterN', unit) for a time condition class name"""
    for unit, q in (
        ('ConsiderationSetExecution', CSE), ('Pass', PASS),
        ('EnvironmentStateUpdate', ESU), ('EnvironmentSequence', SEQ),
    ):
        for suffix in ('s', 'es', ''):
            if name.endswith(unit + suffix):
                head = name[:-len(unit + suffix)]
                if head in _CMP or head == 'EveryN':
                    return head, q
    raise KeyError(name)


def in_interval(spec, now, offset):
    """offset: phase of repetitions in standard mode, None in exact mode, in
    which repetitions are counted from the start of the interval"""
    _, repeat, start, end, start_inc, end_inc = spec[:6]
    if start is not None and not (now >= start if start_inc else now > start):
        return False
    if end is not None and not (now <= end if end_inc else now < end):
        return False
    if repeat is None:
        return True
    if offset is None:
        offset = start if start is not None else 0
    return (now - offset) % repeat == 0


def satisfied(spec, state, owner, n, path=()):
    """Truth value of a condition; does not change the state"""
    name = spec[0]
    if name == 'Always':
        return True
    if name == 'Never':
        return False
    if name in ('All', 'And'):
        return all(satisfied(c, state, owner, n, (*path, i)) for i, c in enumerate(spec[1]))
    if name in ('Any', 'Or'):
        return any(satisfied(c, state, owner, n, (*path, i)) for i, c in enumerate(spec[1]))
    if name == 'Not':
        return not satisfied(spec[1], state, owner, n, (*path, 0))
    if name == 'NWhen':
        return (
            state.nwhen.get((owner, path), 0) < spec[2]
            and satisfied(spec[1], state, owner, n, (*path, 0))
        )
    if name == 'TimeInterval':
        now, step, layer, exact = state.abs
        return in_interval(spec, now, step * layer[owner] if not exact else None)
    if name == 'TimeTermination':
        now = state.abs[0]
        return now >= spec[1] if spec[2] else now > spec[1]
    if name == 'EveryNCalls':
        return state.use[spec[1], owner] >= spec[2]
    if name in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
        c = state.counts[_default_ts(spec[3])][spec[1]]
        rel = {'BeforeNCalls': 'Before', 'AtNCalls': 'At', 'AfterCall': 'After', 'AfterNCalls': 'AfterN'}
        return _CMP[rel[name]](c, spec[2])
    if name == 'AfterNCallsCombined':
        ts = _default_ts(spec[3])
        return sum(state.counts[ts][d] for d in spec[1]) >= spec[2]
    if name == 'JustRan':
        return state.last is not None and spec[1] in state.last
    if name == 'AllHaveRun':
        ts = _default_ts(spec[2])
        return all(state.counts[ts][d] >= 1 for d in (spec[1] or range(n)))
    if name == 'AtEnvironmentStateUpdateStart':
        return state.time[PASS] == 0
    if name == 'AtEnvironmentStateUpdateNStart':
        return state.time[PASS] == 0 and state.rel[ESU, _default_ts(spec[2], SEQ)] == spec[1]
    if name == 'AtEnvironmentSequenceStart':
        return state.rel[ESU, SEQ] == 0
    if name == 'AtEnvironmentSequenceNStart':
        return state.rel[ESU, SEQ] == 0 and state.time[SEQ] == spec[1]
    head, q = _split(name)
    if q == SEQ:
        return _CMP[head](state.time[SEQ], spec[1])
    b = _default_ts(spec[2], SEQ if q == ESU else ESU)
    if head == 'EveryN':
        return state.rel[q, b] % spec[1] == 0
    return _CMP[head](state.rel[q, b], spec[1])


class Model:
    """The problem: graph (index dependency dict), one condition per node"""

    def __init__(self, graph, conds, max_states=400, absolute=False, one_set=False):
        # in a run with absolute conditions every consideration set is
        # executed, even if empty, and nothing else
        self.absolute = absolute
        self.n = len(graph)
        self.one_set = one_set
        self.set_graph(graph)
        self.conds = [
            c if c is not None else default_spec(graph, i) for i, c in enumerate(conds)
        ]
        self.pairs = sorted(set().union(set(), *[
            useable_pairs(c, i) for i, c in enumerate(self.conds)
        ]))
        self.set_pairs(self.pairs)
        self.max_states = max_states
        self.branched = False

    def set_graph(self, graph):
        self.graph = graph
        self.layers = [sorted(layer) for layer in layers_of(graph)]
        # exact time mode: all nodes are considered together
        if self.one_set:
            self.layers = [sorted(graph)]

    def set_pairs(self, pairs):
        """(node, owner) pairs whose calls since the owner ran are tracked"""
        self.pairs = sorted(pairs)
        self.set_confluent()

    def set_confluent(self):
        self.confluent = [
            not any(count_deps(self.conds[i], self.n) & set(layer) for i in layer)
            and not any(a in layer and b in layer and a != b for a, b in self.pairs)
            for layer in self.layers
        ]

    def new_state(self):
        return State(self.n, self.pairs)

    def sat(self, node, state):
        return satisfied(self.conds[node], state, node, self.n)

    def _add(self, node, state):
        if self.conds[node][0] == 'NWhen':
            k = (node, ())
            state.nwhen[k] = state.nwhen.get(k, 0) + 1
        state.executed(node)

    def _outcomes(self, state, index):
        layer = self.layers[index]
        if self.confluent[index]:
            s = state.copy()
            added = []
            for node in layer:
                if self.sat(node, s):
                    self._add(node, s)
                    added.append(node)
            return [(frozenset(added), s)]
        seen = set()
        res = {}
        todo = [(frozenset(), state.copy())]
        while todo:
            added, s = todo.pop()
            k = (added, s.key())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > self.max_states:
                raise TooManyStates
            final = True
            for node in layer:
                if node not in added and self.sat(node, s):
                    final = False
                    t = s.copy()
                    self._add(node, t)
                    todo.append((added | {node}, t))
            if final:
                res[k] = (added, s)
        if len(res) > 1:
            self.branched = True
        return list(res.values())

    # a run -----------------------------------------------------------------
    def start_run(self, state, term):
        """term: {ts: spec}"""
        s = state.copy()
        s.reset_useable()
        s.reset_counts(ESU)
        s.pos = 'start_pass'
        return s

    def terminated(self, s, term):
        return any(satisfied(t, s, None, self.n) for t in term.values())

    def advance(self, state, term):
        """All (output, state) reachable at the next yield, or END"""
        res = []
        todo = [state.copy()]
        steps = 0
        while todo:
            steps += 1
            if steps > 20 * self.max_states:
                raise TooManyStates
            s = todo.pop()
            if s.pos == 'after_layer':
                s.inc(CSE)
                s.layer += 1
                s.pos = 'layer'
            elif s.pos == 'after_empty':
                s.inc(CSE)
                s.inc(PASS)
                s.pos = 'start_pass'

            if s.pos == 'start_pass':
                if self.terminated(s, term):
                    s.pos = 'idle'
                    res.append((END, s))
                    continue
                s.reset_counts(PASS)
                s.layer = 0
                s.ran = False
                s.pos = 'layer'

            if s.layer == len(self.layers) or self.terminated(s, term):
                if s.ran or self.absolute:
                    s.inc(PASS)
                    s.pos = 'start_pass'
                    todo.append(s)
                else:
                    s.pos = 'after_empty'
                    s.last = frozenset()
                    res.append((frozenset(), s))
                continue

            s.reset_counts(CSE)
            for added, t in self._outcomes(s, s.layer):
                if added or self.absolute:
                    t.pos = 'after_layer'
                    t.ran = t.ran or bool(added)
                    t.last = added
                    res.append((added, t))
                else:
                    t.layer += 1
                    todo.append(t)
        return res

    @staticmethod
    def dedupe(states):
        return list({s.key(): s for s in states}.values())


def end_run(state, skip=False):
    if not skip:
        state.inc(ESU)
    return state


def end_sequence(state):
    state.inc(SEQ)
    state.reset_counts(SEQ)
    return state


class Tracker:
    """Follows a real run and keeps the set of model states consistent with
    what was observed so far"""

    def __init__(self, model):
        self.model = model
        self.states = [model.new_state()]
        self.term = None

    def start(self, term):
        self.term = term
        self.states = [self.model.start_run(s, term) for s in self.states]

    def step(self, output):
        """output: frozenset of indices or END.  Returns allowed outputs if the
        observed one is not among them, else None"""
        nxt = []
        allowed = set()
        for s in self.states:
            for out, t in self.model.advance(s, self.term):
                allowed.add(out)
                if out == output:
                    nxt.append(t)
        if not nxt:
            return allowed
        self.states = Model.dedupe(nxt)
        if len(self.states) > self.model.max_states:
            raise TooManyStates
        return None

    def forget(self, node):
        """the condition of the node was replaced"""
        for s in self.states:
            s.nwhen = {k: v for k, v in s.nwhen.items() if k[0] != node}

    def move(self, node, other):
        """the condition of a node becomes that of another one"""
        for s in self.states:
            s.nwhen = {(other if k[0] == node else k[0], k[1]): v for k, v in s.nwhen.items()}

    def set_time(self, *abs_state):
        for s in self.states:
            s.abs = abs_state

    def finish(self, skip=False):
        self.states = Model.dedupe([end_run(s, skip) for s in self.states])

    def end_sequence(self):
        self.states = Model.dedupe([end_sequence(s) for s in self.states])

    @property
    def ambiguous(self):
        return len(self.states) > 1

    def clone(self):
        t = Tracker(self.model)
        t.states = [s.copy() for s in self.states]
        t.term = self.term
        return t
