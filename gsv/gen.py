"""Hypothesis strategies for the parts cases are made of."""
from hypothesis import strategies as st

from gsv.nodes import KINDS

# TimeScale values
CSE, PASS, ESU, SEQ, LIFE = range(5)
TS_NAMES = [
    'CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE',
    'ENVIRONMENT_SEQUENCE', 'LIFE',
]

_int = {}


def ints(a, b):
    try:
        return _int[a, b]
    except KeyError:
        _int[a, b] = st.integers(a, b)
        return _int[a, b]


_bool = st.booleans()


class D:
    """Thin convenience layer over Hypothesis' draw"""
    __slots__ = ('draw',)

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        if a >= b:
            return a
        return self.draw(ints(a, b))

    def bool(self):
        return self.draw(_bool)

    def chance(self, num, den):
        """True with probability num/den (roughly); shrinks to False"""
        return self.draw(ints(0, den - 1)) >= den - num

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, items):
        """items: [(weight, value)]; shrinks to the first"""
        total = sum(w for w, _ in items)
        x = self.int(0, total - 1)
        for w, v in items:
            if x < w:
                return v
            x -= w

    def mask(self, m):
        """m bits, each set half of the time.  (Hypothesis prefers small
        numbers in ranges of more than 127.)"""
        res = 0
        for k in range(0, m, 6):
            res |= self.int(0, 2 ** min(6, m - k) - 1) << k
        return res

    def subset(self, items, at_least=0):
        items = list(items)
        mask = self.mask(len(items))
        res = [x for k, x in enumerate(items) if mask >> k & 1]
        for x in items:
            if len(res) >= at_least:
                break
            if x not in res:
                res.append(x)
        return res

    def perm(self, n):
        rest = list(range(n))
        res = []
        for k in range(n):
            res.append(rest.pop(self.int(0, len(rest) - 1)))
        return res


def context(d):
    """the context a case runs in: mostly the default one"""
    return d.weighted([(5, None), (2, 'other'), (1, 0)])


def node_kind(d):
    kind = d.weighted([(4, 'str'), (2, 'obj'), (1, 'word'), (1, 'int'), (1, 'tuple'),
                       (1, 'ident'), (1, 'mixed'), (1, 'falsy'), (1, 'alike')])
    return [kind, d.int(0, 15) if kind not in ('str', 'ident', 'falsy') else 0]


assert {'str', 'obj', 'word', 'int', 'tuple', 'ident', 'mixed', 'falsy', 'alike'} == set(KINDS)


def dag_edges(d, n, max_density=2):
    """Edges [sender, receiver] of a DAG on 0..n-1, topological order = a
    permutation, so that node numbers say nothing about layers"""
    pairs = [(i, j) for j in range(n) for i in range(j)]
    m = len(pairs)
    if m == 0:
        return []
    style = d.int(0, 3)
    if style == 0:
        mask = d.mask(m) & d.mask(m)
    elif style == 1:
        mask = d.mask(m)
    elif style == 2:
        # layered / chain like: every node gets one sender among the last two
        mask = 0
        for j in range(1, n):
            i = max(0, j - 1 - d.int(0, 2))
            mask |= 1 << pairs.index((i, j))
    else:
        mask = d.mask(m) & d.mask(m) & d.mask(m)
    order = d.perm(n) if d.bool() else list(range(n))
    return [[order[i], order[j]] for k, (i, j) in enumerate(pairs) if mask >> k & 1]


def sparse_edges(d, n):
    order = d.perm(n)
    res = []
    for _ in range(d.int(0, n + 3)):
        a, b = sorted([d.int(0, n - 1), d.int(0, n - 1)])
        if a != b and [order[a], order[b]] not in res:
            res.append([order[a], order[b]])
    return res


def digraph_edges(d, n, self_loops=True):
    pairs = [(i, j) for i in range(n) for j in range(n) if self_loops or i != j]
    m = len(pairs)
    mask = d.mask(m)
    for _ in range(d.int(0, 2)):
        mask &= d.mask(m)
    return [[i, j] for k, (i, j) in enumerate(pairs) if mask >> k & 1]


def dep_dict(n, edges):
    """receiver -> set of senders, by index"""
    g = {i: set() for i in range(n)}
    for s, r in edges:
        g[r].add(s)
    return g


def layers_of(graph):
    """Longest-path layering of a DAG {node: senders}; None if cyclic"""
    level = {}
    remaining = dict(graph)
    layers = []
    while remaining:
        ready = [n for n, s in remaining.items() if all(x in level for x in s)]
        if not ready:
            return None
        for n in ready:
            level[n] = len(layers)
        for n in ready:
            del remaining[n]
        layers.append(frozenset(ready))
    return layers


# ---------------------------------------------------------------------------
# condition specifications (plain nested lists)
# ---------------------------------------------------------------------------
#: name -> (low, high) for n
TIME_CSE = ['BeforeConsiderationSetExecution', 'AtConsiderationSetExecution',
            'AfterConsiderationSetExecution', 'AfterNConsiderationSetExecutions']
TIME_PASS = ['BeforePass', 'AtPass', 'AfterPass', 'AfterNPasses', 'EveryNPasses']
TIME_ESU = ['BeforeEnvironmentStateUpdate', 'AtEnvironmentStateUpdate',
            'AfterEnvironmentStateUpdate', 'AfterNEnvironmentStateUpdates']
TIME_SEQ = ['AtEnvironmentSequence', 'AfterEnvironmentSequence', 'AfterNEnvironmentSequences']
TIME_START = ['AtEnvironmentStateUpdateStart', 'AtEnvironmentStateUpdateNStart',
              'AtEnvironmentSequenceStart', 'AtEnvironmentSequenceNStart']


def time_condition(d, nmax=5):
    group = d.int(0, 4)
    if group == 0:
        return [d.pick(TIME_PASS[:4]), d.int(0, nmax), d.pick([None, ESU, SEQ, LIFE])]
    if group == 1:
        if d.chance(1, 3):
            return ['EveryNPasses', d.int(1, 4), d.pick([None, ESU, SEQ, LIFE])]
        return [d.pick(TIME_CSE), d.int(0, nmax + 3), d.pick([None, ESU, SEQ, LIFE])]
    if group == 2:
        return [d.pick(TIME_ESU), d.int(0, 3), d.pick([None, SEQ, LIFE])]
    if group == 3:
        return [d.pick(TIME_SEQ), d.int(0, 2)]
    name = d.pick(TIME_START)
    if name == 'AtEnvironmentStateUpdateNStart':
        return [name, d.int(0, 3), d.pick([None, SEQ, LIFE])]
    if name == 'AtEnvironmentSequenceNStart':
        return [name, d.int(0, 2)]
    return [name]


def node_condition(d, n, owner=None, useable=True):
    """owner: index, excluded as a dependency most of the time"""
    others = [i for i in range(n) if i != owner] or list(range(n))
    ts = d.pick([None, ESU, SEQ, LIFE, PASS, CSE])
    k = d.int(0, 9)
    if k == 0:
        return ['AfterNCalls', d.pick(others), d.int(0, 4), ts]
    if k in (1, 2):
        if useable:
            return ['EveryNCalls', d.pick(others), d.int(1, 3)]
        return ['AfterCall', d.pick(others), d.int(0, 3), ts]
    if k == 3:
        return ['AtNCalls', d.pick(others), d.int(0, 3), ts]
    if k == 4:
        return ['BeforeNCalls', d.pick(others), d.int(1, 4), ts]
    if k == 5:
        return ['AfterCall', d.pick(others), d.int(0, 3), ts]
    if k == 6:
        return ['AfterNCallsCombined', d.subset(range(n), 1), d.int(0, 6), ts]
    if k == 7:
        return ['JustRan', d.pick(others)]
    if k == 8:
        return ['AllHaveRun', d.subset(others) if d.bool() else [], ts]
    # owner itself as a dependency is allowed, with a warning
    return ['BeforeNCalls', owner if owner is not None else d.pick(others), d.int(1, 4), ts]


def condition(d, n, owner=None, depth=2, useable=True, nwhen=True):
    k = d.int(0, 11)
    if k == 0:
        return ['Always']
    if k <= 3:
        return time_condition(d)
    if k <= 7:
        return node_condition(d, n, owner, useable)
    if k == 8:
        return ['Never'] if d.chance(1, 4) else ['Always']
    if depth <= 0:
        return time_condition(d, 3)
    if k == 9:
        return ['All', [condition(d, n, owner, depth - 1, useable, False) for _ in range(d.int(1, 3))]]
    if k == 10:
        return ['Any', [condition(d, n, owner, depth - 1, useable, False) for _ in range(d.int(1, 3))]]
    if nwhen and d.bool():
        return ['NWhen', condition(d, n, owner, depth - 1, useable, False), d.int(0, 4)]
    return ['Not', condition(d, n, owner, depth - 1, useable, False)]


def uses(spec, names):
    """does the condition spec contain one of names"""
    if spec is None:
        return False
    if spec[0] in names:
        return True
    if spec[0] in ('All', 'Any'):
        return any(uses(c, names) for c in spec[1])
    if spec[0] in ('Not', 'NWhen'):
        return uses(spec[1], names)
    return False


# ---------------------------------------------------------------------------
# problems whose schedule does not depend on the order within a set
# ---------------------------------------------------------------------------
def insensitive(spec, owner, layer, n):
    """Replace dependencies on other nodes of the owner's consideration set,
    whose executions may or may not have been counted when the owner is
    considered.  (JustRan looks at the previous set only.)"""
    if spec is None:
        return None
    mates = layer - {owner}
    free = [i for i in range(n) if i not in mates]
    name = spec[0]

    def other(i):
        return i if i not in mates else free[i % len(free)]

    if name in ('All', 'Any'):
        return [name, [insensitive(c, owner, layer, n) for c in spec[1]]]
    if name in ('Not', 'NWhen'):
        return [name, insensitive(spec[1], owner, layer, n), *spec[2:]]
    if name in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'EveryNCalls'):
        return [name, other(spec[1]), *spec[2:]]
    if name == 'AfterNCallsCombined':
        return [name, sorted({other(i) for i in spec[1]}), *spec[2:]]
    if name == 'AllHaveRun':
        return [name, sorted({other(i) for i in spec[1]}) or [free[0]], *spec[2:]]
    return spec


def insensitive_conditions(conds, n, edges):
    layers = layers_of(dep_dict(n, edges))
    of = {i: layer for layer in layers for i in layer}
    return [insensitive(c, i, of[i], n) for i, c in enumerate(conds)]


def problem(d, max_n, term=True, min_n=1, explicit=(3, 4)):
    """an order-insensitive scheduling problem"""
    n = d.int(min_n, max_n)
    case = {'n': n, 'kind': node_kind(d), 'edges': dag_edges(d, n)}
    conds = [condition(d, n, i) if d.chance(*explicit) else None for i in range(n)]
    case['conds'] = insensitive_conditions(conds, n, case['edges'])
    return case
