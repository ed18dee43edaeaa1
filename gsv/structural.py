"""Graph structure conditions: specifications, objects, reference results.

A specification is
    [class name, [subjects], {option: value}]        ordering conditions
    ['AddEdgeTo' | 'RemoveEdgeFrom', [subject], {}]
    ['Custom', variant, {}]
Operations in options are names; 'subject_*' options may be lists of
[subject, name] pairs (a dict).
"""
import collections

import graph_scheduler as gs

from gsv.gen import layers_of

ORDERING = ['BeforeNode', 'BeforeNodes', 'AfterNode', 'AfterNodes', 'WithNode']
SINGLE = {'BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom'}
OPERATIONS = {
    'KEEP': lambda s, c: set(s),
    'REPLACE': lambda s, c: set(c),
    'DISCARD': lambda s, c: set(),
    'INTERSECTION': lambda s, c: {x for x in s if x in c},
    'UNION': lambda s, c: {*s, *c},
    'MERGE': lambda s, c: {*s, *c},
    'DIFFERENCE': lambda s, c: {x for x in s if x not in c},
    'INVERSE_DIFFERENCE': lambda s, c: {x for x in c if x not in s},
    'SYMMETRIC_DIFFERENCE': lambda s, c: {x for x in {*s, *c} if (x in s) != (x in c)},
}
OPERATION_NAMES = list(OPERATIONS)
DEFAULT_OPS = {
    'Before': {'owner_senders': 'MERGE', 'owner_receivers': 'KEEP',
               'subject_senders': 'KEEP', 'subject_receivers': 'KEEP'},
    'After': {'owner_senders': 'KEEP', 'owner_receivers': 'MERGE',
              'subject_senders': 'MERGE', 'subject_receivers': 'KEEP'},
    'With': {'owner_senders': 'MERGE', 'owner_receivers': 'KEEP',
             'subject_senders': 'MERGE', 'subject_receivers': 'KEEP'},
}
FLAGS = ['reconnect_non_subject_receivers', 'remove_new_self_referential_edges',
         'prune_cycles', 'ignore_conflicts']
FLAG_DEFAULTS = {'reconnect_non_subject_receivers': True,
                 'remove_new_self_referential_edges': True,
                 'prune_cycles': True, 'ignore_conflicts': False}


def kind_of(name):
    for k in ('Before', 'After', 'With'):
        if name.startswith(k):
            return k


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------
def ordering(d, n, owner, flags=True, ops=False, single=None, others=None):
    name = d.pick(ORDERING)
    others = others or [i for i in range(n) if i != owner]
    if single or name in SINGLE or (single is None and d.chance(1, 3)):
        subjects = [d.pick(others)]
    else:
        subjects = d.subset(others, 1)
        if d.bool():
            subjects = subjects[::-1]
    opts = {}
    if flags and d.chance(1, 3):
        for f in FLAGS:
            if d.bool():
                opts[f] = d.bool()
    if ops:
        for o in ('owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers'):
            if name == 'WithNode' and o.endswith('senders'):
                continue
            if not d.bool():
                continue
            if o.startswith('subject') and d.chance(1, 3):
                opts[o] = [[i, d.pick(OPERATION_NAMES)] for i in subjects]
                if d.bool():
                    opts[o] = opts[o][::-1]
            else:
                opts[o] = d.pick(OPERATION_NAMES)
    return [name, subjects, opts]


N_CUSTOM = 4


def structural(d, n, owner, ops=True):
    k = d.int(0, 6)
    others = [i for i in range(n) if i != owner]
    if k <= 1:
        return ['AddEdgeTo', [d.pick(others)], {}]
    if k == 2:
        return ['RemoveEdgeFrom', [d.pick(others)], {}]
    if k == 3:
        return ['Custom', d.int(0, N_CUSTOM - 1), {}]
    return ordering(d, n, owner, ops=ops and d.chance(1, 3))


# ---------------------------------------------------------------------------
# objects
# ---------------------------------------------------------------------------
def _op_value(name, how):
    """an operation given as member or string, in any case"""
    if how == 0:
        return getattr(gs.Operation, name)
    return (name, name.lower(), name.capitalize())[how % 3]


def custom_function(variant, nodes):
    """functions of the graph, all of which keep its nodes"""
    a, b = nodes.get(0), nodes.get(1 % nodes.n)

    def drop_all(graph):
        return {k: set() for k in graph}

    def cut(self, graph):
        # cut the owner off, in place
        for v in graph.values():
            v.discard(self.owner)
        graph[self.owner].clear()
        return graph

    def identity(graph):
        return graph

    def only_edge(graph):
        res = {k: set() for k in graph}
        if a != b:
            res[b].add(a)
        return res
    return [drop_all, cut, identity, only_edge][variant]


def build(spec, nodes, style=0):
    """style: how operations are written (0: members, 1-3: strings)"""
    name, arg, opts = spec
    if name == 'Custom':
        return gs.CustomGraphStructureCondition(custom_function(arg, nodes))
    kwargs = {}
    for k, v in opts.items():
        if k.startswith('subject') and isinstance(v, list):
            make = (dict, collections.OrderedDict)[style % 2]
            kwargs[k] = make((nodes.get(i), _op_value(o, (style + j) % 4 if style else 0))
                             for j, (i, o) in enumerate(v))
        elif isinstance(v, str):
            kwargs[k] = _op_value(v, style)
        else:
            kwargs[k] = v
    return getattr(gs, name)(*[nodes.get(i) for i in arg], **kwargs)


# ---------------------------------------------------------------------------
# reference
# ---------------------------------------------------------------------------
def copy_graph(g):
    return {k: set(v) for k, v in g.items()}


def receivers_of(g):
    res = {k: set() for k in g}
    for k, v in g.items():
        for s in v:
            res[s].add(k)
    return res


def edges_of(g):
    return {(s, r) for r in g for s in g[r]}


def reachable(g):
    """node -> set of nodes reachable by one or more edges (sender to receiver)"""
    rec = receivers_of(g)
    res = {}
    for k in g:
        seen = set()
        todo = list(rec[k])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(rec[x])
        res[k] = seen
    return res


def acyclic(g):
    return layers_of(g) is not None


def already_valid(g, spec, owner):
    name, subjects, _ = spec
    kind = kind_of(name)
    if kind == 'Before':
        return all(owner in g[s] for s in subjects)
    if kind == 'After':
        return all(s in g[owner] for s in subjects)
    return all(g[s] == g[owner] for s in subjects)


def direct_result(g, spec, owner):
    """Result of the operations alone, before pruning and reconnecting.

    Returns (graph, conflicting edges); conflicting edges are left as they
    result from the receivers operation.
    """
    name, subjects, opts = spec
    kind = kind_of(name)
    ops = {k: opts.get(k, v) for k, v in DEFAULT_OPS[kind].items()}
    p = copy_graph(g)
    for s in subjects:
        p[s].discard(owner)
        p[owner].discard(s)
    rec = receivers_of(p)

    def subject_op(which, s):
        o = ops[which]
        return OPERATIONS[dict(map(tuple, o))[s] if isinstance(o, list) else o]

    snd_new = {owner: OPERATIONS[ops['owner_senders']](
        p[owner], set().union(*[p[s] for s in subjects]))}
    rec_new = {owner: OPERATIONS[ops['owner_receivers']](
        rec[owner], set().union(*[rec[s] for s in subjects]))}
    for s in subjects:
        snd_new[s] = subject_op('subject_senders', s)(p[s], p[owner])
        rec_new[s] = subject_op('subject_receivers', s)(rec[s], rec[owner])

    res = {k: set() for k in g}
    conflicts = set()
    for r in g:
        for s in g:
            if s in rec_new:
                present = r in rec_new[s]
                if r in snd_new and (s in snd_new[r]) != present:
                    conflicts.add((s, r))
            elif r in snd_new:
                present = s in snd_new[r]
            else:
                present = s in p[r]
            if present:
                res[r].add(s)
    return res, conflicts


def finish(res, spec, owner, base=()):
    """the edges each ordering condition is for; base: the graph whose self
    edges are kept (None: all are)"""
    name, subjects, _ = spec
    kind = kind_of(name)
    res = copy_graph(res)
    if kind == 'Before':
        for s in subjects:
            res[s].add(owner)
    elif kind == 'After':
        res[owner].update(subjects)
    else:
        both = res[owner] | res[subjects[0]]
        res[owner] = set(both)
        res[subjects[0]] = set(both)
    for k in res:
        if base is not None and not (base and k in base[k]):
            res[k].discard(k)
    return res


def same_component(g, reach=None):
    """edges that lie on a cycle"""
    reach = reach or reachable(g)
    return {(s, r) for s, r in edges_of(g) if s == r or s in reach[r]}


def check_reconnected(base, spec, owner, model, result, check):
    """result vs. model (acyclic, or the part of it outside cycles)

    Returns the edges added by reconnection."""
    opts = spec[2]
    subjects = set(spec[1])
    added = edges_of(result) - edges_of(model)
    if not opts.get('reconnect_non_subject_receivers', True):
        check(not added, 'edges {} appeared', sorted(added))
        return added
    rec = receivers_of(base)
    pairs = {(s, r) for s in base[owner] for r in rec[owner] if r not in subjects}
    check(added <= pairs, 'edges {} appeared', sorted(added - pairs))
    reach = reachable(result)
    for s, r in pairs:
        check(
            r in reach[s] or s == r or s in reach[r],
            'no connection from former sender {} of the owner to its former receiver {}', s, r
        )
        if (s, r) in added:
            check(
                not (owner in result[r] and s in result[owner]),
                'edge {} added although still connected by the owner', (s, r)
            )
    return added


def exact_single(base, spec, owner):
    """Exact result of an ordering condition with one subject and default
    options: cycles are resolved by removing edges adjacent to the owner,
    incoming ones if the owner was a descendant of the subject, otherwise
    outgoing ones; then senders and receivers of the owner that lost their
    connection by the owner are connected directly, unless that would close a
    cycle.

    Not for an owner that should be after a subject it indirectly is after.
    """
    (sub,) = spec[1]
    kind = kind_of(spec[0])
    direct, _ = direct_result(base, spec, owner)
    model = finish(direct, spec, owner)

    def required(s, r):
        return {'Before': (s, r) == (owner, sub), 'After': (s, r) == (sub, owner),
                'With': r in (owner, sub)}[kind]

    incoming = owner in reachable(base)[sub]
    while True:
        drop = [(s, r) for s, r in same_component(model)
                if owner == (r if incoming else s) and not required(s, r)]
        if not drop:
            break
        for s, r in drop:
            model[r].discard(s)
    res = copy_graph(model)
    receivers = receivers_of(base)[owner]
    for s in base[owner]:
        for r in receivers:
            if r != sub and not (owner in model[r] and s in model[owner]):
                if s not in reachable(res)[r]:
                    res[r].add(s)
    return res


# ---------------------------------------------------------------------------
# reference for any specification, where it is exact
# ---------------------------------------------------------------------------
class Ambiguous(Exception):
    """the exact result is not specified"""


class Fails(Exception):
    """the condition cannot be applied; kind: 'condition' or 'user'"""
    def __init__(self, kind):
        self.kind = kind


class UserError(Exception):
    """raised by user functions of generated conditions"""


def raises(graph):
    raise UserError('user function')


def apply_reference(g, spec, owner):
    """New graph (by index); raises Fails or Ambiguous"""
    name, arg, opts = spec
    if name == 'Broken':
        raise Fails('user')
    if name != 'Custom' and any(i not in g for i in (owner, *arg)):
        raise Fails('condition')
    g = copy_graph(g)
    if name == 'AddEdgeTo':
        g[arg[0]].add(owner)
        return g
    if name == 'RemoveEdgeFrom':
        g[owner].discard(arg[0])
        return g
    if name == 'Custom':
        a, b = 0, 1 % len(g)
        if arg == 0:
            return {k: set() for k in g}
        if arg == 1:
            for v in g.values():
                v.discard(owner)
            g[owner] = set()
            return g
        if arg == 3:
            return {k: {a} if k == b != a else set() for k in g}
        return g
    if already_valid(g, spec, owner):
        return g
    kind = kind_of(name)
    direct, conflicts = direct_result(g, spec, owner)
    flags = {**FLAG_DEFAULTS, **{k: v for k, v in opts.items() if k in FLAGS}}
    if conflicts:
        if flags['ignore_conflicts']:
            raise Ambiguous()
        raise Fails('condition')
    if not flags['prune_cycles'] and not flags['reconnect_non_subject_receivers']:
        return finish(direct, spec, owner)
    if (
        flags == FLAG_DEFAULTS and len(opts) == 0 and len(arg) == 1 and acyclic(g)
        and not (kind == 'After' and owner in reachable(g)[arg[0]])
    ):
        return exact_single(g, spec, owner)
    raise Ambiguous()


def fold(base, registered):
    """graph after all of [(owner, spec), ...]"""
    g = copy_graph(base)
    ambiguous = None
    for owner, spec in registered:
        try:
            g = apply_reference(g, spec, owner)
        except Ambiguous as e:
            # a condition that fails in any case makes a difference
            ambiguous = e
            break
    if ambiguous is not None:
        raise ambiguous
    return g
