"""From condition specifications to objects of the code under test."""
import zlib

import graph_scheduler as gs

TimeScale = gs.TimeScale


def ts_of(v):
    return TimeScale(v)


def _ts_args(v):
    return () if v is None else (ts_of(v),)


def _ts_kwargs(v):
    return {} if v is None else {'time_scale': ts_of(v)}


def _call(name, spec, values, names):
    """some of the arguments by keyword, depending on what they are"""
    split = len(values) - zlib.crc32(repr(spec).encode()) % (len(values) + 4)
    if split < 0:
        split = len(values)
    return getattr(gs, name)(*values[:split], **dict(zip(names[split:], values[split:])))


def condition(spec, nodes):
    """nodes: gsv.nodes.Nodes"""
    name = spec[0]
    if name in ('Always', 'Never', 'AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart'):
        return getattr(gs, name)()
    if name in ('All', 'Any', 'And', 'Or'):
        return getattr(gs, name)(*[condition(c, nodes) for c in spec[1]])
    if name == 'Not':
        return _call(name, spec, [condition(spec[1], nodes)], ['condition'])
    if name == 'NWhen':
        return _call(name, spec, [condition(spec[1], nodes), spec[2]], ['condition', 'n'])
    if name in ('AtEnvironmentSequence', 'AfterEnvironmentSequence',
                'AfterNEnvironmentSequences', 'AtEnvironmentSequenceNStart'):
        return _call(name, spec, [spec[1]], ['n'])
    if name in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
        return _call(name, spec, [nodes.get(spec[1]), spec[2], *_ts_args(spec[3])], ['dependency', 'n', 'time_scale'])
    if name == 'EveryNCalls':
        return _call(name, spec, [nodes.get(spec[1]), spec[2]], ['dependency', 'n'])
    if name == 'AfterNCallsCombined':
        return gs.AfterNCallsCombined(*[nodes.get(i) for i in spec[1]], n=spec[2], **_ts_kwargs(spec[3]))
    if name == 'JustRan':
        return _call(name, spec, [nodes.get(spec[1])], ['dependency'])
    if name == 'AllHaveRun':
        return gs.AllHaveRun(*[nodes.get(i) for i in spec[1]], **_ts_kwargs(spec[2]))
    # time-based: name, n, time scale
    return _call(name, spec, [spec[1], *_ts_args(spec[2])], ['n', 'time_scale'])


def graph_dict(n, edges, nodes, key_order=None, container=set):
    """dependency dict with freshly created node objects"""
    senders = {i: [] for i in range(n)}
    for s, r in edges:
        senders[r].append(s)
    return {
        nodes.get(i): container(nodes.get(s) for s in senders[i])
        for i in (key_order if key_order is not None else range(n))
    }


def index_graph(graph, nodes):
    """dependency dict of node objects -> dependency dict of indices"""
    return {nodes.index(k): {nodes.index(s) for s in v} for k, v in graph.items()}
