"""C26: images and logs show what is there."""
import contextlib
import io
import logging
import os
import pathlib
import shlex
import shutil
import sys
import tempfile

import networkx as nx
import pydot
from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import build, gen
from gsv.core import Check, Result, Sub, Violation, check, check_equal
from gsv.gen import D
from gsv.nodes import Nodes

KINDS = ['str', 'word', 'int', 'obj', 'ident', 'tuple']


# ---------------------------------------------------------------------------
# images
# ---------------------------------------------------------------------------
NX = {'nx': nx.DiGraph, 'multi': nx.MultiDiGraph, 'undirected': nx.Graph}


def image_strategy(max_n):
    @st.composite
    def s(draw):
        d = D(draw)
        n = d.int(1, max_n)
        style = d.int(0, 2)
        edges = gen.dag_edges(d, n) if style else gen.digraph_edges(d, n, self_loops=d.bool())
        return {
            'n': n, 'edges': edges, 'kind': [d.pick(KINDS), d.int(0, 15)],
            'form': d.pick(['dict', 'dict', 'lists', 'nx', 'scheduler', 'multi', 'undirected']), 'format': d.pick(['plain', 'raw', 'dot', 'plain-ext']),
            'file': d.int(0, 2), 'key_order': d.perm(n) if d.bool() else list(range(n)),
        }
    return s()


def plain_source(text):
    nodes, edges = [], []
    for line in text.splitlines():
        w = shlex.split(line)
        if w and w[0] == 'node':
            nodes.append(w[1])
        elif w and w[0] == 'edge':
            edges.append((w[1], w[2]))
    return nodes, edges


def dot_source(text, directed=True):
    (g,) = pydot.graph_from_dot_data(text)
    check(g.get_type() == ('digraph' if directed else 'graph'), 'not {} graph: {}',
          'a directed' if directed else 'an undirected', text)

    def name(x):
        return x[1:-1] if x.startswith('"') and x.endswith('"') else x
    nodes = [name(x.get_name()) for x in g.get_nodes()]
    nodes = [x for x in nodes if x not in ('node', 'graph', 'edge', '\\n')]
    return nodes, [(name(x.get_source()), name(x.get_destination())) for x in g.get_edges()]


def run_image(case):
    n, fmt = case['n'], case['format']
    nodes = Nodes(case['kind'][0], n, case['kind'][1])
    graph = build.graph_dict(n, case['edges'], nodes, case['key_order'],
                             list if case['form'] == 'lists' else set)
    before = {k: type(v)(v) for k, v in graph.items()}
    arg = graph
    edges = [tuple(e) for e in case['edges']]
    if case['form'] in NX:
        arg = NX[case['form']]()
        if case['form'] == 'multi':
            edges += edges[::2]
        elif case['form'] == 'undirected':
            edges = sorted({tuple(sorted(e)) for e in edges})
        arg.add_nodes_from(graph)
        arg.add_edges_from((nodes.get(a), nodes.get(b)) for a, b in edges)
        kept = set(arg.nodes), list(arg.edges)
    elif case['form'] == 'scheduler':
        arg = gs.Scheduler(graph).graph
    place = pathlib.Path(tempfile.mkdtemp(prefix='gsv-image-'))
    old = os.getcwd()
    try:
        os.chdir(place)
        with contextlib.redirect_stdout(io.StringIO()):
            if case['file'] == 0:
                # keyword arguments, relative name
                gs.output_graph_image(arg, filename=f'g.{fmt}', format=fmt)
                want = f'g.{fmt}'
            elif case['file'] == 1:
                want = 'some graph'
                gs.output_graph_image(arg, str(place / want), fmt)
            else:
                gs.output_graph_image(arg, format=fmt)
                want = f'graph-scheduler-figure-{id(arg)}.{fmt}'
        check_equal(os.listdir(place), [want], 'files written')
        text = (place / want).read_text()
    finally:
        os.chdir(old)
        shutil.rmtree(place)
    directed = case['form'] != 'undirected'
    got_nodes, got_edges = plain_source(text) if fmt.startswith('plain') else dot_source(text, directed)
    name = [str(nodes.get(i)) for i in range(n)]
    if fmt in ('raw', 'dot'):
        # what dot draws: nodes of edges as well
        got_nodes = sorted(set(got_nodes) | {x for e in got_edges for x in e})
    check_equal(sorted(got_nodes), sorted(name), 'nodes of the image')
    want_edges = [(name[a], name[b]) for a, b in edges]
    if not directed:
        got_edges, want_edges = [sorted(e) for e in got_edges], [sorted(e) for e in want_edges]
    check_equal(sorted(got_edges), sorted(want_edges), 'edges of the image')
    check_equal(graph, before, 'the graph afterwards')
    if case['form'] in NX:
        check_equal((set(arg.nodes), list(arg.edges)), kept, 'the networkx graph afterwards')
    return Result(bool(case['edges']), [case['form'], fmt])


# ---------------------------------------------------------------------------
# logging
# ---------------------------------------------------------------------------
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]
LOGGERS = ['graph_scheduler', 'graph_scheduler.scheduler', 'graph_scheduler.condition', 'graph_scheduler.utilities']


@st.composite
def log_strategy(draw, max_ops=10):
    d = D(draw)
    ops = []
    for _ in range(d.int(1, max_ops)):
        k = d.int(0, 6)
        if k <= 1:
            ops.append(['enable'])
        elif k == 2:
            ops.append(['disable', d.pick([None, 0, 1, 2, 3])])
        elif k <= 5:
            ops.append(['log', d.pick(LOGGERS), d.int(0, 3)])
        else:
            ops.append(['use'])
    return {'ops': ops}


@contextlib.contextmanager
def fresh_logging():
    """standard error and the loggers as in a new process"""
    root = logging.getLogger()
    package = logging.getLogger('graph_scheduler')
    kept = root.level, list(root.handlers), package.level, list(package.handlers), package.propagate, sys.stderr
    stream = io.StringIO()
    try:
        root.setLevel(logging.WARNING)
        root.handlers[:] = []
        package.setLevel(logging.NOTSET)
        package.handlers[:] = []
        package.propagate = True
        sys.stderr = stream
        yield stream
    finally:
        root.setLevel(kept[0])
        root.handlers[:] = kept[1]
        package.setLevel(kept[2])
        package.handlers[:] = kept[3]
        package.propagate = kept[4]
        sys.stderr = kept[5]


def run_log(case):
    on = False          # whether enabled at least once
    level = logging.WARNING
    labels = set()
    with fresh_logging() as stream:
        def shown(f):
            start = len(stream.getvalue())
            f()
            return stream.getvalue()[start:]

        for k, op in enumerate(case['ops']):
            if op[0] == 'enable':
                gs.enable_debug_logging()
                on, level = True, logging.DEBUG
            elif op[0] == 'disable':
                if op[1] is None:
                    gs.disable_debug_logging()
                    level = logging.WARNING
                else:
                    level = LEVELS[op[1]]
                    gs.disable_debug_logging(level) if k % 2 else gs.disable_debug_logging(level=level)
            elif op[0] == 'log':
                token = f'token-{k}-'
                text = shown(lambda: logging.getLogger(op[1]).log(LEVELS[op[2]], token))
                if on:
                    check_equal(text.count(token), int(LEVELS[op[2]] >= level),
                                f'times a record of level {LEVELS[op[2]]} is shown at level {level}')
                    labels.add('shown' if text else 'not shown')
                    if text:
                        check(logging.getLevelName(LEVELS[op[2]]) in text and op[1] in text, 'record shown as {!r}', text)
            else:
                def use():
                    s = gs.Scheduler({'A': set(), 'B': {'A'}})
                    s.add_condition('B', gs.EveryNCalls('A', 2))
                    check_equal(list(s.run()), [{'A'}, {'A'}, {'B'}], 'schedule')
                text = shown(use)
                if on:
                    lines = text.splitlines()
                    if level > logging.INFO:
                        check(not text, 'shown although switched off: {}', text[:300])
                    elif level == logging.DEBUG:
                        check(len(lines) > 0, 'nothing shown although switched on')
                        labels.add('package records')
            check_equal(logging.getLogger().level, level, 'root logger level')
    return Result(on and len(labels) > 0, sorted(labels))


CHECK = Check(
    'C26',
    'A case is a graph in some form written in some image source format, or a sequence of switching '
    'debug logging on and off, logging and scheduling; non-trivial: the graph has edges, or '
    'something was logged after logging had been switched on.',
    [
        Sub('image', lambda t: image_strategy(6 if t == 'quick' else 12), run_image, 3000),
        Sub('logging', lambda t: log_strategy(), run_log, 6000),
    ],
    assumptions=[
        'node names without characters that are special in the DOT language, and distinct names of distinct nodes',
        'the textual graphviz formats stand for all image formats',
    ],
)
