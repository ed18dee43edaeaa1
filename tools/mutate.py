"""Mutation testing of the checks.

    python3 tools/mutate.py list                     count mutants per file
    python3 tools/mutate.py run OUT.jsonl [WORKERS] [REGEX of file:qualname]

Mutants of /repo/src that pass the repository's own core tests are given to the
checks (reduced case counts first), most relevant check first, until one
reports a violation.  Works on copies under /tmp/mut; /repo is not touched.
Results are appended to OUT.jsonl, mutants recorded there are skipped.
"""
import ast
import hashlib
import json
import multiprocessing
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MUT_REPO', '/repo'))
SRC = REPO / 'src/graph_scheduler'
FILES = ['scheduler.py', 'condition.py', 'time.py', 'utilities.py']
WORK = pathlib.Path('/tmp/mut')
ALL = [f'C{i:02d}' for i in range(1, 27)]
PRIO = {
    'scheduler.py': 'C02 C20 C09 C13 C24 C10 C01 C11 C08 C07 C22 C23 C25',
    'time.py': 'C17 C18 C03 C08 C02 C20',
    'utilities.py': 'C16 C19 C05 C12 C01 C15 C26',
    'structural': 'C15 C12 C13 C24 C21 C14 C25',
    'set': 'C14 C13 C24 C15 C11 C25',
    'basic': 'C03 C04 C05 C06 C19 C07 C08 C24 C02 C10 C20 C25',
}


def order(file, qual):
    if file == 'condition.py':
        top = qual.split('.')[0]
        if top == 'ConditionSet':
            key = 'set'
        elif top in ('Operation',) or 'Graph' in top or '_GSC' in top or re.match('(Before|After|With)Nodes?$|AddEdge|RemoveEdge', top):
            key = 'structural'
        else:
            key = 'basic'
    else:
        key = file
    first = PRIO[key].split()
    return first + ([c for c in ALL if c not in first] if os.environ.get('MUT_ALL') else [])


#: messages
SKIP = re.compile('_conflict_application_string|_operations_names_max|_str_max_length|'
                  '_args_str|_format_arg|docstring')
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*', ast.BitOr: '&', ast.BitAnd: '|'}
SWAP = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'union': 'intersection', 'intersection': 'union',
        'difference': 'union', 'append': 'remove', 'add': 'discard', 'discard': 'add'}
UNWRAP = {'set', 'list', 'dict', 'copy', 'deepcopy', 'sorted', 'reversed', 'clone_graph', 'frozenset'}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = text.encode()
        self.out = []
        self.q = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, what, '.'.join(self.q), n.lineno))

    def scope(self, n):
        self.q.append(n.name)
        if n.name not in ('__repr__', '__str__'):
            self.generic_visit(n)
        self.q.pop()

    visit_ClassDef = visit_FunctionDef = scope

    def body(self, n):
        for field in ('body', 'orelse', 'finalbody'):
            stmts = getattr(n, field, None)
            if not isinstance(stmts, list):
                continue
            for s in stmts:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if not self.q or isinstance(n, ast.ClassDef):
                    continue
                if isinstance(s, ast.Expr) and 'logger' in self.src(s):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise)):
                    self.put(s, 'pass', 'delete statement')

    def generic_visit(self, n):
        self.body(n)
        super().generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or 'logger' in self.src(n) or 'warnings.warn' in self.src(n):
            return
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Assert(self, n):
        return

    def visit_JoinedStr(self, n):
        return

    def visit_If(self, n):
        if 'TYPE_CHECKING' in self.src(n.test):
            return
        self.put(n.test, 'True', 'if True')
        self.put(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, self.src(n.body), 'ifexp body')
        self.put(n, self.src(n.orelse), 'ifexp else')
        self.generic_visit(n)

    def visit_While(self, n):
        self.put(n.test, 'False', 'while False')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.put(n, f'{self.src(n.left)} {o} {self.src(n.comparators[0])}', f'compare {o}')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(' + op.join('(' + self.src(v) + ')' for v in n.values) + ')', 'boolop')
        for v in n.values:
            self.put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(
                '(' + self.src(w) + ')' for w in n.values if w is not v) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, '(' + self.src(n.operand) + ')', 'drop not')
        elif isinstance(n.op, ast.USub):
            self.put(n, self.src(n.operand), 'drop minus')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        o = BIN.get(type(n.op))
        if o and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or o and isinstance(getattr(n.left, 'value', None), int):
            self.put(n, f'({self.src(n.left)}) {o} ({self.src(n.right)})', f'binop {o}')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.put(n, str(not n.value), 'flip')
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1), 'int+1')
            if n.value:
                self.put(n, str(n.value - 1), 'int-1')

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if name in SWAP:
            s = self.src(f)
            self.put(f, s[:-len(name)] + SWAP[name], f'{name} -> {SWAP[name]}')
        if name in UNWRAP and len(n.args) == 1 and not n.keywords:
            self.put(n, self.src(n.args[0]), f'unwrap {name}')
        elif name in ('copy', 'union', 'intersection') and isinstance(f, ast.Attribute) and not n.args:
            self.put(n, self.src(f.value), f'unwrap .{name}')
        for i, kw in enumerate(n.keywords):
            parts = [self.src(a) for a in n.args] + [
                (f'{k.arg}={self.src(k.value)}' if k.arg else f'**{self.src(k.value)}') for k in n.keywords if k is not kw]
            self.put(n, f'{self.src(f)}({", ".join(parts)})', f'drop {kw.arg}')
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
            self.put(n, f'{self.src(f)}({self.src(n.args[1])}, {self.src(n.args[0])})', 'swap arguments')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.put(n.value, 'None', 'return None')
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for i in n.ifs:
            self.put(i, 'True', 'comprehension if True')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == 'TimeScale':
            names = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']
            if n.attr in names:
                i = names.index(n.attr)
                for j in (i - 1, i + 1):
                    if 0 <= j < 5:
                        self.put(n, f'TimeScale.{names[j]}', f'scale {names[j]}')
        self.generic_visit(n)


class Semantic(Gen):
    """plausible mistakes: identity, truthiness, other contexts and scopes, stale values, limits"""

    def visit_If(self, n):
        self.put(n.test, f'not ({self.src(n.test)})', 'negate if')
        ast.NodeVisitor.generic_visit(self, n)

    def generic_visit(self, n):
        ast.NodeVisitor.generic_visit(self, n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            a, b = self.src(n.left), self.src(n.comparators[0])
            none = isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None
            op = type(n.ops[0])
            if op is ast.Is:
                self.put(n, f'(not {a})' if none else f'{a} == {b}', 'is -> truth')
            elif op is ast.IsNot:
                self.put(n, f'bool({a})' if none else f'{a} != {b}', 'is not -> truth')
            elif op is ast.Eq:
                self.put(n, f'{a} is {b}', '== -> is')
                self.put(n, f'str({a}) == str({b})', '== -> str')
            elif op is ast.NotEq:
                self.put(n, f'{a} is not {b}', '!= -> is not')
                self.put(n, f'str({a}) != str({b})', '!= -> str')
            elif op is ast.In:
                self.put(n, f'any({a} is _e for _e in {b})', 'in -> identity')
                self.put(n, f'any(str({a}) == str(_e) for _e in {b})', 'in -> str')
            elif op is ast.NotIn:
                self.put(n, f'all({a} is not _e for _e in {b})', 'not in -> identity')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_BoolOp(self, n):
        ast.NodeVisitor.generic_visit(self, n)

    visit_UnaryOp = visit_IfExp = visit_While = visit_BinOp = visit_BoolOp

    def visit_Constant(self, n):
        pass

    def visit_Return(self, n):
        v = n.value
        if isinstance(v, (ast.Attribute, ast.Subscript, ast.Name)):
            self.put(v, f'type({self.src(v)})({self.src(v)})' if False else f'({self.src(v)} or None)', 'return or None')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_Subscript(self, n):
        i = n.slice
        if isinstance(i, ast.UnaryOp) and isinstance(i.operand, ast.Constant):
            self.put(n, f'{self.src(n.value)}[0]', '[-1] -> [0]')
        elif isinstance(i, ast.Constant) and i.value == 0 and not isinstance(i.value, str):
            self.put(n, f'{self.src(n.value)}[-1]', '[0] -> [-1]')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_For(self, n):
        self.put(n.iter, f'list({self.src(n.iter)})[:3]', 'at most 3')
        self.put(n.iter, f'list({self.src(n.iter)})[:6]', 'at most 6')
        self.put(n.iter, f'reversed(list({self.src(n.iter)}))', 'reversed')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_comprehension(self, n):
        self.put(n.iter, f'list({self.src(n.iter)})[:3]', 'at most 3')
        self.put(n.iter, f'list({self.src(n.iter)})[:6]', 'at most 6')
        self.put(n.iter, f'list({self.src(n.iter)})[1:]', 'not the first')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_Name(self, n):
        if n.id == 'execution_id' and isinstance(n.ctx, ast.Load):
            if self.q[:1] == ['Scheduler']:
                self.put(n, 'self.default_execution_id', 'default context')
                self.put(n, '(execution_id or self.default_execution_id)', 'falsy context')
            elif 'func' in self.q or 'satis' in self.q:
                self.put(n, 'None', 'no context')

    def visit_ExceptHandler(self, n):
        a, b = self.span(n)
        if not isinstance(n.body[-1], ast.Raise):
            first, last = n.body[0], n.body[-1]
            a, b = self.span(first)[0], self.span(last)[1]
            self.out.append((a, b, 'raise', 'do not handle', '.'.join(self.q), first.lineno))
        ast.NodeVisitor.generic_visit(self, n)

    def visit_Call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name == 'isinstance' and len(n.args) == 2 and not isinstance(n.args[1], ast.Tuple):
            self.put(n, f'type({self.src(n.args[0])}) is {self.src(n.args[1])}', 'exact type')
        if name in ('append', 'add') and n.args:
            self.put(n, f'({self.src(n)} if not {self.src(f.value)} else None)', f'{name} only to empty')
            self.put(n, f'({self.src(n)} if len({self.src(f.value)}) < 3 else None)', f'{name} up to 3')
        if name == 'append':
            self.put(n, f'{self.src(f.value)}.insert(0, {self.src(n.args[0])})', 'prepend')
        if name in ('update', 'extend') and len(n.args) == 1:
            self.put(n, f'{self.src(n)} if {self.src(n.args[0])} and not {self.src(f.value)} else None', f'{name} only empty')
        if name == 'hash':
            self.put(n, '0', 'hash 0')
        if name == 'get_clock' and n.args:
            self.put(n, f'{self.src(f)}()', 'default clock')
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Name) and not isinstance(a, ast.Starred) and n.keywords == [] and len(n.args) > 1:
                rest = [self.src(x) for j, x in enumerate(n.args) if j != i]
                self.put(n, f'{self.src(f)}({", ".join(rest)})', f'drop argument {i}')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_Dict(self, n):
        for i, k in enumerate(n.keys):
            parts = [
                (f'{self.src(kk)}: ' if kk is not None else '**') + self.src(v)
                for j, (kk, v) in enumerate(zip(n.keys, n.values)) if j != i
            ]
            self.put(n, '{' + ', '.join(parts) + '}', f'drop entry {i}')
        if len(n.keys) == 2:
            parts = [(f'{self.src(kk)}: ' if kk is not None else '**') + self.src(v) for kk, v in zip(n.keys, n.values)]
            self.put(n, '{' + ', '.join(parts[::-1]) + '}', 'entries swapped')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_FunctionDef(self, n):
        for dec in n.decorator_list:
            if isinstance(dec, ast.Name) and dec.id == 'property':
                self.put(dec, 'functools.cached_property', 'cached property')
        args = n.args
        for a, dflt in list(zip(args.args[-len(args.defaults):], args.defaults)) if args.defaults else []:
            pass
        self.q.append(n.name)
        if n.name not in ('__repr__', '__str__'):
            ast.NodeVisitor.generic_visit(self, n)
        self.q.pop()

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name):
            t = self.src(n.targets[0])
            self.put(n, f'{t} = {t} if getattr({self.src(n.targets[0].value)}, {n.targets[0].attr!r}, None) else {self.src(n.value)}',
                     'keep the first value')
        ast.NodeVisitor.generic_visit(self, n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or 'logger' in self.src(n) or 'warnings.warn' in self.src(n):
            return
        ast.NodeVisitor.generic_visit(self, n)


def mutants():
    res = []
    for f in FILES:
        text = (SRC / f).read_text()
        g = (Semantic if os.environ.get('MUT_SET') == 'semantic' else Gen)(text)
        g.visit(ast.parse(text))
        seen, count = set(), {}
        for a, b, new, what, qual, line in g.out:
            mut = g.b[:a] + new.encode() + g.b[b:]
            h = hashlib.sha256(mut).hexdigest()[:16]
            if h in seen:
                continue
            seen.add(h)
            # stays the same when other parts of the file change
            key = (f, qual, what, g.b[a:b].decode(), new)
            count[key] = count.get(key, 0) + 1
            h = hashlib.sha256(repr((*key, count[key])).encode()).hexdigest()[:16]
            if SKIP.search(qual):
                continue
            try:
                compile(mut, f, 'exec')
            except SyntaxError:
                continue
            res.append({'id': h, 'file': f, 'line': line, 'qual': qual, 'what': what,
                        'old': g.b[a:b].decode()[:300], 'new': new[:300], 'a': a, 'b': b, 'full_new': new})
    return res


def setup(k):
    d, v = WORK / f'r{k}', WORK / f'v{k}'
    for x in (d, v):
        if x.exists():
            shutil.rmtree(x)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    (v / 'tools').mkdir(parents=True)
    shutil.copytree(HERE / 'gsv', v / 'gsv')
    shutil.copy(HERE / 'check.py', v)
    if (HERE / 'corpus').exists():
        shutil.copytree(HERE / 'corpus', v / 'corpus')
    return d, v


def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(['prlimit', '--as=6000000000', *cmd], cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def try_mutant(m, d, v, scale):
    path = d / 'src' / 'graph_scheduler' / m['file']
    orig = (SRC / m['file']).read_bytes()
    path.write_bytes(orig[:m['a']] + m['full_new'].encode() + orig[m['b']:])
    try:
        env = dict(os.environ, PYTHONPATH=str(d / 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        rc, out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--no-cov', '-n', '0',
                      '--ignore', 'tests/integration', 'tests', f'--basetemp={WORK}/t{d.name}'], d, env, 120)
        if rc != 0:
            return {'status': 'tests'}
        env = dict(os.environ, GSV_REPO=str(d), GSV_SHARDS='1', GSV_CHILD='0')
        broken = []
        for c in order(m['file'], m['qual']):
            rc, out = sh([sys.executable, 'check.py', c, '--scale', str(scale), '--budget', '120'], v, env, 400)
            if rc == 1 and 'VIOLATION' in out:
                return {'status': 'caught', 'by': c, 'broken': broken}
            if rc != 0:
                broken.append((c, rc, out[-300:]))
        return {'status': 'survived', 'broken': broken}
    finally:
        path.write_bytes(orig)


def worker(k, queue, out, lock, scale):
    d, v = setup(k)
    while True:
        m = queue.get()
        if m is None:
            break
        r = try_mutant(m, d, v, scale)
        r.update({x: m[x] for x in ('id', 'file', 'line', 'qual', 'what', 'old', 'new')})
        with lock:
            with open(out, 'a') as fh:
                fh.write(json.dumps(r) + '\n')
    shutil.rmtree(d)
    shutil.rmtree(v)


def main():
    ms = mutants()
    if sys.argv[1] == 'list':
        import collections
        print(collections.Counter(m['file'] for m in ms), len(ms))
        print(collections.Counter(m['what'].split(' ')[0] for m in ms))
        return
    out = sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 7
    pat = sys.argv[4] if len(sys.argv) > 4 else '.'
    scale = float(os.environ.get('MUT_SCALE', '0.15'))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    ms = [m for m in ms if m['id'] not in done and re.search(pat, f'{m["file"]}:{m["qual"]}')]
    random.Random(0).shuffle(ms)
    print(len(ms), 'mutants', flush=True)
    queue, lock = multiprocessing.Queue(), multiprocessing.Lock()
    for m in ms:
        queue.put(m)
    ps = []
    for k in range(n):
        queue.put(None)
        p = multiprocessing.Process(target=worker, args=(k, queue, out, lock, scale))
        p.start()
        ps.append(p)
    for p in ps:
        p.join()


if __name__ == '__main__':
    main()
