"""Search engine shared by all checks.

A check (one property) has a number of sub-checks.  A sub-check is a
Hypothesis strategy that produces a plain JSON-able *case*, and a function
``run(case)`` that executes the case against the code in /repo and an oracle.
``run`` returns normally (a `Result`) if the property held on the case; any
exception is a violation.  Cases are searched in several forked processes
(shards), each with its own Hypothesis seed derived from VERIF_SEED.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import pathlib
import signal
import sys
import time
import traceback
import warnings

PROPERTY_IDS = [f'C{i:02d}' for i in range(1, 27)]


class HarnessError(BaseException):
    """The machinery itself is at fault, never the code under test"""


class _Stop(BaseException):
    """Leave the Hypothesis engine: budget used up, or shrunk enough"""


class _Hang(BaseException):
    """CPU time limit of a single case"""


class Violation(AssertionError):
    pass


def check(cond, msg, *args):
    """assert that is never compiled away"""
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def check_equal(actual, expected, what):
    if not (actual == expected):
        raise Violation(f'{what}:\n  actual:   {actual!r}\n  expected: {expected!r}')


class Result:
    __slots__ = ('nontrivial', 'labels')

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = labels


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, cpu_limit=25):
        self.name = name
        # called with the tier, returns a Hypothesis strategy
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.cpu_limit = cpu_limit

    def count(self, tier):
        return self.quick if tier == 'quick' else self.thorough


class Check:
    def __init__(self, id, rule, subs, assumptions=()):
        self.id = id
        self.rule = rule
        self.subs = subs
        self.assumptions = list(assumptions)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise HarnessError(f'no sub-check {name} in {self.id}')


def derive_seed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def case_json(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(sub, case):
    return int.from_bytes(
        hashlib.sha256(f'{sub}:{case_json(case)}'.encode()).digest()[:8], 'big'
    )


def reset_process_state():
    """Called before every case"""
    warnings.resetwarnings()
    warnings.simplefilter('ignore')


def run_one(sub, case):
    """Run a case under the CPU guard.  Raises on violation."""
    reset_process_state()

    def on_alarm(signum, frame):
        raise _Hang(f'case used more than {sub.cpu_limit} s of CPU time')

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_limit)
    try:
        res = sub.run(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    if not isinstance(res, Result):
        raise HarnessError(f'{sub.name} returned {res!r}')
    return res


# ---------------------------------------------------------------------------
# one shard
# ---------------------------------------------------------------------------
def _make_body(sub, state, out, deadline, shrink_s, stop_flag):
    def body(case):
        now = time.monotonic()
        if state['fail_time'] is not None:
            if now - state['fail_time'] > shrink_s:
                raise _Stop()
        else:
            if now > deadline:
                out['budget_hit'] = True
                raise _Stop()
            if stop_flag.value:
                raise _Stop()
        try:
            res = run_one(sub, case)
        except _Hang as e:
            # confirm: a hang must be reproducible
            try:
                run_one(sub, case)
            except _Hang:
                state['best'] = (0, case, f'hang: {e}')
                raise _Stop()
            except Exception:
                pass
            return
        except (MemoryError, RecursionError, ImportError):
            if isinstance(sys.exc_info()[1], RecursionError):
                # unbounded recursion in the code under test
                _note(state, case, traceback.format_exc(limit=-12))
                raise Violation('RecursionError')
            raise HarnessError(traceback.format_exc())
        except Exception:
            _note(state, case, traceback.format_exc(limit=-12))
            raise
        state['evals'] += 1
        out['evaluations'] += 1
        labels = [f'{sub.name}: {lab}' for lab in res.labels]
        out['labels'].update(labels)
        if res.nontrivial:
            h = case_hash(sub.name, case)
            if h not in out['hashes']:
                out['hashes'].add(h)
                state['distinct'] += 1
                # keep a first, and a later (larger) sample
                k = state['distinct']
                if k in (3, 40):
                    out['samples'].setdefault(sub.name, []).append(case)
        else:
            out['labels'][f'{sub.name}: (trivial)'] += 1

    return body


def _shard(chk, tier, seed, shard, n_shards, budget, shrink_s, stop_flag, conn):
    out = {
        'evaluations': 0, 'hashes': set(), 'labels': collections.Counter(),
        'samples': {}, 'failure': None, 'error': None, 'subs': {},
        'budget_hit': False,
    }
    try:
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import seed as hseed

        start = time.monotonic()
        total = sum(s.count(tier) for s in chk.subs)

        for sub in chk.subs:
            n = -(-sub.count(tier) // n_shards)
            deadline = start + budget
            state = {
                'evals': 0, 'distinct': 0, 'fail_time': None, 'best': None,
            }

            body = _make_body(sub, state, out, deadline, shrink_s, stop_flag)
            fn = given(sub.strategy(tier))(body)
            fn = settings(
                max_examples=n, database=None, deadline=None,
                derandomize=False, report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
            )(fn)
            fn = hseed(derive_seed(seed, chk.id, sub.name, shard))(fn)
            try:
                fn()
            except _Stop:
                pass
            except HarnessError:
                raise
            except BaseException:
                if state['best'] is None:
                    raise
            out['subs'][sub.name] = {
                'evaluations': state['evals'],
                'distinct_nontrivial': state['distinct'],
            }
            if state['best'] is not None:
                out['failure'] = {
                    'sub': sub.name, 'case': state['best'][1],
                    'message': state['best'][2], 'shard': shard,
                }
                stop_flag.value = 1
                break
    except BaseException:
        out['error'] = traceback.format_exc()
    out['hashes'] = list(out['hashes'])
    try:
        conn.send(out)
        conn.close()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def _note(state, case, message):
    size = len(case_json(case))
    if state['fail_time'] is None:
        state['fail_time'] = time.monotonic()
    if state['best'] is None or size < state['best'][0]:
        state['best'] = (size, case, message)


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def load_known_findings(here, prop):
    """Lines of known_findings.txt of the form
        known: property=C07 sub=<name> case=<16 hex digits> <what fails>
    List only genuine, unrepaired defects, by the exact failing case.
    ("fixed:" lines are a record and suppress nothing.)
    """
    res = []
    path = pathlib.Path(here, 'known_findings.txt')
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('known: '):
                words = line.split(None, 4)
                fields = dict(w.split('=', 1) for w in words[1:4])
                if fields.get('property') == prop:
                    res.append((fields['sub'], fields['case'], words[4] if len(words) > 4 else ''))
    return res


# ---------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------
def load_check(prop):
    mod = importlib.import_module(f'gsv.props.{prop.lower()}')
    return mod.CHECK


def _import_target(repo):
    import graph_scheduler
    where = os.path.realpath(graph_scheduler.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise HarnessError(f'graph_scheduler imported from {where}, not {repo}')


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--shards', type=int, default=int(os.environ.get('GSV_SHARDS') or 8))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--only', help='run a single sub-check (for development)')
    ap.add_argument('--scale', type=float, default=1.0, help='multiply case counts (for development)')
    ap.add_argument('--no-corpus', action='store_true', help='skip the saved inputs (for development)')
    ap.add_argument('--budget', type=float, help='seconds after which the search stops')
    args = ap.parse_args(argv)
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
    warnings.simplefilter('ignore')

    try:
        _import_target(repo)
        if args.setup:
            import hypothesis
            for p in PROPERTY_IDS:
                if os.path.exists(os.path.join(here, 'gsv', 'props', f'{p.lower()}.py')):
                    load_check(p)
            print(f'setup ok: python {sys.version.split()[0]}, hypothesis {hypothesis.__version__}')
            return 0
        if args.property not in PROPERTY_IDS:
            print(f'unknown property {args.property}', file=sys.stderr)
            return 2
        chk = load_check(args.property)
        if args.replay:
            return _replay(chk, args.replay)
        return _search(chk, args, here)
    except (HarnessError, Exception):
        traceback.print_exc()
        return 2


def _replay(chk, path):
    data = json.loads(pathlib.Path(path).read_text())
    sub = chk.sub(data['sub'])
    try:
        run_one(sub, data['case'])
    except HarnessError:
        raise
    except (Exception, _Hang):
        traceback.print_exc(limit=-12)
        print(f'VIOLATION property={chk.id} replay={path}')
        return 1
    print(f'replay {path}: property {chk.id} holds on this case')
    return 0


def _search(chk, args, here):
    t0 = time.monotonic()
    tier, seed = args.tier, args.seed
    if args.only:
        chk.subs = [s for s in chk.subs if s.name == args.only]
    for s in chk.subs:
        s.quick = max(1, int(s.quick * args.scale))
        s.thorough = max(1, int(s.thorough * args.scale))
    budget = args.budget or (240 if tier == 'quick' else 4 * 3600)
    shrink_s = 45 if tier == 'quick' else 120

    failures = []
    known = load_known_findings(here, chk.id)
    known_hit = []
    corpus_n = 0
    labels = collections.Counter()
    hashes = set()
    # 1. saved regression inputs
    for path in sorted(pathlib.Path(here, 'corpus', chk.id).glob('*.json')):
        data = json.loads(path.read_text())
        if args.no_corpus or args.only and data['sub'] != args.only:
            continue
        corpus_n += 1
        sub = chk.sub(data['sub'])
        try:
            res = run_one(sub, data['case'])
            if res.nontrivial:
                hashes.add(case_hash(sub.name, data['case']))
        except HarnessError:
            raise
        except (Exception, _Hang):
            failures.append({
                'sub': sub.name, 'case': data['case'], 'shard': 'corpus',
                'message': f'saved input {path.name}\n' + traceback.format_exc(limit=-12),
            })

    # 2. search
    results = []
    if not failures:
        ctx = multiprocessing.get_context('fork')
        stop_flag = ctx.Value('i', 0, lock=False)
        procs = []
        for shard in range(args.shards):
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(
                target=_shard,
                args=(chk, tier, seed, shard, args.shards, budget, shrink_s, stop_flag, w),
            )
            p.start()
            w.close()
            procs.append((p, r))
        for p, r in procs:
            try:
                results.append(r.recv())
            except EOFError:
                p.join()
                raise HarnessError(f'shard ended without a result (exit {p.exitcode})')
            p.join()

    errors = [r['error'] for r in results if r['error']]
    failures += [r['failure'] for r in results if r['failure']]
    evaluations = corpus_n + sum(r['evaluations'] for r in results)
    subs = collections.defaultdict(lambda: collections.Counter())
    samples = {}
    for r in results:
        labels.update(r['labels'])
        hashes.update(r['hashes'])
        for k, v in r['subs'].items():
            subs[k].update(v)
        for k, v in r['samples'].items():
            samples.setdefault(k, [])
            if len(samples[k]) < 2:
                samples[k].extend(v[:2 - len(samples[k])])

    violations = []
    known_keys = {(s, c): text for s, c, text in known}
    # smallest first
    failures.sort(key=lambda f: len(case_json(f['case'])))
    for f in failures:
        key = (f['sub'], f'{case_hash(f["sub"], f["case"]):016x}')
        if key in known_keys:
            known_hit.append(key)
        else:
            violations.append(f)

    # 3. evidence
    wall = time.monotonic() - t0
    evidence = {
        'property': chk.id,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': chk.rule,
            'samples': [
                {'sub': k, 'case': c} for k, v in samples.items() for c in v
            ] or [{'sub': f['sub'], 'case': f['case']} for f in failures[:1]],
            'per_sub_check': {k: dict(v) for k, v in subs.items()},
            'labels': dict(sorted(labels.items())),
            'saved_inputs_replayed': corpus_n,
            'shards': args.shards,
            'time_budget_hit': any(r['budget_hit'] for r in results),
        },
        'assumptions': chk.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    ev_dir = pathlib.Path(here, 'evidence')
    ev_dir.mkdir(exist_ok=True)
    tmp = ev_dir / f'.{chk.id}.tmp'
    tmp.write_text(json.dumps(evidence, indent=1) + '\n')
    tmp.replace(ev_dir / f'{chk.id}.json')

    print(
        f'{chk.id} {tier} seed={seed}: {evaluations} cases, '
        f'{len(hashes)} distinct non-trivial, {wall:.1f} s'
    )
    for sub, case, text in known:
        print(f'KNOWN-FINDING: property={chk.id} {text}')
    if violations:
        f = violations[0]
        rep_dir = pathlib.Path(here, 'replays', chk.id)
        rep_dir.mkdir(parents=True, exist_ok=True)
        path = rep_dir / f'{f["sub"]}-{case_hash(f["sub"], f["case"]):016x}.json'
        path.write_text(json.dumps({
            'property': chk.id, 'sub': f['sub'], 'case': f['case'],
            'seed': seed, 'tier': tier, 'shard': f['shard'],
            'message': f['message'],
        }, indent=1) + '\n')
        print(f['message'])
        print(f'minimal case ({f["sub"]}): {case_json(f["case"])}')
        print(f'VIOLATION property={chk.id} replay={path}')
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    if evaluations == 0 or not hashes:
        print('no non-trivial case was explored', file=sys.stderr)
        return 2
    return 0
