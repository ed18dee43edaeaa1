"""C18: time scale aliases mean the same as the original, and can be removed."""
import types

from hypothesis import strategies as st

import graph_scheduler as gs

from gsv import gen
from gsv.core import Check, HarnessError, Result, Sub, Violation, check, check_equal
from gsv.gen import CSE, D, ESU, LIFE, PASS, SEQ, TS_NAMES
from gsv.isolate import isolated

TS = gs.TimeScale
ATTRS = {CSE: 'consideration_set_execution', PASS: 'pass_', ESU: 'environment_state_update',
         SEQ: 'environment_sequence', LIFE: 'life'}
SEGMENTS = {CSE: 'ConsiderationSetExecution', PASS: 'Pass', ESU: 'EnvironmentStateUpdate',
            SEQ: 'EnvironmentSequence', LIFE: 'Life'}
#: words overlapping parts of existing public names on purpose
WORDS = ['TRIAL', 'RUN', 'STEP', 'CALL', 'CALLS', 'N', 'AFTER', 'START', 'EVERY', 'CONDITION',
         'NODE', 'TIME', 'X', 'Q2', 'EPOCH', 'SET', 'MY', 'NWHEN', 'ALL', 'SCALE']
#: would take the place of attributes of times or members of TimeScale
FORBIDDEN = {*TS_NAMES, 'TIME', 'N', 'SET'} - {'TIME', 'N', 'SET'}

PRISTINE = {
    k: v for k, v in vars(gs).items() if not k.startswith('_')
}


def class_segment(name):
    return ''.join(x[:1].upper() + x[1:].lower() for x in name.split('_'))


INVALID = [
    'NOTHING', 'PASSES', 'LIFETIME', 'trial', 'get_child', 'name', 'mro', '__doc__',
    3, 0, None, 2.5, ['PASS'], {'PASS': 1},
]
#: names that mean something already
TAKEN = [*TS_NAMES, 'get_child', 'get_parent', 'ABSOLUTE', 'absolute', 'Absolute_Interval', 'Life', 'PASS_']


def alias_name(d):
    parts = [d.pick(WORDS) for _ in range(d.int(1, 3))]
    if d.chance(1, 6):
        # contains the name of the original or of another time scale
        parts.insert(d.int(0, len(parts)), d.pick(TS_NAMES))
    if d.chance(1, 12):
        # part of the names of other classes
        parts = d.pick([['N', 'CALLS'], ['CALL'], ['NODE'], ['NODES'], ['pass'], ['PASS', ''], ['N', 'PASS'], ['N', 'PASSES']])
    if d.chance(1, 8):
        # leading, trailing and doubled underscores
        parts.insert(d.int(0, len(parts)), '')
    return '_'.join(parts)


def new_names(target, name):
    """public class name -> alias of it"""
    return {
        k: k.replace(SEGMENTS[target], class_segment(name))
        for k in PRISTINE if SEGMENTS[target] in k
    }


def collides(target, name):
    """the alias would take the place of something that exists"""
    return (
        name in TS_NAMES
        or hasattr(gs.Time(), name.lower()) or hasattr(TS, name)
        or any(v in PRISTINE for v in new_names(target, name).values())
    )


def strategy(max_ops):
    @st.composite
    def s(draw):
        d = D(draw)
        ops = []
        pool = [alias_name(d) for _ in range(d.int(1, 4))]
        for _ in range(d.int(1, max_ops)):
            k = d.int(0, 8)
            if k == 8:
                ops.append(['set_taken', d.pick(TAKEN), d.int(CSE, LIFE)])
            elif k <= 2:
                ops.append(['set', d.pick(pool), d.int(CSE, LIFE), d.int(0, 1)])
            elif k <= 4:
                ops.append(['remove', d.pick(pool)])
            elif k == 5:
                ops.append(['set_invalid', d.pick(pool), d.pick(INVALID)])
            else:
                ops.append(['use', d.int(0, 3), d.int(1, 3)])
        return {'pool': pool, 'ops': ops}
    return s()


class World:
    def __init__(self):
        self.aliases = {}       # name -> target, in the order of setting
        self.base = self.names()
        self.labels = set()

    @staticmethod
    def names():
        res = {}
        for what, ns in (('package', vars(gs)), ('condition', vars(gs.condition)),
                         ('time', vars(gs.time)), ('scheduler', vars(gs.scheduler))):
            for k, v in ns.items():
                if not k.startswith('_'):
                    res[what, k] = id(v)
        for cls in (gs.TimeScale, gs.Time, gs.SimpleTime):
            for k in dir(cls):
                if not k.startswith('_'):
                    res[cls.__name__, k] = 0
        res['all'] = (tuple(sorted(gs.__all__)), tuple(sorted(gs.condition.__all__)))
        res['members'] = tuple(sorted((m.name, m.value) for m in TS))
        res['docs'] = {
            k: v.__doc__ for k, v in vars(gs).items() if isinstance(v, (type, types.ModuleType)) and k in PRISTINE
        }
        res['repr'] = repr(gs.Time(1, 2, 3, 4, 5)), repr(gs.SimpleTime(gs.Time(1, 2, 3, 4, 5)))
        return res

    def view(self):
        """everything as it must be with the current aliases"""
        names = self.names()
        if not self.aliases:
            docs = {k for k, v in self.base['docs'].items() if names['docs'].get(k) != v}
            check(not docs, 'documentation differs from before without any alias: {}', sorted(docs))
            diff = {k for k in {*names, *self.base} if names.get(k) != self.base.get(k)}
            check(not diff, 'public names differ from before without any alias: {}',
                  {k: (self.base.get(k), names.get(k)) for k in diff})
        for k in self.base:
            if k not in ('all', 'repr', 'docs'):
                check(names.get(k) == self.base[k], '{} changed', k)
        t = gs.Time(consideration_set_execution=10, pass_=11, environment_state_update=12,
                    environment_sequence=13, life=14)
        simple = gs.SimpleTime(t)
        allowed = set()
        for name, target in self.aliases.items():
            check(getattr(TS, name) is TS(target), 'TimeScale.{} is {}', name, getattr(TS, name))
            attr = name.lower()
            check_equal(getattr(t, attr), 10 + target, f'time.{attr}')
            if hasattr(simple, ATTRS[target]):
                check_equal(getattr(simple, attr), 10 + target, f'simple_time.{attr}')
            check_equal(t[getattr(TS, name)], 10 + target, f'time[TimeScale.{name}]')
            t2 = gs.Time(1, 2, 3, 4, 5)
            setattr(t2, attr, 7)
            check_equal([getattr(t2, ATTRS[x]) for x in range(5)],
                        [7 if x == target else x + 1 for x in range(5)], f'after setting time.{attr}')
            t2[getattr(TS, name)] = 8
            check_equal([getattr(t2, ATTRS[x]) for x in range(5)],
                        [8 if x == target else x + 1 for x in range(5)], f'after setting time[TimeScale.{name}]')
            t3 = gs.Time(**{attr: 7})
            check_equal([getattr(t3, ATTRS[x]) for x in range(5)],
                        [7 if x == target else 0 for x in range(5)], f'Time({attr}=7)')
            if target != LIFE:
                # one of the aliases
                check(any(f'{a.lower()}: {10 + target}' in repr(t) for a, x in self.aliases.items() if x == target),
                      '{} is missing from {!r}', attr, t)
            for k, new in new_names(target, name).items():
                check(getattr(gs, new, None) is PRISTINE[k], 'graph_scheduler.{} is not {}', new, k)
                check(new in gs.__all__, '{} missing from __all__', new)
                if isinstance(PRISTINE[k], type) and issubclass(PRISTINE[k], gs.condition.ConditionBase):
                    check(getattr(gs.condition, new, None) is PRISTINE[k], 'condition.{} is not {}', new, k)
                    check(new in gs.condition.__all__, '{} missing from condition.__all__', new)
                allowed.add(new)
        if len(self.aliases) == 1:
            # no more than stated
            (name, target), = self.aliases.items()
            more = {k[1] for k in names if k not in self.base and k[0] == 'package'} - allowed
            check(not more, 'additional public names {}', more)

    def set(self, name, target, as_string):
        arg = TS_NAMES[target] if as_string else TS(target)
        if collides(target, name) or any(
            # two aliases that make the same names
            set(new_names(target, name).values()) & set(new_names(t, n).values())
            for n, t in self.aliases.items()
        ):
            before = self.names()
            try:
                gs.set_time_scale_alias(name, arg)
            except ValueError:
                check_equal(self.names(), before, 'names after a rejected alias')
                self.labels.add('set twice' if name in self.aliases else 'name of a class in use')
                return
            raise Violation(f'{name} for {TS_NAMES[target]} was accepted although names are in use')
        if target in self.aliases.values():
            self.labels.add('several of one scale')
        gs.set_time_scale_alias(name, arg)
        self.aliases[name] = target

    def step(self, op):
        if op[0] == 'set':
            self.set(op[1], op[2], op[3])
        elif op[0] == 'set_invalid':
            if op[1] in self.aliases:
                return
            before = self.names()
            try:
                gs.set_time_scale_alias(op[1], op[2])
            except ValueError:
                check_equal(self.names(), before, 'names after a rejected alias')
                self.labels.add('invalid target')
                return
            raise Violation(f'{op[2]} was accepted as a time scale')
        elif op[0] == 'set_taken':
            before = self.names()
            try:
                gs.set_time_scale_alias(op[1], TS(op[2]))
            except ValueError:
                check_equal(self.names(), before, 'names after a rejected alias')
                self.labels.add('name in use')
                return
            raise Violation(f'{op[1]} was accepted as an alias')
        elif op[0] == 'remove':
            before = self.names()
            gs.remove_time_scale_alias(op[1])
            if op[1] in self.aliases:
                if list(self.aliases)[-1] != op[1]:
                    self.labels.add('removed in another order')
                del self.aliases[op[1]]
                self.labels.add('removed')
            else:
                check_equal(self.names(), before, 'names after removing an alias that is not set')
        else:
            self.use(op[1], op[2])

    def use(self, form, n):
        """schedules written with aliases and originals"""
        if not self.aliases:
            return
        self.labels.add('used')
        name, target = list(self.aliases.items())[form % len(self.aliases)]
        member = getattr(TS, name)

        # the first or the last alias of each scale
        names = {t: a for a, t in list(self.aliases.items())[::1 if n % 2 else -1]}

        def build(alias):
            def cls(k):
                if not alias:
                    return getattr(gs, k)
                for a, t in self.aliases.items():
                    if SEGMENTS[t] in k:
                        return getattr(gs, k.replace(SEGMENTS[t], class_segment(a)))
                return getattr(gs, k)

            def scale(ts):
                return getattr(TS, names[ts]) if alias and ts in names else TS(ts)
            s = gs.Scheduler({'A': set(), 'B': {'A'}, 'C': {'B'}})
            s.add_condition('A', gs.Any(cls('EveryNPasses')(2), cls('AtEnvironmentStateUpdate')(1)))
            s.add_condition('B', gs.AfterNCalls('A', n, time_scale=scale(target if target > CSE else ESU)))
            s.add_condition('C', gs.Not(cls('BeforeConsiderationSetExecution')(2 * n, scale(ESU))))
            key = scale(ESU)
            if form % 2:
                key = names[ESU] if alias and ESU in names else 'ENVIRONMENT_STATE_UPDATE'
            term = {key: cls('AfterNPasses')(2 + n)}
            res = []
            for _ in range(2):
                for cs in s.run(termination_conds=term):
                    c = s.get_clock()
                    res.append((sorted(cs), [getattr(c.time, ATTRS[x]) for x in range(5)]))
                s.end_environment_sequence()
                res.append([
                    s.get_clock().get_total_times_relative(scale(CSE), scale(b), 0)
                    for b in (SEQ, ESU)
                ])
            return res
        check_equal(build(True), build(False), f'schedule written with {name}')
        check(member is TS(target), 'TimeScale.{} is {}', name, member)


def raw(case):
    w = World()
    most = 0
    for op in case['ops']:
        w.step(op)
        w.view()
        most = max(most, len(w.aliases))
    # remove the rest, in some order
    rest = [n for n in case['pool'] if n in w.aliases]
    for name in dict.fromkeys(rest):
        w.step(['remove', name])
        w.view()
    check(not w.aliases, 'harness: aliases left {}', w.aliases)
    w.view()
    return Result(most > 0, sorted({*w.labels, f'{most} aliases at once'}))


CHECK = Check(
    'C18',
    'A case is a sequence of setting, using and removing aliases; non-trivial: at least one '
    'alias was set.',
    [Sub('history', lambda t: strategy(8) if t == 'quick' else strategy(20), isolated(raw), 10500)],
    assumptions=['aliases are identifiers of ASCII letters, digits and underscores'],
)
