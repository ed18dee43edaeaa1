"""Evaluate free-standing conditions at every moment of a modelled history."""
from gsv import build
from gsv.core import Violation, check
from gsv.drive import Problem, term_objects, term_spec
from gsv.model import END, Model, TooManyStates, Tracker, satisfied, useable_pairs


class Prober:
    def __init__(self, case):
        """case: a Problem case plus probes [[owner, spec], ...]"""
        self.p = Problem(case)
        model = self.p.model()
        for owner, spec in case['probes']:
            model.set_pairs(set(model.pairs) | useable_pairs(spec, owner))
        self.model = model
        self.tracker = Tracker(model)
        self.probes = []
        for owner, spec in case['probes']:
            c = build.condition(spec, self.p.nodes)
            if owner is not None:
                c.owner = self.p.nodes.get(owner)
            self.probes.append((owner, spec, c))
        self.values = [set() for _ in self.probes]
        self.history = []
        self.moments = 0
        self.undetermined = 0

    def probe(self, when, started=True):
        s = self.p.scheduler
        if not started:
            return
        self.moments += 1
        for k, (owner, spec, c) in enumerate(self.probes):
            got = bool(c.is_satisfied(scheduler=s, execution_id=self.p.ctx))
            want = {satisfied(spec, st, owner, self.model.n) for st in self.tracker.states}
            if len(want) > 1:
                self.undetermined += 1
                continue
            if got not in want:
                raise Violation(
                    f'{spec} (owner {owner}) is {got} {when}; history '
                    f'{[sorted(h) if h != "|" else h for h in self.history]}'
                )
            self.values[k].add(got)

    def run(self, ops):
        p, s = self.p, self.p.scheduler
        started = False
        for op in ops:
            if op[0] == 'endseq':
                s.end_environment_sequence(**p.ctx_kw)
                self.tracker.end_sequence()
                self.history.append('|seq')
                self.probe('after ending the sequence', started)
                continue
            _, cap, raw, skip = op
            term = term_spec(raw, p.term)
            g = s.run(
                termination_conds=term_objects(raw, p.nodes),
                skip_environment_state_update_time_increment=skip,
                **p.ctx_kw
            )
            try:
                self.tracker.start(term)
                for k in range(cap + 1):
                    if k == cap:
                        return 'cap'
                    try:
                        out = p.idx(next(g))
                    except StopIteration:
                        out = END
                    allowed = self.tracker.step(out)
                    if allowed is not None:
                        raise Violation(
                            f'run yielded {out} after {self.history}; allowed {allowed}'
                        )
                    started = True
                    if out == END:
                        self.tracker.finish(skip)
                        self.history.append('|')
                        self.probe('after the run', True)
                        break
                    self.history.append(out)
                    self.probe(f'at yield {k} of a run', True)
            except TooManyStates:
                return 'blowup'
        return 'end'
