"""C07: asking for more unique values than remain raises and changes nothing; what is reported as remaining does remain."""
from .configs import *     # noqa
from .c02 import emissions, agree

check = Check('C07')
k, j = inp('k', 'nat'), inp('j', 'nat')
w2, cw2 = inp('w2', 'seq:num'), inp('cw2', 'seq:num')
L = T('len', items)
WEIGHTS = {'no weights': {}, 'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}
MODES = {'without replacement': {'replace': FALSE}, 'replace after call': {'replace_only_after_call': TRUE}, 'with replacement': {}}


class Settled(Exception):
    """A violation was reported; there is no point in going on."""


class Run:
    """Drives a choice emitter and keeps count of what is left."""

    def __init__(self, w, o, mode):
        self.w, self.o, self.mode, self.left = w, o, mode, L
        self.at = w.where(CH, 'Choice', '_choice_without_replacement')

    def step(self, op, *args):
        w, o = self.w, self.o
        if op == 'call':
            self.call(*args)
        elif op in ('seed', 'reset'):
            w.do(o, op, *args)
            self.left = L
        elif op in ('weights', 'cum_weights'):
            if w.attempt(lambda: w.put(o, op, *args))[0] == 'raise':
                raise Infeasible()          # refused settings are C10's subject
            self.left = L
        elif op == 'replace':
            if args[0] is TRUE:
                self.mode = self.mode if self.mode != 'without replacement' else 'with replacement'
                self.left = L
            else:
                self.mode = 'without replacement' if self.mode != 'without replacement' else self.mode
                self.left = L if self.mode != 'without replacement' or not getattr(self, 'off', False) else self.left
            w.put(o, 'replace', *args)
        elif op == 'replace_only_after_call':
            if args[0] is TRUE:
                self.mode, self.left = 'replace after call', L
            elif self.mode == 'replace after call':
                self.mode = 'with replacement'
            w.put(o, op, *args)
        self.off = self.mode == 'without replacement'
        self.remaining()

    def remaining(self):
        got = self.w.get(self.o, 'num_unique_items')
        self.w.same(got, self.left, 'remaining', 'the number of items reported as remaining is the number not yet emitted',
                    self.w.where(CH, 'Choice', 'num_unique_items'))

    def too_many(self, number):
        """Whether the count is too large in the present mode (forks where it can be either)."""
        if self.mode == 'with replacement':
            return False
        if self.mode == 'replace after call' and not self.w.truth(self.w.cond_gt0(psub(number, ONE))):
            return False
        return self.w.truth(self.w.cond_gt0(psub(number, self.left)))

    def call(self, *args):
        w, o = self.w, self.o
        number = lift(args[0]) if args else ONE
        many = self.too_many(number)
        snap = w.snapshot()
        r = w.attempt(lambda: w.do(o, '__call__', *args))
        if many:
            if r[0] == 'ok':
                w.fail('too-many-raises', 'a call for %s values with %s left returns instead of raising' % (show(number), show(self.left)), self.at)
                raise Settled()
            w.require(r[1].cls == 'ValueError', 'too-many-raises', 'a call for more values than are left raises ValueError, not %s' % r[1].cls, self.at)
            self.remaining()
            after = emissions(w, o)
            w.restore(snap)
            agree(w, after, emissions(w, o), 'failed-call-changes-nothing', 'what is emitted after the failed call', self.at)
            w.restore(snap)
            r = w.attempt(lambda: w.do(o, '__call__', *args))
        else:
            if r[0] == 'raise':
                w.fail('enough-left', 'a call for %s values with %s left raises %s (%s)' % (show(number), show(self.left), r[1].cls, r[1].origin), self.at)
                raise Settled()
            if args:
                w.has_len(r[1], number, 'enough-left', 'the call returns as many values as asked for', self.at)
            if self.mode == 'without replacement':
                self.left = psub(self.left, number)


PLANS = {
    'new': [],
    'after a value': [('call',)],
    'after n values': [('call', n)],
    'after n values, a value': [('call', n), ('call',)],
    'after a value, n values': [('call',), ('call', n)],
    'after n values, m values': [('call', n), ('call', m)],
    'after one value of many, n values': [('call', K(1)), ('call', n)],
    'after no values': [('call', ZERO)],
    'after n values, a reset': [('call', n), ('reset',)],
    'after n values, a seed': [('call', n), ('seed', seed2)],
    'after n values, weights': [('call', n), ('weights', w2)],
    'after n values, cumulative weights': [('call', n), ('cum_weights', cw2)],
    'after n values, weights removed': [('call', n), ('weights', NONE)],
    'after n values, cumulative weights removed': [('call', n), ('cum_weights', NONE)],
    'after n values, replacement on': [('call', n), ('replace', TRUE)],
    'after n values, replacement off': [('call', n), ('replace', FALSE)],
    'after n values, replacement on, m values, off': [('call', n), ('replace', TRUE), ('call', m), ('replace', FALSE)],
    'after n values, replace after call': [('call', n), ('replace_only_after_call', TRUE)],
    'after n values, not replace after call': [('call', n), ('replace_only_after_call', FALSE)],
    'after n values, replace after call, off': [('call', n), ('replace_only_after_call', TRUE), ('replace', FALSE)],
    'after a reset, n values': [('reset',), ('call', n)],
    'after weights, n values': [('weights', w2), ('call', n)],
    'after n values, replacement on, a seed': [('call', n), ('replace', TRUE), ('seed', seed2)],
    'after n values, replacement on, a reset, n values': [('call', n), ('replace', TRUE), ('reset',), ('call', m)],
}
for mode, mkw in MODES.items():
    for wt, wkw in WEIGHTS.items():
        for pname, plan in PLANS.items():
            if wt == 'cumulative weights' and len(plan) > 2:
                continue
            for last in ((k,), ()):
                def body(w, mode=mode, mkw=mkw, wkw=wkw, plan=plan, last=last):
                    r = w.attempt(lambda: w.new_(CH, 'Choice', items, rng_seed=seed, **mkw, **wkw))
                    if r[0] == 'raise':
                        raise Infeasible()
                    run = Run(w, r[1], mode)
                    run.remaining()
                    try:
                        for step in plan:
                            run.step(*step)
                        run.call(*last)
                        run.remaining()
                    except Settled:
                        return
                check.sc('%s, %s, %s: %s' % (mode, wt, pname, 'a value' if not last else 'k values'), (CH, 'Choice', 'emit_many'), raises='fail')(body)

for fname, fn in (('poisson_choice', {}), ('gaussian_choice', {})):
    for mode, mkw in MODES.items():
        def body(w, fname=fname, mode=mode, mkw=mkw):
            r = w.attempt(lambda: w.apply(w.fun(CH, fname), items, rng_seed=seed, **mkw))
            if r[0] == 'raise':
                raise Infeasible()
            run = Run(w, r[1], mode)
            try:
                run.call(n)
                run.call()
                run.call(k)
                run.remaining()
            except Settled:
                return
        check.sc('%s, %s' % (fname, mode), (CH, fname), raises='fail')(body)
