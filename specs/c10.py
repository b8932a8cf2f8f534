"""C10: a rejected setting raises and leaves the object as it was."""
from .configs import *     # noqa
from .dated import DAY, KINDS, SECOND, TIMES, UNIT, days, dt, of_day, td
from .c02 import emissions, agree
from .c03 import settings

check = Check('C10')
CL = 'zz_client'
w2, cw2 = inp('w2', 'seq:num'), inp('cw2', 'seq:num')
fac2, val2 = inp('fac2', 'factory'), inp('val2', 'any')
L = T('len', items)
WEIGHTS = {'no weights': {}, 'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}
MODES = {'with replacement': {}, 'without replacement': {'replace': FALSE}, 'replace after call': {'replace_only_after_call': TRUE}}


class Settled(Exception):
    pass


def untouched(w, o, setting, refused, cls, at, more=()):
    """setting(): an assignment that must raise cls exactly when refused() holds, and then leave o as it was."""
    before = settings(w, o) + [(x, w.freeze(w.get(o, x))) for x in more]
    snap = w.snapshot()
    r = w.attempt(setting)
    bad = refused()
    if bad is None:
        w.undec('rejected', 'it is not known whether the setting is valid', at)
        return
    if not bad:
        if r[0] == 'raise':
            w.fail('accepted', 'a valid setting raises %s' % r[1].cls, at)
        else:
            w.ok('accepted')
        return
    if r[0] != 'raise':
        w.fail('rejected', 'an invalid setting is accepted', at)
        return
    w.require(r[1].cls in cls, 'documented-error', 'an invalid setting raises %s, not %s' % ('/'.join(cls), r[1].cls), at)
    now = settings(w, o) + [(x, w.freeze(w.get(o, x))) for x in more]
    w.require([x for x, _ in before] == [x for x, _ in now], 'as-before', 'the refused setting removes or adds no attribute', at)
    for (x, a), (_, b) in zip(before, now):
        w.same(b, a, 'as-before', 'after the refused setting %s reads as before' % x, at)
    after = emissions(w, o)
    w.restore(snap)
    agree(w, after, emissions(w, o), 'as-before', 'after the refused setting it emits what it would have emitted', at)


def made(w, **kw):
    r = w.attempt(lambda: w.new_(CH, 'Choice', items, **kw))
    if r[0] == 'raise':
        raise Infeasible()
    return r[1]


HISTORY = {
    'new': [], 'after values': [('call', n)], 'after a value': [('call',)], 'after a reset': [('call', m), ('reset',)],
    'after weights set': [('weights', inp('w3', 'seq:num')), ('call', n)], 'after replacement off': [('call', m), ('replace', FALSE), ('call',)],
}
for mode, mkw in MODES.items():
    for wt, wkw in WEIGHTS.items():
        for hname, plan in HISTORY.items():
            for attr, v in (('weights', w2), ('cum_weights', cw2)):
                def body(w, mkw=mkw, wkw=wkw, plan=plan, attr=attr, v=v):
                    o = made(w, rng_seed=seed, **mkw, **wkw)
                    for op, *args in plan:
                        if op == 'call':
                            w.attempt(lambda: w.do(o, '__call__', *args))
                        elif op == 'reset':
                            w.do(o, 'reset')
                        elif w.attempt(lambda: w.put(o, op, *args))[0] == 'raise':
                            raise Infeasible()
                    d = psub(T('len', v), L)
                    untouched(w, o, lambda: w.put(o, attr, v), lambda: w.truth(w.cond_gt0(d)) or w.truth(w.cond_gt0(pneg(d))), ('ValueError',),
                              w.where(CH, 'Choice', attr), ('num_unique_items',))
                check.sc('Choice %s, %s, %s: %s' % (mode, wt, hname, attr), (CH, 'Choice', attr), raises='ok')(body)


# ------------------------------------------------------------ iterator factories
def empty(w, f):
    """Does this factory give an iterator without values?"""
    return not w.truth(w.cond_gt0(T('len', T('fresh', f))))


STEPS = {'new': [], 'after a value': [()], 'after values': [(n,)], 'after values and a reset': [(n,), 'reset'], 'after several': [(), (n,), ()]}
for rac in (FALSE, TRUE):
    for hname, plan in STEPS.items():
        for cls, first in (('Iterative', fac), ('Sequential', items)):
            def body(w, rac=rac, plan=plan, cls=cls, first=first):
                o = w.new_(FX, cls, first, rac)
                for s in plan:
                    w.do(o, 'reset') if s == 'reset' else w.do(o, '__call__', *s)
                at = w.where(FX, cls, 'iterator_factory')

                def refused():
                    if cls == 'Iterative':
                        return empty(w, fac2)
                    # a sequential emitter also refuses what does not look like a sequence iterator
                    return True if empty(w, fac2) else refused.r
                if cls == 'Sequential':
                    snap = w.snapshot()
                    r = w.attempt(lambda: w.put(o, 'iterator_factory', fac2))
                    refused.r = r[0] == 'raise'
                    w.restore(snap)
                untouched(w, o, lambda: w.put(o, 'iterator_factory', fac2), refused, ('ValueError',), at, ('iterator_factory',))
            check.sc('%s, %s, %s: factory' % (cls, rac.args[0] if False else ('reset after call' if rac is TRUE else 'continuing'), hname), (FX, cls, 'iterator_factory'), raises='ok')(body)


# ------------------------------------------------------------ construction
def refuse(name, at, cls, build, cond=None):
    """build() must raise one of cls (when cond holds)."""
    def body(w):
        r = w.attempt(lambda: build(w))
        bad = True if cond is None else cond(w)
        if bad:
            if r[0] != 'raise':
                w.fail('refused', '%s: an object is made' % name, w.where(*at))
            else:
                w.require(r[1].cls in cls, 'documented-error', '%s: raises %s, not %s' % (name, '/'.join(cls), r[1].cls), w.where(*at))
        elif r[0] == 'raise':
            w.fail('accepted', 'valid arguments are refused with %s' % r[1].cls, w.where(*at))
        else:
            w.ok('accepted')
    check.sc('construction: ' + name, at, raises='ok', floor=1)(body)


for nm, kw in {'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}.items():
    for mode, mkw in MODES.items():
        refuse('Choice %s, %s' % (mode, nm), (CH, 'Choice', '__init__'), ('ValueError',), lambda w, kw=kw, mkw=mkw: w.new_(CH, 'Choice', items, **kw, **mkw),
               lambda w, kw=kw: bool(w.truth(w.cond_gt0(pneg(psub(L, ONE)))) or w.truth(w.cond_gt0(psub(T('len', list(kw.values())[0]), L))) or w.truth(w.cond_gt0(psub(L, T('len', list(kw.values())[0]))))))
for nm, empty_ in {'list': lambda w: w.list_(), 'tuple': lambda w: K(()) if False else T('tup', ()), 'text': lambda w: K('')}.items():
    refuse('Choice of an empty %s' % nm, (CH, 'Choice', '__init__'), ('ValueError',), lambda w, e=empty_: w.new_(CH, 'Choice', e(w)))
    refuse('Choice of an empty %s, weights' % nm, (CH, 'Choice', '__init__'), ('ValueError',), lambda w, e=empty_: w.new_(CH, 'Choice', e(w), w.list_()))
    refuse('Sequential of an empty %s' % nm, (FX, 'Sequential', '__init__'), ('ValueError',), lambda w, e=empty_: w.new_(FX, 'Sequential', e(w)))
refuse('Choice of any items', (CH, 'Choice', '__init__'), ('ValueError',), lambda w: w.new_(CH, 'Choice', items), lambda w: bool(w.truth(w.cond_gt0(psub(ONE, L)))))
refuse('Sequential of any items', (FX, 'Sequential', '__init__'), ('ValueError',), lambda w: w.new_(FX, 'Sequential', items), lambda w: bool(w.truth(w.cond_gt0(psub(ONE, L)))))
refuse('Choice of a set', (CH, 'Choice', '__init__'), ('ValueError',), lambda w: w.new_(CH, 'Choice', w.apply(w.fun(CL, 'as_set'), items)))
refuse('Choice of a number', (CH, 'Choice', '__init__'), ('ValueError',), lambda w: w.new_(CH, 'Choice', K(5)))
refuse('Choice of nothing', (CH, 'Choice', '__init__'), ('ValueError',), lambda w: w.new_(CH, 'Choice', NONE))
refuse('Choice of a mapping', (CH, 'Choice', '__init__'), ('ValueError',), lambda w: w.new_(CH, 'Choice', inp('mp', 'map:any')))
refuse('Choice weighted twice', (CH, 'Choice', '__init__'), ('TypeError', 'ValueError'), lambda w: w.new_(CH, 'Choice', items, W, cum_weights=CW))
refuse('Iterative without values', (FX, 'Iterative', '__init__'), ('ValueError',), lambda w: w.new_(FX, 'Iterative', fac), lambda w: empty(w, fac))


# ------------------------------------------------------------ date/time ranges: attributes fixed once
DT, AT = 'dtrange', ('dtrange', 'DateOrTimeRange')
s0, s1_, s2_ = inp('s0', 'int'), inp('s1', 'int'), inp('s2', 'int')
t1, t2, n1, n2 = inp('t1', 'nat'), inp('t2', 'nat'), inp('n1', 'nat'), inp('n2', 'nat')
READS = ('start', 'step', 'length', 'stop')


def ranged(w, kind):
    w.assume_ge(t1, 1)
    if kind in TIMES:
        of_day(w, s0)
        w.assume(T('gt0', psub(K(DAY), t1)), True)
    return w.new_(DT, 'DateOrTimeRange', MOMENTS[kind](s0), n1, td(pmul(K(UNIT[kind]), t1)))


MOMENTS = {**KINDS, **TIMES}
for kind in MOMENTS:
    NEW = {'start': MOMENTS[kind](s1_), 'step': td(pmul(K(UNIT[kind]), t2)), 'length': n2, 'stop': MOMENTS[kind](s2_)}
    for attr, v in NEW.items():
        for how, v in {'': v, ', wrong kind': K('x'), ', nothing': NONE, ', the same': None}.items():
            for used in (False, True):
                def body(w, kind=kind, attr=attr, v=v, used=used):
                    o = ranged(w, kind)
                    at = w.where(*AT, attr)
                    if used or v is None:
                        [w.get(o, x) for x in READS]
                        w.do(o, '__len__')
                    r = w.attempt(lambda: w.put(o, attr, w.get(o, attr) if v is None else v))
                    if r[0] != 'raise':
                        w.fail('fixed', 'a fixed attribute (%s) is assigned' % attr, at)
                        return
                    w.require(r[1].cls == 'AttributeError', 'documented-error', 'assigning a fixed attribute raises AttributeError, not %s' % r[1].cls, at)
                    now = [w.get(o, x) for x in READS]
                    o2 = ranged(w, kind)
                    for x, a in zip(READS, now):
                        w.same(a, w.get(o2, x), 'as-before', 'after the refused assignment %s reads as before' % x, at)
                    w.same(w.do(o, '__len__'), n1, 'as-before', 'the length is as before', at)
                check.sc('range of %s, %s%s%s' % (kind, attr, how, ', read before' if used else ''), AT + (attr,), raises='ok')(body)

    good = {'start': MOMENTS[kind](s0), 'length': n1, 'step': td(K(UNIT[kind]))}
    some_text, some_number = inp('x', 'str'), inp('y', 'int')
    WRONG = {
        'start': {'a text': some_text, 'a date written out': K('2020-01-01'), 'a number': some_number, 'nothing': NONE, 'a time span': td(s1_), 'a tuple': T('tup', ())},
        'length': {'a word': K('many'), 'an empty text': K(''), 'a fraction written out': K('1.5')},
        'step': {'a number': K(1), 'some number': some_number, 'a text': some_text, 'nothing': NONE, 'a date': dt('date', days(s1_)), 'a time': dt('time', s1_)},
    }
    if kind == 'dates':
        WRONG['step'].update({'half a day': td(K(DAY // 2)), 'a second': td(K(SECOND)), 'a day and a second back': td(K(-DAY - SECOND))})
    if kind in TIMES:
        WRONG['step'].update({'a day': td(K(DAY)), 'a day back': td(K(-DAY)), 'a week': td(K(7 * DAY)), 'days and hours back': td(K(-3 * DAY + 5))})
    for attr, values in WRONG.items():
        for what, v in values.items():
            refuse('range of %s, %s %s' % (kind, attr, what), AT + ('__init__',), ('ValueError',),
                   lambda w, attr=attr, v=v, good=good: w.new_(DT, 'DateOrTimeRange', **{**good, attr: v}))
