"""C26: a range built from a start, a stop and a step never overshoots and never has a negative length."""
from .dated import *     # noqa

check = Check('C26')
check.batch = 8
AT = (DR, None, 'dtrange')
s0 = inp('s0', 'int')                       # when the range stops
j0 = inp('j', 'nat')
text1, text2 = inp('text1', 'str'), inp('text2', 'str')
EVERY = {**KINDS, **TIMES}
STEPS = {
    'dates': {'default unit': (None, DAY), 'days': ('days', DAY), 'weeks': ('weeks', 7 * DAY)},
    'datetimes': {'default unit': (None, SECOND), **{u: (u, n) for u, n in UNITS.items() if u != 'milliseconds'}},
    'times': {'default unit': (None, SECOND), **{u: (u, n) for u, n in UNITS.items() if u in ('hours', 'minutes', 'seconds', 'microseconds')}},
}


def steps_of(kind):
    return STEPS['dates' if kind == 'dates' else 'times' if 'times' in kind and 'date' not in kind else 'datetimes']


def build(w, *args, **kw):
    return w.attempt(lambda: w.apply(w.fun(DR, 'dtrange'), *args, **kw))


def ends(w, kind, sign):
    """Start and stop, and how far the stop is from the start in the direction of the step."""
    a, b = EVERY[kind](d0), EVERY[kind](s0)
    if kind not in TIMES:
        return a, b, psub(b.args[1], a.args[1]) if sign > 0 else psub(a.args[1], b.args[1])
    of_day(w, d0)
    of_day(w, s0)
    d = psub(s0, d0) if sign > 0 else psub(d0, s0)
    return a, b, d if w.truth(w.cond_gt0(d)) else padd(d, K(DAY))


def inside(w, p, rule, msg, at, want=True):
    """p > 0"""
    if w.surely_ge0(psub(p, ONE) if want else pneg(p)):
        w.ok(rule)
    else:
        w.same(T('cond', T('gt0', p), 'pos'), K(want), rule, msg, at)


def counted(w, r, start, dist, size, sign, at):
    """r is start, start + step, ... as long as the distance run stays below dist."""
    n = w.apply(w.fun(CL, 'length_of'), r)
    some = w.truth(w.cond_gt0(n))
    if some:
        inside(w, psub(dist, pmul(psub(n, ONE), size)), 'no-overshoot', 'the last item comes strictly before the stop', at)
        inside(w, psub(dist, pmul(n, size)), 'all-there', 'the step after the last item would reach the stop', at, False)
    else:
        w.same(n, ZERO, 'never-negative', 'the length of an empty range', at)
        inside(w, dist, 'all-there', 'it is empty only when the stop is not ahead of the start', at, False)
    return n


def spans(kind, sgn, unit, size):
    sign = SIGNS[sgn]

    @check.sc('%s, %s, %s' % (kind, sgn, unit), AT, floor=2)
    def f(w):
        w.assume_ge(t, 1)
        count = pmul(K(sign), t)
        a, b, dist = ends(w, kind, sign)
        each = pmul(K(size), t)
        if kind in TIMES:
            w.assume(T('gt0', psub(K(DAY), each)), True)
        res = build(w, a, b, count, *([] if size is None or unit == 'default unit' else [K(unit)]))
        at = w.where(*AT)
        if res[0] == 'raise':
            w.fail('builds', 'a range of %s raises %s' % (kind, res[1].cls), res[1].loc or at)
            return
        r = res[1]
        n = counted(w, r, a, dist, each, sign, at)
        w.same(w.get(r, 'start'), a, 'as-asked', 'the range starts at the start', at)
        w.same(w.get(r, 'step'), td(pmul(K(sign), each)), 'as-asked', 'its step is the step', at)
        if kind not in TIMES and w.truth(w.cond_gt0(psub(n, j0))):
            w.same(w.apply(w.fun(CL, 'item'), r, j0), plus(a, pmul(K(sign), pmul(each, j0))), 'as-asked', 'its items are steps from the start', at)


for kind in EVERY:
    for sgn in SIGNS:
        for unit, (_, size) in steps_of(kind).items():
            spans(kind, sgn, unit, size)


FRACTIONS = {
    'half an hour': (0.5, 'hours', 1800 * SECOND), 'minus a day and a half': (-1.5, 'days', -36 * 3600 * SECOND), 'a quarter of a second': (0.25, 'seconds', 250000),
    'two and a half weeks': (2.5, 'weeks', 15120 * 100 * SECOND), 'half a millisecond': (0.5, 'milliseconds', 500),
}


def fraction(kind, name, x, unit, size):
    @check.sc('%s by %s' % (kind, name), AT, floor=2)
    def f(w):
        sign = 1 if size > 0 else -1
        a, b, dist = ends(w, kind, sign)
        res = build(w, a, b, K(x), step_unit=K(unit))
        at = w.where(*AT)
        if res[0] == 'raise':
            w.fail('builds', 'a fractional step raises %s' % res[1].cls, res[1].loc or at)
            return
        counted(w, res[1], a, dist, K(abs(size)), sign, at)


for name, (x, unit, size) in FRACTIONS.items():
    for kind in EVERY:
        if kind == 'dates' or kind in TIMES and abs(size) >= DAY:
            continue
        fraction(kind, name, x, unit, size)


@check.sc('aware datetimes in different zones', AT, floor=2)
def zones(w):
    w.assume_ge(t, 1)
    a, b = dt('datetime', d0, ZA), dt('datetime', s0, ZB)
    res = build(w, a, b, t, K('microseconds'))
    at = w.where(*AT)
    if res[0] == 'raise':
        w.fail('builds', 'ends in different zones raise %s' % res[1].cls, res[1].loc or at)
        return
    counted(w, res[1], a, psub(utc(b), utc(a)), t, 1, at)


def rejected(name, build_args):
    @check.sc('rejected: %s' % name, AT)
    def f(w):
        args, kw = build_args(w)
        res = build(w, *args, **kw)
        at = w.where(*AT)
        if res[0] == 'ok':
            w.fail('rejected', '%s: accepted' % name, at)
        else:
            w.require(res[1].cls == 'ValueError', 'rejected', '%s: raises %s instead of ValueError' % (name, res[1].cls), res[1].loc or at)


for k1 in EVERY:
    for k2 in EVERY:
        if EVERY[k1](d0).args[0] != EVERY[k2](d0).args[0]:
            rejected('from %s to %s' % (k1, k2), lambda w, k1=k1, k2=k2: ((EVERY[k1](d0), EVERY[k2](s0)), {}))
    for unit in ('fortnights', 'day', '', 'Days', 'years', 'months'):
        rejected('%s by %s' % (k1, unit or 'an empty unit'), lambda w, k1=k1, unit=unit: ((EVERY[k1](d0), EVERY[k1](s0), t, K(unit)), {}))
    for what, v in {'a number': K(5), 'None': NONE, 'a time span': td(v0), 'a tuple': T('tup', (s1(ONE),)), 'nonsense': K('nonsense'), 'an empty text': K('')}.items():
        rejected('from %s, %s' % (what, k1), lambda w, k1=k1, v=v: ((v, EVERY[k1](s0)), {}))
        rejected('%s to %s' % (k1, what), lambda w, k1=k1, v=v: ((EVERY[k1](d0), v), {}))


def reading(w, text):
    """What a text stands for, or None: the first of the kinds it can be
    read as (every date can be read as a datetime too)."""
    for kind in ('date', 'time', 'datetime'):
        if kind == 'date' and w.query(T('iso', 'datetime', text)) is False:
            continue
        if any(w.query(T('iso', k, text)) is True for k in (('date', 'datetime') if kind == 'time' else ('time',))):  # no text is both
            continue
        if w.choose(T('iso', kind, text)):
            return parsed(kind, text)
    return None


@check.sc('from text to text', AT, floor=4)
def texts(w):
    res = build(w, text1, text2)
    at = w.where(*AT)
    a, b = reading(w, text1), reading(w, text2)
    good = a is not None and b is not None and a.args[0] == b.args[0]
    if res[0] == 'raise':
        w.require(res[1].cls == 'ValueError' and not good, 'text', 'texts for %s raise %s' % (a.args[0] if good else 'different kinds', res[1].cls), res[1].loc or at)
        return
    if not good:
        w.fail('text', 'undecipherable texts, or texts of different kinds, are accepted', at)
        return
    w.same(w.get(res[1], 'start'), a, 'text', 'it starts at what the first text stands for', at)
    if a.args[0] != 'time':
        counted(w, res[1], a, psub(b.args[1], a.args[1]), K(DAY if a.args[0] == 'date' else SECOND), 1, at)


def mixed(kind, order):
    @check.sc('%s and text, %s' % (kind, order), AT, floor=2)
    def f(w):
        v = EVERY[kind](d0)
        res = build(w, *((v, text1) if order == 'text last' else (text1, v)))
        at = w.where(*AT)
        x = reading(w, text1)
        good = x is not None and x.args[0] == v.args[0]
        w.require((res[0] == 'ok') == good, 'text', 'a text for another kind, or for none, is rejected and one for the same kind is not', at)
        if res[0] == 'raise':
            w.require(res[1].cls == 'ValueError', 'text', 'it raises %s instead of ValueError' % res[1].cls, res[1].loc or at)
        else:
            w.same(w.get(res[1], 'start'), v if order == 'text last' else x, 'text', 'it starts at the first of the two', at)


for kind in ('dates', 'naive datetimes', 'times'):
    for order in ('text last', 'text first'):
        mixed(kind, order)
