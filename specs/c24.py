"""C24: date/time ranges are equal exactly when they have the same values, and equal ones hash equally."""
from .dated import *     # noqa

check = Check('C24')
check.batch = 8
AT = (DR, 'DateOrTimeRange', '__eq__')
M, u0 = inp('M', 'nat'), inp('u', 'nat')
EVERY = {**KINDS, **TIMES, 'datetimes elsewhere': lambda x: dt('datetime', x, ZB)}
UNIT = {**UNIT, 'datetimes elsewhere': 1}
CASES = [('dates', 'dates'), ('naive datetimes', 'naive datetimes'), ('aware datetimes', 'aware datetimes'), ('aware datetimes', 'datetimes elsewhere'),
         ('times', 'times'), ('aware times', 'aware times')]
MIXED = [(a, b) for a in EVERY for b in EVERY if (a, b) not in CASES and (b, a) not in CASES and a != b]


def made(w, kind, moment, length, size, sign, cls):
    st = td(pmul(K(sign * UNIT[kind]), size))
    w.assume_ge(size, 1)
    if kind in TIMES:
        of_day(w, moment)
        w.assume(T('gt0', psub(K(DAY), size)), True)
    mod, name = (DR, 'DateOrTimeRange') if cls == 'plain' else (CL, 'MyRange')
    start = EVERY[kind](moment)
    return start, st, w.new_(mod, name, start, length, st)


def yes(w, c):
    return w.truth(c) if isinstance(c, Term) else bool(c)


def same_values(w, k1, s, st, l1, k2, s2, st2, l2):
    if not yes(w, w.eq_cond(l1, l2)):
        return False
    if not yes(w, w.cond_gt0(l1)):
        return True
    if not yes(w, w.eq_cond(s, s2)):
        return False
    if not yes(w, w.cond_gt0(psub(l1, ONE))):
        return True
    if k1 in TIMES and k2 in TIMES:
        return yes(w, w.eq_cond(st, st2))
    return yes(w, w.eq_cond(plus(s, st.args[0]), plus(s2, st2.args[0])))


def compared(k1, k2, sg1, sg2, c1, c2):
    @check.sc('%s, %s%s, against %s, %s%s' % (k1, sg1, '' if c1 == 'plain' else ', ' + c1, k2, sg2, '' if c2 == 'plain' else ', ' + c2), AT)
    def f(w):
        s, st, a = made(w, k1, d0, L, t, SIGNS[sg1], c1)
        s2, st2, b = made(w, k2, v0, M, u0, SIGNS[sg2], c2)
        at = w.where(*AT)
        if k1 in TIMES and k2 in TIMES and sg1 != sg2:
            # opposite steps that come to the same time of day are left open
            w.assume(w.eq0(psub(psub(st.args[0], st2.args[0]), K(SIGNS[sg1] * DAY))), False)
        res = w.attempt(lambda: w.truth(w.apply(w.fun(CL, 'are_equal'), a, b)))
        if res[0] == 'raise':
            w.fail('any-object', 'comparing ranges raises %s' % res[1].cls, res[1].loc or at)
            return
        want = same_values(w, k1, s, st, L, k2, s2, st2, M)
        w.require(res[1] == want, 'same-values', 'ranges with %s are %s' % ('the same values' if want else 'different values', 'equal' if res[1] else 'not equal'), at)
        w.require(w.truth(w.apply(w.fun(CL, 'are_equal'), b, a)) == want, 'same-values', 'the other way round', at)
        w.require(w.truth(w.apply(w.fun(CL, 'are_different'), a, b)) != want, 'same-values', 'ranges with %s values are different' % ('the same' if want else 'other'), at)
        if want:
            hashes = []
            for x in (a, b):
                h = w.attempt(lambda: w.apply(w.fun(CL, 'hash_of'), x))
                if h[0] == 'raise':
                    w.fail('equal-hash', 'hashing a range raises %s' % h[1].cls, h[1].loc or at)
                    return
                hashes.append(h[1])
            w.same(hashes[0], hashes[1], 'equal-hash', 'equal ranges have the same hash', w.where(DR, 'DateOrTimeRange', '__hash__'))


for k1, k2 in CASES:
    for sg1 in SIGNS:
        for sg2 in SIGNS:
            compared(k1, k2, sg1, sg2, 'plain', 'plain')
    compared(k1, k2, 'forwards', 'forwards', 'plain', 'a subclass')
    compared(k1, k2, 'forwards', 'backwards', 'a subclass', 'plain')
    compared(k1, k2, 'forwards', 'forwards', 'a subclass', 'a subclass')
for k1, k2 in MIXED:
    compared(k1, k2, 'forwards', 'forwards', 'plain', 'plain')

OTHERS = {
    'a number': K(3), 'text': K('text'), 'some text': inp('x', 'str'), 'None': NONE, 'a date': dt('date', days(v0)), 'a time span': td(v0), 'some number': inp('y', 'int'),
    'a tuple': T('tup', (s1(ONE),)), 'an empty tuple': T('tup', ()), 'a number range': T('rangev', ZERO, L, ONE),
}


def foreign(kind, name, value):
    @check.sc('%s against %s' % (kind, name), AT)
    def f(w):
        _, _, r = made(w, kind, d0, L, t, 1, 'plain')
        v = value(w)
        at = w.where(*AT)
        res = w.attempt(lambda: (w.truth(w.apply(w.fun(CL, 'are_equal'), r, v)), w.truth(w.apply(w.fun(CL, 'are_equal'), v, r))))
        if res[0] == 'raise':
            w.fail('any-object', 'comparing with %s raises %s' % (name, res[1].cls), res[1].loc or at)
        else:
            w.require(res[1] == ((True, True) if name == 'an object equal to all' else (False, False)), 'left-to-other', 'a range and %s: the other object decides' % name, at)


for kind in EVERY:
    for name, v in OTHERS.items():
        foreign(kind, name, lambda w, v=v: v)
    foreign(kind, 'a list', lambda w: w.list_(K(1)))
    foreign(kind, 'an object equal to all', lambda w: w.new_(CL, 'AgreesWithAll'))
    foreign(kind, 'an emitter', lambda w: w.new_('emitters.fixed', 'Static', K(1)))
