"""Abstract dates, times, datetimes and ranges of them."""
from fx.spec import *      # noqa
from fx.dates import DAY, SECOND, UNITS, dt, td, utc, parsed

DR = 'dtrange'
CL = 'zz_client'
t = inp('t', 'nat')              # size of the step
d0 = inp('d0', 'int')            # when the range starts
v0 = inp('v0', 'int')            # some other moment
i0 = inp('i', 'nat')             # a position
L = inp('L', 'nat')              # a length
ZA, ZB = T('tz', 'a'), T('tz', 'b')


def days(x):
    return pmul(K(DAY), x)


KINDS = {
    'dates': lambda x: dt('date', days(x)),
    'naive datetimes': lambda x: dt('datetime', x),
    'aware datetimes': lambda x: dt('datetime', x, ZA),
}
UNIT = {'dates': DAY, 'naive datetimes': 1, 'aware datetimes': 1, 'times': 1, 'aware times': 1}
TIMES = {'times': lambda x: dt('time', x), 'aware times': lambda x: dt('time', x, ZA)}
SIGNS = {'forwards': 1, 'backwards': -1}


def step(kind, sign, size=t):
    return td(pmul(K(sign * UNIT[kind]), size))


def of_day(w, x):
    """x is a time of day."""
    w.assume_ge(x, 0)
    w.assume(T('gt0', psub(K(DAY), x)), True)


def plus(v, p):
    """The value p microseconds after v."""
    return dt(v.args[0], padd(v.args[1], p), v.args[2])


def make(w, start, length, stp):
    return w.new_(DR, 'DateOrTimeRange', start, length, stp)


def later(w, a, b, sign, rule, msg, at, strictly=True):
    """Moment a comes (strictly) before moment b in the direction of the step."""
    d = psub(b.args[1], a.args[1])
    if sign < 0:
        d = pneg(d)
    if strictly:
        d = psub(d, ONE)
    if w.surely_ge0(d):
        w.ok(rule)
        return
    w.same(T('cond', T('gt0', padd(d, ONE)), 'pos'), TRUE, rule, msg, at)
