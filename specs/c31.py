"""C31: ranges of times of day go round the clock, and searching them finds what is in them."""
from .dated import *     # noqa

check = Check('C31')
check.batch = 8
AT = (DR, 'DateOrTimeRange')
n0 = inp('n', 'nat')
a0, b0 = inp('a', 'int'), inp('b', 'int')


def made(w, kind, sgn):
    """A range of times of day, and the number of its items."""
    w.assume_ge(t, 1)
    w.assume(T('gt0', psub(K(DAY), t)), True)
    of_day(w, d0)
    return make(w, TIMES[kind](d0), L, td(pmul(K(SIGNS[sgn]), t)))


def items(kind, sgn):
    sign = SIGNS[sgn]

    @check.sc('items of %s, %s' % (kind, sgn), AT + ('__getitem__',))
    def f(w):
        w.assume_ge(psub(L, i0), 1)
        r = made(w, kind, sgn)
        at = w.where(*AT, '__getitem__')
        for pos, k, what in ((i0, i0, 'item i'), (psub(K(-1), i0), psub(psub(L, ONE), i0), 'item i from the end')):
            v = w.apply(w.fun(CL, 'item'), r, pos)
            if v.op != 'dt' or v.args[0] != 'time':
                w.fail('items', '%s is not a time of day' % what, at)
                continue
            p = padd(d0, pmul(K(sign), pmul(t, k)))
            w.same(v, dt('time', clock(w, p), TIMES[kind](d0).args[2]), 'items', '%s is the start and that many steps, modulo a day' % what, at)
        w.same(w.apply(w.fun(CL, 'length_of'), r), L, 'items', 'it has as many items as its length', at)
        w.same(w.get(r, 'stop'), dt('time', clock(w, padd(d0, pmul(K(sign), pmul(t, L)))), TIMES[kind](d0).args[2]), 'items', 'its stop is one step past its last item', w.where(*AT, 'stop'))

    @check.sc('first round of %s, %s' % (kind, sgn), AT + ('__getitem__',))
    def g(w):
        w.assume_ge(psub(L, i0), 1)
        r = made(w, kind, sgn)
        w.assume(T('gt0', psub(K(DAY), pmul(t, i0))), True)
        p = padd(d0, pmul(K(sign), pmul(t, i0)))
        over = w.truth(T('cond', T('gt0', psub(p, K(DAY - 1)) if sign > 0 else pneg(p)), 'pos'))
        v = w.apply(w.fun(CL, 'item'), r, i0)
        w.same(v, dt('time', psub(p, K(sign * DAY)) if over else p, TIMES[kind](d0).args[2]), 'items', 'item i, %s midnight' % ('past' if over else 'before'), w.where(*AT, '__getitem__'))

    @check.sc('outside of %s, %s' % (kind, sgn), AT + ('__getitem__',))
    def h(w):
        r = made(w, kind, sgn)
        for x, what in ((padd(L, i0), 'past the end'), (psub(psub(K(-1), L), i0), 'before the beginning')):
            res = w.attempt(lambda: w.apply(w.fun(CL, 'item'), r, x))
            w.require(res[0] == 'raise' and res[1].cls == 'IndexError', 'items', 'a position %s is an IndexError' % what, w.where(*AT, '__getitem__'))


def clock(w, p):
    from fx.dates import fmod
    return fmod(w, p, K(DAY))


def searching(kind, sgn):
    sign = SIGNS[sgn]
    at = AT + ('index',)

    for past in (False, True):
        @check.sc('searching %s, %s, for an item %s midnight' % (kind, sgn, 'past' if past else 'before'), at)
        def f(w, past=past):
            """Item i of a range of at most a day, the clock having passed midnight or not."""
            w.assume_ge(psub(L, i0), 1)
            r = made(w, kind, sgn)
            w.assume(T('gt0', psub(K(DAY), pmul(t, i0))), True)
            p = padd(d0, pmul(K(sign), pmul(t, i0)))
            over = w.truth(T('cond', T('gt0', psub(p, K(DAY - 1)) if sign > 0 else pneg(p)), 'pos'))
            if over != past:
                raise Infeasible()
            v = dt('time', psub(p, K(sign * DAY)) if past else p, TIMES[kind](d0).args[2])
            found(w, r, v, i0, 'item i')

    @check.sc('searching %s, %s, for any time' % (kind, sgn), at)
    def g(w):
        r = made(w, kind, sgn)
        of_day(w, v0)
        v = TIMES[kind](v0)
        res = w.attempt(lambda: w.do(r, 'index', v))
        where = w.where(*at)
        if res[0] == 'ok':
            p = padd(d0, pmul(K(sign), pmul(t, res[1])))
            d = psub(p, v0)
            whole = [k for k in (0, 1, -1) if w.equal(psub(d, K(k * DAY)), ZERO) is True]
            if whole:
                w.ok('found')
            else:
                w.same(p, v0, 'found', 'the answer is a position of the time', where)
            for x in (res[1], psub(psub(L, ONE), res[1])):
                if w.surely_ge0(x):
                    w.ok('found')
                else:
                    w.same(T('cond', T('gt0', padd(x, ONE)), 'pos'), TRUE, 'found', 'the answer is a position of the range', where)
        else:
            w.require(res[1].cls == 'ValueError', 'found', 'a time that is not found raises %s' % res[1].cls, res[1].loc or where)
        w.same(w.apply(w.fun(CL, 'flag'), w.apply(w.fun(CL, 'holds'), r, v)), K(res[0] == 'ok'), 'agree', 'membership agrees with searching', w.where(*AT, '__contains__'))
        w.same(w.apply(w.fun(CL, 'times_found'), r, v), K(int(res[0] == 'ok')), 'agree', 'counting agrees with searching', w.where(*AT, 'count'))

    other = 'aware times' if kind == 'times' else 'times'
    for name, v in {'a time of the other kind': TIMES[other](v0), 'a date': dt('date', days(v0)), 'a datetime': dt('datetime', v0), 'an aware datetime': dt('datetime', v0, ZA), 'a time span': td(v0),
                    'a number': K(3), 'some text': inp('x', 'str'), 'a time written out': K('10:00'), 'None': NONE, 'a tuple': T('tup', (s1(ONE),))}.items():
        foreign(kind, sgn, name, v)


def found(w, r, v, i, what):
    where = w.where(*AT, 'index')
    res = w.attempt(lambda: w.do(r, 'index', v))
    if res[0] == 'raise':
        w.fail('found', 'searching for %s raises %s' % (what, res[1].cls), res[1].loc or where)
        return
    w.same(res[1], i, 'found', 'searching for %s answers its position' % what, where)
    w.same(w.apply(w.fun(CL, 'flag'), w.apply(w.fun(CL, 'holds'), r, v)), TRUE, 'agree', '%s is in the range' % what, w.where(*AT, '__contains__'))
    w.same(w.apply(w.fun(CL, 'times_found'), r, v), ONE, 'agree', '%s is counted once' % what, w.where(*AT, 'count'))


def foreign(kind, sgn, name, v):
    @check.sc('searching %s, %s, for %s' % (kind, sgn, name), AT + ('index',))
    def f(w):
        of_day(w, v0)
        r = made(w, kind, sgn)
        res = w.attempt(lambda: w.do(r, 'index', v))
        w.require(res[0] == 'raise' and res[1].cls == 'ValueError', 'any-object', 'searching for %s is a ValueError' % name, w.where(*AT, 'index'))
        for op, meth in (('holds', '__contains__'), ('times_found', 'count')):
            res = w.attempt(lambda: w.apply(w.fun(CL, op), r, v))
            if res[0] == 'raise':
                w.fail('any-object', '%s of %s raises %s' % (meth, name, res[1].cls), res[1].loc or w.where(*AT, meth))
            else:
                w.same(w.apply(w.fun(CL, 'flag'), res[1]), FALSE, 'any-object', '%s of %s' % (meth, name), w.where(*AT, meth))


def slices(kind, sgn):
    sign = SIGNS[sgn]

    @check.sc('slice of %s, %s' % (kind, sgn), AT + ('__getitem__',))
    def f(w):
        r = made(w, kind, sgn)
        at = w.where(*AT, '__getitem__')
        chosen = T('slice', a0, b0, NONE)
        s = w.apply(w.fun(CL, 'item'), r, chosen)
        n = w.apply(w.fun(CL, 'how_many'), L, chosen)
        w.same(w.apply(w.fun(CL, 'length_of'), s), n, 'slices', 'a slice has as many items as the positions it selects', at)
        w.same(w.get(s, 'stop'), dt('time', clock(w, padd(w.get(s, 'start').args[1], pmul(n, w.get(s, 'step').args[0]))), TIMES[kind](d0).args[2]), 'slices', 'the stop of a slice is one step past its last item', at)
        w.assume_ge(psub(n, n0), 1)
        k = w.apply(w.fun(CL, 'picked'), L, chosen, n0)
        v = w.apply(w.fun(CL, 'item'), s, n0)
        w.same(v, dt('time', clock(w, padd(d0, pmul(K(sign), pmul(t, k)))), TIMES[kind](d0).args[2]), 'slices', 'item j of a slice is the item at the j-th position it selects', at)


for kind in TIMES:
    for sgn in SIGNS:
        items(kind, sgn)
        searching(kind, sgn)
        slices(kind, sgn)
