"""C25: indexing, slicing and searching a range of dates or datetimes agree on one arithmetic sequence."""
from .dated import *     # noqa

check = Check('C25')
check.batch = 8
a0, b0, c0, j0 = inp('a', 'int'), inp('b', 'int'), inp('c', 'nat'), inp('j', 'nat')
SLICES = {
    '[:]': (NONE, NONE, NONE), '[a:]': (a0, NONE, NONE), '[:b]': (NONE, b0, NONE), '[a:b]': (a0, b0, NONE), '[a:b:c]': (a0, b0, c0),
    '[::c]': (NONE, NONE, c0), '[::-1]': (NONE, NONE, K(-1)), '[::-c]': (NONE, NONE, pneg(c0)), '[a:b:-c]': (a0, b0, pneg(c0)), '[a:b:1]': (a0, b0, ONE),
}
FOREIGN = {
    'dates': {'a datetime': dt('datetime', v0), 'an aware datetime': dt('datetime', v0, ZA)},
    'naive datetimes': {'a date': dt('date', days(v0)), 'an aware datetime': dt('datetime', v0, ZA)},
    'aware datetimes': {'a date': dt('date', days(v0)), 'a naive datetime': dt('datetime', v0)},
}
OTHERS = {'a time': dt('time', v0), 'a time span': td(v0), 'a number': K(3), 'some number': inp('x', 'int'), 'text': K('2020-01-01'), 'some text': inp('x', 'str'),
          'None': NONE, 'a tuple': T('tup', (s1(ONE),)), 'True': TRUE}
AT = (DR, 'DateOrTimeRange')


def item(start, sign, kind, i):
    return plus(start, pmul(K(sign * UNIT[kind]), pmul(t, i)))


def index_of(w, r, *args):
    return w.attempt(lambda: w.do(r, 'index', *args))


def not_found(w, res, rule, msg, at):
    if res[0] == 'raise' and res[1].cls == 'ValueError':
        w.ok(rule)
    else:
        w.fail(rule, '%s: %s' % (msg, 'raises %s' % res[1].cls if res[0] == 'raise' else 'answers %s' % show(w.norm(res[1]))[:100]),
               res[1].loc if res[0] == 'raise' and res[1].loc else at)


def given(kind, sign):
    return '%s, %s' % (kind, sign)


def setting(w, kind, sgn):
    w.assume_ge(t, 1)
    start = KINDS[kind](d0)
    r = make(w, start, L, step(kind, SIGNS[sgn]))
    return start, r


def items(kind, sgn):
    sign = SIGNS[sgn]

    @check.sc('items of %s' % given(kind, sgn), AT + ('__getitem__',))
    def f(w):
        w.assume_ge(psub(L, i0), 1)
        start, r = setting(w, kind, sgn)
        at = w.where(*AT, '__getitem__')
        w.same(w.apply(w.fun(CL, 'item'), r, i0), item(start, sign, kind, i0), 'items', 'item i is i steps after the start', at)
        w.same(w.apply(w.fun(CL, 'item'), r, psub(K(-1), i0)), item(start, sign, kind, psub(psub(L, ONE), i0)), 'items',
               'negative positions count from the end', at)
        w.same(w.apply(w.fun(CL, 'length_of'), r), L, 'items', 'it has as many items as its length', at)
        w.same(w.get(r, 'stop'), item(start, sign, kind, L), 'items', 'its stop is one step past its last item', w.where(*AT, 'stop'))

    @check.sc('outside of %s' % given(kind, sgn), AT + ('__getitem__',))
    def g(w):
        start, r = setting(w, kind, sgn)
        at = w.where(*AT, '__getitem__')
        for x, what in ((padd(L, i0), 'past the end'), (psub(psub(K(-1), L), i0), 'before the beginning')):
            res = w.attempt(lambda: w.apply(w.fun(CL, 'item'), r, x))
            w.require(res[0] == 'raise' and res[1].cls == 'IndexError', 'items', 'a position %s is an IndexError' % what, at)


def asked(w, r, v=None):
    """What may have been asked of a range before: none of it counts afterwards."""
    if v is not None:
        w.attempt(lambda: w.apply(w.fun(CL, 'holds'), r, v))
        w.attempt(lambda: w.do(r, 'index', v))
        return
    w.get(r, 'stop')
    w.attempt(lambda: w.apply(w.fun(CL, 'item'), r, K(0)))
    for sl in ((a0, b0, K(3)), (a0, K(1), NONE), (K(1), b0, NONE), (NONE, NONE, K(-2))):
        w.apply(w.fun(CL, 'item'), r, T('slice', *sl))


def slices(kind, sgn, name, sl, before=False):
    sign = SIGNS[sgn]

    @check.sc('slice %s of %s%s' % (name, given(kind, sgn), ', after others' if before else ''), AT + ('__getitem__',))
    def f(w):
        if c0 in subterms(sl):
            w.assume_ge(c0, 1)
        start, r = setting(w, kind, sgn)
        at = w.where(*AT, '__getitem__')
        if before:
            asked(w, r)
        chosen = T('slice', *sl)
        s = w.apply(w.fun(CL, 'item'), r, chosen)
        n = w.apply(w.fun(CL, 'how_many'), L, chosen)
        w.same(w.apply(w.fun(CL, 'length_of'), s), n, 'slices', 'a slice has as many items as the positions it selects', at)
        w.same(w.get(s, 'stop'), plus(w.get(s, 'start'), pmul(n, w.get(s, 'step').args[0])), 'slices', 'the stop of a slice is one step past its last item', at)
        w.assume_ge(psub(n, j0), 1)
        k = w.apply(w.fun(CL, 'picked'), L, chosen, j0)
        w.same(w.apply(w.fun(CL, 'item'), s, j0), item(start, sign, kind, k), 'slices', 'item j of a slice is the item at the j-th position it selects', at)


def searching(kind, sgn):
    sign = SIGNS[sgn]
    at = AT + ('index',)

    @check.sc('searching %s for an item' % given(kind, sgn), at)
    def f(w):
        w.assume_ge(psub(L, i0), 1)
        start, r = setting(w, kind, sgn)
        res = index_of(w, r, item(start, sign, kind, i0))
        if res[0] == 'raise':
            w.fail('found', 'searching for item i raises %s' % res[1].cls, res[1].loc or w.where(*at))
            return
        w.same(res[1], i0, 'found', 'searching for item i answers i', w.where(*at))
        w.same(w.apply(w.fun(CL, 'flag'), w.apply(w.fun(CL, 'holds'), r, item(start, sign, kind, i0))), TRUE, 'agree', 'item i is in the range', w.where(*AT, '__contains__'))
        w.same(w.apply(w.fun(CL, 'times_found'), r, item(start, sign, kind, i0)), ONE, 'agree', 'item i occurs once', w.where(*AT, 'count'))

    @check.sc('searching %s for any such value' % given(kind, sgn), at)
    def g(w):
        start, r = setting(w, kind, sgn)
        v = KINDS[kind](v0)
        res = index_of(w, r, v)
        if res[0] == 'ok':
            w.same(item(start, sign, kind, res[1]), v, 'found', 'the answer is a position of the value', w.where(*at))
            inside = w.surely_ge0(res[1]) and w.surely_ge0(psub(psub(L, ONE), res[1]))
            if inside:
                w.ok('found')
            else:
                w.same(T('cond', T('gt0', padd(res[1], ONE)), 'pos'), TRUE, 'found', 'the answer is not negative', w.where(*at))
                w.same(T('cond', T('gt0', psub(L, res[1])), 'pos'), TRUE, 'found', 'the answer is a position of the range', w.where(*at))
        else:
            w.require(res[1].cls == 'ValueError', 'found', 'a value that is not found raises %s' % res[1].cls, res[1].loc or w.where(*at))
        w.same(w.apply(w.fun(CL, 'flag'), w.apply(w.fun(CL, 'holds'), r, v)), K(res[0] == 'ok'), 'agree', 'membership agrees with searching', w.where(*AT, '__contains__'))
        w.same(w.apply(w.fun(CL, 'times_found'), r, v), K(int(res[0] == 'ok')), 'agree', 'counting agrees with searching', w.where(*AT, 'count'))

    for name, (lo, hi) in {'a start': (a0, None), 'a start and a stop': (a0, b0), 'a stop': (NONE, b0), 'no bounds': (NONE, NONE)}.items():
        bounded(kind, sgn, name, lo, hi)
        bounded(kind, sgn, name, lo, hi, True)

    for name, v in {**FOREIGN[kind], **OTHERS}.items():
        foreign(kind, sgn, name, lambda w, v=v: v)
    foreign(kind, sgn, 'a list', lambda w: w.list_(K(1)))
    foreign(kind, sgn, 'another range', lambda w: make(w, KINDS[kind](v0), ONE, step(kind, 1)))


def bounded(kind, sgn, name, lo, hi, before=False):
    sign = SIGNS[sgn]
    at = AT + ('index',)
    bounds = [lo] if hi is None else [lo, hi]
    chosen = T('slice', lo, NONE if hi is None else hi, NONE)

    @check.sc('searching %s for an item within %s%s' % (given(kind, sgn), name, ', after asking without' if before else ''), at)
    def f(w):
        w.assume_ge(psub(L, i0), 1)
        start, r = setting(w, kind, sgn)
        if before:
            asked(w, r, item(start, sign, kind, i0))
        want = w.truth(w.apply(w.fun(CL, 'among'), i0, L, chosen))
        res = index_of(w, r, item(start, sign, kind, i0), *bounds)
        if want:
            if res[0] == 'raise':
                w.fail('bounds', 'an item within the bounds is not found: %s' % res[1].cls, res[1].loc or w.where(*at))
            else:
                w.same(res[1], i0, 'bounds', 'searching for item i within bounds that include it answers i', w.where(*at))
        else:
            not_found(w, res, 'bounds', 'searching outside of the item', w.where(*at))
    if before:
        return

    @check.sc('searching %s for an item, bounds by name, %s' % (given(kind, sgn), name), at)
    def g(w):
        w.assume_ge(psub(L, i0), 1)
        start, r = setting(w, kind, sgn)
        want = w.truth(w.apply(w.fun(CL, 'among'), i0, L, chosen))
        kw = {'start': lo} if hi is None else {'start': lo, 'stop': hi}
        res = w.attempt(lambda: w.do(r, 'index', item(start, sign, kind, i0), **kw))
        w.require((res[0] == 'ok') == want, 'bounds', 'bounds given by name count as well', w.where(*at))


def foreign(kind, sgn, name, value):
    at = AT + ('index',)

    @check.sc('searching %s for %s' % (given(kind, sgn), name), at)
    def f(w):
        start, r = setting(w, kind, sgn)
        v = value(w)
        not_found(w, index_of(w, r, v), 'any-object', 'searching for %s' % name, w.where(*at))
        for op, want in (('holds', FALSE), ('times_found', ZERO)):
            meth = '__contains__' if op == 'holds' else 'count'
            res = w.attempt(lambda: w.apply(w.fun(CL, op), r, v))
            if res[0] == 'raise':
                w.fail('any-object', '%s of %s raises %s' % (meth, name, res[1].cls), res[1].loc or w.where(*AT, meth))
            else:
                w.same(w.apply(w.fun(CL, 'flag'), res[1]), FALSE, 'any-object', '%s of %s' % (meth, name), w.where(*AT, meth))


for kind in KINDS:
    for sgn in SIGNS:
        items(kind, sgn)
        searching(kind, sgn)
        for name, sl in SLICES.items():
            slices(kind, sgn, name, sl)
            slices(kind, sgn, name, sl, True)
