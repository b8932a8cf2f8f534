"""C23: a date/time range never changes once it is made, whatever is asked of it."""
from .dated import *     # noqa

check = Check('C23')
check.batch = 6
AT = (DR, 'DateOrTimeRange')
a0, b0, v1, M = inp('a', 'int'), inp('b', 'int'), inp('v1', 'int'), inp('M', 'nat')
EVERY = {**KINDS, **TIMES}
LEFT = {'lo': NONE}


def got(w, f):
    """What is answered: a value, or the kind of error."""
    r = w.attempt(f)
    return T('pytup', K('raises'), K(r[1].cls)) if r[0] == 'raise' else T('pytup', K('answers'), w.freeze(r[1]))


QUESTIONS = {
    'the start': lambda w, r, k: w.get(r, 'start'),
    'the step': lambda w, r, k: w.get(r, 'step'),
    'the length': lambda w, r, k: w.get(r, 'length'),
    'the stop': lambda w, r, k: w.get(r, 'stop'),
    'how many': lambda w, r, k: w.apply(w.fun(CL, 'length_of'), r),
    'an item': lambda w, r, k: w.apply(w.fun(CL, 'item'), r, i0),
    'an item from the end': lambda w, r, k: w.apply(w.fun(CL, 'item'), r, psub(K(-1), i0)),
    'a search': lambda w, r, k: w.do(r, 'index', EVERY[k](v0)),
    'a bounded search': lambda w, r, k: w.do(r, 'index', EVERY[k](v0), a0, b0),
    'membership': lambda w, r, k: w.apply(w.fun(CL, 'flag'), w.apply(w.fun(CL, 'holds'), r, EVERY[k](v0))),
    'a count': lambda w, r, k: w.apply(w.fun(CL, 'times_found'), r, EVERY[k](v0)),
    'the hash': lambda w, r, k: w.apply(w.fun(CL, 'hash_of'), r),
    'the text': lambda w, r, k: w.apply(w.fun(CL, 'text_for'), r),
    'the representation': lambda w, r, k: w.apply(w.fun(CL, 'represented'), r),
    'equality': lambda w, r, k: K(w.truth(w.apply(w.fun(CL, 'are_equal'), r, other(w, k)))),
    'the length of a slice': lambda w, r, k: w.apply(w.fun(CL, 'length_of'), part(w, r)),
    'the start of a slice': lambda w, r, k: w.get(part(w, r), 'start'),
    'the step of a slice': lambda w, r, k: w.get(part(w, r), 'step'),
    'the hash of a slice': lambda w, r, k: w.apply(w.fun(CL, 'hash_of'), part(w, r)),
    'the text of a slice': lambda w, r, k: w.apply(w.fun(CL, 'text_for'), part(w, r)),
    'the start of the whole slice': lambda w, r, k: w.get(w.apply(w.fun(CL, 'item'), r, T('slice', NONE, NONE, NONE)), 'start'),
    'the text of a slice of a slice': lambda w, r, k: w.apply(w.fun(CL, 'text_for'), part(w, part(w, r))),
    'a foreign search': lambda w, r, k: w.do(r, 'index', NONE),
    'equality with something else': lambda w, r, k: K(w.truth(w.apply(w.fun(CL, 'are_equal'), r, K('x')))),
    'a new start': lambda w, r, k: w.put(r, 'start', EVERY[k](v1)),
    'a new length': lambda w, r, k: w.put(r, 'length', M),
    'a new step': lambda w, r, k: w.put(r, 'step', td(K(DAY // 2 if k in TIMES else DAY))),
    'a new stop': lambda w, r, k: w.put(r, 'stop', EVERY[k](v1)),
    'a misspelt length': lambda w, r, k: w.put(r, 'length', K('x')),
    'a start of another kind': lambda w, r, k: w.put(r, 'start', NONE),
}
# the same questions with something else in them: an answer kept for one of them must not serve another
c0, i1 = inp('c', 'int'), inp('i1', 'int')
VARIED = {
    'an item': {'another item': lambda w, r, k: w.apply(w.fun(CL, 'item'), r, i1)},
    'a search': {
        'a search for another': lambda w, r, k: w.do(r, 'index', EVERY[k](v1)),
        'a search from a position': lambda w, r, k: w.do(r, 'index', EVERY[k](v0), a0),
        'a search from the start': lambda w, r, k: w.do(r, 'index', EVERY[k](v0), K(0), b0),
        'a count of another': lambda w, r, k: w.apply(w.fun(CL, 'times_found'), r, EVERY[k](v1)),
    },
    'a bounded search': {'a search with another end': lambda w, r, k: w.do(r, 'index', EVERY[k](v0), a0, c0)},
    'membership': {'membership of another': lambda w, r, k: w.apply(w.fun(CL, 'flag'), w.apply(w.fun(CL, 'holds'), r, EVERY[k](v1)))},
    'equality': {'equality with another': lambda w, r, k: K(w.truth(w.apply(w.fun(CL, 'are_equal'), r, another(w, k))))},
}
for _what, _ask in (('start', lambda w, p: w.get(p, 'start')), ('length', lambda w, p: w.apply(w.fun(CL, 'length_of'), p)), ('step', lambda w, p: w.get(p, 'step'))):
    for _vname, _slice in (('sparser', (a0, b0, K(2))), ('longer', (a0, c0, NONE)), ('later', (c0, b0, NONE)), ('reversed', (NONE, NONE, K(-1)))):
        if (_what, _vname) in (('step', 'longer'), ('step', 'later'), ('start', 'longer')):
            continue
        VARIED.setdefault('the %s of a slice' % _what, {})['the %s of a %s slice' % (_what, _vname)] = (
            lambda w, r, k, a=_ask, s=_slice: a(w, w.apply(w.fun(CL, 'item'), r, T('slice', *s))))
FIXED = ('a new start', 'a new length', 'a new step', 'a new stop')


def part(w, r):
    return w.apply(w.fun(CL, 'item'), r, T('slice', a0, b0, NONE))


def another(w, k):
    return make(w, EVERY[k](inp('v2', 'int')), M, step_of(k, 1, inp('u', 'nat')))


def other(w, k):
    return make(w, EVERY[k](v1), M, step_of(k, 1, inp('u', 'nat')))


def step_of(k, sign, size):
    return td(pmul(K(sign * UNIT[k]), size))


def given(w, kind, sign):
    u = inp('u', 'nat')
    for x in (t, u):
        w.assume_ge(x, 1)
        if kind in TIMES:
            w.assume(T('gt0', psub(K(DAY), x)), True)
    if kind in TIMES:
        for x in (d0, v0, v1):
            of_day(w, x)
    return make(w, EVERY[kind](d0), L, step_of(kind, sign, t))


def fixed(kind, sgn, first):
    @check.sc('%s, %s: %s' % (kind, sgn, first), AT + (first.split()[-1],))
    def f(w):
        r = given(w, kind, SIGNS[sgn])
        res = w.attempt(lambda: QUESTIONS[first](w, r, kind))
        w.require(res[0] == 'raise' and res[1].cls == 'AttributeError', 'read-only', '%s: %s' % (first, 'raises %s' % res[1].cls if res[0] == 'raise' else 'accepted'),
                  w.where(*AT, first.split()[-1]))


ALL = {**QUESTIONS, **{q: f for d in VARIED.values() for q, f in d.items()}}


def undisturbed(kind, sgn, first, q):
    member = '__getitem__' if 'slice' in first or 'item' in first else 'index' if 'search' in first else '__init__'

    @check.sc('%s, %s: %s after %s' % (kind, sgn, q, first), AT + (member,))
    def f(w):
        r = given(w, kind, SIGNS[sgn])
        base = w.snapshot()
        got(w, lambda: ALL[first](w, r, kind))
        after = got(w, lambda: ALL[q](w, r, kind))
        w.restore(base)
        w.same(after, got(w, lambda: ALL[q](w, r, kind)), 'never-changes', '%s after %s' % (q, first), w.where(*AT, member))


ASKED = [q for q in QUESTIONS if not q.startswith(('a new', 'a misspelt', 'a start of'))]
FULL = (('dates', 'forwards'), ('naive datetimes', 'backwards'), ('times', 'forwards'), ('times', 'backwards'))
for kind in EVERY:
    for sgn in SIGNS:
        for first in FIXED:
            fixed(kind, sgn, first)
SOME = ('the stop', 'an item', 'a search', 'the text', 'the start of a slice', 'the hash', 'equality')
for kind, sgn in FULL:
    for first in QUESTIONS if (kind, sgn) != FULL[-1] else SOME:
        for q in ASKED:
            undisturbed(kind, sgn, first, q)
for kind, sgn in FULL[:3]:
    for first, others in VARIED.items():
        for q in others:
            undisturbed(kind, sgn, first, q)
            undisturbed(kind, sgn, q, first)
