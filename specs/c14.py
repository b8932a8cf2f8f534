"""C14: emitting from source fields only reads their previous values."""
from .configs import *     # noqa

check = Check('C14')
CL = 'zz_client'
f1, f2 = inp('f1', 'field'), inp('f2', 'field')
DISTURB = ('call', 'setattr', 'mutate', 'mutshared', 'setitem')
READS = ('previous',)
sep = inp('sep', 'str')


def disturbs(w, evs, callback=True):
    """Effects on anything but the user's callback and the object's own generator."""
    return w.trace(evs, DISTURB, lambda e: not (e.kind == 'call' and mentions(e.target, lambda t: t is cb)))


def read_values(w, evs):
    return [e for e in flat_events(evs) if e.kind == 'previous']


def check_emission(w, o, c, srcs, num):
    at = w.where(c.module, c.cls, 'emit' if num is None else 'emit_many')
    m = w.mark()
    args = () if num is None else (num,)
    r = w.do(o, '__call__', *args)
    evs = w.since(m)
    d = disturbs(w, evs)
    w.require(not d, 'only-reads', 'emitting changes or generates something: %s' % show(d)[:300], at)
    return r


SRCS = [
    ('CopyFields one field', lambda w: w.new_(FF, 'CopyFields', fld), 'CopyFields'),
    ('CopyFields one field, separator', lambda w: w.new_(FF, 'CopyFields', fld, sep), 'CopyFields'),
    ('CopyFields several fields', lambda w: w.new_(FF, 'CopyFields', fs), 'CopyFields'),
    ('CopyFields several fields, separator', lambda w: w.new_(FF, 'CopyFields', fs, sep), 'CopyFields'),
    ('CopyFields list of two fields', lambda w: w.new_(FF, 'CopyFields', w.list_(fld, fld2)), 'CopyFields'),
    ('BasedOnFields one field', lambda w: w.new_(FF, 'BasedOnFields', fld, cb, rng_seed=seed), 'BasedOnFields'),
    ('BasedOnFields several fields', lambda w: w.new_(FF, 'BasedOnFields', fs, cb, rng_seed=seed), 'BasedOnFields'),
    ('BasedOnFields list of two fields', lambda w: w.new_(FF, 'BasedOnFields', w.list_(fld, fld2), cb, rng_seed=seed), 'BasedOnFields'),
]


class At:
    def __init__(self, cls):
        self.module, self.cls = FF, cls


for nm, build, cls in SRCS:
    def only_reads(w, build=build, cls=cls):
        o = build(w)
        for num in (None, n, 0, 1, None):
            check_emission(w, o, At(cls), None, num)
    check.sc('%s: emissions only read' % nm, (FF, cls, 'emit'), raises='ok')(only_reads)

    def current(w, build=build, cls=cls):
        """What a used emitter emits is what a new one emits at the same moment."""
        w.distinct_names(fld, fld2)
        used = build(w)
        w.do(used, '__call__')
        w.do(used, '__call__', 2)
        for f in (fld, fld2):
            w.do(f, '__call__')
        if 'several' in nm_of[build]:
            w.apply(w.fun('zz_client', 'generate_all'), fs)
        fresh = build(w)
        # what the new one's action check did to the sources is over now
        snap = w.snapshot()
        for num in ((), (n,)):
            a = w.freeze(w.do(used, '__call__', *num))
            w.restore(snap)
            b = w.freeze(w.do(fresh, '__call__', *num))
            w.restore(snap)
            w.same(a, b, 'current', 'an emission reflects the sources\' values at that moment, nothing else',
                   w.where(FF, cls, 'emit'))
    nm_of = globals().setdefault('nm_of', {})
    nm_of[build] = nm
    check.sc('%s: emissions reflect the current values' % nm, (FF, cls, 'emit'), raises='ok')(current)

    def no_gen_source(w, build=build, cls=cls):
        """The sources' public methods other than the previous value stay unused after an explicit reset or seeding of the emitter."""
        o = build(w)
        m = w.mark()
        w.do(o, 'reset')
        if cls == 'BasedOnFields':
            w.do(o, 'seed', seed2)
        d = disturbs(w, w.since(m))
        w.require(not d, 'reset-leaves-sources', 'resetting or seeding the emitter disturbs its sources: %s' % show(d)[:300], w.where(FF, cls, 'reset'))
    check.sc('%s: reset and seed leave the sources alone' % nm, (FF, cls, 'reset'), raises='ok')(no_gen_source)



# ------------------------------------------------------------ values that come and go
va, vb = inp('va', 'any'), inp('vb', 'any')
LEFT = {'a value': lambda w: va, 'nothing': lambda w: NONE, 'several values': lambda w: w.list_(va, vb), 'no values': lambda w: w.list_()}


def user_sources(w, one, two, multi):
    return w.new_(CL, 'Source', 'a', one, multi), w.new_(CL, 'Source', 'b', two, multi)


KINDS = {
    'BasedOnFields, two': ('BasedOnFields', lambda w, s: w.new_(FF, 'BasedOnFields', w.list_(*s), w.fun(CL, 'takes_any'))),
    'BasedOnFields, one': ('BasedOnFields', lambda w, s: w.new_(FF, 'BasedOnFields', s[0], w.fun(CL, 'takes_any'))),
    'CopyFields, two': ('CopyFields', lambda w, s: w.new_(FF, 'CopyFields', w.list_(*s))),
    'CopyFields, two, separator': ('CopyFields', lambda w, s: w.new_(FF, 'CopyFields', w.list_(*s), '-')),
    'CopyFields, one': ('CopyFields', lambda w, s: w.new_(FF, 'CopyFields', s[0])),
}
for nm, (cls, build) in KINDS.items():
    for first in LEFT:
        for second in LEFT:
            def turns(w, cls=cls, build=build, first=first, second=second):
                """After the sources moved on, a used emitter says what a new one says, and later ones say nothing of before."""
                multi = any(x in ('several values', 'no values') for x in (first, second))
                s = user_sources(w, inp('first', 'any'), LEFT[first](w), K(multi))
                used = build(w, s)
                w.do(used, '__call__')
                w.do(used, '__call__', 2)
                w.put(s[0], 'previous', LEFT[second](w))
                w.put(s[1], 'previous', LEFT[first](w))
                keep = [w.freeze(w.get(x, 'previous')) for x in s]
                at = w.where(FF, cls, 'emit')
                a = w.do(used, '__call__')
                b = w.do(build(w, s), '__call__')
                w.same(w.freeze(a), w.freeze(b), 'current', "an emission reflects the sources' values at that moment, nothing else", at)
                c = w.do(used, '__call__')
                w.same(w.freeze(c), w.freeze(b), 'current', 'the next emission is the same while the sources stay as they are', at)
                w.same(tup(*[w.freeze(w.get(x, 'previous')) for x in s]), tup(*keep), 'only-reads', 'emitting leaves what the sources hold as it was', at)
                if a.op == 'ref' and w.deref(a).kind == 'list' and nm_of_two(cls, build):
                    w.apply(w.fun(CL, 'spoil'), a)
                    w.same(tup(*[w.freeze(w.get(x, 'previous')) for x in s]), tup(*keep), 'only-reads', 'the list copied is not the one a source holds', at)
            check.sc('%s: %s, then %s' % (nm, first, second), (FF, cls, 'emit'), raises='ok')(turns)


def nm_of_two(cls, build):
    return cls == 'CopyFields' and build is not KINDS['CopyFields, one'][1]
