"""C05: calling an emitter gives one value, or a list of exactly n values."""
from .configs import *     # noqa

check = Check('C05')


def quiet(w, c):
    """The children's seeding abilities do not matter here."""
    w.plain(*[x for x in c.children if x.args[1].startswith('emitter')])
    if c.cls == 'Text':
        w.pinned.pop((wordem, 'num_unique_values'))


for c in EMITTERS:
    def many(w, c=c):
        quiet(w, c)
        o = c.build(w)
        r = w.do(o, '__call__', n)
        w.has_len(r, n, 'list-of-n', 'calling with n', w.where(*c.at('emit_many')))
    check.sc('%s: n values' % c.name, c.at('emit_many'), raises='ok')(many)

    for k in (0, 1, 2):
        def fixedn(w, c=c, k=k):
            quiet(w, c)
            o = c.build(w)
            r = w.do(o, '__call__', k)
            w.has_len(r, k, 'list-of-%d' % k, 'calling with %d' % k, w.where(*c.at('emit_many')))
        check.sc('%s: %d values' % (c.name, k), c.at('emit_many'), raises='ok')(fixedn)

    def one(w, c=c):
        quiet(w, c)
        o = c.build(w)
        snap = w.snapshot()
        a = w.attempt(lambda: w.freeze(w.do(o, '__call__')))
        sa = w.freeze(o)
        w.restore(snap)
        b = w.attempt(lambda: w.freeze(w.do(o, '__call__', NONE)))
        w.restore(snap)
        d = w.attempt(lambda: w.freeze(w.do(o, 'emit')))
        sd = w.freeze(o)
        if 'raise' in (a[0], b[0], d[0]):
            w.require(a[0] == b[0] == d[0], 'single', 'a call without a number behaves like emit()')
            return
        w.same(a[1], d[1], 'single', 'a call without a number returns what emit() returns', w.where(*c.at('__call__')))
        w.same(b[1], d[1], 'single', 'a call with None returns what emit() returns', w.where(*c.at('__call__')))
        w.same(sa, sd, 'single-state', 'a call without a number leaves the emitter as emit() does', w.where(*c.at('__call__')))
    check.sc('%s: one value' % c.name, c.at('__call__'), raises='ok')(one)
