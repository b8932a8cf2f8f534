"""C17: user callbacks get each source value once, in order, and a generator if wanted."""
from .configs import *     # noqa

check = Check('C17')
CL = 'zz_client'


def client(w, name):
    return w.new_(CL, name) if name == 'Callback' else w.fun(CL, name)


FUN1 = {'plain_one': False, 'random_one': True, 'random_kwonly': True, 'takes_any': False, 'Callback': True}
FUN2 = {'plain_two': False, 'random_two': True, 'takes_any': False, 'takes_any_rng': True}


def wrapped(w, how, f, owner_of):
    """The function itself, or one already wrapped for another owner."""
    if how == 'function':
        return f
    other = owner_of(w, f)
    return w.get(other, 'action' if how == 'action' else 'wrapper')


def oracle(w, f, wants, o, pos, kw=()):
    """What the user's function returns for this call."""
    k = dict(kw)
    if wants:
        k['rng'] = w.get(o, 'rng')
    return w.apply(f, *pos, **k)


def same_rng(w, o, r, wants, at, many=False):
    """The callback (which returns the generator it got, last) got its owner's own one."""
    if wants:
        xs = [r] if not many else [w.apply(w.fun(CL, 'first'), r), w.apply(w.fun(CL, 'last'), r)]
        for x in xs:
            w.require(w.apply(w.fun(CL, 'last'), x) is w.get(o, 'rng'), 'generator', 'the callback must get the very generator its owner uses now', at)


def history(o, w, h):
    if h == 'after reset':
        w.do(o, 'reset')
    elif h == 'after seeding':
        w.do(o, 'seed', seed2)
    elif h == 'after emitting':
        w.do(o, '__call__')
        w.do(o, '__call__', 2)


HIST = ('new', 'after reset', 'after seeding', 'after emitting')


# ------------------------------------------------------------------ WrapOne
def wrapone_case(fname, wants, h, how):
    def body(w):
        at = w.where(WR, 'WrapOne', 'emit')
        w.plain(em, em2)
        f = client(w, fname)
        g = wrapped(w, how, f, lambda w, f: w.new_(WR, 'WrapOne', em2, f, rng_seed=seed2))
        o = w.new_(WR, 'WrapOne', em, g, rng_seed=seed)
        history(o, w, h)
        m = w.mark()
        r = w.do(o, '__call__')
        got = w.calls(w.since(m), em)
        if w.require(got is not None and len(got) == 1 and got[0][1] == '__call__' and got[0][2] == (NONE,), 'one-draw',
                     'one value must be drawn from the source per value emitted: %s' % show(got), at):
            v = [e for e in w.since(m) if e.kind == 'call' and e.target is em][0].result
            w.same(r, oracle(w, f, wants, o, [v]), 'callback', 'the value emitted is what the callback returns for the value drawn', at)
            same_rng(w, o, r, wants, at)
        at = w.where(WR, 'WrapOne', 'emit_many')
        same_rng(w, o, w.do(o, '__call__', 2), wants, at, True)
        m = w.mark()
        r = w.do(o, '__call__', n)
        if w.require(not w.truth(w.cond_gt0(psub(n, K(1)))) or len([e for e in w.since(m) if e.kind == 'call' and e.target is em]) == 1, 'one-draw',
                     'n values must be drawn from the source for n values emitted', at):
            es = [e for e in w.since(m) if e.kind == 'call' and e.target is em]
            if es and es[0].args == (n,):
                extra = {'rng': w.get(o, 'rng')} if wants else {}
                want = w.apply(w.fun(CL, 'map_one'), f, es[0].result, w.dict_(**extra))
                w.same(r, want, 'callback-many', 'the values emitted are what the callback returns for the values drawn, in order', at)
    check.sc('WrapOne %s, %s, %s' % (fname, h, how), (WR, 'WrapOne', 'emit'))(body)


for fname, wants in FUN1.items():
    for h in HIST:
        wrapone_case(fname, wants, h, 'function')
    wrapone_case(fname, wants, 'new', 'wrapper of another emitter')


# ------------------------------------------------------------------ WrapMany
def wrapmany_case(fname, wants, h, how):
    def body(w):
        at = w.where(WR, 'WrapMany', 'emit')
        w.plain(em, em2, em3)
        f = client(w, fname)
        mk = lambda w, f: w.new_(WR, 'WrapMany', w.dict_(a=em3, b=em3), f, rng_seed=seed2)
        o = w.new_(WR, 'WrapMany', w.dict_(a=em, b=em2), wrapped(w, how, f, mk), rng_seed=seed)
        history(o, w, h)
        m = w.mark()
        r = w.do(o, '__call__')
        got = w.calls(w.since(m), em, em2)
        if w.require(got is not None and [x[:3] for x in got] == [(em, '__call__', (NONE,)), (em2, '__call__', (NONE,))], 'one-draw',
                     'one value must be drawn from every source per value emitted: %s' % show(got), at):
            a, b = [e.result for e in w.since(m) if e.kind == 'call' and e.target in (em, em2)]
            w.same(r, oracle(w, f, wants, o, [], {'a': a, 'b': b}), 'callback', 'the value emitted is what the callback returns for the values drawn', at)
            same_rng(w, o, r, wants, at)
        at = w.where(WR, 'WrapMany', 'emit_many')
        same_rng(w, o, w.do(o, '__call__', 2), wants, at, True)
        w.truth(w.cond_gt0(psub(n, K(1))))
        m = w.mark()
        r = w.do(o, '__call__', n)
        es = [e for e in w.since(m) if e.kind == 'call' and e.target in (em, em2)]
        if [(e.target, e.args) for e in es] == [(em, (n,)), (em2, (n,))]:
            extra = {'rng': w.get(o, 'rng')} if wants else {}
            want = w.apply(w.fun(CL, 'map_two'), f, n, es[0].result, es[1].result, w.dict_(**extra))
            w.same(r, want, 'callback-many', 'the values emitted are what the callback returns for the values drawn, in order', at)
        else:
            w.require([(e.target, e.args) for e in es] in ([(em, (NONE,)), (em2, (NONE,))], []), 'one-draw',
                      'n values must be drawn from every source for n values emitted: %s' % show([(e.target, e.args) for e in es]), at,
                      vague=w.calls(w.since(m), em, em2) is None)
    check.sc('WrapMany %s, %s, %s' % (fname, h, how), (WR, 'WrapMany', 'emit'))(body)


for fname, wants in FUN2.items():
    for h in HIST:
        wrapmany_case(fname, wants, h, 'function')
    wrapmany_case(fname, wants, 'new', 'wrapper of another emitter')


@check.sc('WrapMany any number of sources', (WR, 'WrapMany', 'emit'), raises='ok')
def _(w):
    """The callback gets every source's value under the source's name."""
    w.plain(ems)
    o = w.new_(WR, 'WrapMany', ems, w.fun(CL, 'takes_any'), rng_seed=seed)
    m = w.mark()
    r = w.do(o, '__call__')
    for guards, evs in w.histories(w.since(m), ems):
        w.require([(e.name, e.args) for e in evs] == [('__call__', (NONE,))], 'one-draw', 'one value must be drawn from every source: %s' % [e.name for e in evs])
    m = w.mark()
    r = w.do(o, '__call__', n)
    for guards, evs in w.histories(w.since(m), ems):
        w.require([(e.name, e.args) for e in evs] in ([('__call__', (n,))], [('__call__', (NONE,))]), 'one-draw',
                  'n values must be drawn from every source: %s' % [(e.name, e.args) for e in evs])


@check.sc('WrapMany with any callback', (WR, 'WrapMany', 'emit_many'), raises='ok')
def _(w):
    w.lack(cb, 'function')
    o = w.new_(WR, 'WrapMany', ems, cb, rng_seed=seed)
    for args, k in (((), ONE), ((n,), n), ((), ONE), ((n,), n)):
        m = w.mark()
        w.do(o, '__call__', *args)
        w.tally(w.since(m), lambda e: e.kind == 'call' and e.target is cb, k, 'called-once', 'the callback must be called once per value')


@check.sc('WrapMany any number of sources, the values passed', (WR, 'WrapMany', 'emit'), raises='ok')
def _(w):
    o = w.new_(WR, 'WrapMany', ems, w.fun(CL, 'takes_any'), rng_seed=seed)
    snap = w.snapshot()
    r = w.freeze(w.do(o, '__call__'))
    w.restore(snap)
    want = w.freeze(w.apply(w.fun(CL, 'ask_all'), w.get(o, 'emitters')))
    w.same(r, want, 'callback', 'the callback gets every source\'s value under the source\'s name', w.where(WR, 'WrapMany', 'emit'))


# ------------------------------------------------------------------ BasedOnFields
def based_case(fname, wants, h, how, two):
    def body(w):
        at = w.where(FF, 'BasedOnFields', 'emit')
        if two:
            w.pin(fld, name='a')
            w.pin(fld2, name='b')
        f = client(w, fname)
        srcs = (lambda: w.list_(fld, fld2)) if two else (lambda: fld)
        mk = lambda w, f: w.new_(FF, 'BasedOnFields', srcs(), f, rng_seed=seed2)
        o = w.new_(FF, 'BasedOnFields', srcs(), wrapped(w, how, f, mk), rng_seed=seed)
        for x in (fld, fld2):
            w.do(x, '__call__')
        history(o, w, h)
        r = w.do(o, '__call__')
        a, b = w.get(fld, 'previous'), w.get(fld2, 'previous')
        want = oracle(w, f, wants, o, [], {'a': a, 'b': b}) if two else oracle(w, f, wants, o, [a])
        w.same(r, want, 'callback', 'the value emitted is what the callback returns for the sources\' values', at)
        same_rng(w, o, r, wants, at)
        at = w.where(FF, 'BasedOnFields', 'emit_many')
        same_rng(w, o, w.do(o, '__call__', 2), wants, at, True)
        r = w.do(o, '__call__', 3)
        want = oracle(w, f, wants, o, [], {'a': a, 'b': b}) if two else oracle(w, f, wants, o, [a])
        w.same(r, w.list_(want, want, want), 'callback-many', 'the values emitted are what the callback returns for the sources\' values', at)
    check.sc('BasedOnFields %s%s, %s, %s' % (fname, ', two fields' if two else '', h, how), (FF, 'BasedOnFields', 'emit'))(body)


for table, two in ((FUN1, False), (FUN2, True)):
    for fname, wants in table.items():
        for h in HIST:
            based_case(fname, wants, h, 'function', two)
        based_case(fname, wants, 'new', 'action', two)


# ------------------------------------------------------------------ any callback
OWNERS = {
    'WrapOne': (WR, lambda w, f: w.new_(WR, 'WrapOne', em, f, rng_seed=seed), em, 'set_wrapper_function', 'emit'),
    'BasedOnFields': (FF, lambda w, f: w.new_(FF, 'BasedOnFields', fld, f, rng_seed=seed), fld, 'set_action_function', 'emit'),
}


for cls, (mod, mk, src, setter, meth) in OWNERS.items():
    def any_callback(w, cls=cls, mod=mod, mk=mk, src=src):
        at = w.where(mod, cls, 'emit')
        w.plain(em)
        w.lack(cb, 'function')
        o = mk(w, cb)
        m = w.mark()
        r = w.do(o, '__call__')
        got = w.calls(w.since(m), cb)
        w.require(got is not None and len(got) == 1, 'called-once', 'the callback must be called exactly once per value: %s' % show(got), at)
        es = [e for e in w.since(m) if e.kind == 'call' and e.target is cb]
        if len(es) == 1:
            w.same(r, es[0].result, 'returns', 'the value emitted is what the callback returned', at)
            names = [kv(w.entry_key(s)) for s in es[0].kw]
            w.require(len(es[0].args) == 1 and set(names) <= {'rng'}, 'arguments', 'the callback gets the source value (and perhaps a generator): %s %s'
                      % (show(es[0].args), names), at)
    check.sc('%s with any callback' % cls, (mod, cls, 'emit'), raises='ok')(any_callback)

    def any_many(w, cls=cls, mod=mod, mk=mk, src=src):
        at = w.where(mod, cls, 'emit_many')
        w.plain(em)
        w.lack(cb, 'function')
        o = mk(w, cb)
        m = w.mark()
        w.do(o, '__call__', n)
        w.tally(w.since(m), lambda e: e.kind == 'call' and e.target is cb, n if mod == WR else ONE, 'called-once',
                  'the callback must be called once per value', at)
        m = w.mark()
        w.do(o, '__call__', n)
        w.tally(w.since(m), lambda e: e.kind == 'call' and e.target is cb, n if mod == WR else ONE, 'called-once',
                  'the callback must be called once per value', at)
    check.sc('%s with any callback, n values' % cls, (mod, cls, 'emit_many'), raises='ok')(any_many)

    def replaced(w, cls=cls, mod=mod, mk=mk, setter=setter):
        at = w.where(mod, cls, setter)
        w.plain(em)
        o = mk(w, w.fun(CL, 'plain_one'))
        w.do(o, '__call__')
        f = w.fun(CL, 'random_one')
        w.do(o, setter, f)
        if mod == FF:
            w.do(fld, '__call__')
        m = w.mark()
        r = w.do(o, '__call__')
        v = w.get(fld, 'previous') if mod == FF else [e for e in w.since(m) if e.kind == 'call' and e.target is em][0].result
        w.same(r, oracle(w, f, True, o, [v]), 'replaced', 'a new callback replaces the old one at once', at)
    check.sc('%s given a new callback' % cls, (mod, cls, setter))(replaced)


@check.sc('BoundWrapper rebinds an already wrapped function', (WR, 'BoundWrapper', '__call__'))
def _(w):
    a = w.new_(CL, 'Dice', rng_seed=seed)
    b = w.new_(CL, 'Dice', rng_seed=seed2)
    f = w.fun(CL, 'random_one')
    inner = w.new_(WR, 'BoundWrapper', f, a)
    outer = w.new_(WR, 'BoundWrapper', inner, b)
    w.same(w.apply(outer, val), oracle(w, f, True, b, [val]), 'rebind', 'wrapping a wrapper rebinds the function to the new owner')
    w.same(w.apply(inner, val), oracle(w, f, True, a, [val]), 'rebind', 'the first wrapper stays bound to its own owner')
    w.do(b, 'reset')
    w.same(w.apply(outer, val), oracle(w, f, True, b, [val]), 'current-generator', 'the function gets its owner\'s current generator')
    same_rng(w, b, w.apply(outer, val), True, w.at_default)
    same_rng(w, a, w.apply(inner, val), True, w.at_default)
    w.put(outer, 'function', w.fun(CL, 'plain_one'))
    w.same(w.apply(outer, val), w.apply(w.fun(CL, 'plain_one'), val), 'function', 'a newly assigned function is used, without a generator it does not take')
    w.put(outer, 'function', f)
    w.same(w.apply(outer, val), oracle(w, f, True, b, [val]), 'function', 'a newly assigned function gets the generator it wants')


for fname, wants in list(FUN1.items()) + [('takes_any_rng', True)]:
    @check.sc('BoundWrapper %s' % fname, (WR, 'BoundWrapper', 'wants_rng'))
    def _(w, fname=fname, wants=wants):
        a = w.new_(CL, 'Dice', rng_seed=seed)
        o = w.new_(WR, 'BoundWrapper', client(w, fname), a)
        w.same(w.get(o, 'wants_rng'), K(wants), 'wants-rng', 'whether a generator is wanted follows from the function\'s parameters')


# ------------------------------------------------------------------ a bound wrapper given another function
REBOUND = {'plain_one': lambda w: w.fun(CL, 'plain_one'), 'random_one': lambda w: w.fun(CL, 'random_one'), 'random_kwonly': lambda w: w.fun(CL, 'random_kwonly'),
           'any callable': lambda w: cb, 'a callable object': lambda w: w.new_(CL, 'Callback')}
for one in REBOUND:
    for two in REBOUND:
        @check.sc('BoundWrapper: %s, then %s' % (one, two), (WR, 'BoundWrapper', 'function'), raises='ok')
        def _(w, one=one, two=two):
            w.lack(cb, 'function')
            owner = w.new_(FX, 'Static', val)
            w.put(owner, 'rng', w.random(seed))
            f, g = REBOUND[one](w), REBOUND[two](w)
            b = w.new_(WR, 'BoundWrapper', f, owner)
            w.do(b, '__call__', val)
            w.put(b, 'function', g)
            c = w.new_(WR, 'BoundWrapper', g, owner)
            at = w.where(WR, 'BoundWrapper', 'function')
            for a in ('function', 'wants_rng', 'signature'):
                w.same(w.freeze(w.get(b, a)), w.freeze(w.get(c, a)), 'rebound', 'a wrapper given another function is as one made with it: %s' % a, at)
            snap = w.snapshot()
            x = w.freeze(w.do(b, '__call__', val))
            w.restore(snap)
            w.same(x, w.freeze(w.do(c, '__call__', val)), 'rebound', 'a wrapper given another function calls it as one made with it would', at)
