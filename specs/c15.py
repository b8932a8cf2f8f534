"""C15: attaching an emitter to source fields uses up none of their data."""
from .configs import *     # noqa

check = Check('C15')
cb2 = inp('cb2', 'callable')
TOUCH = ('call', 'setattr')


def initial_or_untouched(w, evs, had_value, who, at):
    """evs: what was done to one source, which did (not) hold a value before."""
    evs = [e for e in evs if e.kind in TOUCH]
    if had_value is None:
        w.require(not evs or (evs[-1].kind == 'call' and evs[-1].name == 'reset'), 'left-initial',
                  '%s is left after %s instead of in its initial state' % (who, [e.name for e in evs]), at)
    else:
        w.require(not evs, 'left-holding', '%s, which holds a value, is disturbed: %s' % (who, [e.name for e in evs]), at)


def attach(w, srcs, fn, at):
    """Run fn, then state what became of each of the given single fields."""
    before = []
    for f in srcs:
        p = w.get(f, 'previous')
        before.append(None if w.eq(p, NONE) else p)
    m = w.mark()
    r = w.attempt(fn)
    evs = w.since(m)
    for f, b in zip(srcs, before):
        initial_or_untouched(w, [e for e in evs if e.target is f], b, show(f), at)
        if b is not None:
            w.same(w.get(f, 'previous'), b, 'left-holding', '%s still holds its value' % show(f), at)
    for e in evs:
        if e.kind == 'loop' and any(x.target in srcs for x in flat_events([e])):
            w.undec('left-initial', 'a source is used inside a loop', at)
    if r[0] == 'raise':
        raise r[1]
    return r[1]


AT = (FF, 'BasedOnFields', 'action')


def sources(used):
    def build(w):
        w.distinct_names(fld, fld2)
        if used:
            w.do(fld, '__call__')
        if used == 2:
            w.do(fld2, '__call__')
    return build


for used, nm in ((0, 'unused sources'), (1, 'one source used'), (2, 'both sources used')):
    for shape, mk in (('one field', lambda w: fld), ('list of one', lambda w: w.list_(fld)), ('list of two', lambda w: w.list_(fld, fld2)),
                      ('the same field twice', lambda w: w.list_(fld, fld))):
        def construct(w, used=used, mk=mk):
            sources(used)(w)
            at = w.where(*AT)
            attach(w, [fld, fld2], lambda: w.new_(FF, 'BasedOnFields', mk(w), cb, rng_seed=seed), at)
        check.sc('constructed on %s, %s' % (shape, nm), AT, raises='ok')(construct)

        def again(w, used=used, mk=mk):
            at = w.where(*AT)
            o = w.new_(FF, 'BasedOnFields', mk(w), cb, rng_seed=seed)
            sources(used)(w)
            attach(w, [fld, fld2], lambda: w.do(o, 'set_action_function', cb2), at)
        check.sc('given a new action on %s, %s' % (shape, nm), AT, raises='ok')(again)

        def resource(w, used=used, mk=mk):
            at = w.where(FF, 'BasedOnFields', 'set_source_fields')
            o = w.new_(FF, 'BasedOnFields', inp('other', 'field'), cb, rng_seed=seed)
            sources(used)(w)
            attach(w, [fld, fld2], lambda: w.do(o, 'set_source_fields', mk(w)), at)
            attach(w, [fld, fld2], lambda: w.do(o, '__call__'), at)
            attach(w, [fld, fld2], lambda: w.do(o, 'set_action_function', cb2), at)
        check.sc('moved to %s, %s' % (shape, nm), (FF, 'BasedOnFields', 'set_source_fields'), raises='ok')(resource)

        def copy(w, used=used, mk=mk):
            sources(used)(w)
            at = w.where(FF, 'CopyFields', 'set_source_fields')
            o = attach(w, [fld, fld2], lambda: w.new_(FF, 'CopyFields', mk(w)), at)
            m = w.mark()
            w.do(o, 'set_source_fields', mk(w))
            w.require(not w.trace(w.since(m)), 'left-holding', 'pointing a copying emitter at fields disturbs them', at)
        check.sc('copying emitter on %s, %s' % (shape, nm), (FF, 'CopyFields', 'set_source_fields'), raises='ok')(copy)


@check.sc('constructed on any number of fields', AT, raises='ok')
def _(w):
    many(w, lambda: w.new_(FF, 'BasedOnFields', fs, cb, rng_seed=seed))


@check.sc('constructed on any number of used fields', AT, raises='ok')
def _(w):
    w.apply(w.fun('zz_client', 'generate_all'), fs)
    many(w, lambda: w.new_(FF, 'BasedOnFields', fs, cb, rng_seed=seed))


@check.sc('given a new action on any number of fields', AT, raises='ok')
def _(w):
    o = w.new_(FF, 'BasedOnFields', fs, cb, rng_seed=seed)
    w.apply(w.fun('zz_client', 'generate_all'), fs)
    many(w, lambda: w.do(o, 'set_action_function', cb2))


def many(w, fn):
    at = w.where(*AT)
    m = w.mark()
    r = w.attempt(fn)
    evs = w.since(m)
    # the elements used one by one, outside any loop
    for e in evs:
        if e.kind in TOUCH and isinstance(e.target, Term) and e.target.op == 'elem' and e.target.args[0] is fs:
            own = [x for x in evs if x.target is e.target and x.kind in TOUCH]
            w.require(own[-1].name == 'reset', 'left-initial', 'the source is left after %s' % [x.name for x in own], at)
    for guards, es in w.histories(evs, fs, ('call', 'setattr', 'previous')):
        held = None
        for a, b in guards.items():
            if a.op == 'isnone' and mentions(a, lambda t: t.op == 'generic'):
                held = not b
        touched = [e for e in es if e.kind in TOUCH]
        if not touched:
            w.ok('left-holding')
        elif held is None:
            w.fail('left-holding', 'a source is generated or reset without regard to whether it holds a value: %s' % [e.name for e in touched], at)
        elif held:
            w.fail('left-holding', 'a source that holds a value is disturbed: %s' % [e.name for e in touched], at)
        else:
            w.require(touched[-1].kind == 'call' and touched[-1].name == 'reset', 'left-initial',
                      'a source is left after %s instead of in its initial state' % [e.name for e in touched], at)
    if r[0] == 'raise':
        raise r[1]


for rr, gg in ((None, None), (rep, gate)):
    @check.sc('a generated document is the same with and without the attachment%s' % (', repeat and gate' if rr else ''), AT, raises='ok')
    def _(w, rr=rr, gg=gg):
        w.plain(*[x for x in (em, rr, gg) if x is not None])
        f = w.new_(PR, 'Field', 'fname', em, rr or NONE, gg or NONE, rng_seed=seed)
        snap = w.snapshot()
        r = w.attempt(lambda: w.new_(FF, 'BasedOnFields', f, cb, rng_seed=seed))
        a = w.freeze(w.do(f, '__call__'))
        w.restore(snap)
        b = w.freeze(w.do(f, '__call__'))
        w.same(a, b, 'same-document', 'the value the source generates next', w.where(*AT))
