"""C11: a field evaluates gate, repeat and emitter in order and remembers the result."""
from .configs import *     # noqa

check = Check('C11')
AT = ('profile', 'Field', '__call__')


def generate(w, o, g, r, e, tag=''):
    """One generation of field o; g / r may be None (not given)."""
    at = w.where(*AT)
    m = w.mark()
    v = w.do(o, '__call__')
    parts = [x for x in (g, r, e) if x is not None]
    got = w.calls(w.since(m), *parts)
    if got is None:
        w.fail('asked-once', 'a part of the field is asked inside a loop', at)
        return v
    opened = True
    if g is not None:
        if not w.require(bool(got) and got[0][0] is g and got[0][1] == '__call__' and got[0][2] == (NONE,), 'gate-first',
                         'generating a value must ask the gate first, for one value; calls: %s' % show([x[:3] for x in got]), at):
            return v
        gv = [x for x in w.since(m) if x.kind == 'call' and x.target is g][0].result
        opened = w.truth(gv)
        got = got[1:]
    if not opened:
        w.require(not got, 'closed-asks-nothing', 'a closed gate must leave the other parts alone; calls: %s' % show([x[:3] for x in got]), at)
        w.same(v, NONE, 'closed-none', 'a closed gate gives None', at)
    else:
        num = NONE
        if r is not None:
            if not w.require(bool(got) and got[0][0] is r and got[0][1] == '__call__' and got[0][2] == (NONE,), 'repeat-once',
                             'an open gate must ask the repeat emitter next, for one value; calls: %s' % show([x[:3] for x in got]), at):
                return v
            num = [x for x in w.since(m) if x.kind == 'call' and x.target is r][0].result
            got = got[1:]
        if w.require(len(got) == 1 and got[0][0] is e and got[0][1] == '__call__', 'emitter-once',
                     'the value emitter must be asked exactly once; calls: %s' % show([x[:3] for x in got]), at):
            w.same(got[0][2], (num,), 'emitter-count', 'the value emitter must be asked for the repeat count', at)
            res = [x for x in w.since(m) if x.kind == 'call' and x.target is e][0].result
            w.same(v, res, 'returns-emitted', 'the field returns what its emitter emitted', at)
    m = w.mark()
    w.same(w.get(o, 'previous'), v, 'previous', 'the previous value is the one just returned', w.where('profile', 'Field', 'previous'))
    w.same(w.get(o, 'previous'), v, 'previous', 'reading the previous value again changes nothing', w.where('profile', 'Field', 'previous'))
    w.get(o, 'multi_valued')
    w.same(w.get(o, 'previous'), v, 'previous', 'the previous value survives reading other attributes', w.where('profile', 'Field', 'previous'))
    w.require(not w.calls(w.since(m), *parts), 'previous-pure', 'reading the previous value asks nothing', w.where('profile', 'Field', 'previous'))
    return v


for nm, gg, rr in (('gate and repeat', gate, rep), ('gate', gate, None), ('repeat', None, rep), ('emitter only', None, None)):
    def sc(w, gg=gg, rr=rr):
        w.plain(*[x for x in (gg, rr, em) if x is not None])
        w.opaque_falsy = True
        o = w.new_(PR, 'Field', 'fname', em, rr or NONE, gg or NONE, rng_seed=seed)
        generate(w, o, gg, rr, em)
        generate(w, o, gg, rr, em)
    check.sc('field with %s, two generations' % nm, AT)(sc)

    def sc2(w, gg=gg, rr=rr):
        w.plain(*[x for x in (gg, rr, em) if x is not None])
        o = w.new_(PR, 'Field', 'fname', em, rr or NONE, gg or NONE, rng_seed=seed)
        w.do(o, '__call__')
        w.do(o, 'reset')
        w.same(w.get(o, 'previous'), NONE, 'reset-forgets', 'after a reset there is no previous value', w.where('profile', 'Field', 'reset'))
        generate(w, o, gg, rr, em)
    check.sc('field with %s, reset between' % nm, AT)(sc2)


@check.sc('field whose parts are replaced', AT)
def _(w):
    w.plain(em, em2, em3, gate, rep)
    o = w.new_(PR, 'Field', 'fname', em, rng_seed=seed)
    w.put(o, 'emitter', em2)
    w.put(o, 'repeat_emitter', rep)
    w.put(o, 'gate_emitter', gate)
    w.same(w.get(o, 'emitter'), em2, 'replace', 'the emitter read back is the one assigned')
    w.same(w.get(o, 'repeat_emitter'), rep, 'replace', 'the repeat emitter read back is the one assigned')
    w.same(w.get(o, 'gate_emitter'), gate, 'replace', 'the gate emitter read back is the one assigned')
    m = w.mark()
    generate(w, o, gate, rep, em2)
    w.require(not w.calls(w.since(m), em), 'replace', 'a replaced emitter is not asked any more')


@check.sc('hidden field', AT)
def _(w):
    w.plain(em, rep, gate)
    o = w.new_(PR, 'Field', 'fname', em, rep, gate, True, rng_seed=seed)
    generate(w, o, gate, rep, em)


@check.sc('field not yet called has no previous value', ('profile', 'Field', 'previous'))
def _(w):
    w.plain(em, rep, gate)
    o = w.new_(PR, 'Field', 'fname', em, rep, gate, rng_seed=seed)
    w.same(w.get(o, 'previous'), NONE, 'initial', 'a new field has no previous value')
