"""C04: a composite's seed governs its children from construction and every reset."""
from .seeding import *     # noqa

check = Check('C04')


def governed(w, evs, kids, s, at):
    for x in kids:
        for guards, ops in told(w, evs, x):
            h = has(w, x, 'rng_seed', guards)
            ph = fold(ops)
            if h is False:
                w.require(ph[0] == 'fresh', 'child-reset', 'child %s is reset: %s' % (child_name(x), show(ph)[:100]), at)
            elif h is None:
                w.undec('child-seed', 'whether child %s has a seed is not asked' % child_name(x), at) if ph == ('fresh', s) else \
                    w.fail('child-seed', 'child %s is never given the seed: %s' % (child_name(x), show(ph)[:100]), at)
            else:
                w.require(ph == ('fresh', s), 'child-seed', "child %s is given the composite's seed and then reset: found %s, expected a reset with seed %s" % (
                    child_name(x), show(ph)[:160], show(s)), at)


for c in COMPOSITES + UNSEEDED:
    def made(w, c=c):
        prepare(w, c)
        k = w.mark()
        o = c.build(w)
        s = seed if c not in UNSEEDED else NONE
        w.same(w.get(o, 'rng_seed'), s, 'own-seed', 'the composite has the seed given to it', w.where(*c.at()))
        governed(w, w.since(k), c.children, s, w.where(*c.at()))
    check.sc('%s: constructed' % c.name, c.at('reset'), raises='ok')(made)
    if c in UNSEEDED:
        continue
    for h in histories_of(c):

        def reset(w, c=c, h=h):
            prepare(w, c)
            o, kids, s = bring(w, c, h)
            k = w.mark()
            w.do(o, 'reset')
            w.same(w.get(o, 'rng_seed'), s, 'own-seed', 'resetting keeps the seed', w.where(*c.at('reset')))
            governed(w, w.since(k), kids, s, w.where(*c.at('reset')))
        check.sc('%s: reset, %s' % (c.name, h), c.at('reset'), raises='ok')(reset)
