"""C09: draws select from the configured items with the weights in force."""
from .configs import *     # noqa
from .positions import segs_of
from .selection import selected
from .c08 import made, setting, after, INITIAL, MODES

check = Check('C09')
CL = 'zz_client'
w2, cw2 = inp('w2', 'seq:num'), inp('cw2', 'seq:num')
L = T('len', items)
CALLS = {'a value': ((),), 'n values': ((n,),), 'a value, n values': ((), (n,)), 'n values, m values': ((n,), (m,)), 'one value of many': ((1,),)}
HISTORY = {
    'new': [], 'after a reset': [('call', m), ('reset',)], 'after a seed': [('call', m), ('seed', seed2)],
    'weights set': [('weights', w2)], 'cumulative weights set': [('cum_weights', cw2)], 'weights removed': [('weights', NONE)],
    'weights set after values': [('call', m), ('weights', w2)], 'cumulative weights removed after values': [('call', m), ('cum_weights', NONE)],
    'replacement turned off': [('replace', FALSE)], 'replacement turned on': [('call', m), ('replace', TRUE)],
    'replace after call': [('call', m), ('replace_only_after_call', TRUE)],
    'replacement off, weights set': [('replace', FALSE), ('weights', w2)], 'cumulative weights set, replacement off': [('cum_weights', cw2), ('replace', FALSE)],
    'weights set, reset': [('weights', w2), ('call', m), ('reset',)], 'weights set, seeded': [('weights', w2), ('call', m), ('seed', seed2)],
}
WEIGHTS = {'no weights': {}, 'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}


def values(w, o, steps):
    """[(segments, asked for)] of a series of calls; None when one raises (refusals are C07's subject)."""
    out = []
    for s in steps:
        r = w.attempt(lambda: w.freeze(w.do(o, '__call__', *s)))
        if r[0] != 'ok':
            return None
        out.append((segs_of(w, r[1]) if s else (s1(r[1]),), s[0] if s else None))
    return out


for mode, mkw in MODES.items():
    for wt, wkw in WEIGHTS.items():
        for hname, plan in HISTORY.items():
            for cname, steps in CALLS.items():
                if plan and cname not in ('a value', 'n values'):
                    continue

                def body(w, mode=mode, mkw=mkw, wkw=wkw, plan=plan, steps=steps):
                    o = made(w, rng_seed=seed, **mkw, **wkw)
                    st, ws = INITIAL[mode], dict(wkw)
                    for op, *args in plan:
                        if op == 'call':
                            w.attempt(lambda: w.do(o, '__call__', *args))
                        elif op in ('seed', 'reset'):
                            w.do(o, op, *args)
                        else:
                            setting(w, o, op, *args)
                            st, ws = after(st, ws, op, *args)
                    at = w.where(CH, 'Choice', 'emit_many' if steps[-1] else 'emit')
                    got = values(w, o, steps)
                    if got is None:
                        raise Infeasible()
                    for segs, k in got:
                        # values of one call; without replacement a single call is already independent of the rest
                        selected(w, segs, items, ws.get('weights'), ws.get('cum_weights'), st[0] and not (st[1] and k is not None),
                                 'selected', 'values are drawn from the items by the weights in force', at)
                check.sc('%s, %s, %s: %s' % (mode, wt, hname, cname), (CH, 'Choice', 'emit_many'), raises='ok')(body)


# ------------------------------------------------------------ weighted shuffling
for nm, args in {'a number': (n,), 'all': (), 'one': (K(1),)}.items():
    def body(w, args=args):
        at = w.where('mathtools', 'weighted_shuffle')
        k = args[0] if args else L
        w.assume_ge(psub(L, k), 0)
        w.assume_ge(psub(L, T('len', W)), 0)
        w.assume_ge(psub(T('len', W), L), 0)
        r = w.attempt(lambda: w.apply(w.fun('mathtools', 'weighted_shuffle'), items, W, w.rng(), *args))
        if r[0] != 'ok':
            raise Infeasible()
        selected(w, segs_of(w, w.freeze(r[1])), items, W, None, False, 'selected', 'weighted shuffling draws by the given weights', at)
    check.sc('weighted_shuffle, %s' % nm, ('mathtools', 'weighted_shuffle'), raises='ok')(body)
