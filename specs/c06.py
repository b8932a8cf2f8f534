"""C06: choosing without replacement never hands out the same position twice."""
from .configs import *     # noqa
from .positions import segs_of, distinct

check = Check('C06')
MT = 'mathtools'
CALLS = {
    'a value': ((),), 'n values': ((n,),), 'two values': ((), ()), 'n values, a value': ((n,), ()), 'a value, n values': ((), (n,)),
    'n values, m values': ((n,), (m,)), 'one value of many, n values': ((1,), (n,)), 'a value, n values, a value': ((), (n,), ()),
    'two, one, two': ((2,), (), (2,)), 'one value of many, none, a value': ((1,), (0,), ()), 'no values, one of many': ((0,), (1,)),
}


def several(w, *ns):
    """More than one value is asked for (one and none are asked for in scenarios of their own)."""
    for x in ns:
        w.assume_ge(x, 2)


def collect(w, o, steps):
    """The values handed out by a series of calls; None when one raises."""
    out = []
    for s in steps:
        r = w.attempt(lambda: w.freeze(w.do(o, '__call__', *s)))
        if r[0] != 'ok':
            return None
        if s:
            x = segs_of(w, r[1])
            if x is None:
                return ()
            out += list(x)
        else:
            out.append(s1(r[1]))
    return out


def check_all(w, vals, msg, at):
    if vals is None:
        w.ok('positions')           # refused: nothing handed out (what is refused is C07's subject)
        return
    distinct(w, vals or None, items, 'positions', msg, at)


def build_norep(weights):
    kw = {'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}.get(weights, {})
    return lambda w: w.new_(CH, 'Choice', items, replace=FALSE, rng_seed=seed, **kw)


PREPARE = {
    'new': lambda w, o: None,
    'after seeding': lambda w, o: w.do(o, 'seed', seed2),
    'after values and a reset': lambda w, o: (w.attempt(lambda: w.do(o, '__call__', 2)), w.do(o, 'reset')),
    'with weights set': lambda w, o: w.put(o, 'weights', inp('w2', 'seq:num')),
    'replacement turned off later': None,
}
for wt in ('no weights', 'weights', 'cumulative weights'):
    for hist, prep in PREPARE.items():
        for cname, steps in CALLS.items():
            if hist != 'new' and cname not in ('a value, n values', 'n values, m values', 'n values, a value'):
                continue

            def body(w, wt=wt, hist=hist, prep=prep, steps=steps):
                if hist == 'replacement turned off later':
                    kw = {'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}.get(wt, {})
                    o = w.new_(CH, 'Choice', items, rng_seed=seed, **kw)
                    w.attempt(lambda: w.do(o, '__call__', 2))
                    w.put(o, 'replace', FALSE)
                else:
                    o = build_norep(wt)(w)
                    prep(w, o)
                several(w, n, m)
                check_all(w, collect(w, o, steps), 'without replacement no position is handed out twice', w.where(CH, 'Choice', '_choice_without_replacement'))
            check.sc('without replacement, %s, %s: %s' % (wt, hist, cname), (CH, 'Choice', 'emit_many'), raises='ok')(body)

for wt in ('no weights', 'weights', 'cumulative weights'):
    for hist in ('new', 'after values', 'set later', 'weights set later'):
        def body(w, wt=wt, hist=hist):
            kw = {'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}.get(wt, {})
            if hist != 'set later':
                kw['replace_only_after_call'] = TRUE
            o = w.new_(CH, 'Choice', items, rng_seed=seed, **kw)
            if hist == 'set later':
                w.put(o, 'replace_only_after_call', TRUE)
            elif hist == 'after values':
                w.attempt(lambda: w.do(o, '__call__', 2))
                w.do(o, '__call__')
            elif hist == 'weights set later':
                w.put(o, 'weights', inp('w2', 'seq:num'))
            several(w, n)
            check_all(w, collect(w, o, ((n,),)), 'one call hands out no position twice', w.where(CH, 'Choice', '_choice_without_replacement'))
        check.sc('replace after call, %s, %s' % (wt, hist), (CH, 'Choice', 'emit_many'), raises='ok')(body)


# ------------------------------------------------------------ weighted shuffling
for nm, args in {'a number': (n,), 'all': (), 'one': (K(1),), 'all, None': (NONE,)}.items():
    def body(w, args=args):
        at = w.where(MT, 'weighted_shuffle')
        L = T('len', items)
        k = args[0] if args and args[0] is not NONE else L
        w.assume_ge(psub(L, k), 0)        # asking for more is not this property
        r = w.attempt(lambda: w.apply(w.fun(MT, 'weighted_shuffle'), items, W, w.rng(), *args))
        if r[0] != 'ok':
            w.require(r[1].cls in ('ValueError', 'ZeroDivisionError', 'IndexError', 'TypeError'), 'positions', 'raises %s' % r[1].cls, at)
            return
        w.has_len(r[1], k, 'as-many', 'weighted shuffling returns as many items as asked for', at)
        if k is not K(1):
            distinct(w, segs_of(w, w.freeze(r[1])), items, 'positions', 'weighted shuffling returns items of distinct positions', at)
    check.sc('weighted_shuffle, %s' % nm, (MT, 'weighted_shuffle'), raises='ok')(body)
