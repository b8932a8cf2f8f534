"""C08: changing a choice emitter's settings takes effect at once and stays coherent."""
import itertools
from .configs import *     # noqa
from .c02 import emissions, agree

check = Check('C08')
CL = 'zz_client'
w2, cw2 = inp('w2', 'seq:num'), inp('cw2', 'seq:num')
L = T('len', items)
WEIGHTS = {'no weights': {}, 'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}
MODES = {'with replacement': {}, 'without replacement': {'replace': FALSE}, 'replace after call': {'replace_only_after_call': TRUE}}


def made(w, **kw):
    """A choice emitter; refused arguments are C10's subject."""
    r = w.attempt(lambda: w.new_(CH, 'Choice', items, **kw))
    if r[0] == 'raise':
        raise Infeasible()
    return r[1]


def setting(w, o, name, v):
    if w.attempt(lambda: w.put(o, name, v))[0] == 'raise':
        raise Infeasible()


# ------------------------------------------------------------ both views of the weights
def views(w, o, weights, cum, at):
    """weights and cum_weights are the given ones in both readings."""
    if weights is None and cum is None:
        ww = cc = NONE
    elif weights is not None:
        ww, cc = w.apply(w.fun(CL, 'as_tuple'), weights), w.apply(w.fun(CL, 'totals'), weights)
    else:
        ww, cc = w.apply(w.fun(CL, 'steps'), cum), w.apply(w.fun(CL, 'as_tuple'), cum)
    w.same(w.get(o, 'weights'), ww, 'weights-view', 'the weights read are those set', at)
    w.same(w.get(o, 'cum_weights'), cc, 'cum-weights-view', 'the cumulative weights read are those set', at)


SETS = {
    'nothing': [], 'weights': [('weights', w2)], 'cumulative weights': [('cum_weights', cw2)],
    'weights removed': [('weights', NONE)], 'cumulative weights removed': [('cum_weights', NONE)],
    'weights, then cumulative weights': [('weights', w2), ('cum_weights', cw2)],
    'cumulative weights, then weights': [('cum_weights', cw2), ('weights', w2)],
    'weights, then removed': [('weights', w2), ('cum_weights', NONE)],
    'cumulative weights, then removed': [('cum_weights', cw2), ('weights', NONE)],
    'removed, then weights': [('cum_weights', NONE), ('weights', w2)],
}
for mode, mkw in MODES.items():
    for wt, wkw in WEIGHTS.items():
        for sname, sets in SETS.items():
            def body(w, mkw=mkw, wkw=wkw, sets=sets):
                o = made(w, rng_seed=seed, **mkw, **wkw)
                cur = [wkw.get('weights'), wkw.get('cum_weights')]
                for i, (name, v) in enumerate(sets):
                    if i:
                        w.attempt(lambda: w.do(o, '__call__', n))
                    setting(w, o, name, v)
                    cur = [None if v is NONE or name != x else v for x in ('weights', 'cum_weights')]
                views(w, o, *cur, w.where(CH, 'Choice', sets[-1][0] if sets else '__init__'))
                w.attempt(lambda: w.do(o, '__call__', n))
                w.do(o, 'reset')
                views(w, o, *cur, w.where(CH, 'Choice', 'reset'))
            check.sc('views: %s, %s, set %s' % (mode, wt, sname), (CH, 'Choice', 'weights'))(body)


# ------------------------------------------------------------ the replacement options
def expected(state, name, v):
    rep, roac = state
    if name == 'replace':
        return (v, roac and v)
    return (rep or v, v)


OPTS = [('replace', True), ('replace', False), ('replace_only_after_call', True), ('replace_only_after_call', False)]
for rep0, roac0 in itertools.product((True, False), repeat=2):
    for sets in [()] + [(a,) for a in OPTS] + list(itertools.product(OPTS, repeat=2)) + [x for x in itertools.product(OPTS, repeat=3) if x[0] != x[1] != x[2]]:
        def body(w, rep0=rep0, roac0=roac0, sets=sets):
            o = made(w, replace=rep0, replace_only_after_call=roac0, rng_seed=seed)
            state = (rep0 or roac0, roac0)
            for i in range(len(sets) + 1):
                at = w.where(CH, 'Choice', sets[i - 1][0] if i else '__init__')
                w.same(w.get(o, 'replace'), K(state[0]), 'options-coherent', 'replace is as set or implied', at)
                w.same(w.get(o, 'replace_only_after_call'), K(state[1]), 'options-coherent', 'replace_only_after_call is as set or implied', at)
                if i < len(sets):
                    w.put(o, sets[i][0], K(sets[i][1]))
                    state = expected(state, *sets[i])
        check.sc('options: %s/%s, %s' % (rep0, roac0, ' '.join('%s=%s' % (a[8:] or 'replace', b) for a, b in sets) or 'new'), (CH, 'Choice', 'replace'))(body)


# ------------------------------------------------------------ what is emitted after a change
HISTORY = {
    'new': [], 'after n values': [('call', m)], 'after a value': [('call',)], 'after all values': [('call', L)],
    'after other weights': [('weights', inp('w3', 'seq:num')), ('call', m)], 'after a reset': [('call', m), ('reset',)],
    'after a seed': [('call', m), ('seed', seed)],
    'after replacement on and off': [('call', m), ('replace', TRUE), ('replace', FALSE), ('call', m)],
    'after replace after call on and off': [('replace_only_after_call', TRUE), ('call', m), ('replace_only_after_call', FALSE), ('call', m)],
}
CHANGES = {
    'weights': ('weights', w2), 'cumulative weights': ('cum_weights', cw2), 'no weights': ('weights', NONE), 'no cumulative weights': ('cum_weights', NONE),
    'replacement off': ('replace', FALSE), 'replacement on': ('replace', TRUE),
    'replace after call': ('replace_only_after_call', TRUE), 'not replace after call': ('replace_only_after_call', FALSE),
}


def drive(w, o, plan, state, wkw):
    for op, *args in plan:
        if op == 'call':
            w.attempt(lambda: w.do(o, '__call__', *args))
        elif op in ('seed', 'reset'):
            w.do(o, op, *args)
        else:
            setting(w, o, op, *args)
            state, wkw = after(state, wkw, op, *args)
    return state, wkw


def after(state, wkw, op, v):
    if op in ('weights', 'cum_weights'):
        return state, ({} if v is NONE else {op: v})
    return expected(state, op, v is TRUE), wkw


INITIAL = {'with replacement': (True, False), 'without replacement': (False, False), 'replace after call': (True, True)}
for mode, mkw in MODES.items():
    for wt, wkw in WEIGHTS.items():
        for hname, plan in HISTORY.items():
            for cname, change in CHANGES.items():
                if wt == 'cumulative weights' and len(plan) > 1:
                    continue

                def body(w, mode=mode, mkw=mkw, wkw=wkw, plan=plan, change=change):
                    o = made(w, rng_seed=seed, **mkw, **wkw)
                    st, ws = drive(w, o, plan, INITIAL[mode], dict(wkw))
                    op, v = change
                    new, ws2 = after(st, ws, op, v)
                    redrawn = not new[0] and (op in ('weights', 'cum_weights') or st[0])
                    if not new[0] and not redrawn:
                        raise Infeasible()          # nothing changes: see below
                    w.put(o, 'rng', w.random(seed2))
                    setting(w, o, op, v)
                    at = w.where(CH, 'Choice', op)
                    w.same(w.get(o, 'num_unique_items'), L, 'all-available', 'all items are available after the change', at)
                    snap = w.snapshot()
                    got = emissions(w, o)
                    w.restore(snap)
                    fresh = made(w, rng_seed=seed2, replace=K(new[0]), replace_only_after_call=K(new[1]), **ws2)
                    agree(w, got, emissions(w, fresh), 'as-configured', 'after the change it emits as an emitter made with these settings', at)
                st, ws = INITIAL[mode], dict(wkw)
                for op, *args in plan:
                    if op in ('replace', 'replace_only_after_call', 'weights'):
                        st, ws = after(st, ws, op, *args)
                if not after(st, ws, *change)[0][0] and not st[0] and change[0] not in ('weights', 'cum_weights'):
                    continue
                check.sc('change: %s, %s, %s: %s' % (mode, wt, hname, cname), (CH, 'Choice', change[0]))(body)
