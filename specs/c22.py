"""C22: uniqueness figures are truthful, work for any items, and asking is free of side effects."""
from .configs import *     # noqa
from .c02 import emissions, agree

check = Check('C22')
CL = 'zz_client'
w2, cw2 = inp('w2', 'seq:num'), inp('cw2', 'seq:num')
val2, fac2, seed2 = inp('val2', 'any'), inp('fac2', 'factory'), inp('seed2', 'any')
WEIGHTS = {'no weights': {}, 'weights': {'weights': W}, 'cumulative weights': {'cum_weights': CW}}
MODES = {'with replacement': {}, 'without replacement': {'replace': FALSE}, 'replace after call': {'replace_only_after_call': TRUE}}
HISTORY = {
    'new': [], 'after a value': [('call',)], 'after values': [('call', n)], 'after values twice': [('call', n), ('call', m)],
    'after a reset': [('call', n), ('reset',)], 'after seeding': [('call',), ('seed', seed2)], 'after weights set': [('call', n), ('weights', w2)],
    'after weights cleared': [('call', n), ('weights', NONE)], 'after cumulative weights set': [('call',), ('cum_weights', cw2)],
    'after replacement off': [('call', n), ('replace', FALSE)], 'after replacement off and values': [('replace', FALSE), ('call', m)],
    'after replacement on': [('call', n), ('replace', TRUE)], 'after replacing per call': [('call', n), ('replace_only_after_call', TRUE)],
    'asked, then at the same place after a reset': [('call', n), ('ask',), ('reset',), ('call', n)],
    'asked, then after weights set': [('ask',), ('weights', w2), ('call', n)], 'asked, then after values': [('ask',), ('call', n)],
    'asked, then after replacement off': [('ask',), ('replace', FALSE), ('call', n)],
    'after not replacing per call': [('replace_only_after_call', FALSE), ('call', n)],
}
ASKED = ('num_unique_values', 'emits_unique_values', 'num_unique_items')


class Settled(Exception):
    pass


def steps(w, o, plan):
    for op, *args in plan:
        if op == 'call':
            if w.attempt(lambda: w.do(o, '__call__', *args))[0] == 'raise':
                raise Infeasible()
        elif op in ('reset', 'seed'):
            w.do(o, op, *args)
        elif op == 'ask':
            for x in ASKED:
                w.attempt(lambda: w.get(o, x))
        elif w.attempt(lambda: w.put(o, op, *args))[0] == 'raise':
            raise Infeasible()


def ask(w, o, name, at):
    """The figure; asking must not fail, whatever the items are."""
    r = w.attempt(lambda: w.get(o, name))
    if r[0] == 'raise':
        w.fail('any-items', 'asking for %s raises %s' % (name, r[1].cls), r[1].loc or at)
        raise Settled()
    return r[1]


def spared(w, o, names, at, *steps):
    """Asking changes neither what is emitted nor what is asked next."""
    snap = w.snapshot()
    plainly = emissions(w, o, *steps)
    w.restore(snap)
    first, k = {}, w.mark()
    for x in names:
        first[x] = w.freeze(ask(w, o, x, at))
    draws = [e for e in flat_events(w.since(k)) if e.kind in ('draw', 'rngseed', 'newrng', 'entropy')]
    w.require(not draws, 'asking-is-free', 'asking draws from a generator', draws[0].loc if draws else at)
    for x in names:
        w.same(w.freeze(ask(w, o, x, at)), first[x], 'asking-is-free', 'the same answer for %s when asked again' % x, at)
    agree(w, emissions(w, o, *steps), plainly, 'asking-is-free', 'what is emitted after asking', at, ('a value', 'n values', 'then one more') if not steps else ('n values',))
    w.restore(snap)


def left(w, o):
    """The values that can still be emitted without replacement, found by emitting them."""
    snap = w.snapshot()
    r = w.attempt(lambda: w.do(o, '__call__', w.get(o, 'num_unique_items')))
    v = w.freeze(r[1]) if r[0] == 'ok' else None
    w.restore(snap)
    return v


def one_mode(mode, plan):
    for op, *args in plan:
        if op == 'replace':
            mode = 'without replacement' if args[0] is FALSE else ('with replacement' if mode == 'without replacement' else mode)
        elif op == 'replace_only_after_call':
            if args[0] is TRUE:
                mode = 'replace after call'
            elif mode == 'replace after call':
                mode = 'with replacement'
    return mode


def count(w, vals):
    return w.apply(w.fun(CL, 'distinct'), vals)


def choice(name, mode, plan, mkw, wkw):
    @check.sc('Choice %s: figures' % name, (CH, 'Choice', 'num_unique_values'), raises='ok')
    def figures(w):
        o = w.new_(CH, 'Choice', items, rng_seed=seed, **mkw, **wkw)
        steps(w, o, plan)
        at = w.where(CH, 'Choice', 'num_unique_values')
        try:
            number = ask(w, o, 'num_unique_values', at)
            unique = ask(w, o, 'emits_unique_values', at)
            if one_mode(mode, plan) == 'without replacement':
                vals = left(w, o)
                if vals is None:
                    w.undec('remaining-values', 'the values left could not be emitted', at)
                    return
            else:
                vals = items
            w.same(number, count(w, vals), 'distinct-values', 'the number of unique values is the number of distinct values it can emit', at)
            at = w.where(CH, 'Choice', 'emits_unique_values')
            if one_mode(mode, plan) == 'without replacement':
                w.same(ask(w, o, 'num_unique_items', at), w.len_of(vals), 'items-left', 'the number of unique items is the number of items left', at)
                w.same(w.apply(w.fun(CL, 'flag'), unique), w.apply(w.fun(CL, 'all_distinct'), vals), 'claims-unique',
                       'it claims unique values exactly when the values left are all distinct', at)
            else:
                w.same(w.apply(w.fun(CL, 'flag'), unique), FALSE, 'claims-unique', 'it does not claim unique values', at)
        except Settled:
            pass

    @check.sc('Choice %s: asking' % name, (CH, 'Choice', 'num_unique_values'), raises='ok')
    def asking(w):
        o = w.new_(CH, 'Choice', items, rng_seed=seed, **mkw, **wkw)
        steps(w, o, plan)
        try:
            spared(w, o, ASKED, w.where(CH, 'Choice', 'num_unique_values'))
        except Settled:
            pass


for mode, mkw in MODES.items():
    for wt, wkw in WEIGHTS.items():
        for h, plan in HISTORY.items():
            choice('%s, %s, %s' % (mode, wt, h), mode, plan, mkw, wkw)


def fixed(name, build, plan, figure, at):
    @check.sc('%s: figures' % name, at, raises='ok')
    def f(w):
        o = build(w)
        where = w.where(at[0], at[1], '__init__')
        for op, *args in plan:
            if op == 'call':
                if w.attempt(lambda: w.do(o, '__call__', *args))[0] == 'raise':
                    raise Infeasible()
            elif op in ('reset', 'seed'):
                w.do(o, op, *args)
            elif op == 'ask':
                for x in ASKED[:2]:
                    w.get(o, x)
            else:
                w.put(o, op, *args)
        try:
            if figure is not None:
                number = ask(w, o, 'num_unique_values', where)
                want = figure(w)
                w.same(number, want, 'distinct-values', 'the number of unique values is the number of distinct values it can emit', where)
            w.same(w.apply(w.fun(CL, 'flag'), ask(w, o, 'emits_unique_values', where)), FALSE, 'claims-unique', 'it does not claim unique values', where)
            spared(w, o, ('num_unique_values', 'emits_unique_values'), where)
        except Settled:
            pass


FX = 'emitters.fixed'


def given(w):
    o = w.new_(FX, 'Sequential', items)
    if w.attempt(lambda: w.put(o, 'iterator_factory', fac2))[0] == 'raise':
        raise Infeasible()
    return o


PLAIN = {'new': [], 'after a value': [('call',)], 'after values': [('call', n)], 'after a reset': [('call', n), ('reset',)]}
for h, plan in PLAIN.items():
    fixed('Static, %s' % h, lambda w: w.new_(FX, 'Static', val), plan, lambda w: ONE, (FX, 'Static', '__init__'))
    fixed('Sequential, %s' % h, lambda w: w.new_(FX, 'Sequential', items), plan, lambda w: count(w, items), (FX, 'Sequential', '__init__'))
    fixed('Sequential reset after call, %s' % h, lambda w: w.new_(FX, 'Sequential', items, reset_after_call=TRUE), plan, lambda w: count(w, items),
          (FX, 'Sequential', '__init__'))
    fixed('Iterative, %s' % h, lambda w: w.new_(FX, 'Iterative', fac), plan, lambda w: NONE, (FX, 'Iterative', '__init__'))
    fixed('Sequential given a factory, %s' % h, lambda w: given(w), plan, lambda w: count(w, w.apply(w.fun(CL, 'as_tuple'), w.apply(fac2))),
          (FX, 'Sequential', 'iterator_factory'))
fixed('Static, another value', lambda w: w.new_(FX, 'Static', val), [('call',), ('ask',), ('value', val2)], lambda w: ONE, (FX, 'Static', 'value'))


def quiet(conf):
    """Other emitters never claim unique values, and asking leaves what they emit alone."""
    @check.sc('%s: asking' % conf.name, (conf.module, conf.cls, '__init__'), raises='ok')
    def f(w):
        o = conf.build(w)
        where = w.where(conf.module, conf.cls, '__init__')
        try:
            w.same(w.apply(w.fun(CL, 'flag'), ask(w, o, 'emits_unique_values', where)), FALSE, 'claims-unique', 'it does not claim unique values', where)
            spared(w, o, ('num_unique_values', 'emits_unique_values'), where, *([((n,),)] if conf.cls == 'Text' else []))
        except Settled:
            pass


for conf in EMITTERS:
    if conf.cls not in ('Choice', 'Static', 'Sequential', 'Iterative'):
        quiet(conf)
