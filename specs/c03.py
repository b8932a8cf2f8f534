"""C03: reset returns an object to the state it had just after construction."""
from .seeding import *     # noqa
from .c02 import SINGLE, REBUILD, PLANS, perform, emissions, agree, frng, root

check = Check('C03')
PLANS = dict(PLANS, **{
    'after seeding then values': [('seed', seed2), ('call', n), ('call',)],
    'after values then seeding': [('call', n), ('seed', seed2)],
    'after a reset then values': [('call',), ('reset',), ('call', n)],
})
PLAIN = [c for c in EMITTERS if not c.random and not c.srcs]
AGAIN = dict(REBUILD)
SETTINGS = ('items', 'weights', 'cum_weights', 'replace', 'replace_only_after_call', 'noun', 'rng_seed', 'value', 'reset_after_call',
            'separator', 'name', 'hide', 'repeat', 'gate', 'emitter')


def settings(w, o):
    return [(x, w.freeze(w.get(o, x))) for x in SETTINGS if w.truth(w.apply(w.fun(CL, 'has'), o, x))]


def undisturbed(w, before, after, at):
    w.require([x for x, _ in before] == [x for x, _ in after], 'configuration', 'resetting removes or adds no setting', at)
    for (x, a), (_, b) in zip(before, after):
        if x not in ('emitter', 'repeat', 'gate'):
            w.same(b, a, 'configuration', 'resetting leaves %s as it was' % x, at)


# ------------------------------------------------------------ single emitters: as just constructed
for c in SINGLE + PLAIN:
    for pname, plan in PLANS.items():
        if not c.random and any(s[0] in ('seed', 'rng_seed') for s in plan):
            continue

        def body(w, c=c, plan=plan):
            at = w.where(*c.at('reset'))
            o = c.build(w)
            perform(w, o, plan)
            before = settings(w, o)
            w.do(o, 'reset')
            undisturbed(w, before, settings(w, o), at)
            if c.random:
                s = w.get(o, 'rng_seed')
                r = frng(w, o)
                w.require(root(r) is T('seeded', w.freeze(s)), 'generator-restarts', 'its generator restarts from its current seed: %s' % show(r)[:200], at, vague=imprecise(r))
            snap = w.snapshot()
            got = emissions(w, o)
            w.restore(snap)
            if not c.random:
                fresh = c.build(w)
            else:
                fresh = AGAIN[c.name](w, s) if c.name in AGAIN else c.build(w, rng_seed=s)
            agree(w, got, emissions(w, fresh), 'as-constructed', 'after a reset it emits what it emitted just after construction', at)
        check.sc('%s: reset, %s' % (c.name, pname), c.at('reset'), raises='ok')(body)


# ------------------------------------------------------------ composites
def twin(w, c, kids, s):
    return c.build(w, rng_seed=s)


for c in COMPOSITES:
    for h in histories_of(c) + (['after more values'] if len(c.children) <= 3 and c.cls != 'Text' else []):
        def body(w, c=c, h=h):
            prepare(w, c)
            o, kids, s = bring(w, c, h)
            if h == 'after more values':
                w.attempt(lambda: w.do(o, '__call__'))
                w.attempt(lambda: w.do(o, '__call__', *([] if c.kind == 'field' else [n])))
                w.attempt(lambda: w.do(o, '__call__', *([] if c.kind == 'field' else [m])))
            at = w.where(*c.at('reset'))
            before = settings(w, o)
            k = w.mark()
            w.do(o, 'reset')
            undisturbed(w, before, settings(w, o), at)
            w.same(w.get(o, 'rng_seed'), s, 'own-seed', 'resetting keeps the seed', at)
            r = frng(w, o)
            w.require(root(r) is T('seeded', w.freeze(s)), 'generator-restarts', 'its generator restarts from its current seed: %s' % show(r)[:200], at, vague=imprecise(r))
            if c.kind == 'field':
                w.same(w.get(o, 'previous'), NONE, 'previous-forgotten', 'a field that was reset reports no previous value', at)
            for x in kids:
                for guards, ops in told(w, w.since(k), x):
                    w.require(fold(ops)[0] == 'fresh', 'child-reset', 'child %s is reset: %s' % (child_name(x), show(fold(ops))[:160]), at)
        check.sc('%s: parts, %s' % (c.name, h), c.at('reset'), raises='ok')(body)


@check.sc("a user's composite without randomness", ('mixins', 'ChildrenMixin', 'reset'), raises='ok')
def _(w):
    o = w.new_(CL, 'Holder', em)
    w.attempt(lambda: w.do(o, '__call__', n))
    k = w.mark()
    w.do(o, 'reset')
    w.require(fold(told(w, w.since(k), em)[0][1])[0] == 'fresh', 'child-reset', 'the child is reset', w.where('mixins', 'ChildrenMixin', 'reset'))


# what a composite emits after a reset, its parts being fresh again
for c in COMPOSITES:
    if ' composites' in c.name or c.kind == 'field' and len(c.children) > 2:
        continue
    for h in ('after one value', 'after many values', 'after seeding'):
        if c.cls == 'Text' and h == 'after many values':
            continue
        if c.name == 'WrapMany' and h == 'after seeding':     # parts with a seed method but no seed of their own differ
            continue

        def body(w, c=c, h=h):
            prepare(w, c)
            o, kids, s = bring(w, c, h)
            w.do(o, 'reset')
            snap = w.snapshot()
            got = values(w, o, c)
            w.restore(snap)
            fresh = c.build(w, rng_seed=s)
            agree(w, got, values(w, fresh, c), 'as-constructed', 'after a reset it emits what it emitted just after construction', w.where(*c.at('reset')))
        check.sc('%s: values, %s' % (c.name, h), c.at('reset'), raises='ok')(body)


def values(w, o, c):
    out = []
    for step in ((), ()) if c.kind == 'field' else ((), (n,)):
        r = w.attempt(lambda: w.freeze(w.do(o, '__call__', *step)))
        out.append(('ok', r[1]) if r[0] == 'ok' else ('raise', r[1].cls))
    return out


# ------------------------------------------------------------ source-driven emitters own only their generator
for c in ALL:
    if c.srcs and c.random:
        def body(w, c=c):
            o = c.build(w)
            w.attempt(lambda: w.do(o, '__call__', n))
            w.do(o, 'seed', seed2)
            w.attempt(lambda: w.do(o, '__call__'))
            before = settings(w, o)
            w.do(o, 'reset')
            at = w.where(*c.at('reset'))
            undisturbed(w, before, settings(w, o), at)
            r = frng(w, o)
            w.require(root(r) is T('seeded', seed2), 'generator-restarts', 'its generator restarts from its current seed: %s' % show(r)[:200], at, vague=imprecise(r))
        check.sc('%s: reset' % c.name, c.at('reset'), raises='ok')(body)


# ------------------------------------------------------------ schemas
f1, f2, f3 = inp('f1', 'field'), inp('f2', 'field'), inp('f3', 'field')


def all_reset(w, evs, groups):
    at = w.where(PR, 'Schema', 'reset_fields')
    for g in groups:
        for guards, ops in told(w, evs, g):
            w.require(fold(ops) == ('fresh', None), 'fields-reset', 'every field is reset, and only that: %s' % show(fold(ops))[:160], at)


@check.sc('Schema.reset_fields', (PR, 'Schema', 'reset_fields'))
def _(w):
    sch = w.new_segs(PR, 'Schema', [star(fs)])
    w.do(sch, '__call__')
    before = w.freeze(w.get(sch, 'fields'))
    k = w.mark()
    w.do(sch, 'reset_fields')
    all_reset(w, w.since(k), [fs])
    w.same(w.get(sch, 'fields'), before, 'configuration', 'the schema keeps its fields', w.where(PR, 'Schema', 'reset_fields'))


@check.sc('Schema.reset_fields, new', (PR, 'Schema', 'reset_fields'))
def _(w):
    sch = w.new_segs(PR, 'Schema', [star(fs)])
    k = w.mark()
    w.do(sch, 'reset_fields')
    all_reset(w, w.since(k), [fs])


@check.sc('Schema.reset_fields, fields added and hidden', (PR, 'Schema', 'reset_fields'))
def _(w):
    w.distinct_names(f1, f2, f3)
    sch = w.new_(PR, 'Schema', f1, f2)
    w.get(sch, 'public_fields')
    w.get(sch, 'hidden_fields')
    w.do(sch, '__call__')
    w.do(sch, 'add_fields', f3)
    w.put(f1, 'hide', TRUE)
    k = w.mark()
    w.do(sch, 'reset_fields')
    all_reset(w, w.since(k), [f1, f2, f3])


# ------------------------------------------------------------ settings changed since construction are the ones in force
W2 = inp('w2', 'seq:num')
MODES = {'with replacement': {}, 'without replacement': {'replace': FALSE}, 'replace after call': {'replace_only_after_call': TRUE}}
CHANGES = {
    'weights': (lambda w, o: w.put(o, 'weights', W2), lambda w, k: w.new_(CH, 'Choice', items, W2, **k)),
    'cumulative weights': (lambda w, o: w.put(o, 'cum_weights', W2), lambda w, k: w.new_(CH, 'Choice', items, cum_weights=W2, **k)),
    'no weights': (lambda w, o: w.put(o, 'weights', NONE), lambda w, k: w.new_(CH, 'Choice', items, **k)),
    'no replacement': (lambda w, o: w.put(o, 'replace', FALSE), lambda w, k: w.new_(CH, 'Choice', items, W, **dict(seeded({}), replace=FALSE))),
    'replacement after each call': (lambda w, o: w.put(o, 'replace_only_after_call', TRUE), lambda w, k: w.new_(CH, 'Choice', items, W, **dict(seeded({}), replace_only_after_call=TRUE))),
}
for mode, k in MODES.items():
    for change, (apply_, rebuilt) in CHANGES.items():
        def body(w, k=k, apply_=apply_, rebuilt=rebuilt):
            o = w.new_(CH, 'Choice', items, W, **seeded(k))
            w.attempt(lambda: w.do(o, '__call__', m))
            apply_(w, o)
            w.attempt(lambda: w.do(o, '__call__', n))
            before = settings(w, o)
            w.do(o, 'reset')
            undisturbed(w, before, settings(w, o), w.where(CH, 'Choice', 'reset'))
            snap = w.snapshot()
            got = emissions(w, o)
            w.restore(snap)
            agree(w, got, emissions(w, rebuilt(w, seeded(k))), 'as-constructed', 'after a reset it emits as if constructed with its settings', w.where(CH, 'Choice', 'reset'))
        check.sc('Choice %s, %s set, reset' % (mode, change), (CH, 'Choice', 'reset'), raises='ok')(body)


@check.sc('Static with another value, reset', (FX, 'Static', 'value'))
def _(w):
    o = w.new_(FX, 'Static', val)
    w.do(o, '__call__')
    w.put(o, 'value', inp('val2', 'any'))
    w.do(o, 'reset')
    w.same(w.do(o, '__call__'), inp('val2', 'any'), 'as-constructed', 'resetting keeps the value set', w.where(FX, 'Static', 'value'))


fac2 = inp('fac2', 'factory')
for rac in (FALSE, TRUE):
    @check.sc('Iterative with another factory, reset, %s' % rac.args[0], (FX, 'Iterative', 'reset'), raises='ok')
    def _(w, rac=rac):
        o = w.new_(FX, 'Iterative', fac, rac)
        w.do(o, '__call__', n)
        w.put(o, 'iterator_factory', fac2)
        w.do(o, '__call__', m)
        w.do(o, 'reset')
        snap = w.snapshot()
        got = emissions(w, o)
        w.restore(snap)
        agree(w, got, emissions(w, w.new_(FX, 'Iterative', fac2, rac)), 'as-constructed', 'after a reset it iterates from the start', w.where(FX, 'Iterative', 'reset'))


for rac in (FALSE, TRUE):
    for first in (True, False):
        for cls, src in (('Sequential', items), ('Iterative', fac)):
            @check.sc('%s, reset after call set from %s, reset%s' % (cls, rac.args[0], ' at once' if first else ''), (FX, cls, 'reset'), raises='ok')
            def _(w, rac=rac, first=first, cls=cls, src=src):
                other = FALSE if rac is TRUE else TRUE
                o = w.new_(FX, cls, src, rac)
                w.do(o, '__call__', n)
                w.put(o, 'reset_after_call', other)
                if not first:
                    w.do(o, '__call__')
                w.do(o, 'reset')
                snap = w.snapshot()
                got = emissions(w, o)
                w.restore(snap)
                agree(w, got, emissions(w, w.new_(FX, cls, src, other)), 'as-constructed', 'after a reset it starts at the first item',
                      w.where(FX, cls, 'reset'))
