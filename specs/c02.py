"""C02: seeding restarts all randomness an object owns from the given seed."""
from .seeding import *     # noqa

check = Check('C02')
s2 = inp('s2', 'any')


def frng(w, o):
    return w.freeze(w.get(o, 'rng'))


def root(r):
    """The state a generator was last started in (draws for a new selection order come after that)."""
    st = r.args[0]
    while st.op in ('drawn', 'fold'):
        st = st.args[1] if st.op == 'fold' else st.args[0]
    return st


def own(w, o, at):
    w.same(w.get(o, 'rng_seed'), s2, 'reports-seed', 'the object reports the seed given', at)
    r = frng(w, o)
    w.require(root(r) is T('seeded', s2), 'generator-restarts', 'its generator restarts from the seed: found %s' % show(r)[:200], at, vague=imprecise(r))


# ------------------------------------------------------------ composites: every part is reached
for c in COMPOSITES:
    for h in histories_of(c):
        def body(w, c=c, h=h):
            prepare(w, c)
            o, kids, s = bring(w, c, h)
            k = w.mark()
            w.do(o, 'seed', s2)
            at = w.where(*c.at('seed'))
            own(w, o, at)
            for x in kids:
                for guards, ops in told(w, w.since(k), x):
                    ph = fold(ops)
                    hs = has(w, x, 'seed', guards)
                    if hs is False:
                        w.ok('child-seeded')
                    else:
                        w.require(ph in (('seeded', s2), ('fresh', s2)), 'child-seeded', 'child %s is seeded with the same seed: %s' % (child_name(x), show(ph)[:160]), at)
        check.sc('%s: parts, %s' % (c.name, h), c.at('seed'), raises='ok')(body)


@check.sc('Schema.seed_fields', (PR, 'Schema', 'seed_fields'))
def _(w):
    sch = w.new_segs(PR, 'Schema', [star(fs)])
    w.do(sch, '__call__')
    k = w.mark()
    w.do(sch, 'seed_fields', s2)
    fields(w, w.since(k), [fs])


def fields(w, evs, groups):
    at = w.where(PR, 'Schema', 'seed_fields')
    for g in groups:
        for guards, ops in told(w, evs, g):
            h = [b for a, b in guards.items() if a.op == 'has' and a.args[1] == 'seed'] if g.args[1].startswith('seq') else [w.choose(T('has', g, 'seed'))]
            if h == [False]:
                w.ok('fields-seeded')
            else:
                ph = fold(ops)
                w.require(ph == ('seeded', s2), 'fields-seeded', 'every field is seeded with the seed given: %s' % show(ph)[:160], at)


f1, f2, f3 = inp('f1', 'field'), inp('f2', 'field'), inp('f3', 'field')


@check.sc('Schema.seed_fields, fields added and hidden', (PR, 'Schema', 'seed_fields'))
def _(w):
    w.distinct_names(f1, f2, f3)
    sch = w.new_(PR, 'Schema', f1, f2)
    w.get(sch, 'public_fields')
    w.get(sch, 'hidden_fields')
    w.do(sch, 'add_fields', f3)
    k = w.mark()
    w.do(sch, 'seed_fields', s2)
    fields(w, w.since(k), [f1, f2, f3])


@check.sc('Schema.seed_fields, a field hidden later', (PR, 'Schema', 'seed_fields'))
def _(w):
    w.distinct_names(f1, f2)
    sch = w.new_(PR, 'Schema', f1, f2)
    w.get(sch, 'public_fields')
    w.put(f1, 'hide', TRUE)
    k = w.mark()
    w.do(sch, 'seed_fields', s2)
    fields(w, w.since(k), [f1, f2])


# ------------------------------------------------------------ single random emitters: as if constructed with that seed
SINGLE = []
for c in EMITTERS:
    if c.random and not c.children and not c.srcs and c.module == CH:
        SINGLE.append(c)
dice = Conf("a user's random emitter", lambda w, rng_seed=seed: w.new_(CL, 'Dice', rng_seed=rng_seed), CL, 'Dice')
SINGLE.append(dice)
REBUILD = {
    'poisson_choice': lambda w, s: w.apply(w.fun(CH, 'poisson_choice'), items, rng_seed=s),
    'gaussian_choice': lambda w, s: w.apply(w.fun(CH, 'gaussian_choice'), items, rng_seed=s),
    'chance': lambda w, s: w.apply(w.fun(CH, 'chance'), inp('p', 'num'), rng_seed=s),
}
PLANS = {
    'new': [],
    'after one value': [('call',)],
    'after many values': [('call', n), ('call',), ('call', m)],
    'after seeding': [('seed', seed), ('call', n)],
    'after setting its seed': [('rng_seed', seed)],
    'after a reset': [('call', 2), ('reset',)],
}


def perform(w, o, plan):
    for step in plan:
        if step[0] == 'call':
            w.attempt(lambda: w.do(o, '__call__', *step[1:]))
        elif step[0] == 'rng_seed':
            w.put(o, 'rng_seed', step[1])
        else:
            w.do(o, step[0], *step[1:])


def emissions(w, o, steps=((), (n,), (1,))):
    """What the object emits from here on."""
    out = []
    for step in steps:
        r = w.attempt(lambda: w.freeze(w.do(o, '__call__', *step)))
        out.append(('ok', r[1]) if r[0] == 'ok' else ('raise', r[1].cls))
    return out


def agree(w, got, want, rule, msg, at, names=('a value', 'n values', 'then one more')):
    for i, (g, x) in enumerate(zip(got, want)):
        what = '%s (%s)' % (msg, names[i])
        if g[0] == 'raise' or x[0] == 'raise':
            w.require(g == x, rule, '%s: %s, expected %s' % (what, show(g)[:200], show(x)[:200]), at)
        else:
            w.same(g[1], x[1], rule, what, at)


for c in SINGLE:
    for pname, plan in PLANS.items():
        def body(w, c=c, plan=plan):
            at = w.where(*c.at('seed'))
            o = c.build(w)
            perform(w, o, plan)
            w.do(o, 'seed', s2)
            own(w, o, at)
            snap = w.snapshot()
            got = emissions(w, o)
            w.restore(snap)
            fresh = REBUILD[c.name](w, s2) if c.name in REBUILD else c.build(w, rng_seed=s2)
            agree(w, got, emissions(w, fresh), 'as-constructed', 'it emits what it would emit if constructed with the seed', at)
        check.sc('%s: seeded, %s' % (c.name, pname), c.at('seed'), raises='ok')(body)

# source-driven emitters own only their generator
for c in ALL:
    if c.srcs and c.random:
        def body(w, c=c):
            o = c.build(w)
            w.attempt(lambda: w.do(o, '__call__', n))
            w.do(o, 'seed', s2)
            own(w, o, w.where(*c.at('seed')))
        check.sc('%s: seeded' % c.name, c.at('seed'), raises='ok')(body)
