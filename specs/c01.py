"""C01: all randomness comes from the emitter's own seedable generator."""
import ast

from .seeding import *     # noqa
from .c02 import SINGLE, PLANS, perform, emissions, agree, REBUILD

check = Check('C01')
IMPURE = ('entropy', 'idhash', 'hash', 'id', 'setorder')
QUIET = ('builtins.id', 'builtins.hash')         # matters only where it shows in what is emitted


def impure(t):
    return isinstance(t, (Term, tuple)) and mentions(t, lambda x: x.op in IMPURE)


def watch(w, o, at, act, unseeded=False):
    """Do something with o; every draw in between has to come from its own generator."""
    own = [w.get(o, 'rng')] if w.truth(w.apply(w.fun(CL, 'has'), o, 'rng')) else []
    k = w.mark()
    r = w.attempt(act)
    evs = list(flat_events(w.since(k)))
    if w.truth(w.apply(w.fun(CL, 'has'), o, 'rng')):
        own.append(w.get(o, 'rng'))
    for e in evs:
        if e.kind == 'newrng':
            own.append(e.target)
            if not unseeded:
                w.require(e.args[0] is not NONE and not impure(e.args), 'own-generator', 'a generator is made without a seed at %s' % e.loc, at)
    for e in evs:
        if e.kind == 'entropy' and e.name not in QUIET:
            w.fail('no-other-source', 'output depends on %s at %s' % (e.name, e.loc), e.loc)
        elif e.kind == 'draw':
            w.require(any(e.target is g for g in own), 'own-generator', 'values are drawn from a generator that is not the one of this object, at %s' % e.loc, at)
        elif e.kind == 'call':
            w.require(not impure(e.args), 'no-other-source', 'what a part is asked for depends on identity, hashing or set order at %s' % e.loc, at)
        elif e.kind == 'rngseed':
            w.require(any(e.target is g for g in own) and not impure(e.args), 'own-generator', 'a generator that is not its own is seeded at %s' % e.loc, at)
    if r[0] == 'ok' and r[1] is not None:
        w.require(not impure(w.norm(w.freeze(lift(r[1])))), 'no-other-source', 'the output depends on identity, hashing or set order', at)
    return r


STEPS = {
    'a value': lambda w, o, c: w.do(o, '__call__'),
    'n values': lambda w, o, c: w.do(o, '__call__', *([] if c.kind == 'field' else [n])),
    'reset': lambda w, o, c: w.do(o, 'reset') if c.kind == 'field' or c.random else None,
    'after a reset': lambda w, o, c: w.do(o, '__call__', *([] if c.kind == 'field' else [m])),
    'seed': lambda w, o, c: w.do(o, 'seed', seed2) if c.random else None,
    'after seeding': lambda w, o, c: w.do(o, '__call__'),
}
SHORT = ('a value', 'n values', 'reset')
WATCHED = [c for c in ALL if c.cls != 'Text'] + [c for c in COMPOSITES if c not in ALL and c is not NESTED] + [
    Conf("a user's random emitter", lambda w, **k: w.new_(CL, 'Dice', **seeded(k)), CL, 'Dice')]
for c in WATCHED:
    def body(w, c=c):
        prepare(w, c)
        at = w.where(*c.at())
        k = w.mark()
        o = c.build(w)
        for e in flat_events(w.since(k)):
            if e.kind == 'newrng':
                w.require((e.args[0] is not NONE or ' composites' in c.name) and not impure(e.args), 'own-generator', 'a generator is made without the seed given at %s' % e.loc, at)
            elif e.kind == 'entropy' and e.name not in QUIET:
                w.fail('no-other-source', 'an object depends on %s at %s' % (e.name, e.loc), e.loc)
            elif e.kind == 'draw':
                w.require(c.random and e.target is w.get(o, 'rng'), 'own-generator', 'values are drawn from a generator that is not its own at %s' % e.loc, at)
        for name, step in STEPS.items():
            if len(c.children) > 2 and name not in SHORT:
                break
            watch(w, o, at, lambda: step(w, o, c))
    check.sc('%s: draws' % c.name, c.at(), raises='ok')(body)

for c in ALL:
    if c.cls == 'Text':
        for k in ((), (n,)):
            def body(w, c=c, k=k):
                prepare(w, c)
                o = c.build(w)
                watch(w, o, w.where(*c.at()), lambda: w.do(o, '__call__', *k))
                watch(w, o, w.where(*c.at()), lambda: w.do(o, 'reset'))
                watch(w, o, w.where(*c.at()), lambda: w.do(o, 'seed', seed2))
            check.sc('%s: draws, %s' % (c.name, 'n values' if k else 'a value'), c.at(), raises='ok')(body)


# ------------------------------------------------------------ changed settings draw from the same generator
W2 = inp('w2', 'seq:num')
for mode, k in {'with replacement': {}, 'without replacement': {'replace': FALSE}, 'replace after call': {'replace_only_after_call': TRUE}}.items():
    for prop, value in {'weights': W2, 'cum_weights': W2, 'replace': FALSE, 'replace_only_after_call': TRUE}.items():
        def body(w, k=k, prop=prop, value=value):
            o = w.new_(CH, 'Choice', items, W, **seeded(k))
            at = w.where(CH, 'Choice', prop)
            watch(w, o, at, lambda: w.put(o, prop, value))
            watch(w, o, at, lambda: w.do(o, '__call__', n))
            watch(w, o, at, lambda: w.do(o, '__call__'))
        check.sc('Choice %s, %s set: draws' % (mode, prop), (CH, 'Choice', prop), raises='ok')(body)


# ------------------------------------------------------------ two instances
def draws(evs):
    return [e for e in flat_events(evs) if e.kind == 'draw']


PAIRED = [c for c in WATCHED if c.random and not c.srcs and (not c.children or c.cls in ('Pair', 'WrapOne'))and ' composites' not in c.name]
for c in PAIRED:
    for s in (seed, NONE):
        def body(w, c=c, s=s):
            prepare(w, c)
            at = w.where(*c.at())
            if c.name in REBUILD:
                mk = lambda: REBUILD[c.name](w, s)
            else:
                mk = lambda: c.build(w, rng_seed=s)
            a, b = mk(), mk()
            w.require(w.get(a, 'rng') is not w.get(b, 'rng'), 'apart', 'two instances never share a generator', at)
            watch(w, a, at, lambda: w.do(a, '__call__'), unseeded=True)
            watch(w, b, at, lambda: w.do(b, '__call__'), unseeded=True)
            w.do(a, 'reset')
            w.require(w.get(a, 'rng') is not w.get(b, 'rng'), 'apart', 'two instances never share a generator after a reset', at)
            watch(w, a, at, lambda: w.do(a, '__call__'), unseeded=True)
            w.do(b, 'seed', seed2)
            watch(w, a, at, lambda: w.do(a, '__call__'), unseeded=True)
            watch(w, b, at, lambda: w.do(b, '__call__'), unseeded=True)
        check.sc('%s: two instances, %s' % (c.name, 'seeded' if s is seed else 'unseeded'), c.at(), raises='ok')(body)

# one with the same configuration, history and seed gives the same, whatever other instances did
for c in SINGLE:
    def body(w, c=c):
        at = w.where(*c.at())
        mk = (lambda: REBUILD[c.name](w, seed)) if c.name in REBUILD else (lambda: c.build(w, rng_seed=seed))
        a = mk()
        snap = w.snapshot()
        want = emissions(w, a)
        w.restore(snap)
        x = c.build(w, rng_seed=seed2) if c.name not in REBUILD else REBUILD[c.name](w, seed2)
        w.attempt(lambda: w.do(x, '__call__'))
        w.attempt(lambda: w.do(a, '__call__'))
        w.attempt(lambda: w.do(a, '__call__', m))
        b = mk()
        agree(w, emissions(w, b), want, 'own-history', 'what other instances did makes no difference', at)
    check.sc('%s: independent of other instances' % c.name, c.at(), raises='ok')(body)


# ------------------------------------------------------------ the generator a callback gets
OWNERS = {
    'WrapOne': (WR, lambda w, f: w.new_(WR, 'WrapOne', em, f, rng_seed=seed)),
    'BasedOnFields': (FF, lambda w, f: w.new_(FF, 'BasedOnFields', fld, f, rng_seed=seed)),
}


def handed(v):
    """The generator in what random_one returned."""
    return [x for x in (v.args[0] if v.op in ('tup', 'flist') else ())][-1].args[0]


for cls, (mod, mk) in OWNERS.items():
    for hist in ('new', 'after a reset', 'after seeding', 'after setting its seed and a reset', 'after values'):
        def body(w, cls=cls, mod=mod, mk=mk, hist=hist):
            w.plain(em)
            at = w.where(mod, cls, 'emit')
            w.pin(fld, previous=val)
            o = mk(w, w.fun(CL, 'random_one'))
            if hist == 'after a reset':
                w.do(o, 'reset')
            elif hist == 'after seeding':
                w.do(o, 'seed', seed2)
            elif hist == 'after setting its seed and a reset':
                w.put(o, 'rng_seed', seed2)
                w.do(o, 'reset')
            elif hist == 'after values':
                w.do(o, '__call__')
                w.do(o, 'reset')
                w.do(o, '__call__')
            r = w.do(o, '__call__')
            w.require(handed(r) is w.get(o, 'rng'), 'own-generator', 'the callback is handed the generator its owner uses now', at)
        check.sc('%s: generator handed to the callback, %s' % (cls, hist), (mod, cls, 'emit'), raises='fail')(body)


# ------------------------------------------------------------ the source never calls the shared generator
def module_random(tree):
    """(names bound to the random module, {name: function imported from it})"""
    mods, funs = set(), {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.name == 'random':
                    mods.add(a.asname or a.name)
        elif isinstance(x, ast.ImportFrom) and x.module == 'random':
            for a in x.names:
                funs[a.asname or a.name] = a.name
    return mods, funs


@check.lint('calls of the shared generator')
def _(program):
    for mname, mod in sorted(program.modules.items()):
        if 'zz_client' in mname:
            continue
        mods, funs = module_random(mod.tree)
        for x in ast.walk(mod.tree):
            if not isinstance(x, ast.Call):
                continue
            f = x.func
            name = f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in mods else funs.get(f.id) if isinstance(f, ast.Name) else None
            if name is None:
                continue
            at = '%s:%d' % (mod.path, x.lineno)
            if name in ('Random',):
                yield 'proved', 'generators-only', '', at
            else:
                yield 'violated', 'generators-only', 'random.%s uses a generator no seed of an emitter controls' % name, at
