"""Abstract instances of every public emitter / field class, in every configuration."""
from fx.spec import *      # noqa

n = inp('n', 'nat')
m = inp('m', 'nat')
seed = inp('seed', 'any')
seed2 = inp('seed2', 'any')
items = inp('items', 'seq')
W = inp('w', 'seq:num')
CW = inp('cw', 'seq:num')
em = inp('em', 'emitter')
em2 = inp('em2', 'emitter')
em3 = inp('em3', 'emitter')
lenem = inp('lenem', 'emitter:nat')
charem = inp('charem', 'emitter:str')
wordem = inp('wordem', 'emitter:str')
sepem = inp('sepem', 'emitter:str')
fld = inp('fld', 'field')
fld2 = inp('fld2', 'field')
fs = inp('fs', 'seq:field')
ems = inp('ems', 'map:emitter')
cb = inp('cb', 'callable')
fac = inp('fac', 'factory')
val = inp('val', 'any')
gate = inp('gate', 'emitter')
rep = inp('rep', 'emitter')


class Conf:
    def __init__(self, name, build, module, cls, kind='emitter', children=(), random=True, norep=False, srcs=(), users=()):
        self.name, self.build, self.module, self.cls, self.kind = name, build, module, cls, kind
        self.children, self.random, self.norep, self.srcs, self.users = children, random, norep, srcs, users

    def at(self, meth=None):
        return (self.module, self.cls, meth) if meth else (self.module, self.cls)


def seeded(k):
    return {'rng_seed': seed, **k}


ALL = []


def conf(name, module, cls, **kw):
    def deco(fn):
        ALL.append(Conf(name, fn, module, cls, **kw))
        return fn
    return deco


CH = 'emitters.choice'


def choice(name, *a, **k):
    norep = k.get('replace') is False
    # the constructor's own validation, which is C10's subject, is assumed passed
    conf('Choice ' + name, CH, 'Choice', norep=norep, users=tuple(x for x in (items, W, CW) if x in a or x in k.values()))(
        lambda w, **extra: w.new_(CH, 'Choice', *a, **{**k, **extra}))


choice('with replacement', items, rng_seed=seed)
choice('with replacement, weights', items, W, rng_seed=seed)
choice('with replacement, cumulative weights', items, rng_seed=seed, cum_weights=CW)
choice('without replacement', items, replace=False, rng_seed=seed)
choice('without replacement, weights', items, W, replace=False, rng_seed=seed)
choice('without replacement, cumulative weights', items, replace=False, rng_seed=seed, cum_weights=CW)
choice('replace after call', items, replace_only_after_call=True, rng_seed=seed)
choice('replace after call, weights', items, W, replace_only_after_call=True, rng_seed=seed)
conf('poisson_choice', CH, 'poisson_choice', users=(items,))(lambda w, **k: w.apply(w.fun(CH, 'poisson_choice'), items, **seeded(k)))
conf('gaussian_choice', CH, 'gaussian_choice', users=(items,))(lambda w, **k: w.apply(w.fun(CH, 'gaussian_choice'), items, **seeded(k)))
conf('chance', CH, 'chance')(lambda w, **k: w.apply(w.fun(CH, 'chance'), inp('p', 'num'), **seeded(k)))

FX = 'emitters.fixed'
conf('Static', FX, 'Static', random=False)(lambda w, **k: w.new_(FX, 'Static', val))
conf('Iterative', FX, 'Iterative', random=False)(lambda w, **k: w.new_(FX, 'Iterative', fac))
conf('Iterative reset after call', FX, 'Iterative', random=False)(lambda w, **k: w.new_(FX, 'Iterative', fac, True))
conf('Sequential', FX, 'Sequential', random=False, users=(items,))(lambda w, **k: w.new_(FX, 'Sequential', items))
conf('Sequential reset after call', FX, 'Sequential', random=False, users=(items,))(lambda w, **k: w.new_(FX, 'Sequential', items, True))

TX = 'emitters.text'
conf('Word', TX, 'Word', children=(lenem, charem))(lambda w, **k: w.new_(TX, 'Word', lenem, charem, **seeded(k)))
conf('Text', TX, 'Text', children=(lenem, wordem, sepem))(lambda w, **k: w.new_(TX, 'Text', lenem, wordem, sepem, **seeded(k)))
conf('Text default separator', TX, 'Text', children=(lenem, wordem))(lambda w, **k: w.new_(TX, 'Text', lenem, wordem, **seeded(k)))

WR = 'emitters.wrappers'
conf('WrapOne', WR, 'WrapOne', children=(em,))(lambda w, **k: w.new_(WR, 'WrapOne', em, cb, **seeded(k)))
conf('WrapMany', WR, 'WrapMany', children=(ems,), users=(ems,))(lambda w, **k: w.new_(WR, 'WrapMany', ems, cb, **seeded(k)))

FF = 'emitters.fromfields'
conf('CopyFields one field', FF, 'CopyFields', random=False, srcs=(fld,))(lambda w, **k: w.new_(FF, 'CopyFields', fld))
conf('CopyFields several fields', FF, 'CopyFields', random=False, srcs=(fs,))(lambda w, **k: w.new_(FF, 'CopyFields', fs))
conf('CopyFields one field, separator', FF, 'CopyFields', random=False, srcs=(fld,))(
    lambda w, **k: w.new_(FF, 'CopyFields', fld, inp('sep', 'str')))
conf('CopyFields several fields, separator', FF, 'CopyFields', random=False, srcs=(fs,))(
    lambda w, **k: w.new_(FF, 'CopyFields', fs, inp('sep', 'str')))
conf('BasedOnFields one field', FF, 'BasedOnFields', srcs=(fld,))(lambda w, **k: w.new_(FF, 'BasedOnFields', fld, cb, **seeded(k)))
conf('BasedOnFields several fields', FF, 'BasedOnFields', srcs=(fs,))(lambda w, **k: w.new_(FF, 'BasedOnFields', fs, cb, **seeded(k)))

PR = 'profile'
conf('Field single-valued', PR, 'Field', kind='field', children=(em,))(lambda w, **k: w.new_(PR, 'Field', 'fname', em, **seeded(k)))
conf('Field with repeat', PR, 'Field', kind='field', children=(em, rep))(lambda w, **k: w.new_(PR, 'Field', 'fname', em, rep, **seeded(k)))
conf('Field with gate', PR, 'Field', kind='field', children=(em, gate))(
    lambda w, **k: w.new_(PR, 'Field', 'fname', em, gate=gate, **seeded(k)))
conf('Field with repeat and gate', PR, 'Field', kind='field', children=(em, rep, gate))(
    lambda w, **k: w.new_(PR, 'Field', 'fname', em, rep, gate, **seeded(k)))

EMITTERS = [c for c in ALL if c.kind == 'emitter']
FIELDS = [c for c in ALL if c.kind == 'field']
