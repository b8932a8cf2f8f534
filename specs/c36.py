"""C36: separately made objects never influence one another."""
import importlib.util
import os

import fx.spec
from . import configs
from .configs import *     # noqa

check = Check('C36')
check.batch = 4
CL = 'zz_client'


def others():
    """The same configurations, made of other inputs."""
    plain = fx.spec.inp
    fx.spec.inp = lambda name, kind: plain('other ' + name, kind)
    try:
        sp = importlib.util.spec_from_file_location('specs.configs_other', configs.__file__, submodule_search_locations=None)
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
    finally:
        fx.spec.inp = plain
    return mod


oth = others()
assert [c.name for c in oth.ALL] == [c.name for c in ALL]

USE = [('do', '__call__'), ('do', '__call__', None), ('do', 'reset'), ('do', '__call__', None), ('get', 'num_unique_values'), ('do', '__call__')]
SEED = [('do', 'seed', 's')] + USE
SHORT = [('do', '__call__', None), ('do', 'reset'), ('do', '__call__')]


def steps(w, o, todo, n, seed):
    out = []
    for s in todo:
        if s[0] == 'do':
            args = [n if a is None else seed if a == 's' else a for a in s[2:]]
            res = w.attempt(lambda: w.do(o, s[1], *args))
        else:
            res = w.attempt(lambda: w.get(o, s[1]))
        out.append(tup(K(res[0]), w.freeze(res[1]) if res[0] == 'ok' and res[1] is not None else K(res[1].cls) if res[0] == 'raise' else NONE))
    return tup(*out)


def quiet(w):
    for m in (configs, oth):
        for x in (m.em, m.em2, m.em3, m.lenem, m.charem, m.wordem, m.sepem, m.gate, m.rep):
            w.pin(x, num_unique_values=NONE)
            w.have(x, 'seed', 'rng_seed')
            w.lack(x, 'items', 'replace_only_after_call')
        w.have(m.fld, 'seed', 'rng_seed')
        w.lack(m.cb, 'function')


class Maker:
    """Something that can be made and used: from this module's inputs, or from the others."""

    def __init__(self, name, at, make, use):
        self.name, self.at, self.make, self.use = name, at, make, use


MAKERS = []
for c, d in zip(ALL, oth.ALL):
    for nm, todo in (('used', USE), ('seeded', SEED)):
        if nm == 'seeded' and not c.random:
            continue
        if c.children and len(c.children) > 1 or 'without replacement' in c.name or 'after call' in c.name:
            todo = SHORT if nm == 'used' else [('do', 'seed', 's'), ('do', '__call__', None)]
        if c.name == 'Text default separator':
            todo = [('do', '__call__', None), ('do', 'reset')] if nm == 'used' else [('do', 'seed', 's'), ('do', '__call__')]
        todo = todo if c.kind == 'emitter' else [('do', '__call__') if s[:2] == ('do', '__call__') else s for s in todo if s[0] != 'get'] + [('get', 'previous')]

        def make(w, m, c=c, d=d):
            return (c if m is configs else d).build(w)

        def use(w, m, o, todo=todo):
            return steps(w, o, todo, m.n, m.seed2)
        MAKERS.append(Maker('%s, %s' % (c.name, nm), c.at(), make, use))


def maker(name, *at):
    def deco(cls):
        MAKERS.append(Maker(name, at, cls.make, cls.use))
        return cls
    return deco


def fields(w, m):
    p = '' if m is configs else 'other '
    f1, f2, f3 = [inp(p + x, 'field') for x in ('f1', 'f2', 'f3')]
    w.distinct_names(f1, f2, f3)
    return f1, f2, f3


@maker('Schema', PR, 'Schema')
class _:
    def make(w, m):
        f1, f2, f3 = fields(w, m)
        return w.new_(PR, 'Schema', f1, f2)

    def use(w, m, o):
        a = w.freeze(w.do(o, '__call__'))
        w.do(o, 'add_fields', fields(w, m)[2])
        w.do(o, 'reset_fields')
        return tup(a, w.freeze(w.get(o, 'fields')), w.freeze(w.get(o, 'public_fields')), w.freeze(w.get(o, 'hidden_fields')), w.freeze(w.do(o, '__call__')))


@maker('Schema of any fields', PR, 'Schema')
class _:
    def make(w, m):
        return w.new_segs(PR, 'Schema', [star(m.fs)])

    def use(w, m, o):
        return tup(w.freeze(w.do(o, '__call__')), w.freeze(w.get(o, 'public_fields')), w.freeze(w.do(o, '__call__')))


@maker('Schema of four fields', PR, 'Schema')
class _:
    def make(w, m):
        p = '' if m is configs else 'other '
        four = [inp(p + x, 'field') for x in ('g1', 'g2', 'g3', 'g4')]
        for x in four:
            w.pin(x, name=K(x.args[0][-2:]))
        for x in four[:2]:
            w.pin(x, hide=FALSE)
        return w.new_(PR, 'Schema', *four)

    def use(w, m, o):
        return tup(w.freeze(w.do(o, '__call__')), w.freeze(w.get(o, 'hidden_fields')), w.freeze(w.do(o, '__call__')))


@maker('Text, its own separator changed', TX, 'Text')
class _:
    def make(w, m):
        return w.new_(TX, 'Text', m.lenem, m.wordem)

    def use(w, m, o):
        a = w.freeze(w.do(w.get(o, 'sep_emitter'), '__call__'))
        w.put(w.get(o, 'sep_emitter'), 'value', m.val)
        return tup(a, w.freeze(w.do(w.get(o, 'sep_emitter'), '__call__')))


@maker('Field, its own gate and repeat changed', PR, 'Field')
class _:
    def make(w, m):
        return w.new_(PR, 'Field', 'fname', m.em)

    def use(w, m, o):
        a = w.freeze(w.do(o, '__call__'))
        w.put(w.get(o, 'gate_emitter'), 'value', FALSE)
        w.put(w.get(o, 'repeat_emitter'), 'value', K(3))
        return tup(a, w.freeze(w.do(o, '__call__')), w.freeze(w.get(w.get(o, 'repeat_emitter'), 'value')))


@maker('Schema without fields', PR, 'Schema')
class _:
    def make(w, m):
        return w.new_(PR, 'Schema')

    def use(w, m, o):
        a = w.freeze(w.get(o, 'fields'))
        w.do(o, 'add_fields', *fields(w, m)[1:])
        return tup(a, w.freeze(w.get(o, 'fields')), w.freeze(w.do(o, '__call__')))


@maker('ObjectMap', 'group', 'ObjectMap')
class _:
    def make(w, m):
        return w.new_('group', 'ObjectMap', w.dict_(a=m.em, b=m.em2))

    def use(w, m, o):
        w.do(o, '__setitem__', 'c', m.em3)
        w.do(o, 'do_method', 'reset')
        w.do(o, 'setattr', 'mark', m.val)
        return tup(w.freeze(o), w.freeze(w.do(o, 'do_method', '__call__')))


@maker('SourceFieldGroup', FF, 'SourceFieldGroup')
class _:
    def make(w, m):
        return w.new_(FF, 'SourceFieldGroup', m.fs)

    def use(w, m, o):
        a = w.get(o, 'single_valued')
        w.do(o, 'append', m.fld)
        return tup(w.freeze(a), w.freeze(w.get(o, 'data')), w.freeze(w.get(o, 'single_valued')))


@maker('make_alphabet', TX, None, 'make_alphabet')
class _:
    def make(w, m):
        p = 'lo' if m is configs else 'other lo', 'hi' if m is configs else 'other hi'
        w.assume_ge(inp(p[0], 'int'), 0)
        return w.apply(w.fun(TX, 'make_alphabet'), w.list_(tup(inp(p[0], 'int'), inp(p[1], 'int'))))

    def use(w, m, o):
        a = w.freeze(o)
        w.do(o, 'append', m.val)
        b = w.apply(w.fun(TX, 'make_alphabet'))
        c = w.freeze(b)
        w.do(b, 'append', m.val)
        return tup(a, c)


@maker('weighted_shuffle', 'mathtools', None, 'weighted_shuffle')
class _:
    def make(w, m):
        return w.random(m.seed)

    def use(w, m, o):
        a = w.apply(w.fun('mathtools', 'weighted_shuffle'), m.items, m.W, o, m.n)
        fr = w.freeze(a)
        w.do(a, 'append', m.val)
        return tup(fr, w.freeze(o))


def own_state(w, mk):
    """Making and using one leaves nothing changed in what there was before: nothing made elsewhere can notice."""
    quiet(w)
    at = w.where(*mk.at)
    w.attempt(lambda: mk.use(w, configs, mk.make(w, configs)))
    snap = w.snapshot()
    w.attempt(lambda: mk.use(w, oth, mk.make(w, oth)))
    w.require(w.unchanged(snap), 'no-shared-state', 'making and using one changes something that is not its own', at, vague=True)


def alone(w, mk, order):
    """One object behaves the same whether another was made and used or not."""
    quiet(w)
    at = w.where(*mk.at)
    start = w.snapshot()
    if order == 'before':
        a = w.attempt(lambda: mk.use(w, configs, mk.make(w, configs)))
        w.restore(start)
        w.attempt(lambda: mk.use(w, oth, mk.make(w, oth)))
        b = w.attempt(lambda: mk.use(w, configs, mk.make(w, configs)))
    elif order == 'between':
        o = w.attempt(lambda: mk.make(w, configs))
        if o[0] == 'raise':
            return
        first = w.snapshot()
        a = w.attempt(lambda: tup(mk.use(w, configs, o[1])))
        w.restore(first)
        w.attempt(lambda: mk.use(w, oth, mk.make(w, oth)))
        b = w.attempt(lambda: tup(mk.use(w, configs, o[1])))
    else:
        o = w.attempt(lambda: mk.make(w, configs))
        if o[0] == 'raise':
            return
        w.attempt(lambda: mk.use(w, configs, o[1]))
        first = w.snapshot()
        a = w.attempt(lambda: tup(mk.use(w, configs, o[1])))
        w.restore(first)
        w.attempt(lambda: mk.use(w, oth, mk.make(w, oth)))
        b = w.attempt(lambda: tup(mk.use(w, configs, o[1])))

    def told(r):
        return tup(K(r[0]), r[1] if r[0] == 'ok' else K(r[1].cls))
    w.same(told(b), told(a), 'independent', 'an object behaves the same whether or not another was made and used', at)


for mk in MAKERS:
    check.sc('%s: leaves everything else alone' % mk.name, mk.at, raises='ok')(lambda w, mk=mk: own_state(w, mk))
    for order in ('before', 'between', 'after use'):
        check.sc('%s: another %s' % (mk.name, order), mk.at, raises='ok')(lambda w, mk=mk, order=order: alone(w, mk, order))
