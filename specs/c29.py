"""C29: any object with the documented emitter or field interface works as a part."""
from .seeding import *     # noqa
from fx.interp import PROTO

check = Check('C29')
check.batch = 4
s2 = inp('s2', 'any')
f1, f2 = inp('f1', 'field'), inp('f2', 'field')

SRCD = [c for c in ALL if c.srcs]
OWN = [
    Conf("a user's composite without randomness", lambda w, **k: w.new_(CL, 'Holder', em), CL, 'Holder', children=(em,)),
    Conf('CopyFields, a list of two fields', lambda w, **k: w.new_(FF, 'CopyFields', w.list_(fld, fld2)), FF, 'CopyFields', random=False, srcs=(fld, fld2)),
    Conf('BasedOnFields, a list of two fields', lambda w, **k: w.new_(FF, 'BasedOnFields', w.list_(fld, fld2), cb, **seeded(k)), FF, 'BasedOnFields', srcs=(fld, fld2)),
    Conf('WrapMany, two emitters', lambda w, **k: w.new_(WR, 'WrapMany', w.dict_(a=em, b=em2), cb, **seeded(k)), WR, 'WrapMany', children=(em, em2)),
]
SCHEMAS = [
    Conf('a schema of two fields', lambda w, **k: w.new_(PR, 'Schema', f1, f2), PR, 'Schema', kind='schema', srcs=(f1, f2)),
    Conf('a schema of any fields', lambda w, **k: w.new_segs(PR, 'Schema', [star(fs)]), PR, 'Schema', kind='schema', srcs=(fs,)),
]

EMIT = {
    'a value': [('do', '__call__')],
    'values': [('do', '__call__', n)],
    'emit': [('do', 'emit')],
    'emit_many': [('do', 'emit_many', n)],
    'reset': [('do', 'reset'), ('do', '__call__')],
    'seed': [('do', 'seed', s2), ('do', '__call__')],
    'setting the seed': [('put', 'rng_seed', s2), ('do', 'reset'), ('do', '__call__')],
    'its unique values': [('get', 'num_unique_values'), ('get', 'emits_unique_values')],
    'its parts': [('get', 'emitters'), ('get', 'rng_seed')],
}
FIELD = {
    'a value': [('do', '__call__'), ('get', 'previous')],
    'reset': [('do', 'reset'), ('do', '__call__')],
    'seed': [('do', 'seed', s2), ('do', '__call__')],
    'setting the seed': [('put', 'rng_seed', s2), ('do', 'reset')],
    'what it says of itself': [('get', x) for x in ('name', 'hide', 'multi_valued', 'previous', 'rng_seed', 'emitters')],
    'its parts': [('get', x) for x in ('emitter', 'repeat_emitter', 'gate_emitter')],
    'another emitter': [('put', 'emitter', em3), ('do', '__call__'), ('get', 'multi_valued')],
    'another repeat': [('put', 'repeat_emitter', em3), ('get', 'multi_valued'), ('do', '__call__')],
    'another gate': [('put', 'gate_emitter', em3), ('do', '__call__'), ('do', 'reset')],
}
f3 = inp('f3', 'field')
SCHEMA = {
    'a record': [('do', '__call__')],
    'records': [('do', '__call__'), ('do', '__call__')],
    'reset': [('do', 'reset_fields'), ('do', '__call__')],
    'seed': [('do', 'seed_fields', s2)],
    'its fields': [('get', 'fields'), ('get', 'hidden_fields'), ('get', 'public_fields')],
    'another field': [('do', 'add_fields', f3), ('do', '__call__')],
    'other fields': [('do', 'set_fields', f3), ('do', 'reset_fields')],
}
RANDOM_ONLY = ('seed', 'setting the seed')


def parts_of(c):
    return tuple(c.children) + tuple(c.srcs) + (em3, f3)


def belongs(t, parts):
    return t in parts or t.op in ('elem', 'mval') and t.args[0] in parts


def uses(w, c, o, steps):
    w.parts = parts_of(c)
    if c.kind == 'schema':
        w.distinct_names(*[x for x in c.srcs if x.args[1] == 'field'], f3)
    k = w.mark()
    for step in steps:
        if step[0] == 'get':
            act, what = (lambda: w.get(o, step[1])), 'reading %s' % step[1]
            meth = step[1]
        elif step[0] == 'put':
            act, what = (lambda: w.put(o, step[1], step[2])), 'setting %s' % step[1]
            meth = step[1]
        else:
            act, what = (lambda: w.do(o, *step[1:])), 'calling %s' % step[1]
            meth = step[1]
        res = w.attempt(act)
        at = w.where(c.module, c.cls, meth)
        w.require(not (res[0] == 'raise' and not excused(res[1])), 'interface', '%s raises %s (%s)' % (what, res[0] == 'raise' and res[1].cls, res[0] == 'raise' and res[1].origin),
                  res[0] == 'raise' and res[1].loc or at)
    asked(w, w.since(k), c)


def excused(e):
    """Raised by a part or by the user's function, or on purpose."""
    return e.cls not in ('AttributeError', 'TypeError') or e.origin == 'opaque' or e.origin == 'raise'


def asked(w, evs, c):
    """Parts are asked for nothing their interface does not document, nor in any other way."""
    at = w.where(c.module, c.cls, '__call__')
    for e in flat_events(evs):
        if e.kind != 'sig' or not belongs(e.target, w.parts):
            continue
        field = w.kind(e.target) == 'field'
        many, named = len(e.args), [kv(w.entry_key(x)) for x in e.kw]
        if e.name == '__call__':
            good = not many and not named if field else many <= 1 and not named or not many and named == ['number']
        elif e.name == 'reset':
            good = not many and not named
        elif e.name == 'seed':
            good = many == 1 and not named or not many and named == ['rng_seed']
        else:
            good = True
        w.require(good, 'signature', '%s of a part is called with %d arguments%s' % (e.name, many, ' and ' + ', '.join(named) if named else ''), e.loc or at)
    w.ok('signature')


def scenario(c, nm, steps, plain):
    @check.sc('%s: %s%s' % (c.name, nm, ', barest parts' if plain else ''), c.at(), raises='ok')
    def f(w):
        if plain:
            bare(w, c)
        res = w.attempt(lambda: c.build(w))
        at = w.where(c.module, c.cls)
        if res[0] == 'raise':
            w.require(excused(res[1]), 'interface', 'making it raises %s (%s)' % (res[1].cls, res[1].origin), res[1].loc or at)
            return
        w.ok('interface')
        uses(w, c, res[1], steps)


OPTIONAL = ('seed', 'rng_seed', 'rng', 'items', 'replace', 'replace_only_after_call', 'emit', 'emit_many', 'emitters', 'emitter', 'weights', 'cum_weights')


def bare(w, c):
    for x in parts_of(c):
        if x.args[1].split(':')[0] in ('emitter', 'field'):
            w.lack(x, *OPTIONAL)


for c in [c for c in COMPOSITES] + UNSEEDED + SRCD + OWN + SCHEMAS:
    for nm, steps in (FIELD if c.kind == 'field' else SCHEMA if c.kind == 'schema' else EMIT).items():
        if nm in RANDOM_ONLY and not c.random and c.kind == 'emitter' or nm in RANDOM_ONLY and c.cls == 'Holder' or nm == 'its parts' and (c.srcs or c.cls == 'Holder'):
            continue
        if len(c.children) > 2:
            steps = [x for x in steps if nm not in ('seed', 'setting the seed', 'reset') or x != ('do', '__call__')]
        scenario(c, nm, steps, True)
        scenario(c, nm, steps, False)


# ------------------------------------------------------------ parts that count as false
COUNTED = {
    'repeat': (PR, 'Field', lambda w, x: w.new_(PR, 'Field', 'fname', em, x), lambda w, o: w.get(o, 'repeat_emitter')),
    'gate': (PR, 'Field', lambda w, x: w.new_(PR, 'Field', 'fname', em, gate=x), lambda w, o: w.get(o, 'gate_emitter')),
    'emitter': (PR, 'Field', lambda w, x: w.new_(PR, 'Field', 'fname', x), lambda w, o: w.get(o, 'emitter')),
    'separators': (TX, 'Text', lambda w, x: w.new_(TX, 'Text', lenem, wordem, x), lambda w, o: w.get(o, 'sep_emitter')),
    'words': (TX, 'Text', lambda w, x: w.new_(TX, 'Text', lenem, x), lambda w, o: w.get(o, 'word_emitter')),
    'characters': (TX, 'Word', lambda w, x: w.new_(TX, 'Word', lenem, x), lambda w, o: w.get(o, 'alphabet_emitter')),
    'source': (WR, 'WrapOne', lambda w, x: w.new_(WR, 'WrapOne', x, cb), lambda w, o: w.do(w.get(o, 'emitters'), 'get', 'source')),
}
for nm, (mod, cls, build, part) in COUNTED.items():
    @check.sc('%s: %s given as an emitter that counts as false' % (cls, nm), (mod, cls, '__init__'), raises='ok')
    def _(w, mod=mod, cls=cls, build=build, part=part):
        for x in (em, lenem, wordem):
            w.pin(x, num_unique_values=NONE)
            w.lack(x, 'items')
        w.lack(cb, 'function')
        x = w.new_(CL, 'Counted', val)
        o = build(w, x)
        w.require(part(w, o) is x, 'part-used', 'the part given is the one used, whatever its truth value', w.where(mod, cls, '__init__'))
