"""C21: user data is never modified, and results are the caller's own."""
from .configs import *     # noqa

check = Check('C21')
check.batch = 4
CL = 'zz_client'
s2, other = inp('s2', 'any'), inp('other', 'seq')
W2 = inp('w2', 'seq:num')
MT = 'mathtools'


def given(w, src):
    """A list of the user's."""
    v = w.new_list((T('sp', src, ZERO, T('len', src)),))
    w.deref(v).meta['user'] = src
    return v


def mapping(w, **kw):
    v = w.dict_(**kw)
    w.deref(v).meta['user'] = inp('the mapping', 'any')
    return v


class Made:
    """Something made from user data: its name, where it lives, how to make it from data."""

    def __init__(self, name, module, cls, build, data, kind='emitter', settings=(), parts=False, values=True):
        self.name, self.module, self.cls, self.build, self.data = name, module, cls, build, data
        self.kind, self.settings, self.parts, self.values = kind, settings, parts, values

    def at(self, meth=None):
        return (self.module, self.cls, meth) if meth else (self.module, self.cls)


ALLMADE = []


def made(*a, **k):
    ALLMADE.append(Made(*a, **k))


SET = {
    'weights': ('weights', lambda w: given(w, W2)),
    'cumulative weights': ('cum_weights', lambda w: given(w, W2)),
    'no weights': ('weights', lambda w: NONE),
    'no replacement': ('replace', lambda w: FALSE),
    'replacement': ('replace', lambda w: TRUE),
    'replacement after a call': ('replace_only_after_call', lambda w: TRUE),
}
for nm, a, k in (('with replacement', (items,), {}), ('with weights', (items, W), {}), ('with cumulative weights', (items,), {'cum_weights': CW}),
                 ('without replacement', (items,), {'replace': False}), ('without replacement, weights', (items, W), {'replace': False}),
                 ('without replacement, cumulative weights', (items,), {'replace': False, 'cum_weights': CW}),
                 ('replace after call', (items,), {'replace_only_after_call': True}), ('replace after call, weights', (items, W), {'replace_only_after_call': True})):
    made('Choice ' + nm, CH, 'Choice', lambda w, d, a=a, k=k: w.new_(CH, 'Choice', *[d[x] for x in a], **{x: d.get(y, y) if isinstance(y, Term) else y for x, y in k.items()}, rng_seed=seed),
         a + tuple(x for x in k.values() if isinstance(x, Term)), settings=tuple(SET))
made('poisson_choice', CH, 'poisson_choice', lambda w, d: w.apply(w.fun(CH, 'poisson_choice'), d[items], rng_seed=seed), (items,))
made('gaussian_choice', CH, 'gaussian_choice', lambda w, d: w.apply(w.fun(CH, 'gaussian_choice'), d[items], rng_seed=seed), (items,))
made('Sequential', FX, 'Sequential', lambda w, d: w.new_(FX, 'Sequential', d[items]), (items,))
made('Sequential reset after call', FX, 'Sequential', lambda w, d: w.new_(FX, 'Sequential', d[items], True), (items,))
made('Static', FX, 'Static', lambda w, d: w.new_(FX, 'Static', d[items]), (items,), settings=('value',))
made('Static, any value', FX, 'Static', lambda w, d: w.new_(FX, 'Static', val), ())
made('Iterative', FX, 'Iterative', lambda w, d: w.new_(FX, 'Iterative', fac), ())
made('chance', CH, 'chance', lambda w, d: w.apply(w.fun(CH, 'chance'), inp('p', 'num'), rng_seed=seed), ())
made('Word', TX, 'Word', lambda w, d: w.new_(TX, 'Word', lenem, charem, rng_seed=seed), (), parts=True)
made('Text', TX, 'Text', lambda w, d: w.new_(TX, 'Text', lenem, wordem, sepem, rng_seed=seed), (), parts=True)
made('WrapOne', WR, 'WrapOne', lambda w, d: w.new_(WR, 'WrapOne', em, cb, rng_seed=seed), (), parts=True)
made('WrapMany', WR, 'WrapMany', lambda w, d: w.new_(WR, 'WrapMany', d['mapping'], cb, rng_seed=seed), ('mapping',), parts=True)
made("a user's composite", CL, 'Pair', lambda w, d: w.new_(CL, 'Pair', em, em2, rng_seed=seed), (), parts=True)
made('Field', PR, 'Field', lambda w, d: w.new_(PR, 'Field', 'fname', em, rng_seed=seed), (), kind='field', parts=True)
made('Field with gate', PR, 'Field', lambda w, d: w.new_(PR, 'Field', 'fname', em, gate=gate, rng_seed=seed), (), kind='field', parts=True)
made('BasedOnFields', FF, 'BasedOnFields', lambda w, d: w.new_(FF, 'BasedOnFields', d['fields'], cb, rng_seed=seed), ('fields',))
made('CopyFields', FF, 'CopyFields', lambda w, d: w.new_(FF, 'CopyFields', d['fields']), ('fields',))
made('CopyFields, separator', FF, 'CopyFields', lambda w, d: w.new_(FF, 'CopyFields', d['fields'], inp('sep', 'str')), ('fields',))

USE = {
    'making it': [],
    'values': [('do', '__call__', n), ('do', '__call__')],
    'a reset': [('do', '__call__', n), ('do', 'reset'), ('do', '__call__')],
    'seeding': [('do', '__call__'), ('do', 'seed', s2), ('do', '__call__', n)],
    'uniqueness figures': [('do', '__call__', n), ('get', 'num_unique_values'), ('get', 'emits_unique_values')],
}
SEEDED = {'Choice', 'poisson_choice', 'gaussian_choice', 'chance', 'Word', 'Text', 'WrapOne', 'WrapMany', 'Pair', 'Field', 'BasedOnFields'}


def data_for(w, m):
    d = {}
    for x in m.data:
        if x == 'mapping':
            d[x] = mapping(w, a=em, b=em2)
        elif x == 'fields':
            d[x] = w.list_(fld, fld2)
            w.deref(d[x]).meta['user'] = inp('the fields', 'any')
        else:
            d[x] = given(w, x)
    return d


def quiet(w):
    for x in (em, em2, em3, lenem, charem, wordem, sepem, gate):
        w.pin(x, num_unique_values=NONE)
        w.have(x, 'seed', 'rng_seed')
        w.lack(x, 'items', 'replace_only_after_call')
    for x in (fld, fld2):
        w.have(x, 'seed', 'rng_seed')
    w.distinct_names(fld, fld2)


def steps(w, o, todo):
    out = []
    for s in todo:
        if s[0] == 'do':
            res = w.attempt(lambda: w.do(o, *s[1:]))
        elif s[0] == 'get':
            res = w.attempt(lambda: w.get(o, s[1]))
        else:
            res = w.attempt(lambda: w.put(o, s[1], s[2]))
        out.append((res[0], res[1] if res[0] == 'ok' else K(res[1].cls)))
    return out


def seen(w, out):
    return tup(*[tup(K(a), w.freeze(b) if b is not None else NONE) for a, b in out])


def kept(w, evs, before, what, at):
    """The user's data is what it was, and nothing on the way changed it."""
    bad = [e for e in flat_events(evs) if e.kind in ('mutate', 'setitem') and (e.target.op == 'in' or e.target in before)]
    w.require(not bad, 'untouched', '%s changes what the user gave: %s' % (what, ', '.join('%s of %s' % (e.name, show(e.target)) for e in bad[:2])), bad[0].loc if bad and bad[0].loc else at)
    for v, fr in before.items():
        w.same(w.freeze(v), fr, 'untouched', '%s leaves what the user gave as it was' % what, at)


def adapt(m, todo):
    return [s for s in ([s if m.kind != 'field' else (s[:2] if s[:2] == ('do', '__call__') else s) for s in todo])
            if not (m.kind == 'field' and s[0] == 'get')]


for m in ALLMADE:
    for nm, todo in USE.items():
        if nm == 'seeding' and m.cls not in SEEDED or not m.data:
            continue

        def keeps(w, m=m, todo=todo, nm=nm):
            quiet(w)
            d = data_for(w, m)
            before = {v: w.freeze(v) for v in d.values()}
            k = w.mark()
            o = m.build(w, d)
            steps(w, o, adapt(m, todo))
            kept(w, w.since(k), before, nm, w.where(*m.at()))
        check.sc('%s: data kept by %s' % (m.name, nm), m.at(), raises='ok')(keeps)

    for sname in m.settings:
        def keeps_set(w, m=m, sname=sname):
            quiet(w)
            d = data_for(w, m)
            attr, mk = SET.get(sname) or (sname, lambda w: given(w, other))
            v = mk(w)
            before = {x: w.freeze(x) for x in [*d.values(), v] if x.op == 'ref'}
            k = w.mark()
            o = m.build(w, d)
            steps(w, o, [('do', '__call__', n)])
            steps(w, o, [('put', attr, v), ('do', '__call__'), ('do', '__call__', n), ('do', 'reset'), ('do', '__call__')])
            kept(w, w.since(k), before, 'setting %s' % sname, w.where(*m.at()))
        check.sc('%s: data kept when set to %s' % (m.name, sname), m.at(), raises='ok')(keeps_set)

AFTER = [('do', '__call__', n), ('do', '__call__'), ('get', 'num_unique_values'), ('do', 'reset'), ('do', '__call__', n)]
FIRST = {'new': [], 'after a value': [('do', '__call__')], 'after values': [('do', '__call__', inp('m', 'nat'))], 'after a reset': [('do', '__call__', n), ('do', 'reset')]}

for m in ALLMADE:
    if m.kind == 'field' or m.name in ('Static',):
        continue
    for nm, first, meth in [(a, b, '__call__') for a, b in FIRST.items()] + [('new, emit_many', [], 'emit_many'), ('after emit_many', [('do', 'emit_many', n)], 'emit_many')]:
        def fresh(w, m=m, first=first, meth=meth):
            """A client changes the list it got: nothing emitted later is different."""
            quiet(w)
            d = data_for(w, m)
            o = m.build(w, d)
            before = {v: w.freeze(v) for v in d.values()}
            steps(w, o, first)
            res = w.attempt(lambda: w.do(o, meth, n))
            if res[0] == 'raise':
                return
            at = w.where(*m.at('emit_many'))
            r = res[1]
            if r.op != 'ref' or w.deref(r).kind != 'list':
                w.require(r.op in ('flist',), 'own-list', 'values come as a list of their own: %s' % show(r)[:80], at, vague=True)
                return
            w.require(all(r is not v for v in d.values()), 'own-list', 'the list handed out is the one the user gave', at)
            snap = w.snapshot()
            again = w.attempt(lambda: w.do(o, meth, n))
            w.require(again[1] is not r, 'own-list', 'the same list is handed out twice', at)
            w.restore(snap)
            a = seen(w, steps(w, o, AFTER))
            w.restore(snap)
            w.apply(w.fun(CL, 'spoil'), r)
            for v, fr in before.items():
                w.same(w.freeze(v), fr, 'own-list', 'changing the list of values changes what the user gave', at)
            b = seen(w, steps(w, o, AFTER))
            w.same(b, a, 'own-list', 'changing the list of values changes nothing that is emitted later', at)
        check.sc('%s: a list of values, %s' % (m.name, nm), m.at(), raises='ok')(fresh)

OTHER = {
    'values': [('do', '__call__', n), ('do', '__call__')],
    'seeding': [('do', 'seed', s2)],
    'a reset': [('do', '__call__', n), ('do', 'reset')],
}
for m in ALLMADE:
    if not m.parts and m.kind == 'emitter':
        todos = dict(OTHER)
        for sname in m.settings:
            todos['setting %s' % sname] = sname
        for nm, todo in todos.items():
            if nm == 'seeding' and m.cls not in SEEDED:
                continue

            def apart(w, m=m, todo=todo):
                """Two made from the same data: using one does nothing to the other."""
                quiet(w)
                d = data_for(w, m)
                o1, o2 = m.build(w, d), m.build(w, d)
                steps(w, o2, [('do', '__call__', n)])
                snap = w.snapshot()
                a = seen(w, steps(w, o2, AFTER))
                w.restore(snap)
                if isinstance(todo, str):
                    attr, mk = SET.get(todo) or (todo, lambda w: given(w, other))
                    steps(w, o1, [('put', attr, mk(w)), ('do', '__call__')])
                else:
                    steps(w, o1, todo)
                b = seen(w, steps(w, o2, AFTER))
                w.same(b, a, 'independent', 'using one object made from the same data changes nothing in another', w.where(*m.at()))
            check.sc('%s: two from the same data, %s' % (m.name, nm), m.at(), raises='ok')(apart)
    elif m.parts:
        def parted(w, m=m):
            quiet(w)
            d = data_for(w, m)
            before = {v: w.freeze(v) for v in d.values()}
            o1, o2 = m.build(w, d), m.build(w, d)
            a = w.freeze(w.get(o2, 'emitters'))
            k = w.mark()
            es = w.get(o1, 'emitters')
            w.do(es, '__setitem__', 'another', em3)
            for key in ('a', 'emitter', 'length', 'source', 'left'):
                if w.truth(w.apply(w.fun(CL, 'has_key'), es, key)):
                    w.do(es, '__setitem__', key, em3)
            w.same(w.freeze(w.get(o2, 'emitters')), a, 'independent', "replacing one's parts does not replace another's", w.where(*m.at()))
            kept(w, w.since(k), before, 'replacing a part', w.where(*m.at()))
        check.sc('%s: two of the same parts' % m.name, m.at(), raises='ok')(parted)


# ------------------------------------------------------------ functions and containers
def plainly(name, at):
    return check.sc(name, at, raises='ok')


for nm, num in (('all', None), ('some', n)):
    @plainly('weighted_shuffle, %s' % nm, (MT, 'weighted_shuffle'))
    def _(w, num=num):
        a, b = given(w, items), given(w, W)
        before = {a: w.freeze(a), b: w.freeze(b)}
        k = w.mark()
        rng = w.random(seed)
        r = w.attempt(lambda: w.apply(w.fun(MT, 'weighted_shuffle'), a, b, rng, *([] if num is None else [num])))
        at = w.where(MT, 'weighted_shuffle')
        kept(w, w.since(k), before, 'shuffling', at)
        if r[0] == 'ok':
            w.require(r[1] is not a and r[1] is not b, 'own-list', 'the shuffled list is not the list given', at)


@plainly('make_alphabet', (TX, 'make_alphabet'))
def _(w):
    a = w.list_(T('tup', (s1(K(65)), s1(K(70)))))
    w.deref(a).meta['user'] = inp('the ranges', 'any')
    before = {a: w.freeze(a)}
    k = w.mark()
    r = w.apply(w.fun(TX, 'make_alphabet'), a)
    again = w.apply(w.fun(TX, 'make_alphabet'), a)
    at = w.where(TX, 'make_alphabet')
    kept(w, w.since(k), before, 'making an alphabet', at)
    w.require(r.op == 'ref' and r is not a and r is not again, 'own-list', 'every alphabet is a list of its own', at)
    one, two = w.apply(w.fun(TX, 'make_alphabet')), w.apply(w.fun(TX, 'make_alphabet'))
    w.require(one is not two, 'own-list', 'every default alphabet is a list of its own', at)


f1, f2, f3 = inp('f1', 'field'), inp('f2', 'field'), inp('f3', 'field')


def schema(w):
    w.distinct_names(f1, f2, f3)
    return w.new_(PR, 'Schema', f1, f2)


@plainly('a record', (PR, 'Schema', '__call__'))
def _(w):
    s = schema(w)
    r = w.do(s, '__call__')
    at = w.where(PR, 'Schema', '__call__')
    fr = w.freeze(r)
    snap = w.snapshot()
    later = w.do(s, '__call__')
    a = w.freeze(later)
    w.require(later is not r, 'own-list', 'the same record is handed out twice', at)
    w.same(w.freeze(r), fr, 'own-list', 'a later record changes an earlier one', at)
    w.restore(snap)
    w.apply(w.fun(CL, 'spoil_mapping'), r)
    w.same(w.freeze(w.do(s, '__call__')), a, 'own-list', 'changing a record changes nothing in later ones', at)


for attr in ('public_fields', 'hidden_fields'):
    @plainly('Schema.%s' % attr, (PR, 'Schema', attr))
    def _(w, attr=attr):
        s = schema(w)
        r = w.get(s, attr)
        at = w.where(PR, 'Schema', attr)
        snap = w.snapshot()
        a = tup(w.freeze(w.get(s, attr)), w.freeze(w.get(s, 'fields')), w.freeze(w.do(s, '__call__')))
        w.restore(snap)
        w.apply(w.fun(CL, 'spoil_mapping'), r)
        w.same(tup(w.freeze(w.get(s, attr)), w.freeze(w.get(s, 'fields')), w.freeze(w.do(s, '__call__'))), a, 'own-list', 'changing %s changes nothing in the schema' % attr, at)


@plainly('two schemas', (PR, 'Schema'))
def _(w):
    w.distinct_names(f1, f2, f3)
    one, two = w.new_(PR, 'Schema', f1, f2), w.new_(PR, 'Schema', f1, f2)
    e1, e2 = w.new_(PR, 'Schema'), w.new_(PR, 'Schema')
    a, b = w.freeze(w.get(two, 'fields')), w.freeze(w.get(e2, 'fields'))
    w.do(one, 'add_fields', f3)
    w.do(e1, 'add_fields', f3)
    at = w.where(PR, 'Schema', 'add_fields')
    w.same(w.freeze(w.get(two, 'fields')), a, 'independent', 'adding a field to one schema adds none to another', at)
    w.same(w.freeze(w.get(e2, 'fields')), b, 'independent', 'adding a field to an empty schema adds none to another', at)


@plainly('ObjectMap', ('group', 'ObjectMap'))
def _(w):
    d = mapping(w, a=em, b=em2)
    before = {d: w.freeze(d)}
    k = w.mark()
    m1, m2 = w.new_('group', 'ObjectMap', d), w.new_('group', 'ObjectMap', d)
    a = w.freeze(m2)
    w.do(m1, '__setitem__', 'c', em3)
    w.do(m1, 'do_method', 'reset')
    at = w.where('group', 'ObjectMap')
    kept(w, w.since(k), before, 'using the map', at)
    w.same(w.freeze(m2), a, 'independent', 'changing a map does not change another', at)


for cls in ('CopyFields', 'BasedOnFields'):
    @plainly('%s: fields added to the source' % cls, (FF, cls))
    def _(w, cls=cls):
        w.distinct_names(f1, f2, f3)
        lst = w.list_(f1, f2)
        w.deref(lst).meta['user'] = inp('the fields', 'any')
        before = {lst: w.freeze(lst)}
        k = w.mark()
        args = () if cls == 'CopyFields' else (cb,)
        o1, o2 = w.new_(FF, cls, lst, *args), w.new_(FF, cls, lst, *args)
        a = w.freeze(w.get(w.get(o2, 'source'), 'data'))
        w.do(w.get(o1, 'source'), 'append', f3)
        at = w.where(FF, cls, 'set_source_fields')
        kept(w, w.since(k), before, 'adding a source field', at)
        w.same(w.freeze(w.get(w.get(o2, 'source'), 'data')), a, 'independent', "adding to one's source does not add to another's", at)


# ------------------------------------------------------------ groups of the user's own, or another object's, given to make one
def group_of(w):
    m = w.new_('group', 'ObjectMap', w.dict_(a=em, b=em2))
    return m


TAKERS = {
    'WrapMany': (WR, 'WrapMany', lambda w, m: w.new_(WR, 'WrapMany', m, cb, rng_seed=seed)),
    "a user's composite": ('mixins', 'ChildrenMixin', lambda w, m: w.new_(CL, 'Bundle', m)),
    'ObjectMap': ('group', 'ObjectMap', lambda w, m: w.new_('group', 'ObjectMap', m)),
}
GIVEN = {'an ObjectMap': group_of,
         "another's parts": lambda w: w.get(w.new_(WR, 'WrapMany', w.dict_(a=em, b=em2), cb), 'emitters'),
         "a composite's parts": lambda w: w.get(w.new_(CL, 'Bundle', w.dict_(a=em, b=em2)), 'emitters')}
for who, (mod, cls, build) in TAKERS.items():
    for gname, give in GIVEN.items():
        for change in ('__setitem__', '__delitem__', 'clear'):
            @plainly('%s of %s: %s' % (who, gname, change), (mod, cls))
            def _(w, build=build, give=give, change=change, mod=mod, cls=cls):
                quiet(w)
                m = give(w)
                o1, o2 = build(w, m), build(w, m)

                def parts(o):
                    return o if cls == 'ObjectMap' else w.get(o, 'emitters')
                at = w.where(mod, cls, '__init__')
                a = w.freeze(m)
                w.same(w.freeze(parts(o2)), a, 'independent', 'the parts are the ones given', at)
                args = {'__setitem__': ('b', em3), '__delitem__': ('b',), 'clear': ()}[change]
                w.do(parts(o1), change, *args)
                w.same(w.freeze(m), a, 'independent', "changing one's parts changes the group it was made from", at)
                w.same(w.freeze(parts(o2)), a, 'independent', "changing one's parts changes another's", at)
                b = w.freeze(parts(o1))
                w.do(m, '__setitem__', 'd', em3)
                w.same(w.freeze(parts(o1)), b, 'independent', 'changing the group given later changes nothing', at)
                w.same(w.freeze(parts(o2)), a, 'independent', 'changing the group given later changes nothing', at)

for cls in ('CopyFields', 'BasedOnFields', 'SourceFieldGroup'):
    for gname in ('a group', "another's source", 'set later'):
        @plainly('%s of %s of fields' % (cls, gname), (FF, cls))
        def _(w, cls=cls, gname=gname):
            w.distinct_names(f1, f2, f3)
            if gname == "another's source":
                g = w.get(w.new_(FF, 'CopyFields', w.list_(f1, f2)), 'source')
            else:
                g = w.new_(FF, 'SourceFieldGroup', w.list_(f1, f2))
            args = (cb,) if cls == 'BasedOnFields' else ()
            if gname == 'set later' and cls != 'SourceFieldGroup':
                o1, o2 = w.new_(FF, cls, f3, *args), w.new_(FF, cls, f3, *args)
                w.do(o1, 'set_source_fields', g)
                w.do(o2, 'set_source_fields', g)
            else:
                o1, o2 = w.new_(FF, cls, g, *args), w.new_(FF, cls, g, *args)

            def src(o):
                return w.freeze(w.get(o if cls == 'SourceFieldGroup' else w.get(o, 'source'), 'data'))
            at = w.where(FF, cls, '__init__')
            a = src(o1)
            given_ = w.freeze(w.get(g, 'data'))
            w.do(o1 if cls == 'SourceFieldGroup' else w.get(o1, 'source'), 'append', f3)
            w.same(src(o2), a, 'independent', "adding to one's source does not add to another's", at)
            w.same(w.freeze(w.get(g, 'data')), given_, 'independent', 'adding to the source does not add to the group given', at)
            w.do(g, 'append', f3)
            w.same(src(o2), a, 'independent', 'adding to the group given later adds nothing', at)
