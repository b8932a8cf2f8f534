"""C34: a part or setting replaced after construction takes over completely and at once."""
from .seeding import *     # noqa
from .c02 import emissions, agree, perform

check = Check('C34')
s2 = inp('s2', 'any')
cb2, fac2, val2 = inp('cb2', 'callable'), inp('fac2', 'factory'), inp('val2', 'any')
fld3 = inp('fld3', 'field')
RULE = 'takes-over'


def static(v):
    return lambda w: w.new_(FX, 'Static', v)


def v_(name, kind='any'):
    return inp(name, kind)


def calls(w, o, kind):
    return emissions(w, o, ((), ()) if kind == 'field' else ((), (n,), (1,)))


NAMES = ('a value', 'n values', 'then one more')
BEFORE = {
    'new': [],
    'after a value': [('call',)],
    'after values': [('call', n), ('call',)],
    'after a reset': [('call',), ('reset',)],
    'after seeding': [('seed', s2), ('call',)],
}
AFTER = {'at once': [], 'reset': [('reset',)], 'seeded': [('seed', seed2)]}


def as_if(name, module, cls, build, spots, kind='emitter', seeds=True, at=None):
    """build(w, **parts) with parts of its own; spots: {part: (old, new, [ways to replace it])}."""
    for spot, (old, new, ways) in spots.items():
        for way, put in ways.items():
            for bname, before in BEFORE.items():
                for aname, after in AFTER.items():
                    if not seeds and ('seed' in bname or 'seed' in aname):
                        continue
                    if after and before and bname != 'after values' or 'update' in way and bname + aname not in ('newat once', 'after valuesat once'):
                        continue

                    def body(w, spot=spot, old=old, new=new, put=put, before=before, after=after):
                        where = w.where(module, cls)
                        plan = [(s[0],) if kind == 'field' and s[0] == 'call' else s for s in before]
                        snap = w.snapshot()
                        o = build(w, **{spot: old(w)})
                        perform(w, o, plan)
                        put(w, o, new(w))
                        perform(w, o, after)
                        got = calls(w, o, kind)
                        w.restore(snap)
                        p = build(w, **{spot: new(w)})
                        perform(w, p, plan)
                        perform(w, p, after)
                        agree(w, got, calls(w, p, kind), RULE, 'with another %s it emits what it would have emitted with it all along' % spot, where, NAMES)
                    check.sc('%s: another %s by %s, %s, %s' % (name, spot, way, bname, aname), at or (module, cls), raises='ok')(body)


def attr(name):
    return lambda w, o, x: w.put(o, name, x)


def entry(label):
    return lambda w, o, x: w.do(w.get(o, 'emitters'), '__setitem__', label, x)


def updated(label):
    return lambda w, o, x: w.do(w.get(o, 'emitters'), 'update', w.dict_(**{label: x}))


def part(label, a=None):
    d = {'its parts': entry(label), 'an update of its parts': updated(label)}
    if a:
        d['assignment'] = attr(a)
    return d


# ------------------------------------------------------------ fields
FIELD_PARTS = {
    'emitter': (static(v_('v')), static(v_('v2')), part('emitter', 'emitter')),
    'repeat': (static(NONE), static(n), part('repeat', 'repeat_emitter')),
    'gate': (static(v_('g', 'bool')), static(v_('g2', 'bool')), part('gate', 'gate_emitter')),
}


def field(w, emitter=None, repeat=None, gate=None):
    return w.new_(PR, 'Field', 'fname', emitter or static(v_('v'))(w), repeat or static(n)(w), gate or static(TRUE)(w), rng_seed=seed)


as_if('Field', PR, 'Field', field, FIELD_PARTS, kind='field')

for a, old, new in (('repeat_emitter', NONE, n), ('repeat_emitter', n, NONE)):
    for aname in ('at once', 'reset'):
        @check.sc('Field: multi_valued from %s to %s, %s' % (show(old), show(new), aname), (PR, 'Field', 'multi_valued'), raises='ok')
        def _(w, a=a, old=old, new=new, aname=aname):
            at = w.where(PR, 'Field', 'multi_valued')
            o = w.new_(PR, 'Field', 'fname', em, static(old)(w))
            w.get(o, 'multi_valued')
            w.put(o, a, static(new)(w))
            if aname == 'reset':
                w.do(o, 'reset')
            w.same(w.get(o, 'multi_valued'), TRUE if new is not NONE else FALSE, 'follows', 'whether a field has many values follows its repeat emitter', at)
            r = w.new_(FF, 'SourceFieldGroup', o)
            w.same(w.get(r, 'single_valued'), FALSE if new is not NONE else TRUE, 'follows', 'whether a group is single-valued follows its field', at)
            w.put(o, a, static(old)(w))
            w.same(w.get(r, 'single_valued'), FALSE if old is not NONE else TRUE, 'follows', 'whether a group is single-valued follows its field', at)

# ------------------------------------------------------------ words and texts
def word(w, length=None, alphabet=None):
    return w.new_(TX, 'Word', length or static(v_('k', 'nat'))(w), alphabet or static(v_('c', 'str'))(w), rng_seed=seed)


as_if('Word', TX, 'Word', word, {
    'length': (static(v_('k', 'nat')), static(v_('k2', 'nat')), part('length')),
    'alphabet': (static(v_('c', 'str')), static(v_('c2', 'str')), part('alphabet')),
})


def text(w, numwords=None, word=None, sep=None):
    return w.new_(TX, 'Text', numwords or static(K(3))(w), word or static(v_('x', 'str'))(w), sep or static(v_('s', 'str'))(w), rng_seed=seed)


as_if('Text', TX, 'Text', text, {
    'numwords': (static(K(1)), static(K(3)), part('numwords')),
    'word': (static(v_('x', 'str')), static(v_('x2', 'str')), part('word')),
    'sep': (static(v_('s', 'str')), static(v_('sep2', 'str')), part('sep')),
})


# ------------------------------------------------------------ wrappers
def wrap1(w, source=None):
    return w.new_(WR, 'WrapOne', source or static(val)(w), cb, rng_seed=seed)


def wrap2(w, a=None, b=None):
    return w.new_(WR, 'WrapMany', w.dict_(a=a or static(v_('v'))(w), b=b or static(v_('u'))(w)), cb, rng_seed=seed)


as_if('WrapOne', WR, 'WrapOne', wrap1, {'source': (static(v_('v')), static(v_('v2')), part('source'))})
as_if('WrapMany', WR, 'WrapMany', wrap2, {'a': (static(v_('v')), static(v_('v2')), part('a')), 'b': (static(v_('u')), static(v_('u2')), part('b'))})

SOURCES = {
    'WrapOne': lambda w, f: w.new_(WR, 'WrapOne', em, f, rng_seed=seed),
    'WrapMany': lambda w, f: w.new_(WR, 'WrapMany', w.dict_(a=em, b=em2), f, rng_seed=seed),
}
for cls, make in SOURCES.items():
    for way in ('set_wrapper_function', 'wrapper'):
        for bname, before in BEFORE.items():
            @check.sc('%s: another function by %s, %s' % (cls, way, bname), (WR, cls, way), raises='ok')
            def _(w, cls=cls, make=make, way=way, before=before):
                at = w.where(WR, cls, way)
                w.plain(em, em2)
                w.lack(cb, 'function')
                w.lack(cb2, 'function')
                o = make(w, cb)
                perform(w, o, before)
                if way == 'wrapper':
                    w.put(o, 'wrapper', w.new_(WR, 'BoundWrapper', cb2, o))
                else:
                    w.do(o, way, cb2)
                k = w.mark()
                w.do(o, '__call__')
                w.do(o, '__call__', n)
                w.require(not w.calls(w.since(k), cb), 'retired', 'a replaced function is not called any more', at)
                s = w.get(o, 'rng_seed')
                w.same(w.get(w.get(o, 'wrapper'), 'function'), cb2, 'reads-back', 'the function read back is the one given', at)


# ------------------------------------------------------------ source-driven emitters
def a_field(v, name='a', rp=NONE):
    def make(w):
        f = w.new_(PR, 'Field', name, static(v)(w), static(rp)(w))
        w.do(f, '__call__')
        return f
    return make


def two(x, y):
    def make(w):
        return w.list_(x(w), y(w))
    return make


def group(w, o, x):
    w.put(o, 'source', w.new_(FF, 'SourceFieldGroup', x))


SET = {'set_source_fields': lambda w, o, x: w.do(o, 'set_source_fields', x), 'source': group}
FA, FB, FM = a_field(v_('v'), 'a'), a_field(v_('v2'), 'b'), a_field(v_('v3'), 'c', n)
for sname, s in (('', NONE), (', separator', inp('sep', 'str'))):
    for oname, old, new in (('one by another', FA, FB), ('one by two', FA, two(FA, FB)), ('two by one', two(FA, FB), FB), ('one by a multi-valued one', FA, FM)):
        as_if('CopyFields%s, %s' % (sname, oname), FF, 'CopyFields', lambda w, source, s=s: w.new_(FF, 'CopyFields', source, s), {'source': (old, new, SET)}, seeds=False)
for oname, old, new in (('one', FA, FB), ('two', two(FA, FB), two(FB, FM))):
    as_if('CopyFields, %s' % oname, FF, 'CopyFields', lambda w, separator, old=old: w.new_(FF, 'CopyFields', old(w), separator),
          {'separator': (lambda w: NONE, lambda w: inp('sep', 'str'), {'assignment': attr('separator')})}, seeds=False)
    as_if('CopyFields, %s, separator' % oname, FF, 'CopyFields', lambda w, separator, old=old: w.new_(FF, 'CopyFields', old(w), separator),
          {'separator': (lambda w: inp('sep', 'str'), lambda w: NONE, {'assignment': attr('separator')})}, seeds=False)


def based(w, source):
    return w.new_(FF, 'BasedOnFields', source, cb, rng_seed=seed)


for oname, old, new in (('one by another', FA, FB), ('one by two', FA, two(FA, FB)), ('two by one', two(FA, FB), FB), ('two by others', two(FA, FB), two(FB, FM))):
    for way, put in SET.items():
        for bname, before in BEFORE.items():
            @check.sc('BasedOnFields, %s by %s, %s' % (oname, way, bname), (FF, 'BasedOnFields', 'emit'), raises='ok')
            def _(w, old=old, new=new, put=put, before=before):
                at = w.where(FF, 'BasedOnFields', 'emit')
                w.lack(cb, 'function')
                snap = w.snapshot()
                o = based(w, old(w))
                perform(w, o, before)
                put(w, o, new(w))
                perform(w, o, [('reset',)])
                k = w.mark()
                w.do(o, '__call__')
                got = [e for e in w.since(k) if e.target is cb]
                w.restore(snap)
                p = based(w, new(w))
                perform(w, p, before)
                perform(w, p, [('reset',)])
                k = w.mark()
                w.do(p, '__call__')
                want = [e for e in w.since(k) if e.target is cb]
                w.require(len(got) == len(want) == 1, RULE, 'the action is called once', at)
                given, due = [dict([(i, w.freeze(x)) for i, x in enumerate(e.args)] + [(kv(w.entry_key(x)), w.freeze(w.entry_val(x))) for x in e.kw])
                              for e in (got[0], want[0])]
                w.require(set(given) == set(due), RULE, 'with other source fields the action is given their values: under the names %s, expected %s' % (list(given), list(due)), at)
                for x in due if set(given) == set(due) else ():
                    w.same(given[x], due[x], RULE, 'with other source fields the action is given the value of %s' % x, at)

for way in ('set_action_function', 'action'):
    for oname, src in (('one', FA), ('two', two(FA, FB))):
        for bname, before in BEFORE.items():
            @check.sc('BasedOnFields, %s: another action by %s, %s' % (oname, way, bname), (FF, 'BasedOnFields', way), raises='ok')
            def _(w, src=src, way=way, before=before):
                at = w.where(FF, 'BasedOnFields', way)
                w.lack(cb, 'function')
                w.lack(cb2, 'function')
                o = based(w, src(w))
                perform(w, o, before)
                if way == 'action':
                    w.put(o, 'action', w.new_(WR, 'BoundWrapper', cb2, o))
                else:
                    w.do(o, way, cb2)
                k = w.mark()
                r = w.do(o, '__call__')
                w.do(o, '__call__', n)
                w.require(not w.calls(w.since(k), cb), 'retired', 'a replaced action is not called any more', at)
                w.same(r, [e for e in w.since(k) if e.kind == 'call' and e.target is cb2][0].result, RULE, 'it emits what the new action returns', at)

# ------------------------------------------------------------ fixed emitters
as_if('Static', FX, 'Static', lambda w, value: w.new_(FX, 'Static', value), {'value': (lambda w: val, lambda w: val2, {'assignment': attr('value')})}, seeds=False)
for cls, src in (('Iterative', fac), ('Sequential', items)):
    for rac in (FALSE, TRUE):
        for bname, before in BEFORE.items():
            if 'seed' in bname:
                continue

            @check.sc('%s%s: another factory, %s' % (cls, ', reset after call' if rac is TRUE else '', bname), (FX, cls, 'iterator_factory'), raises='ok')
            def _(w, cls=cls, src=src, rac=rac, before=before):
                at = w.where(FX, cls, 'iterator_factory')
                o = w.new_(FX, cls, src, rac)
                perform(w, o, before)
                r = w.attempt(lambda: w.put(o, 'iterator_factory', fac2))
                if r[0] == 'raise':
                    raise Infeasible()
                w.same(w.get(o, 'iterator_factory'), fac2, 'reads-back', 'the factory read back is the one given', at)
                snap = w.snapshot()
                got = emissions(w, o)
                w.restore(snap)
                fresh = w.new_(FX, 'Iterative', fac2, rac)
                agree(w, got, emissions(w, fresh), RULE, "with another factory it emits the new factory's values from the start", at)

# ------------------------------------------------------------ schemas
MAPS = {
    'fields': lambda w, o, *fs: w.put(o, 'fields', w.new_('group', 'ObjectMap', w.apply(w.fun(CL, 'registry'), w.list_(*fs)))),
    'set_fields': lambda w, o, *fs: w.do(o, 'set_fields', *fs),
}
f1, f2, f3 = inp('f1', 'field'), inp('f2', 'field'), inp('f3', 'field')
for way, put in MAPS.items():
    for used in (False, True):
        @check.sc('Schema: other fields by %s%s' % (way, ', after a record' if used else ''), (PR, 'Schema', way), raises='ok')
        def _(w, way=way, put=put, used=used):
            at = w.where(PR, 'Schema', way)
            w.plain(f1, f2, f3)
            w.distinct_names(f1, f2, f3)
            sch = w.new_(PR, 'Schema', f1, f2)
            if used:
                w.do(sch, '__call__')
                w.get(sch, 'hidden_fields')
                w.get(sch, 'public_fields')
            put(w, sch, f3)
            k = w.mark()
            doc = w.do(sch, '__call__')
            w.do(sch, 'seed_fields', s2)
            w.do(sch, 'reset_fields')
            w.require(not w.calls(w.since(k), f1, f2), 'retired', 'a field no longer in the schema is asked nothing', at)
            w.require(len(w.calls(w.since(k), f3)) >= 1, RULE, 'a field put in the schema is asked', at)
            w.same(w.apply(w.fun(CL, 'keys'), w.get(sch, 'public_fields')), w.apply(w.fun(CL, 'keys'), w.apply(w.fun(CL, 'public_of'), w.apply(w.fun(CL, 'registry'), w.list_(f3)))),
                   'follows', 'the public fields follow the fields set', at)

# ------------------------------------------------------------ what was replaced is left alone
LATER = {
    'a value': lambda w, o: w.attempt(lambda: w.do(o, '__call__')),
    'values': lambda w, o: w.attempt(lambda: w.do(o, '__call__', n)),
    'reset': lambda w, o: (w.put(o, 'rng_seed', s2), w.do(o, 'reset')),
    'seeding': lambda w, o: w.do(o, 'seed', seed2),
}
for c in COMPOSITES:
    if any(x.args[1].startswith('map') for x in c.children) or ' composites' in c.name:
        continue
    for i, x in enumerate(c.children):
        for bname in ('new', 'after a value', 'after seeding'):
            for lname, later in LATER.items():
                if lname == 'values' and c.kind == 'field':
                    continue

                def body(w, c=c, x=x, bname=bname, later=later):
                    at = w.where(*c.at())
                    prepare(w, c)
                    w.lack(em3, 'items', 'replace_only_after_call')
                    for y in c.children + (em3,):
                        w.have(y, 'seed', 'rng_seed')
                        if y is not x and w.eq(x, y):
                            raise Infeasible()
                    o = c.build(w)
                    perform(w, o, [(s[0],) if c.kind == 'field' and s[0] == 'call' else s for s in BEFORE[bname]])
                    w.apply(w.fun(CL, 'swap'), w.get(o, 'emitters'), x, em3)
                    k = w.mark()
                    later(w, o)
                    mine = [e for e in flat_events(w.since(k)) if e.target is x and e.kind in ('call', 'setattr')]
                    w.require(not mine, 'retired', 'a replaced part is not asked, seeded or reset any more: %s' % (mine and show(mine[0].name)), at)
                check.sc('%s: part %s replaced, %s, is left alone by %s' % (c.name, x.args[0], bname, lname), c.at(), raises='ok')(body)
