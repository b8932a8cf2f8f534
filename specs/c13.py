"""C13: schema field collections are complete, ordered and correctly split."""
from .configs import *     # noqa

check = Check('C13')
f1, f2, f3 = inp('f1', 'field'), inp('f2', 'field'), inp('f3', 'field')
gs = inp('gs', 'seq:field')


def items_of(w, coll):
    return w.freeze(w.apply(w.fun('zz_client', 'pairs'), coll))


def compare(w, sch, groups):
    """fields, hidden_fields and public_fields against the reference over the given field sequences."""
    ref = w.apply(w.fun('zz_client', 'registry'), *groups)
    for attr, oracle in (('fields', 'all_of'), ('hidden_fields', 'hidden_of'), ('public_fields', 'public_of')):
        at = w.where('profile', 'Schema', attr if attr != 'fields' else 'add_fields')
        m = w.mark()
        got = items_of(w, w.get(sch, attr))
        w.require(not w.trace(w.since(m)), 'pure', 'reading %s does nothing to the fields' % attr, at)
        want = items_of(w, w.apply(w.fun('zz_client', oracle), ref))
        w.same(got, want, attr, 'Schema.%s holds exactly the right fields, in order, under their names' % attr, at)


@check.sc('any number of fields given at construction', ('profile', 'Schema', 'set_fields'))
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    compare(w, sch, [fs])
    compare(w, sch, [fs])


@check.sc('three fields', ('profile', 'Schema', 'set_fields'))
def _(w):
    w.distinct_names(f1, f2, f3)
    sch = w.new_('profile', 'Schema', f1, f2, f3)
    compare(w, sch, [tup(f1, f2, f3)])


@check.sc('no fields', ('profile', 'Schema', 'set_fields'))
def _(w):
    sch = w.new_('profile', 'Schema')
    compare(w, sch, [tup()])


@check.sc('fields added later', ('profile', 'Schema', 'add_fields'))
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    w.call_segs(w.get(sch, 'add_fields'), [star(gs)])
    compare(w, sch, [fs, gs])


@check.sc('one field added twice over', ('profile', 'Schema', 'add_fields'))
def _(w):
    w.distinct_names(f1, f2, f3)
    sch = w.new_('profile', 'Schema', f1)
    w.do(sch, 'add_fields', f2)
    w.do(sch, '__call__')
    w.do(sch, 'add_fields', f3)
    compare(w, sch, [tup(f1, f2, f3)])


@check.sc('fields set again', ('profile', 'Schema', 'set_fields'))
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    w.get(sch, 'public_fields')
    w.call_segs(w.get(sch, 'set_fields'), [star(gs)])
    compare(w, sch, [gs])
    w.do(sch, 'set_fields')
    compare(w, sch, [tup()])


@check.sc('a field is hidden or shown after the schema was made', ('profile', 'Schema', 'hidden_fields'))
def _(w):
    w.plain(em, em2)
    a = w.new_(PR, 'Field', 'a', em, rng_seed=seed)
    b = w.new_(PR, 'Field', 'b', em2, hide=True, rng_seed=seed)
    sch = w.new_('profile', 'Schema', a, b)
    w.get(sch, 'hidden_fields')
    w.get(sch, 'public_fields')
    w.put(a, 'hide', True)
    w.put(b, 'hide', False)
    compare(w, sch, [tup(a, b)])
    d = w.do(sch, '__call__')
    w.same(w.apply(w.fun('zz_client', 'keys'), d), w.list_('b'), 'document', 'the document follows the flag at the time', w.where('profile', 'Schema', '__call__'))


@check.sc('unaffected by generating, seeding and resetting', ('profile', 'Schema', 'fields'))
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    before = items_of(w, w.get(sch, 'fields'))
    w.do(sch, '__call__')
    w.do(sch, 'seed_fields', seed)
    w.do(sch, 'reset_fields')
    w.same(items_of(w, w.get(sch, 'fields')), before, 'stable', 'the fields of a schema stay the same', w.where('profile', 'Schema', 'set_fields'))


@check.sc('changing a returned collection', ('profile', 'Schema', 'public_fields'))
def _(w):
    sch = w.new_('profile', 'Schema', f1)
    w.do(w.get(sch, 'public_fields'), '__setitem__', 'x', f2)
    w.do(w.get(sch, 'hidden_fields'), '__setitem__', 'x', f2)
    compare(w, sch, [tup(f1)])


@check.sc('two schemas are independent', ('profile', 'Schema', 'set_fields'))
def _(w):
    a = w.new_('profile', 'Schema', f1)
    b = w.new_('profile', 'Schema', f2)
    w.do(a, 'add_fields', f3)
    compare(w, b, [tup(f2)])
