"""C12: a document evaluates every field once, in order, and omits only hidden ones."""
from .configs import *     # noqa

check = Check('C12')
AT = ('profile', 'Schema', '__call__')
f1, f2, f3 = inp('f1', 'field'), inp('f2', 'field'), inp('f3', 'field')


def compare(w, sch, fields, names=None):
    """The document and everything done to the fields equal the reference's."""
    at = w.where(*AT)
    snap = w.snapshot()
    m = w.mark()
    d1 = w.freeze(w.do(sch, '__call__'))
    t1 = w.trace(w.since(m))
    w.restore(snap)
    m = w.mark()
    d2 = w.freeze(w.apply(w.fun('zz_client', 'document_of'), names, fields) if names is not None else w.apply(w.fun('zz_client', 'document'), fields))
    t2 = w.trace(w.since(m))
    w.same(d1, d2, 'document', 'the document holds the public fields under their names, in order', at)
    w.same(t1, t2, 'evaluations', 'every field is evaluated exactly once, in order', at)
    # state for what follows: as after the first document
    w.restore(snap)
    w.do(sch, '__call__')


@check.sc('any number of fields given at construction', AT)
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    compare(w, sch, fs)
    compare(w, sch, fs)


@check.sc('three fields', AT)
def _(w):
    w.distinct_names(f1, f2, f3)
    sch = w.new_('profile', 'Schema', f1, f2, f3)
    compare(w, sch, tup(f1, f2, f3))
    compare(w, sch, tup(f1, f2, f3))


@check.sc('one field', AT)
def _(w):
    sch = w.new_('profile', 'Schema', f1)
    compare(w, sch, tup(f1))


@check.sc('no fields', AT)
def _(w):
    sch = w.new_('profile', 'Schema')
    compare(w, sch, tup())


@check.sc('fields set again and added', AT)
def _(w):
    w.distinct_names(f2, f3)
    sch = w.new_('profile', 'Schema', f1)
    w.do(sch, '__call__')
    w.do(sch, 'set_fields', f2)
    w.do(sch, 'add_fields', f3)
    compare(w, sch, tup(f2, f3))


@check.sc('documents after seeding and reset of the schema', AT)
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    w.do(sch, 'seed_fields', seed)
    compare(w, sch, fs)
    w.do(sch, 'reset_fields')
    compare(w, sch, fs)


@check.sc('asking for the hidden and public fields in between', AT)
def _(w):
    sch = w.new_segs('profile', 'Schema', [star(fs)])
    w.get(sch, 'hidden_fields')
    w.get(sch, 'public_fields')
    compare(w, sch, fs)


def real(w, name, **kw):
    return w.new_('profile', 'Field', name, em, **kw)


ASSIGNED = {
    'under other names': lambda w: (w.dict_(x=f1, y=f2), ('x', 'y'), (f1, f2)),
    'one of them under two names': lambda w: (w.dict_(x=f1, y=f2, z=f1), ('x', 'y', 'z'), (f1, f2, f1)),
    'alone, under two names': lambda w: (w.dict_(x=f1, y=f1), ('x', 'y'), (f1, f1)),
    'under each other\'s names': lambda w: (lambda a, b: (w.dict_(b=a, a=b), ('b', 'a'), (a, b)))(real(w, 'a'), real(w, 'b')),
}
for aname, made in ASSIGNED.items():
    for first in (False, True):
        @check.sc('fields assigned %s%s' % (aname, ', after a document of others' if first else ''), AT)
        def _(w, made=made, first=first):
            sch = w.new_('profile', 'Schema', f3)
            if first:
                w.do(sch, '__call__')
            m, names, fields = made(w)
            w.put(sch, 'fields', w.new_('group', 'ObjectMap', m))
            compare(w, sch, tup(*fields), tup(*[lift(x) for x in names]))
            compare(w, sch, tup(*fields), tup(*[lift(x) for x in names]))


@check.sc('a field renamed', AT)
def _(w):
    f = real(w, 'a')
    sch = w.new_('profile', 'Schema', f)
    w.do(sch, '__call__')
    w.put(f, 'name', 'b')
    compare(w, sch, tup(f), tup(lift('a')))


for hname, h in (('hidden', True), ('shown', False)):
    @check.sc('a field %s after a document' % hname, AT)
    def _(w, h=h):
        f = real(w, 'a', hide=not h)
        g = real(w, 'b')
        sch = w.new_('profile', 'Schema', f, g)
        w.do(sch, '__call__')
        w.put(f, 'hide', h)
        compare(w, sch, tup(f, g))
        compare(w, sch, tup(f, g))
