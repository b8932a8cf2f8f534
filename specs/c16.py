"""C16: copied values keep every source value in order, or are joined as text."""
from .configs import *     # noqa

check = Check('C16')
sep = inp('sep', 'str')
AT = (FF, 'CopyFields', 'emit')


def single(w):
    return fld


def one(w):
    return w.list_(fld)


def one_tuple(w):
    return tup(fld)


def two(w):
    return w.list_(fld, fld2)


def twice(w):
    return w.list_(fld, fld)


def many(w):
    return fs


def real(multi):
    def build(w):
        w.plain(em, rep, gate)
        f = w.new_(PR, 'Field', 'fname', em, rep if multi else NONE, gate, rng_seed=seed)
        w.do(f, '__call__')
        return f
    return build


def expected(w, src, s, single_src):
    """The reference's value for one emission."""
    if single_src and not w.truth(w.get(src, 'multi_valued')):
        return w.get(src, 'previous')
    lst = w.list_(src) if single_src else src
    if s is None:
        return w.apply(w.fun('zz_client', 'copied_list'), lst)
    return w.apply(w.fun('zz_client', 'copied_text'), lst, s)


CASES = [('one field', single, True), ('a list of one field', one, False), ('a tuple of one field', one_tuple, False), ('two fields', two, False),
         ('the same field twice', twice, False), ('any number of fields', many, False),
         ('a single-valued Field', real(False), True), ('a Field with repeat', real(True), True)]

for nm, mk, is_single in CASES:
    for s, snm in ((None, ''), (sep, ', separator'), (K(''), ', empty separator')):
        def emission(w, mk=mk, s=s, is_single=is_single):
            src = mk(w)
            for f in (fld, fld2):
                w.do(f, '__call__')
            o = w.new_(FF, 'CopyFields', src, *([] if s is None else [s]))
            want = w.freeze(expected(w, src, s, is_single))
            w.same(w.do(o, '__call__'), want, 'value', 'the value copied', w.where(*AT))
            w.same(w.do(o, 'emit'), want, 'value', 'the value copied', w.where(*AT))
            r = w.do(o, '__call__', 2)
            w.same(r, w.list_(want, want), 'value-many', 'two copies', w.where(FF, 'CopyFields', 'emit_many'))
            w.same(w.get(o, 'single_valued'), w.notv(w.get(src, 'multi_valued')) if is_single else FALSE, 'single-valued',
                   'single_valued tells whether one single-valued field is copied', w.where(FF, 'CopyFields', 'single_valued'))
        check.sc('copying %s%s' % (nm, snm), AT)(emission)

        def moved(w, mk=mk, s=s, is_single=is_single):
            other = inp('other', 'field')
            o = w.new_(FF, 'CopyFields', other, *([] if s is None else [s]))
            src = mk(w)
            w.do(o, 'set_source_fields', src)
            want = w.freeze(expected(w, src, s, is_single))
            w.same(w.do(o, '__call__'), want, 'value', 'the value copied', w.where(*AT))
        check.sc('moved to %s%s' % (nm, snm), (FF, 'CopyFields', 'set_source_fields'))(moved)

        def resep(w, mk=mk, s=s, is_single=is_single):
            src = mk(w)
            o = w.new_(FF, 'CopyFields', src, inp('sep0', 'str'))
            w.put(o, 'separator', NONE if s is None else s)
            want = w.freeze(expected(w, src, s, is_single))
            w.same(w.do(o, '__call__'), want, 'value', 'the value copied', w.where(*AT))
        check.sc('copying %s%s, set afterwards' % (nm, snm or ', no separator'), AT)(resep)


@check.sc('a list reset through the emitter', (FF, 'CopyFields', 'reset_source'))
def _(w):
    o = w.new_(FF, 'CopyFields', fs)
    m = w.mark()
    w.do(o, 'reset_source')
    for guards, evs in w.histories(w.since(m), fs):
        w.require([e.name for e in evs] == ['reset'], 'reset-source', 'reset_source resets every source once: %s' % [e.name for e in evs],
                  w.where(FF, 'CopyFields', 'reset_source'))
