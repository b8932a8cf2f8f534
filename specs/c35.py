"""C35: an alphabet holds exactly the characters of its ranges, ends included, in order."""
from .configs import *     # noqa

check = Check('C35')
CL = 'zz_client'
AT = (TX, None, 'make_alphabet')
a, b, c, d = [inp(x, 'int') for x in 'abcd']
ranges = inp('ranges', 'seq')
DEFAULT = [(0x21, 0x21), (0x23, 0x26), (0x28, 0x7E), (0xA1, 0xAC), (0xAE, 0xFF)]


def made(w, *args):
    return w.freeze(w.apply(w.fun(TX, 'make_alphabet'), *args))


def wanted(w, rs):
    return w.freeze(w.apply(w.fun(CL, 'characters'), rs))


def pairs(w, *ps):
    return w.list_(*[tup(*p) for p in ps])


GIVEN = {
    'one range': lambda w: pairs(w, (a, b)),
    'two ranges': lambda w: pairs(w, (a, b), (c, d)),
    'one character': lambda w: pairs(w, (a, a)),
    'a range and one of its characters': lambda w: pairs(w, (a, b), (b, b)),
    'the same range twice': lambda w: pairs(w, (a, b), (a, b)),
    'a range the wrong way round': lambda w: pairs(w, (a, psub(a, ONE)), (c, d)),
    'any ranges': lambda w: ranges,
    'ranges as a tuple': lambda w: tup(tup(a, b), tup(c, d)),
}
for name, give in GIVEN.items():
    @check.sc(name, AT)
    def _(w, give=give, name=name):
        if name == 'any ranges':
            w.assume_ge(T('len', ranges), 1)
        for x, y in ((a, b), (c, d)):
            w.assume_ge(x, 0)
        w.same(made(w, give(w)), wanted(w, give(w)), 'characters', 'the alphabet is the characters of the ranges given, in order', w.where(*AT))
        w.same(made(w, give(w)), wanted(w, give(w)), 'characters', 'a second alphabet of the same ranges is the same', w.where(*AT))


def usual(w):
    return wanted(w, pairs(w, *[(K(x), K(y)) for x, y in DEFAULT]))


for name, args in (('no ranges', []), ('None for ranges', [NONE]), ('an empty list of ranges', 'list'), ('an empty tuple of ranges', [tup()])):
    @check.sc(name, AT)
    def _(w, args=args):
        args = [w.list_()] if args == 'list' else args
        w.same(made(w, *args), usual(w), 'usual', 'without ranges it is the documented alphabet', w.where(*AT))


@check.sc('no ranges, after an alphabet was changed', AT)
def _(w):
    first = w.apply(w.fun(TX, 'make_alphabet'))
    w.do(first, 'append', inp('x', 'str'))
    w.same(made(w), usual(w), 'usual', 'without ranges it is the documented alphabet every time', w.where(*AT))
