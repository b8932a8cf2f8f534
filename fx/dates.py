"""A theory of dates, times of day, datetimes and time spans, in whole microseconds.

A span is T('td', p); a date, datetime or time of day is T('dt', kind, p, tz) with p the number of microseconds since
day 0 (since midnight for a time of day), on the clock of its zone tz (NONE: naive).  p is a polynomial over whole
numbers, so the arithmetic of ranges is decided by the linear facts of the path.  Zones have a fixed offset, and values
that leave what the library can represent (OverflowError) are not considered.
"""
import ast
import datetime as _d
from math import gcd
from .terms import *     # noqa

SECOND = 10 ** 6
DAY = 86400 * SECOND
UNITS = {'days': DAY, 'seconds': SECOND, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * SECOND, 'hours': 3600 * SECOND, 'weeks': 7 * DAY}
NUM = 'datetime.%s'


def td(p):
    return T('td', p)


def dt(kind, p, tz=NONE):
    return T('dt', kind, p, tz)


def is_date(v):
    return isinstance(v, Term) and v.op in ('td', 'dt', 'secs')


def kind_of(v):
    return 'td' if v.op == 'td' else 'num' if v.op == 'secs' else v.args[1 - 1]


def utc(v):
    kind, p, tz = v.args
    return p if tz is NONE else psub(p, T('tzoff', tz))


def fdiv(I, a, b):
    """Whole quotient, rounded down; b is not zero."""
    a, b = known(I, a), known(I, b)
    ca, cb = pconst(a), pconst(b)
    if ca is not None and cb is not None:
        return K(ca // cb)
    q = pdiv_exact(a, b)
    if q is not None and I.is_int(q):
        return q
    if cb is not None and cb < 0:
        return fdiv(I, pneg(a), pneg(b))
    out, rest = ZERO, ZERO
    for m, c in pmonos(a):
        t = K(c)
        for x in m:
            t = pmul(t, x)
        if cb is not None:
            k, r = divmod(c, cb)
            if 2 * r > cb and m:
                k, r = k + 1, r - cb
            part = K(k)
            for x in m:
                part = pmul(part, x)
            out, t = padd(out, part), K(r)
            for x in m:
                t = pmul(t, x)
        elif m:
            q = pdiv_exact(t, b)
            if q is not None and I.is_int(q):
                out, t = padd(out, q), ZERO
        rest = padd(rest, t)
    if rest is ZERO:
        return out
    for k in (0, -1, 1):
        low = psub(rest, pmul(K(k), b))
        if I.surely_ge0(low) and I.surely_ge0(psub(psub(b, ONE), low)):
            return padd(out, K(k))
        if I.surely_ge0(pneg(low)) and I.surely_ge0(psub(psub(low, b), ONE)):
            return padd(out, K(k))
    return padd(out, T('fdiv', rest, b))


def fmod(I, a, b):
    return psub(a, pmul(known(I, b), fdiv(I, a, b)))


def known(I, p, done=()):
    """p with the equations of the path that fix one quantity put in (each quantity once)."""
    for a, b in list(I.all_facts()):
        if b and a.op == 'eq0' and I.is_int(a.args[0]):
            for mono, c in pmonos(a.args[0]):
                if len(mono) == 1 and c in (1, -1) and mono[0].op == 'in' and mono[0] not in done and occurs(mono[0], p):
                    rest = psub(a.args[0], pmul(K(c), mono[0]))
                    if not occurs(mono[0], rest) and not any(occurs(x, rest) for x in done):
                        return known(I, subst(p, {mono[0]: pneg(rest) if c == 1 else rest}), done + (mono[0],))
    return p


def nonzero(I, b, node, ctx):
    if pconst(b) == 0 or pconst(b) is None and not (I.surely_ge0(psub(b, ONE)) or I.surely_ge0(psub(pneg(b), ONE))) and I.truth(T('cond', I.eq0(b), 'pos')):
        I.throw('ZeroDivisionError', node, ctx, 'op')


def binop(I, t, a, b, node, ctx):
    ka, kb = [kind_of(x) if is_date(x) else 'int' if x.op == 'poly' or is_knum(x) or I.kind(x).split(':')[0] in ('num', 'int', 'nat') else None for x in (a, b)]
    if a.op == 'secs' or b.op == 'secs':
        return secs_op(I, t, a, b, node, ctx)
    if ka == 'td' and kb == 'td':
        p, q = a.args[0], b.args[0]
        if t is ast.Add:
            return td(padd(p, q))
        if t is ast.Sub:
            return td(psub(p, q))
        if t in (ast.FloorDiv, ast.Mod):
            nonzero(I, q, node, ctx)
            return fdiv(I, p, q) if t is ast.FloorDiv else td(fmod(I, p, q))
        if t is ast.Div:
            nonzero(I, q, node, ctx)
            q1 = pdiv_exact(p, q)
            return T('ratio', p, q) if q1 is None else q1
    elif ka == 'td' and kb == 'int' or ka == 'int' and kb == 'td':
        x, n = (a, b) if ka == 'td' else (b, a)
        if not I.is_int(n):
            raise Undecided('a time span times or over a number that is not whole')
        if t is ast.Mult:
            return td(pmul(x.args[0], n))
        if t is ast.FloorDiv and ka == 'td':
            nonzero(I, n, node, ctx)
            return td(fdiv(I, x.args[0], n))
        if t is ast.Div and ka == 'td' and pdiv_exact(x.args[0], n) is not None:
            return td(pdiv_exact(x.args[0], n))
        if t is ast.Div and ka == 'td':
            raise Undecided('a time span divided by a number')
    elif ka in ('date', 'datetime') and kb == 'td' and t in (ast.Add, ast.Sub) or ka == 'td' and kb in ('date', 'datetime') and t is ast.Add:
        x, s = (a, b) if ka != 'td' else (b, a)
        p = s.args[0] if t is ast.Add else pneg(s.args[0])
        if x.args[0] == 'date':
            p = pmul(K(DAY), fdiv(I, s.args[0], K(DAY))) if t is ast.Add else pneg(pmul(K(DAY), fdiv(I, s.args[0], K(DAY))))
        return dt(x.args[0], padd(x.args[1], p), x.args[2])
    elif ka == kb and ka in ('date', 'datetime') and t is ast.Sub and (a.args[2] is NONE) == (b.args[2] is NONE):
        return td(psub(a.args[1], b.args[1]) if a.args[2] is b.args[2] else psub(utc(a), utc(b)))
    elif None in (ka, kb):
        x = b if ka else a
        if x.op in NOT_A_DATE or I.kind(x).split(':')[0] in ('str', 'seq', 'map', 'bool'):
            I.throw('TypeError', node, ctx, 'op')
        raise Undecided('an operator on a date and %s' % show(b if ka else a)[:60])
    I.throw('TypeError', node, ctx, 'op')


def secs_op(I, t, a, b, node, ctx):
    """total_seconds(): a number of seconds, kept in whole microseconds."""
    def us(x):
        if x.op == 'secs':
            return x.args[0]
        c = pconst(x) if is_knum(x) or x.op == 'poly' else None
        if c is not None and c * SECOND == int(c * SECOND):
            return K(int(c * SECOND))
        if I.is_int(x):
            return pmul(x, K(SECOND))
        raise Undecided('seconds combined with %s' % show(x)[:60])
    if t in (ast.Add, ast.Sub):
        return T('secs', (padd if t is ast.Add else psub)(us(a), us(b)))
    if t is ast.Mult:
        x, n = (a, b) if a.op == 'secs' else (b, a)
        if n.op != 'secs' and I.is_int(n):
            c = pconst(n)
            return pmul(x.args[0], K(c // SECOND)) if c is not None and c % SECOND == 0 else T('secs', pmul(x.args[0], n))
    if t in (ast.FloorDiv, ast.Mod):
        nonzero(I, us(b), node, ctx)
        return fdiv(I, us(a), us(b)) if t is ast.FloorDiv else T('secs', fmod(I, us(a), us(b)))
    if t is ast.Div:
        q = pdiv_exact(us(a), us(b)) if us(b) is not ZERO else None
        return T('ratio', us(a), us(b)) if q is None else q
    raise Undecided('arithmetic on seconds')


def neg(v):
    return T(v.op, pneg(v.args[0])) if v.op in ('td', 'secs') else None


def absolute(I, v):
    p = v.args[0]
    return T(v.op, pneg(p) if I.truth(I.cond_gt0(pneg(p))) else p)


def eq(I, a, b):
    if not (is_date(a) and is_date(b)):
        if 'secs' in (a.op, b.op):
            x, n = (a, b) if a.op == 'secs' else (b, a)
            c = pconst(n) if is_knum(n) or n.op == 'poly' else None
            if c is not None:
                d = psub(x.args[0], K(int(c * SECOND)))
                return zero(I, d)
            raise Undecided('seconds compared with %s' % show(n)[:60])
        x = b if is_date(a) else a
        if x.op in ('k', 'ref', 'tup', 'flist', 'fn', 'cls', 'ext', 'poly', 'fstr', 'slice') or I.kind(x).split(':')[0] in ('int', 'nat', 'num', 'str', 'seq', 'bool', 'map'):
            return FALSE
        return None
    if a.op != b.op:
        return FALSE
    if a.op == 'dt':
        if a.args[0] != b.args[0] or (a.args[2] is NONE) != (b.args[2] is NONE):
            return FALSE
        return zero(I, psub(a.args[1], b.args[1]) if a.args[2] is b.args[2] else psub(utc(a), utc(b)))
    return zero(I, psub(a.args[0], b.args[0]))


def zero(I, d):
    c = pconst(d)
    if c is not None:
        return K(c == 0)
    if I.surely_ge0(psub(d, ONE)) or I.surely_ge0(psub(pneg(d), ONE)):
        return FALSE
    parts = apart(I, known(I, d))
    if parts is not None:
        # m * whole + rest with |rest| < m is zero only if both are
        for x in parts:
            if not I.truth(zero(I, x)):
                return FALSE
        return TRUE
    return T('cond', I.eq0(d), 'pos')


def apart(I, d):
    monos = pmonos(d)
    big = [(m, c) for m, c in monos if any(x.op == 'fdiv' for x in m)]
    g = 0
    for _, c in big:
        g = gcd(g, int(c)) if c == int(c) else 1
    if g < 2:
        return None
    whole, rest = ZERO, ZERO
    for m, c in monos:
        t = K(c if (m, c) not in big else c // g)
        for x in m:
            t = pmul(t, x)
        whole, rest = (padd(whole, t), rest) if (m, c) in big else (whole, padd(rest, t))
    for k in (0, 1, -1):
        r = psub(rest, K(k * g))
        if r is not ZERO and I.surely_ge0(padd(r, K(g - 1))) and I.surely_ge0(psub(K(g - 1), r)):
            return r, padd(whole, K(k))
    return None


def order(I, t, a, b, node, ctx):
    """a t b as a condition, or TypeError."""
    if a.op == 'secs' or b.op == 'secs':
        d = secs_op(I, ast.Sub, b, a, node, ctx).args[0]
    elif not (is_date(a) and is_date(b)) or a.op != b.op or a.op == 'dt' and (a.args[0] != b.args[0] or (a.args[2] is NONE) != (b.args[2] is NONE)):
        x = b if is_date(a) else a
        if not is_date(x) and I.kind(x) == 'any' and x.op not in ('k', 'ref', 'tup', 'flist', 'fn', 'cls', 'ext', 'poly', 'fstr', 'slice'):
            raise Undecided('a date compared with an unknown value')
        I.throw('TypeError', node, ctx, 'op')
    else:
        d = psub(b.args[0], a.args[0]) if a.op == 'td' else psub(b.args[1], a.args[1]) if a.args[2] is b.args[2] else psub(utc(b), utc(a))
    # d = b - a
    if t is ast.Lt:
        return gt0(I, d)
    if t is ast.Gt:
        return gt0(I, pneg(d))
    if t is ast.LtE:
        return I.notv(gt0(I, pneg(d)))
    return I.notv(gt0(I, d))


def gt0(I, d):
    c = pconst(d)
    if c is None:
        if I.surely_ge0(psub(d, ONE)):
            return TRUE
        if I.surely_ge0(pneg(d)):
            return FALSE
    return I.cond_gt0(d)


def truth(I, v):
    if v.op == 'dt':
        return True
    return not I.truth(zero(I, v.args[0]))


NOT_A_DATE = ('k', 'tup', 'flist', 'fdict', 'fn', 'cls', 'ext', 'fstr', 'slice')
FIELDS = {'hour': (3600 * SECOND, 24), 'minute': (60 * SECOND, 60), 'second': (SECOND, 60), 'microsecond': (1, SECOND)}
CLS = {'date': _d.date, 'datetime': _d.datetime, 'time': _d.time, 'td': _d.timedelta}


def has(v, name):
    return hasattr(float if v.op == 'secs' else CLS[kind_of(v)], name)


def attr(I, v, name, node, ctx):
    if not has(v, name):
        I.throw('AttributeError', node, ctx, 'lang')
    if name == '__class__':
        return type_of(v)
    if v.op == 'td':
        p = v.args[0]
        if name == 'days':
            return fdiv(I, p, K(DAY))
        if name == 'seconds':
            return fdiv(I, fmod(I, p, K(DAY)), K(SECOND))
        if name == 'microseconds':
            return fmod(I, p, K(SECOND))
    if v.op == 'dt':
        kind, p, tz = v.args
        if name == 'tzinfo' and kind != 'date':
            return tz
        if name in FIELDS and kind != 'date':
            unit, top = FIELDS[name]
            return fdiv(I, fmod(I, p, K(unit * top)), K(unit))
        if name in ('year', 'month', 'day') and kind != 'time':
            return T('dtfield', name, fdiv(I, p, K(DAY)))
        if name in ('min', 'max', 'resolution', 'fold'):
            return T('attr', v, name)
    return T('bm', v, T('ext', 'opaque.' + name))


def method(I, v, meth, pos, kw, node, ctx):
    vs = I.vals(pos)
    if v.op == 'secs':
        if meth == 'is_integer':
            return zero(I, fmod(I, v.args[0], K(SECOND)))
        raise Undecided('float.%s' % meth)
    if v.op == 'td':
        if meth == 'total_seconds':
            return T('secs', v.args[0])
    else:
        kind, p, tz = v.args
        if kind == 'datetime' and not vs and not kw:
            if meth == 'timetz':
                return dt('time', fmod(I, p, K(DAY)), tz)
            if meth == 'time':
                return dt('time', fmod(I, p, K(DAY)))
            if meth == 'date':
                return dt('date', psub(p, fmod(I, p, K(DAY))))
        if meth == 'toordinal':
            return fdiv(I, p, K(DAY))
        if meth == 'utcoffset':
            return NONE if tz is NONE or kind == 'date' else td(T('tzoff', tz))
        if meth == 'replace' and not vs and kind != 'date':
            d = I.kwd(kw)
            if set(d) == {'tzinfo'}:
                return dt(kind, p, d['tzinfo'])
    binops = {'__add__': ast.Add, '__radd__': ast.Add, '__sub__': ast.Sub, '__mul__': ast.Mult, '__rmul__': ast.Mult, '__floordiv__': ast.FloorDiv, '__mod__': ast.Mod}
    if meth in binops and len(vs) == 1:
        return binop(I, binops[meth], v, vs[0], node, ctx)
    if meth == '__eq__' and len(vs) == 1:
        return eq(I, v, vs[0])
    if meth == '__hash__':
        return T('hash', canon(v))
    return T('app', T('meth', canon(v), meth), tuple(I.freeze(s) for s in pos), tuple(I.freeze(s) for s in kw))


def type_of(v):
    return T('ext', 'builtins.float' if v.op == 'secs' else NUM % {'td': 'timedelta'}.get(kind_of(v), kind_of(v)))


def isinstance_of(v, name):
    short = name.rsplit('.', 1)[-1]
    if v.op == 'secs':
        return short in ('float', 'Number', 'Real', 'object')
    up = {'td': ('timedelta',), 'date': ('date',), 'datetime': ('datetime', 'date'), 'time': ('time',)}[kind_of(v)]
    return name == 'builtins.object' or short == 'Hashable' or name.startswith('datetime.') and short in up


def canon(v):
    """One form for values that are equal (for hashing)."""
    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x.op == 'dt' and x.args[2] is not NONE:
            return T('dt', x.args[0], utc(x), T('utc'))
        if x.op not in ('tup', 'pytup', 'seq', 'flist', 's1', 'fset') or not any(s.op == 'dt' for s in subterms(x)):
            return x
        return T(x.op, *[go(y) for y in x.args])
    return go(v)


def consts(vs):
    return all(is_knum(x) for x in vs)


def construct(I, name, pos, kw, node, ctx):
    vs, d = I.vals(pos), I.kwd(kw)
    if name == 'timedelta':
        order_ = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
        if len(vs) > len(order_):
            I.throw('TypeError', node, ctx, 'op')
        for k, v in zip(order_, vs):
            d[k] = v
        p = ZERO
        for k, v in d.items():
            if isinstance(k, str) and k not in UNITS:
                I.throw('TypeError', node, ctx, 'op')
            if v.op == 'k' and not is_knum(v) and not isinstance(kv(v), bool):
                I.throw('TypeError', node, ctx, 'op')
            if v.op == 'secs' and k == 'seconds':
                p = padd(p, v.args[0])
            elif is_knum(v) and isinstance(kv(v), float) or v.op == 'ratio':
                us = UNITS[k] * kv(v) if v.op == 'k' else None
                if us is None or us != int(us):
                    raise Undecided('a time span of a fractional number')
                p = padd(p, K(int(us)))
            elif v.op == 'cond':
                p = padd(p, K(UNITS[k]) if I.truth(v) else ZERO)
            elif I.is_int(v):
                p = padd(p, pmul(K(UNITS[k]), v))
            else:
                p = padd(p, T('tdus', k, I.freeze(v)))
        return td(p)
    if name == 'combine':
        names = ('date', 'time', 'tzinfo')
        for k, v in zip(names, vs):
            d[k] = v
        day, clock = d.get('date'), d.get('time')
        if day is None or clock is None or day.op != 'dt' or clock.op != 'dt' or day.args[0] == 'time' or clock.args[0] != 'time':
            if day is not None and clock is not None and all(is_date(x) or x.op in ('k', 'poly', 'tup') for x in (day, clock)):
                I.throw('TypeError', node, ctx, 'op')
            raise Undecided('combine of %s and %s' % (show(day)[:40], show(clock)[:40]))
        p = psub(day.args[1], fmod(I, day.args[1], K(DAY))) if day.args[0] == 'datetime' else day.args[1]
        return dt('datetime', padd(p, clock.args[1]), d.get('tzinfo', clock.args[2]))
    tz = d.pop('tzinfo', NONE)
    names = {'date': ('year', 'month', 'day'), 'datetime': ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo'),
             'time': ('hour', 'minute', 'second', 'microsecond', 'tzinfo')}[name]
    for k, v in zip(names, vs):
        d[k] = v
    tz = d.pop('tzinfo', tz)
    if consts(d.values()):
        try:
            x = CLS[name](**{k: kv(v) for k, v in d.items()})
        except TypeError:
            I.throw('TypeError', node, ctx, 'op')
        except ValueError:
            I.throw('ValueError', node, ctx, 'op')
        p = 0 if name == 'time' else x.toordinal() * DAY
        if name != 'date':
            p += ((x.hour * 60 + x.minute) * 60 + x.second) * SECOND + x.microsecond
        return dt(name, K(p), tz)
    if name == 'time':
        p = ZERO
        for k, v in d.items():
            if k not in FIELDS or not I.is_int(v):
                raise Undecided('a time of unknown parts')
            p = padd(p, pmul(K(FIELDS[k][0]), v))
        return dt('time', p, tz)
    raise Undecided('a date of unknown parts')


def fromiso(I, kind, pos, node, ctx):
    v = I.val(pos, 0)
    if is_date(v) or v.op == 'poly' or v.op == 'k' and not isinstance(kv(v), str):
        I.throw('TypeError', node, ctx, 'op')
    if v.op == 'k':
        try:
            x = CLS[kind].fromisoformat(kv(v))
        except ValueError:
            I.throw('ValueError', node, ctx, 'op')
        p = 0 if kind == 'time' else x.toordinal() * DAY
        if kind != 'date':
            p += ((x.hour * 60 + x.minute) * 60 + x.second) * SECOND + x.microsecond
        return dt(kind, K(p), T('tz', str(x.tzinfo)) if getattr(x, 'tzinfo', None) else NONE)
    known_ = {k: I.query(T('iso', k, v)) for k in CLS}
    if known_['date'] is True and kind == 'datetime':
        return parsed(kind, v)
    # no text stands for a time of day and for a date or datetime as well
    if known_['time'] is True and kind != 'time' or kind == 'time' and True in (known_['date'], known_['datetime']) or known_['datetime'] is False and kind == 'date':
        I.throw('ValueError', node, ctx, 'op')
    if not I.choose(T('iso', kind, v)):
        I.throw('ValueError', node, ctx, 'op')
    return parsed(kind, v)


def parsed(kind, text):
    n = T('isoval', kind, text)
    return dt(kind, pmul(K(DAY), n) if kind == 'date' else n)
