"""Normal forms of arithmetic formulas: sums of products of powers.

The value of a pure numeric computation, as a term over its inputs, is brought
to the form  sum c * a1^e1 * ... * exp(u)  with exact coefficients and formulas
as exponents, so that two ways of writing one curve meet in the same form
(products of exponentials merge, divisions are negative powers, roots are
fractional ones, log-gamma and factorial are one function).  Rounding of
floating-point arithmetic is ignored.  Bases are taken to be positive wherever
a fractional power is formed (means and deviations are documented as positive).

Two formulas whose normal forms differ are told apart only by a witness: a
choice of numbers for the inputs at which the two formulas, evaluated as
terms, have clearly different values.
"""
import builtins
import itertools
import math
from fractions import Fraction

from .terms import *   # noqa


class NoForm(Exception):
    pass


class F:
    """A sum of monomials: {monomial: coefficient}; a monomial maps bases to exponents (both hashable)."""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = frozenset((m, c) for m, c in d.items() if c)
        self._h = hash(self.d)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, F) and self.d == o.d

    def items(self):
        return self.d

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1:
            (m, c), = self.d
            if not m:
                return c
        return None

    def __repr__(self):
        return ' + '.join('%s%s' % (c, ''.join('*%s^(%r)' % (show(a) if isinstance(a, Term) else a, e) for a, e in m)) for m, c in self.d) or '0'


def num(c):
    return F({frozenset(): Fraction(c)})


def base(a, e=None):
    return F({frozenset([(a, e if e is not None else num(1))]): Fraction(1)})


def add(x, y, k=1):
    d = dict(x.items())
    for m, c in y.items():
        d[m] = d.get(m, 0) + k * c
    return F(d)


def times_mono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = add(d[a], e) if a in d else e
    c = Fraction(1)
    for a in list(d):
        k = d[a].const()
        if k == 0:
            del d[a]
        elif isinstance(a, tuple) and a[0] == 'num' and k is not None and k.denominator == 1:
            c *= Fraction(a[1]) ** int(k)
            del d[a]
    return frozenset(d.items()), c


def mul(x, y):
    d = {}
    if len(x.d) * len(y.d) > 400:
        raise NoForm()
    for m, c in x.items():
        for n, k in y.items():
            p, q = times_mono(m, n)
            d[p] = d.get(p, 0) + c * k * q
    return F(d)


def power(x, e):
    k = e.const()
    if k == 0:
        return num(1)
    if k == 1:
        return x
    if len(x.d) == 1:
        (m, c), = x.d
        r = num(1)
        if c != 1:
            if k is not None and k.denominator == 1:
                r = num(c ** int(k)) if abs(k) < 200 else base(('num', c), e)
            else:
                if c < 0:
                    raise NoForm()
                for part, sgn in ((c.numerator, 1), (c.denominator, -1)):
                    if part != 1:
                        r = mul(r, base(('num', Fraction(part)), e if sgn > 0 else mul(num(-1), e)))
        for a, u in m:
            r = mul(r, expo(mul(u, e)) if a == 'e' else base(a, mul(u, e)))
        return r
    if not x.d:
        if k is not None and k > 0:
            return x
        raise NoForm()
    if k is not None and k.denominator == 1 and 0 < k <= 8:
        r = num(1)
        for _ in range(int(k)):
            r = mul(r, x)
        return r
    lead = max((c for m, c in x.items()), key=lambda c: (abs(c), c))
    if lead < 0 and (k is None or k.denominator != 1):
        lead = -lead
    whole = F({m: c / lead for m, c in x.items()})
    return mul(power(num(lead), e), base(('sum', whole), e))


def expo(u):
    """exp(u): the parts of u that are multiples of a logarithm are powers."""
    rest, r = {}, num(1)
    for m, c in u.items():
        logs = [a for a, e in m if isinstance(a, tuple) and a[0] == 'log' and e.const() == 1]
        if len(logs) == 1:
            others = F({frozenset((a, e) for a, e in m if a != logs[0]): c})
            r = mul(r, power(logs[0][1], others))
        else:
            rest[m] = c
    rest = F(rest)
    return mul(r, base('e', rest)) if rest.d else r


def log(u):
    if len(u.d) == 1:
        (m, c), = u.d
        if c == 1:
            r = num(0)
            for a, e in m:
                r = add(r, e if a == 'e' else mul(e, base(('log', base(a)))))
            return r
    return base(('log', u))


def fact(u):
    k = u.const()
    if k is not None and k.denominator == 1 and 0 <= k < 100:
        return num(math.factorial(int(k)))
    # n! over whole offsets: n! = n * (n-1)!
    off = dict(u.items()).get(frozenset(), Fraction(0))
    r = num(1)
    if off.denominator == 1 and 0 < off < 8:
        while off > 0:
            r = mul(r, u)
            u = add(u, num(-1))
            off -= 1
    elif off.denominator == 1 and -8 < off < 0:
        while off < 0:
            u = add(u, num(1))
            r = mul(r, power(u, num(-1)))
            off += 1
    return mul(r, base(('fact', u)))


def form(t):
    """The normal form of a term."""
    if t.op == 'k':
        v = t.args[1]
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != math.inf:
            return num(Fraction(v))
        raise NoForm()
    if t.op == 'poly':
        r = num(0)
        for mono, c in pmonos(t):
            p = num(Fraction(c))
            for a in mono:
                p = mul(p, form(a))
            r = add(r, p)
        return r
    if t.op == 'op' and len(t.args) == 3:
        o, a, b = t.args
        if o == 'Div':
            return mul(form(a), power(form(b), num(-1)))
        if o == 'Pow':
            return power(form(a), form(b))
    if t.op == 'math':
        nm, a = t.args
        if nm == 'exp' and len(a) == 1:
            return expo(form(a[0]))
        if nm == 'sqrt' and len(a) == 1:
            return power(form(a[0]), num(Fraction(1, 2)))
        if nm == 'pow' and len(a) == 2:
            return power(form(a[0]), form(a[1]))
        if nm == 'log' and len(a) == 1:
            return log(form(a[0]))
        if nm == 'factorial' and len(a) == 1:
            return fact(form(a[0]))
        if nm == 'gamma' and len(a) == 1:
            return fact(add(form(a[0]), num(-1)))
        if nm == 'lgamma' and len(a) == 1:
            return log(fact(add(form(a[0]), num(-1))))
    if t.op == 'ext':
        if t.args[0] == 'math.tau':
            return mul(num(2), base(T('ext', 'math.pi')))
        if t.args[0] == 'math.e':
            return base('e', num(1))
    return base(t)


def same(a, b):
    try:
        return form(a) == form(b)
    except NoForm:
        return False


# ---------------------------------------------------------------- witnesses

class NoNumber(Exception):
    pass


def number(t, env):
    if t in env:
        return env[t]
    if t.op == 'k':
        if isinstance(t.args[1], (int, float)):
            return t.args[1]
        raise NoNumber()
    if t.op == 'poly':
        r = 0
        for mono, c in pmonos(t):
            p = c
            for a in mono:
                p = p * number(a, env)
            r = r + p
        return float(r) if isinstance(r, Fraction) else r
    if t.op == 'op' and len(t.args) == 3:
        o, a, b = t.args
        f = {'Div': lambda x, y: x / y, 'Pow': lambda x, y: x ** y, 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y}.get(o)
        if f:
            return f(number(a, env), number(b, env))
    if t.op == 'minmax' and isinstance(t.args[1], tuple) and not t.args[2]:
        return (min if t.args[0] == 'min' else max)(number(a, env) for a in t.args[1])
    if t.op in ('abs', 'round') and all(isinstance(a, Term) for a in t.args):
        return getattr(builtins, t.op)(*[number(a, env) for a in t.args])
    if t.op == 'math' and t.args[0] in ('exp', 'sqrt', 'pow', 'log', 'factorial', 'gamma', 'lgamma', 'fabs', 'erf', 'erfc', 'floor', 'ceil'):
        return getattr(math, t.args[0])(*[number(a, env) for a in t.args[1]])
    if t.op == 'ext' and t.args[0] in ('math.pi', 'math.e', 'math.tau'):
        return getattr(math, t.args[0][5:])
    raise NoNumber()


def holds(facts, env):
    """Do the (atom, truth) facts about the numbers hold there?  None: some fact is about something else."""
    known = True
    for a, b in facts:
        if not any(x in env for x in subterms(a)):
            continue
        if a.op not in ('gt0', 'eq0'):
            known = None
            continue
        try:
            v = number(a.args[0], env)
        except (NoNumber, ArithmeticError, ValueError, TypeError):
            known = None
            continue
        if isinstance(v, complex):
            return False
        if (v > 0 if a.op == 'gt0' else v == 0) != b:
            return False
        if a.op == 'gt0' and 0 < abs(v) < 1e-9:
            return False
    return known


def witness(got, want, grid, facts):
    """Numbers for the inputs, satisfying the facts, at which the two formulas differ."""
    names = list(grid)
    for pick in itertools.product(*grid.values()):
        env = dict(zip(names, pick))
        if holds(facts, env) is not True:
            continue
        try:
            x, y = number(got, env), want(env)
        except (NoNumber, ArithmeticError, ValueError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) > 1e-6 * max(abs(x), abs(y), 1e-3):
            return ', '.join('%s=%s' % (show(k), v) for k, v in env.items()) + ': %.6g instead of %.6g' % (x, y)
    return None
