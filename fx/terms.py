"""Interned terms: the value-numbering domain of the abstract interpreter.

Every abstract value, sequence segment and branch atom is an interned ``Term``
(op, args); structural equality is identity.  Numbers are kept as polynomials
over opaque terms in a canonical form, sequences as tuples of segments.
"""

_TAB = {}


class Term:
    __slots__ = ('op', 'args', 'n', '_subs')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def T(op, *args):
    key = (op, args)
    t = _TAB.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.n = len(_TAB)
        t._subs = None
        _TAB[key] = t
    return t


def K(v):
    return T('k', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ZERO = K(0)
ONE = K(1)


def is_k(t):
    return t.op == 'k'


def kv(t):
    return t.args[1]


def is_knum(t):
    return t.op == 'k' and t.args[0] in ('int', 'float', 'bool')


# ---------------------------------------------------------------- show

def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, Term):
        return str(t)
    if depth > 30:
        return '..'
    d = depth + 1
    a = t.args
    if t.op == 'k':
        return repr(a[1])
    if t.op == 'in':
        return a[0]
    if t.op == 'poly':
        out = []
        for mono, c in a[0]:
            m = '*'.join(show(x, d) for x in mono)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(m)
            elif c == -1:
                out.append('-' + m)
            else:
                out.append('%s*%s' % (c, m))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if t.op == 'elem':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if t.op == 'ix':
        return 'i%s' % ("'" * a[0])
    if t.op == 's1':
        return show(a[0], d)
    if t.op == 'sp':
        return '*%s[%s:%s]' % tuple(show(x, d) for x in a)
    if t.op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if t.op == 'each':
        return 'each %s: %s' % (show(a[0], d), ' | '.join(
            (('[' + ' & '.join(('' if b else 'not ') + show(g, d) for g, b in gs) + '] ') if gs else '')
            + show(segs, d) for gs, segs in a[2]))
    return '%s(%s)' % (t.op, ', '.join(show(x, d) for x in a))


# ---------------------------------------------------------------- traversal

def subterms(t):
    """All terms occurring in t (cached frozenset)."""
    if isinstance(t, tuple):
        s = set()
        for x in t:
            s |= subterms(x)
        return s
    if not isinstance(t, Term):
        return frozenset()
    if t._subs is None:
        s = {t}
        for x in t.args:
            if isinstance(x, (Term, tuple)):
                s |= subterms(x)
        t._subs = frozenset(s)
    return t._subs


def mentions(t, pred):
    return any(pred(s) for s in subterms(t))


def occurs(x, t):
    return x in subterms(t)


def subst(t, m):
    """Replace terms by terms everywhere (rebuilding polynomials)."""
    if not m:
        return t
    memo = {}
    keys = set(m)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        if x in m:
            r = m[x]
        elif not (subterms(x) & keys):
            r = x
        elif x.op == 'poly':
            r = ZERO
            for mono, c in x.args[0]:
                p = K(c)
                for a in mono:
                    p = pmul(p, go(a))
                r = padd(r, p)
        elif x.op == 'uset':
            r = uset(go(y) for y in x.args)
        elif x.op in CASES_AT:
            args = [go(y) for y in x.args]
            i = CASES_AT[x.op]
            if i < len(args):
                args[i] = sort_cases(args[i])
            r = T(x.op, *args)
        else:
            r = T(x.op, *[go(y) for y in x.args])
        memo[x] = r
        return r
    return go(t)


CASES_AT = {'each': 2, 'trloop': 2, 'fold': 2, 'carried': 2, 'lastval': 1, 'sumc': 1, 'psumc': 1, 'cases': 0, 'stc': 0}


def uset(ts):
    """An unordered collection of terms."""
    return T('uset', *sorted(set(ts), key=lambda t: t.n))


def sort_cases(cs):
    if not isinstance(cs, tuple) or not all(isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], tuple) for c in cs):
        return cs
    cs = [(tuple(sorted(g, key=lambda ab: (ab[0].n, ab[1]))), p) for g, p in cs]
    cs.sort(key=lambda gp: tuple((a.n, b) for a, b in gp[0]))
    return tuple(cs)


# ---------------------------------------------------------------- polynomials

def _pdict(t):
    if t.op == 'k' and t.args[0] in ('int', 'float', 'bool'):
        v = t.args[1]
        if t.args[0] == 'bool':
            v = int(v)
        return {(): v} if v != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {(t,): 1}


def _pmake(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return T('poly', tuple(sorted(d.items(), key=lambda mc: tuple(a.n for a in mc[0]))))


def padd(a, b):
    d = _pdict(a)
    for m, c in _pdict(b).items():
        d[m] = d.get(m, 0) + c
    return _pmake(d)


def pneg(a):
    return _pmake({m: -c for m, c in _pdict(a).items()})


def psub(a, b):
    return padd(a, pneg(b))


def pmul(a, b):
    d = {}
    for m1, c1 in _pdict(a).items():
        for m2, c2 in _pdict(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.n))
            d[m] = d.get(m, 0) + c1 * c2
    return _pmake(d)


def pconst(t):
    """The numeric constant t stands for, or None."""
    if is_knum(t):
        return int(t.args[1]) if t.args[0] == 'bool' else t.args[1]
    return None


def pdiv_exact(p, s):
    """q with p == q*s as polynomials (s a single opaque term), or None."""
    if p == ZERO:
        return ZERO
    if s.op in ('poly', 'k'):
        # try p == c*s or p = x*s for polynomial s by leading-term division
        ps, pp = _pdict(s), _pdict(p)
        if len(ps) == 1:
            (m, c), = ps.items()
            out = {}
            for mm, cc in pp.items():
                rest = list(mm)
                for a in m:
                    if a not in rest:
                        return None
                    rest.remove(a)
                if cc % c:
                    return None
                out[tuple(rest)] = cc // c
            return _pmake(out)
        return None
    out = {}
    for m, c in _pdict(p).items():
        if s not in m:
            return None
        rest = list(m)
        rest.remove(s)
        out[tuple(rest)] = c
    return _pmake(out)


def pmonos(t):
    return list(_pdict(t).items())


# ---------------------------------------------------------------- sequences
# segments:  s1(v)                one element
#            sp(src, lo, hi)      elements lo..hi of the opaque sequence src
#            rep(segs, n)         segs repeated n times
#            each(dom, ix, cases) for every index ix of dom: the segments of the
#                                 case whose guards hold
#            forever(segs)        segs repeated without end
#            spre(...)            contents before the current loop

def s1(v):
    return T('s1', v)


def tup(*vals):
    return T('tup', tuple(s1(v) for v in vals))


def tup_segs(segs):
    return T('tup', tuple(segs))


def merge_cases(cases):
    """Drop guards that do not matter: cases = [(frozenset((atom,bool)), payload)]."""
    cs = {}
    for g, p in cases:
        cs.setdefault(p, set()).add(frozenset(g))
    out = []
    for p, gs in cs.items():
        gs = set(gs)
        changed = True
        while changed:
            changed = False
            for g in list(gs):
                for atom, b in g:
                    other = (g - {(atom, b)}) | {(atom, not b)}
                    if other in gs:
                        gs.discard(g)
                        gs.discard(other)
                        gs.add(g - {(atom, b)})
                        changed = True
                        break
                if changed:
                    break
            # absorb supersets
            for g in list(gs):
                if any(h < g for h in gs):
                    gs.discard(g)
                    changed = True
        for g in gs:
            out.append((tuple(sorted(g, key=lambda ab: (ab[0].n, ab[1]))), p))
    out.sort(key=lambda gp: tuple((a.n, b) for a, b in gp[0]))
    return tuple(out)


class Undecided(Exception):
    pass
