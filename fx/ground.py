"""Small instances of abstract summaries.

Two summaries that are not equal as terms may still denote the same value (a
loop with its first round peeled off, say).  Before a difference is reported as
a violation, both summaries are evaluated, as terms, on small instances of
their free quantities that satisfy the path condition; unknown values and
functions stay uninterpreted.  A difference is reported only with such an
instance as its witness.  Nothing of the analysed program is executed.
"""
import math

from .terms import *   # noqa

LIMIT = 300


class NoValue(Exception):
    """The term has no value on this instance (or none this evaluator knows)."""


class Rejected(Exception):
    """The instance does not satisfy the path condition."""


def mix(*xs):
    h = 1469598103
    for x in xs:
        for ch in str(x):
            h = ((h ^ ord(ch)) * 16777619) & 0xffffffff
    h ^= h >> 13
    h = (h * 2654435761) & 0xffffffff
    return h ^ (h >> 16)


class Ground:
    def __init__(self, w, seed, facts):
        self.w, self.seed = w, seed
        self.table = {}
        self.memo = {}
        self.steps = 0
        self.defs = {}
        self.load(facts)

    def load(self, facts):
        later = []
        for a, b in facts:
            if mentions(a, lambda t: t.op in ('ix', 'pre', 'spre', 'loop', 'loopn', 'wph', 'while')):
                continue
            if a.op in ('eq0', 'gt0'):
                later.append((a, b))
                continue
            try:
                k = self.atomkey(a, {})
            except NoValue:
                continue
            if self.table.get(k, b) != b:
                raise Rejected()
            self.table[k] = b
        # quantities fixed by an equation take the value it gives them
        for a, b in later:
            if b and a.op == 'eq0':
                self.solve(a.args[0])
        for a, b in later:
            try:
                v = self.atom(a, {})
            except NoValue:
                continue
            if v != b:
                raise Rejected()

    def solve(self, p):
        for mono, c in pmonos(p):
            if len(mono) == 1 and c in (1, -1) and self.base(mono[0]):
                x = mono[0]
                rest = psub(p, pmul(K(c), x))
                if occurs(x, rest) or x in self.defs or any(occurs(x, d) for d in self.defs.values()):
                    continue
                if any(y in subterms(rest) for y in self.defs):
                    continue
                self.defs[x] = pneg(rest) if c == 1 else rest
                self.memo.clear()
                return

    def base(self, t):
        return t.op in ('in', 'out', 'elem', 'len', 'attr', 'mval', 'exitval')

    # ------------------------------------------------------------ numbers
    def isnum(self, t):
        if is_knum(t):
            return t.args[0] != 'bool'
        if t.op == 'poly':
            return True
        if t.op in ('k', 'ref', 'tup', 'flist', 'fn', 'cls', 'ext', 'bm', 'fdict', 'cond', 'seq'):
            return False
        return self.w.kind(t).split(':')[0] in ('num', 'nat', 'int', 'td', 'dt', 'date', 'datetime', 'time')

    def pick(self, t, h):
        k = self.w.kind(t).split(':')[0]
        r = mix(self.seed, repr(h))
        if t.op in ('len', 'nuniq') or k == 'nat' or self.w.kind(t) == 'num:int' and t.op == 'count':
            return r % 4
        if k in ('num',) and t.op == 'elem':
            return r % 5
        return r % 9 - 3

    def num(self, v):
        """A number for a value: itself, or one picked for an unknown."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, tuple) and v and v[0] == 'h':
            return mix(self.seed, 'n', repr(v)) % 7
        raise NoValue('not a number')

    # ------------------------------------------------------------ terms
    def ev(self, t, env):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return ('py',) + tuple(self.ev(x, env) for x in t)
            return ('raw', str(t))
        if t in env:
            return env[t]
        if t in self.defs:
            return self.ev(self.defs[t], env)
        bound = tuple((b, v) for b, v in env.items() if occurs(b, t))
        key = (t, bound)
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, NoValue):
                raise r
            return r
        self.steps += 1
        if self.steps > 60000:
            raise NoValue('too large')
        try:
            r = self.ev1(t, dict(bound))
        except NoValue as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def ev1(self, t, env):
        op, a = t.op, t.args
        if op == 'k':
            return a[1] if a[0] in ('int', 'float', 'bool', 'str', 'NoneType', 'bytes') else ('h', 'k', str(a))
        if op == 'poly':
            tot = 0
            for mono, c in a[0]:
                p = c
                for x in mono:
                    p = p * self.num(self.ev(x, env))
                tot += p
            return tot
        if op == 'cond':
            r = self.atom(a[0], env)
            return r if a[1] == 'pos' else not r
        if op in ('seq', 'flist', 'tup', 'pytup', 'fset', 'fiter') and (op != 'fiter'):
            return ('tup' if op == 'tup' else 'list' if op == 'flist' else 'pt' if op == 'pytup' else 'seq',) + tuple(
                self.segs(a[0], env) if op != 'pytup' else [self.ev(x, env) for x in a])
        if op == 'elem':
            i = self.num(self.ev(a[1], env))
            return self.item(t, a[0], i, env)
        if op == 'mkey' or op == 'mval':
            i = self.num(self.ev(a[1], env))
            src = self.ev(a[0], env)
            h = ('h', op, src, i)
            return self.pick(t, h) if self.isnum(t) else h
        if op == 'len':
            v = self.ev(a[0], env)
            if isinstance(v, str):
                return len(v)
            if isinstance(v, tuple) and v and v[0] in ('list', 'tup', 'seq'):
                return len(v) - 1
            return self.pick(t, ('h', 'len', v))
        if op == 'count':
            c = self.w.dom_count(a[0])
            if c is not None and c is not t:
                return self.num(self.ev(c, env))
            if a[0].op == 'rg':
                lo, hi, st = [self.num(self.ev(x, env)) for x in a[0].args]
                return len(range(lo, hi, st))
            raise NoValue('count')
        if op == 'max0':
            return max(0, self.num(self.ev(a[0], env)))
        if op == 'clip':
            x, n = self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env))
            return max(0, min(x, n)) if x >= 0 else max(0, x + n)
        if op in ('fdiv', 'fmod'):
            x, y = self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env))
            if y == 0:
                raise NoValue('division by zero')
            return x // y if op == 'fdiv' else x % y
        if op == 'minmax':
            v = self.ev(a[1], env)
            kw = self.ev(a[2], env) if len(a) > 2 else ()
            vs = v[1:] if isinstance(v, tuple) and v and v[0] in ('seq', 'py', 'list', 'tup') else None
            if kw in ((), ('py',)) and vs and all(isinstance(x, (int, float)) for x in vs):
                return (min if a[0] == 'min' else max)(vs)
            return ('h', op, str(a[0]), v, kw)
        if op in ('sum1', 'sumc', 'psum', 'psumc'):
            dom, body, bv = a[0], a[1], a[2]
            if op[0] == 'p':
                n = self.num(self.ev(a[3], env))
            else:
                n = self.domn(dom, env)
            if n > LIMIT:
                raise NoValue('too large')
            tot = 0
            for i in range(n):
                e2 = dict(env)
                e2[bv] = i
                if op in ('sum1', 'psum'):
                    p = 1
                    for x in body:
                        p *= self.num(self.ev(x, e2))
                else:
                    p = self.num(self.case(body, e2, 0))
                tot += p
            return tot
        if op in ('chr', 'ord'):
            v = self.ev(a[0], env)
            if op == 'chr' and isinstance(v, int) and not isinstance(v, bool):
                return chr(v)
            if op == 'ord' and isinstance(v, str) and len(v) == 1:
                return ord(v)
            return ('h', op, v)
        if op == 'extcall' and str(a[0]) == 'builtins.dict.fromkeys':
            v = self.ev(a[1][0], env)
            if isinstance(v, tuple) and v and v[0] in ('list', 'tup', 'seq'):
                return ('seq',) + tuple({repr(x): x for x in reversed(v[1:])}[r] for r in dict.fromkeys(repr(x) for x in v[1:]))
            raise NoValue('keys')
        if op == 'nuniq':
            return len({repr(x) for x in self.segs(a[0], env)})
        if op == 'join':
            return self.text(self.ev(a[0], env), self.segs(a[1], env))
        if op == 'concat':
            return self.text('', [self.ev(x, env) for x in a])
        if op == 'fold':
            dom, init, cs, bv = a
            acc = self.ev(init, env)
            n = self.domn(dom, env)
            for i in range(n):
                e2 = dict(env)
                e2[bv] = i
                e2[T('self')] = acc
                acc = self.case(cs, e2, acc)
            return acc
        if op == 'prev':
            return self.ev(a[0] if self.num(self.ev(a[2], env)) == 0 else a[1], env)
        if op == 'carried':
            dom, init, cs, bv, at = a
            acc = self.ev(init, env)
            n = self.num(self.ev(at, env))
            if n > LIMIT:
                raise NoValue('too large')
            for i in range(n):
                e2 = dict(env)
                e2[bv] = i
                e2[T('self')] = acc
                acc = self.case(cs, e2, acc)
            return acc
        if op == 'accum' and len(a) >= 3 and a[1] == () and a[2] == ():
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] in ('list', 'tup', 'seq'):
                out = []
                for x in v[1:]:
                    x = self.num(x)
                    out.append(out[-1] + x if out else x)
                return ('seq',) + tuple(out)
            return ('h', op, v)
        if op == 'sorted' and a[1] is NONE:
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] in ('list', 'tup', 'seq') and all(isinstance(x, (int, float)) for x in v[1:]):
                return ('seq',) + tuple(sorted(v[1:], reverse=a[2] is TRUE))
        if op == 'reversed':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v[0] in ('list', 'tup', 'seq'):
                return ('seq',) + v[:0:-1]
            return ('h', op, v)
        if op == 'strof' and len(a) == 2:
            v = self.ev(a[1], env)
            # different values may look alike
            return ('h', op, str(a[0]), mix(self.seed, repr(v)) % 3 if self.seed % 4 == 1 and isinstance(v, tuple) else v)
        if op in ('bv', 'ix', 'pre', 'spre', 'wph', 'wix', 'lastval', 'exitval', 'havoc', 'unknown', 'chunk', 'loop', 'loopn', 'while', 'upto', 'self',
                  'forever', 'each', 'rep', 'sp', 'rg', 'inf', 'growpre', 'finx'):
            raise NoValue(op)
        if op == 'in' or op == 'ref':
            h = ('h', op, str(a[0]))
        else:
            h = ('h', op) + tuple(self.ev(x, env) if isinstance(x, (Term, tuple)) else str(x) for x in a)
        if self.isnum(t):
            return self.pick(t, h)
        return h

    def text(self, sep, parts):
        out = []
        for i, p in enumerate(parts):
            if i and sep != '':
                out.append(sep)
            if isinstance(p, tuple) and p and p[0] == 'text':
                out.extend(p[1:])
            else:
                out.append(p)
        flat = []
        for p in out:
            if p == '':
                continue
            if flat and isinstance(p, str) and isinstance(flat[-1], str):
                flat[-1] += p
            else:
                flat.append(p)
        if not flat:
            return ''
        if len(flat) == 1 and isinstance(flat[0], (str, tuple)):
            return flat[0]
        return ('text',) + tuple(flat)

    def item(self, t, src, i, env):
        if src.op in ('seq', 'flist', 'tup') and any(s.op == 'forever' for s in src.args[0]):
            vals = self.segs(src.args[0], env, want=i + 1)
        else:
            v = self.ev(src, env)
            if isinstance(v, tuple) and v and v[0] in ('list', 'tup', 'seq'):
                vals = v[1:]
            elif isinstance(v, str):
                vals = v
            else:
                h = ('h', 'elem', v, i)
                if self.isnum(t):
                    return self.pick(t, h)
                # some instances have equal values in different places
                return ('h', 'val', v, mix(self.seed, repr(h)) % 3) if self.seed % 3 == 0 and isinstance(i, int) else h
        if not isinstance(i, int) or not 0 <= i < len(vals):
            raise NoValue('index out of range')
        return vals[i]

    def domn(self, dom, env):
        if dom.op == 'upto':
            raise NoValue('upto')
        c = self.w.dom_count(dom)
        if c is None:
            raise NoValue('endless')
        n = self.num(self.ev(c, env))
        if not isinstance(n, int) or n > LIMIT:
            raise NoValue('too large')
        return max(n, 0)

    def case(self, cases, env, default):
        hit = None
        for g, p in cases:
            if all(self.atom(x, env) == b for x, b in g):
                return self.ev(p, env) if isinstance(p, Term) else p
        return default

    def segs(self, segs, env, want=None):
        out = []
        for s in segs:
            if want is not None and len(out) >= want:
                break
            a = s.args
            if s.op == 's1':
                out.append(self.ev(a[0], env))
            elif s.op == 'sp':
                lo, hi = self.num(self.ev(a[1], env)), self.num(self.ev(a[2], env))
                if not isinstance(hi, int) or not isinstance(lo, int) or hi - lo > LIMIT:
                    raise NoValue('too large')
                out.extend(self.item(T('elem', a[0], a[1]), a[0], i, env) for i in range(lo, hi))
            elif s.op == 'rg':
                lo, hi, st = [self.num(self.ev(x, env)) for x in a]
                r = range(lo, hi, st)
                if len(r) > LIMIT:
                    raise NoValue('too large')
                out.extend(r)
            elif s.op == 'rep':
                n = self.num(self.ev(a[1], env))
                if n > LIMIT:
                    raise NoValue('too large')
                for _ in range(n):
                    out.extend(self.segs(a[0], env))
            elif s.op in ('each', 'trloop'):
                dom, bv, cases = a
                for i in range(self.domn(dom, env)):
                    e2 = dict(env)
                    e2[bv] = i
                    for g, p in cases:
                        if all(self.atom(x, e2) == b for x, b in g):
                            if s.op == 'trloop':
                                p = p[1] if isinstance(p, tuple) else ()
                            out.extend(self.segs(p, e2))
                            break
            elif s.op == 'forever':
                if want is None:
                    raise NoValue('endless')
                one = self.segs(a[0], env)
                if not one:
                    raise NoValue('empty endless')
                while len(out) < want:
                    out.extend(one)
            elif s.op == 'tr':
                out.append(('tr',) + tuple(self.ev(x, env) if isinstance(x, (Term, tuple)) else str(x) for x in a))
            else:
                raise NoValue(s.op)
        return out

    # ------------------------------------------------------------ conditions
    def atomkey(self, a, env):
        return (a.op,) + tuple(self.ev(x, env) if isinstance(x, (Term, tuple)) else str(x) for x in a.args)

    def atom(self, a, env):
        if a.op in ('eq0', 'gt0'):
            v = self.num(self.ev(a.args[0], env))
            return v == 0 if a.op == 'eq0' else v > 0
        if a.op == 'true':
            return True
        if a.op == 'contains':
            v = self.ev(a.args[1], env)
            if isinstance(v, tuple) and v and v[0] in ('list', 'tup', 'seq'):
                return self.ev(a.args[0], env) in v[1:]
        k = self.atomkey(a, env)
        if k in self.table:
            return self.table[k]
        if a.op == 'isnone':
            if k[1] is None:
                return True
            if not (isinstance(k[1], tuple) and k[1] and k[1][0] == 'h'):
                return False
        if a.op == 'eq' and k[1] == k[2]:
            return True
        if a.op == 'eq' and self.seed % 3 == 0 and all(isinstance(x, tuple) and x[:2] == ('h', 'val') for x in k[1:3]):
            return False
        return bool(mix(self.seed, 'b', repr(k)) & 1)


def witness(w, a, b, facts, tries=120, need=40):
    """('differ', instance) / ('agree', count) / ('none', reason) / ('empty', ''): no instance of the path was found."""
    agree, why, seed, used = 0, '', 0, 0
    while used < tries and seed < 4000:
        seed += 1
        try:
            g = Ground(w, seed, facts)
        except Rejected:
            continue
        except (NoValue, RecursionError, OverflowError, TypeError, ZeroDivisionError, KeyError, ValueError) as e:
            why, used = type(e).__name__, used + 1
            continue
        used += 1
        try:
            x = g.ev(a, {})
            y = g.ev(b, {})
        except (NoValue, RecursionError, OverflowError, TypeError, ZeroDivisionError, KeyError, ValueError) as e:
            why = '%s %s' % (type(e).__name__, e)
            continue
        if x != y:
            return 'differ', (x, y)
        agree += 1
        if agree >= need:
            break
    if not used:
        return 'empty', ''
    return ('agree', agree) if agree else ('none', why)
