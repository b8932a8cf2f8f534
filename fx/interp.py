"""Interprocedural abstract interpreter over the resolved program.

Abstract domain: value numbering (fx.terms) + heap of allocation-site objects +
segment domain for sequences + polynomial domain for numbers + ordered effect
events + typestate records for opaque collaborators.  Control flow is
trace-partitioned on branch atoms; loops are summarised for an arbitrary number
of iterations (havoc / re-analyse until the set of modified locations is stable,
then accumulate), never unrolled over unknown sequences.
"""
import ast
from collections import namedtuple

from .terms import *          # noqa
from . import dates
from .terms import _pdict
from .linear import contradictory
from .program import AnalysisBroken, ClassInfo, FuncInfo, Program, Prop

Ev = namedtuple('Ev', 'kind target name args kw result loc')


DATED = ('td', 'dt', 'secs')


class Infeasible(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class InfiniteEx(Exception):
    """Control cannot leave a loop (used for endless generators)."""


class PyRaise(Exception):
    """exc: ref to an exception object (kind 'exc')."""
    def __init__(self, exc, cls, loc, origin):
        self.exc, self.cls, self.loc, self.origin = exc, cls, loc, origin


EXC_PARENT = {
    'StopIteration': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'NameError': 'Exception', 'AssertionError': 'Exception',
    'UnicodeError': 'ValueError', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'OSError': 'Exception',
    'Exception': 'BaseException', 'GeneratorExit': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'Warning': 'Exception', 'DeprecationWarning': 'Warning', 'UserWarning': 'Warning', 'FutureWarning': 'Warning',
    'PendingDeprecationWarning': 'Warning', 'UnboundLocalError': 'NameError', 'FrozenInstanceError': 'AttributeError',
}


def exc_is(c, h):
    while c is not None:
        if c == h:
            return True
        c = EXC_PARENT.get(c)
    return False


class Obj:
    __slots__ = ('kind', 'cls', 'attrs', 'segs', 'pos', 'meta')

    def __init__(self, kind, cls=None, attrs=None, segs=None, pos=None, meta=None):
        self.kind, self.cls = kind, cls
        self.attrs = attrs if attrs is not None else {}
        self.segs, self.pos = segs, pos
        self.meta = meta if meta is not None else {}

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.attrs), self.segs, self.pos, dict(self.meta))


class Attrs(Obj):
    """The __dict__ of an instance: a dict whose entries are its attributes."""
    __slots__ = ('interp', 'owner')

    def __init__(self, interp, owner):
        self.kind, self.cls, self.attrs, self.pos, self.meta = 'dict', None, {}, None, {}
        self.interp, self.owner = interp, owner

    @property
    def segs(self):
        return tuple(s1(tup(K(k), x)) for k, x in self.interp.heap[self.owner].attrs.items())

    @segs.setter
    def segs(self, segs):
        d = {}
        for s in segs:
            k = self.interp.entry_key(s) if s.op == 's1' else None
            if k is None or k.op != 'k' or not isinstance(kv(k), str):
                raise Undecided('attributes of unknown names')
            d[kv(k)] = self.interp.entry_val(s)
        self.interp.heap[self.owner].attrs = d

    def copy(self):
        return Attrs(self.interp, self.owner)


class Level:
    def __init__(self, prefix, scope=None):
        self.prefix = list(prefix)
        self.decisions = []          # (atom, bool)
        self.facts = {}
        self.scope = scope           # None: everything; else predicate on atoms


class Ctx:
    """Where the interpreter is (frame id)."""
    __slots__ = ('fid', 'fn', 'mod')

    def __init__(self, fid, fn, mod):
        self.fid, self.fn, self.mod = fid, fn, mod


class Path:
    def __init__(self, decisions, outcome, value, interp_state):
        self.decisions, self.outcome, self.value, self.state = decisions, outcome, value, interp_state


# attributes of opaque collaborators that do not change when they are called
FN_ATTRS = ('__name__', '__call__', '__doc__', '__qualname__', '__defaults__', '__kwdefaults__', '__code__', '__module__', '__annotations__', '__dict__', '__get__')
CONFIG_ATTRS = {'name', 'hide', 'multi_valued', 'items', 'value', 'replace_only_after_call', 'replace', 'noun', 'function',
                'emitters', 'reset_after_call', 'emitter', 'repeat_emitter', 'gate_emitter', '__name__', 'signature'}
PROTO = {
    'emitter': {'num_unique_values', 'emits_unique_values', 'reset', '__call__'},
    'field': {'multi_valued', 'name', 'hide', 'reset', 'previous', '__call__'},
}
ABSENT = {'function'}     # on plain emitters/fields never present


def changes(s, names):
    """A top-level statement that changes the object one of the names stands for."""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        f = s.value.func
        return isinstance(f.value, ast.Name) and f.value.id in names and f.attr in (
            'update', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem')
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, ast.Name) and s.target.id in names or (
            isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name) and s.target.value.id in names)
    if isinstance(s, (ast.Assign, ast.Delete)):
        return any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names for t in s.targets)
    if isinstance(s, (ast.For, ast.While, ast.With)):
        return any(changes(x, names) for x in ast.walk(s) if isinstance(x, ast.stmt) and x is not s)
    return False


class Interp:
    MAXPATHS = 3000

    def __init__(self, program, budget=400000):
        self.p = program
        self.fns = {}
        self.limit = budget
        self.stats = {'paths': 0, 'calls': 0, 'loops': 0, 'funcs': set(), 'forks': 0, 'steps': 0}
        self.reset_state()

    # ------------------------------------------------------------ state
    def reset_state(self):
        self.heap = {}
        self.next_id = 1
        self.hist = {}
        self.events = []
        self.statics = {}
        self.levels = []
        self.active = []
        self.handlers = []
        self.dry = 0
        self.exc_stack = []
        self.depth = 0
        self.notes = []
        self.shared_zone = 0
        self.binding_now = []
        self.nonneg = set()
        self.numph = set()
        self.notnum = set()
        self.collect = True
        self.opaque_raises = False
        self.assumed = {}
        self.pinned = {}

    def snapshot(self):
        return ({i: o.copy() for i, o in self.heap.items()}, dict(self.hist), list(self.events), dict(self.statics), self.next_id)

    def restore(self, s):
        self.heap = {i: o.copy() for i, o in s[0].items()}
        self.hist = dict(s[1])
        self.events = list(s[2])
        self.statics = dict(s[3])
        # next_id keeps growing: ids stay unique across sibling paths

    def new(self, obj):
        i = self.next_id
        self.next_id += 1
        self.heap[i] = obj
        if self.shared_zone:
            obj.meta['shared'] = True
        return T('ref', i)

    def deref(self, v):
        return self.heap[v.args[0]]

    def new_list(self, segs=()):
        return self.new(Obj('list', segs=tuple(segs)))

    def new_dict(self, segs=()):
        return self.new(Obj('dict', segs=tuple(segs)))

    def loc(self, node, ctx):
        m = ctx.mod
        return '%s:%d' % (self.p.rel(m.path), getattr(node, 'lineno', 0)) + (' (%s)' % ctx.fn.qual if ctx.fn else '')

    def event(self, kind, target, name, args=(), kw=(), result=None, loc=''):
        self.events.append(Ev(kind, target, name, tuple(args), tuple(kw), result, loc))

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        """Run fn once per trace partition; returns list of Path."""
        out = []
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.reset_state()
            lvl = Level(prefix)
            self.levels = [lvl]
            self.cur = (None, None)
            try:
                val = fn()
                outcome = 'normal'
            except PyRaise as e:
                val, outcome = e, 'raise'
            except Infeasible:
                val, outcome = None, 'infeasible'
            except RecursionError:
                raise Undecided('recursion too deep')
            for i in range(len(prefix), len(lvl.decisions)):
                a, b = lvl.decisions[i]
                if a is not None:
                    stack.append([x for x in lvl.decisions[:i]] + [(a, not b)])
            if outcome != 'infeasible':
                out.append(Path(list(lvl.decisions), outcome, val, None))
                self.stats['paths'] += 1
            if len(out) + len(stack) > self.MAXPATHS:
                raise Undecided('too many trace partitions (> %d)' % self.MAXPATHS)
        return out

    def sub_explore(self, body, scope):
        """Trace partitions of one generic loop iteration, from the current state."""
        base = self.snapshot()
        out = []
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.restore(base)
            self.events = []
            lvl = Level(prefix, scope)
            self.levels.append(lvl)
            depth, hs, ex = self.depth, list(self.handlers), list(self.exc_stack)
            outcome, val = 'normal', None
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                outcome = 'break'
            except ReturnEx as e:
                outcome, val = 'return', e.value
            except PyRaise as e:
                outcome, val = 'raise', e
            except InfiniteEx:
                outcome = 'infinite'
            except Infeasible:
                outcome = 'infeasible'
            finally:
                self.levels.pop()
                self.depth, self.handlers, self.exc_stack = depth, hs, ex
            for i in range(len(prefix), len(lvl.decisions)):
                a, b = lvl.decisions[i]
                stack.append(lvl.decisions[:i] + [(a, not b)])
            if outcome != 'infeasible':
                out.append((list(lvl.decisions), outcome, val, self.snapshot(), lvl))
            if len(out) > 300:
                raise Undecided('too many cases in a loop body')
        self.restore(base)
        return out

    def choose(self, atom):
        """Branch on an atom not decided by the known facts."""
        q = self.query(atom)
        if q is not None:
            return q
        lvl = None
        if self.dry:
            lvl = self.levels[-1]
        else:
            for L in reversed(self.levels):
                if L.scope is None or L.scope(atom):
                    lvl = L
                    break
        i = len(lvl.decisions)
        if i < len(lvl.prefix):
            a, b = lvl.prefix[i]
            if a is not atom:
                # nondeterministic replay: should not happen
                raise Undecided('replay mismatch: %s vs %s' % (show(a), show(atom)))
        else:
            b = True
            self.stats['forks'] += 1
        lvl.decisions.append((atom, b))
        lvl.facts[atom] = b
        return b

    def assume(self, atom, b):
        q = self.query(atom)
        if q is None:
            self.levels[-1].facts[atom] = b
        elif q != b:
            raise Infeasible()

    def fact(self, atom):
        for L in reversed(self.levels):
            if atom in L.facts:
                return L.facts[atom]
        return None

    def all_facts(self):
        for L in self.levels:
            yield from L.facts.items()

    # ------------------------------------------------------------ atom inference
    def query(self, atom):
        f = self.fact(atom)
        if f is not None:
            return f
        op = atom.op
        if op == 'gt0':
            return self.entail_gt0(atom.args[0])
        if op == 'eq0':
            p = atom.args[0]
            if self.entail_gt0(p) is True or self.entail_gt0(pneg(p)) is True:
                return False
            if self.entail_gt0(p) is False and self.entail_gt0(pneg(p)) is False:
                return True
            return None
        if op == 'isnone':
            x = atom.args[0]
            if self.fact(T('true', x)) is True:
                return False
            if self.kind_notnone(x):
                return False
            for a, b in self.all_facts():
                if b and a.op == 'isinst' and a.args[0] is x:
                    return False
                if b and a.op == 'has' and a.args[0] is x:
                    return False
            return None
        if op == 'true':
            x = atom.args[0]
            if self.fact(T('isnone', x)) is True:
                return False
            return None
        if op == 'isinst':
            x, c = atom.args
            if self.fact(T('isnone', x)) is True:
                return False
            if c in self.p.classes and any(not b and f.op == 'has' and f.args[0] is x and self.p.classes[c].gives(f.args[1]) for f, b in self.all_facts()):
                return False
            for sub, sup in (('datetime.datetime', 'datetime.date'),):
                if c == sup and self.fact(T('isinst', x, sub)) is True:
                    return True
                if c == sub and self.fact(T('isinst', x, sup)) is False:
                    return False
            for grp in (('datetime.date', 'datetime.time', 'datetime.timedelta', 'builtins.str', 'builtins.list', 'builtins.tuple', 'builtins.int'),
                        ('datetime.datetime', 'datetime.time', 'builtins.str')):
                if c in grp:
                    for o in grp:
                        if o != c and self.fact(T('isinst', x, o)) is True:
                            return False
            return None
        if op == 'eq':
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if self.fact(T('isnone', x)) is True and is_k(y) and y is not NONE:
                    return False
            return None
        if op == 'has':
            x, a = atom.args
            k = self.kind(x)
            base = k.split(':')[0]
            if base == 'date':
                return a in ('day', 'month', 'year') or hasattr(__import__('datetime').date, a)
            if base == 'datetime':
                return hasattr(__import__('datetime').datetime, a)
            if base == 'time':
                return hasattr(__import__('datetime').time, a)
            if base == 'td':
                return hasattr(__import__('datetime').timedelta, a)
            if base in PROTO:
                if a in PROTO[base]:
                    return True
                if a in ABSENT:
                    return False
            for f, b in self.all_facts():
                if b and f.op == 'isinst' and f.args[0] is x and f.args[1] in self.p.classes and self.p.classes[f.args[1]].gives(a):
                    return True
            return None
        return None

    def is_nonneg_atom(self, a):
        if a in self.nonneg:
            return True
        if a.op in ('len', 'nuniq', 'count', 'max0', 'ix', 'bv', 'last', 'chunk'):
            return True
        if self.kind(a) in ('nat', 'bool'):
            return True
        if a.op in ('sum1', 'psum'):
            return all(self.is_nonneg_atom(x) for x in a.args[1])
        if a.op in ('sumc', 'psumc'):
            return all(self.nonneg_poly(p) for g, p in a.args[1])
        if a.op == 'clip':
            return True
        return False

    def is_int(self, p):
        for m, c in pmonos(p):
            if isinstance(c, float):
                return False
            for a in m:
                if a.op in ('len', 'nuniq', 'count', 'max0', 'ix', 'sum1', 'exitval', 'clip', 'psum', 'psumc', 'sumc', 'last', 'bv', 'fdiv'):
                    continue
                if self.kind(a) in ('nat', 'int', 'num:int', 'bool'):
                    continue
                return False
        return True

    def constraints(self):
        """Known p >= 0 facts (as (poly, strict?)); integers make strict ones p-1 >= 0."""
        out = []
        for a, b in self.all_facts():
            if a.op == 'gt0':
                p = a.args[0]
                if b:
                    out.append(psub(p, ONE) if self.is_int(p) else p)
                else:
                    out.append(pneg(p))
            elif a.op == 'eq0':
                p = a.args[0]
                if b:
                    out.append(p)
                    out.append(pneg(p))
                elif self.is_int(p):
                    if self.nonneg_poly(p):
                        out.append(psub(p, ONE))
                    elif self.nonneg_poly(pneg(p)):
                        out.append(psub(pneg(p), ONE))
            elif a.op == 'ge0':
                if b:
                    out.append(a.args[0])
        return out

    def nonneg_poly(self, p):
        for m, c in pmonos(p):
            if c < 0:
                return False
            if not all(self.is_nonneg_atom(x) for x in m):
                return False
        return True

    def relax_sums(self, g):
        """Weaken totals to (prefix + current element): sum(f) >= sum(f before i) + f(i) when f >= 0."""
        monos = dict(pmonos(g))
        for m, c in monos.items():
            if c > 0 and len(m) == 1 and m[0].op == 'sum1' and self.is_nonneg_atom(m[0]):
                S = m[0]
                for m2, c2 in monos.items():
                    if c2 < 0 and len(m2) == 1 and m2[0].op == 'psum' and m2[0].args[:3] == S.args:
                        P, at = m2[0], m2[0].args[3]
                        if not (at.op == 'ix' and at.args[1] is S.args[0]):
                            continue
                        f = ONE
                        for a in S.args[1]:
                            f = pmul(f, self.renorm(subst(a, {S.args[2]: at})))
                        k = min(c, -c2)
                        return padd(g, pmul(K(k), psub(padd(P, f), S)))
        return g

    def impossible(self, *more):
        """Do the facts of this path (and p >= 0 for each extra p) contradict each other?"""
        rows, noteq, atoms = [], [], set()

        def lin(p):
            cs, k = {}, 0
            for mono, c in pmonos(p):
                if isinstance(c, float) or c != int(c):
                    return None
                if mono:
                    cs[mono] = cs.get(mono, 0) + int(c)
                else:
                    k += int(c)
            atoms.update(cs)
            return cs, k
        for a, b in self.all_facts():
            if a.op not in ('gt0', 'eq0', 'ge0') or not self.is_int(a.args[0]):
                continue
            r = lin(a.args[0])
            if r is None:
                continue
            neg = ({x: -c for x, c in r[0].items()}, -r[1])
            if a.op == 'gt0':
                rows.append((r[0], r[1] - 1) if b else neg)
            elif a.op == 'ge0':
                rows.append(r if b else (neg[0], neg[1] - 1))
            elif b:
                rows += [r, neg]
            else:
                noteq.append(r)
        for p in more:
            if not self.is_int(p):
                return False
            r = lin(p)
            if r is None:
                return False
            rows.append(r)
        self.quotients(rows, atoms, lin)
        for mono in atoms:
            if all(self.is_nonneg_atom(x) for x in mono):
                rows.append(({mono: 1}, 0))
        return contradictory(rows, noteq)

    def quotients(self, rows, atoms, lin):
        """What rounding down means: 0 <= a - b*(a//b) < b, and what is known of a quotient, times its divisor."""
        done = set()
        for _ in range(3):
            new = {x for mono in atoms for x in mono if x.op == 'fdiv'} - done
            if not new:
                return
            for F in sorted(new):
                done.add(F)
                a, b = F.args
                if not self.is_int(a) or not self.is_int(b):
                    continue
                sign = 1 if self.entail_gt0(b) is True else -1 if self.entail_gt0(pneg(b)) is True else 0
                if not sign:
                    continue
                if sign < 0:
                    a, b = pneg(a), pneg(b)
                rem = psub(a, pmul(b, F))
                extra = [rem, psub(psub(b, ONE), rem)]
                if pconst(b) is None:
                    for cs, k in list(rows):
                        if (F,) in cs and all(len(m) == 1 for m in cs):
                            p = K(k)
                            for m, c in cs.items():
                                p = padd(p, pmul(K(c), m[0]))
                            extra.append(pmul(p, b))
                for p in extra:
                    r = lin(p)
                    if r is not None:
                        rows.append(r)

    def surely_ge0(self, p):
        return self.entail_ge0(p) or self.is_int(p) and self.impossible(psub(pneg(p), ONE))

    def entail_ge0(self, g):
        """g >= 0 from the known linear facts (non-negative combinations of up to two)."""
        if self.nonneg_poly(g):
            return True
        r = self.relax_sums(g)
        if r is not g and self.entail_ge0(r):
            return True
        cs = self.constraints()
        for c in cs:
            if self.nonneg_poly(psub(g, c)):
                return True
        n = len(cs)
        if n <= 40:
            for i in range(n):
                gi = psub(g, cs[i])
                for j in range(i, n):
                    if self.nonneg_poly(psub(gi, cs[j])):
                        return True
        return False

    def entail_gt0(self, p):
        c = pconst(p)
        if c is not None:
            return c > 0
        if self.is_int(p):
            if self.entail_ge0(psub(p, ONE)):
                return True
        else:
            # strict: a strict fact q > 0 with p - q >= 0
            for a, b in self.all_facts():
                if a.op == 'gt0' and b and self.nonneg_poly(psub(p, a.args[0])):
                    return True
        if self.entail_ge0(pneg(p)):
            return False
        if p is not ZERO and self.fact(self.eq0(p)) is False and self.entail_ge0(p):
            return True
        return None

    # ------------------------------------------------------------ kinds of opaque terms
    def kind(self, t):
        op = t.op
        if op in DATED:
            return dates.kind_of(t)
        if op == 'attr' and t.args[0].op == 'rslice' and t.args[0].args[3] in (NONE, ONE):
            return 'nat'
        if op in ('tzoff', 'isoval', 'tdus', 'dtfield') or op == 'attr' and t.args[0].op == 'rslice':
            return 'num:int'
        if op == 'ratio':
            return 'num'
        if op == 'in':
            return t.args[1]
        if op == 'pre' and t in self.numph:
            return 'num'
        if op == 'elem':
            return self.elemkind(t.args[0])
        if op == 'mval':
            k = self.kind(t.args[0])
            return k.split(':', 1)[1] if ':' in k else 'any'
        if op == 'mkey':
            return 'str'
        if op == 'out':
            k = self.kind(t.args[0])
            sub = k.split(':', 1)[1] if ':' in k else 'any'
            if k.split(':')[0] == 'field':
                return 'any'
            return sub if t.args[2] is NONE else 'seq:' + sub
        if op == 'poly':
            return self.poly_kind(t)
        if op in ('len', 'nuniq', 'count', 'max0', 'ix', 'sum1', 'sumc', 'psum', 'psumc', 'last', 'bv', 'exitval', 'clip', 'fdiv', 'chunk', 'sum', 'trunc'):
            return 'num:int'
        if op == 'fresh':
            return 'iter'
        if op == 'attr':
            n = t.args[1]
            if n == 'items':
                k = self.kind(t.args[0])
                return 'seq:' + (k.split(':', 1)[1] if ':' in k else 'any')
            if n == 'name':
                return 'str'
            if n in ('hide', 'multi_valued', 'emits_unique_values', 'replace', 'replace_only_after_call'):
                return 'bool'
            return 'any'
        if op in ('cond', 'true', 'isnone', 'eq', 'gt0', 'eq0', 'isinst', 'has', 'contains'):
            return 'bool'
        if op in ('join', 'concat', 'fstr'):
            return 'str'
        if op in ('seq', 'flist', 'sorted', 'reversed', 'accum', 'drawseq'):
            return 'seq'
        if op == 'draw':
            if t.args[1] in ('choices', 'sample'):
                return 'seq'
            return 'any'
        if op == 'date':
            return {'timedelta': 'td', 'combine': 'datetime', 'datetime': 'datetime', 'date': 'date', 'time': 'time',
                    'timetz': 'time'}.get(t.args[0], 'any')
        if op == 'prev':
            return self.kind(t.args[1])
        if op == 'app' and len(t.args) > 3:
            return t.args[3]
        return 'any'

    DTK = ('date', 'datetime', 'time')

    def poly_kind(self, t):
        dts, tds, other = [], False, False
        for m, c in pmonos(t):
            ks = [self.kind(a) for a in m]
            d = [k for k in ks if k in self.DTK or k == 'dt']
            if d:
                if len(m) == 1 and c in (1, -1):
                    dts.append((d[0], c))
                else:
                    other = True
            elif 'td' in ks:
                tds = True
            else:
                other = True
        if len(dts) == 1 and dts[0][1] == 1 and not other:
            return dts[0][0]
        if len(dts) == 2 and dts[0][1] == -dts[1][1] and not other:
            return 'td'
        if tds and not dts and not other:
            return 'td'
        return 'num:int'

    def elemkind(self, src):
        if src.op == 'sp':
            return self.elemkind(src.args[0])
        if src.op == 'draw':
            pop = src.args[2]
            for x in pop:
                if isinstance(x, Term) and x.op in ('flist', 'ftup', 'seq'):
                    segs = x.args[0]
                    if len(segs) == 1 and segs[0].op == 'rg':
                        return 'int'
                break
            return 'any'
        k = self.kind(src)
        if k.startswith('seq:') or k.startswith('iter:'):
            return k.split(':', 1)[1]
        if src.op == 'fresh':
            return 'any'
        return 'any'

    def kind_notnone(self, x):
        k = self.kind(x).split(':')[0]
        return k in ('emitter', 'field', 'callable', 'factory', 'rng', 'seq', 'num', 'nat', 'int', 'str', 'bool', 'iter', 'map', 'list', 'td', 'dt', 'date', 'datetime', 'time')

    # ------------------------------------------------------------ truth / comparison
    def truth(self, v):
        op = v.op
        if op in DATED:
            return dates.truth(self, v)
        if op == 'k':
            return bool(v.args[1])
        if op == 'cond':
            r = self.choose(v.args[0])
            return r if v.args[1] == 'pos' else not r
        if op == 'ref':
            o = self.deref(v)
            if o.kind in ('list', 'dict', 'set'):
                return self.truth_len(o.segs)
            if o.kind == 'inst':
                f = o.cls.find('__bool__')
                if f:
                    return self.truth(self.call_method(v, '__bool__', [], []))
                f = o.cls.find('__len__')
                if f:
                    return self.truth(self.call_method(v, '__len__', [], []))
            return True
        if op in ('tup', 'flist', 'fset', 'fdict'):
            return self.truth_len(v.args[0])
        if op in ('fn', 'cls', 'ext', 'bm', 'mod', 'obj'):
            return True
        if op == 'poly':
            return not self.choose(self.eq0(v))
        if op in ('concat',):
            return self.choose(T('true', v))
        k = self.kind(v).split(':')[0]
        if k in ('emitter', 'field', 'callable', 'factory', 'rng', 'iter'):
            return True
        if k in ('num', 'nat', 'int'):
            return not self.choose(self.eq0(v))
        if k == 'seq':
            return self.truth(self.cond_gt0(self.len_of(v)))
        return self.choose(T('true', v))

    def truth_len(self, segs):
        if not segs:
            return False
        if any(s.op == 's1' for s in segs):
            return True
        return self.truth(self.cond_gt0(self.seq_len(segs)))

    def eq0(self, p):
        q = pneg(p)
        # canonical sign
        p = self.scaled(p)
        q = pneg(p)
        d1, d2 = pmonos(p), pmonos(q)
        lead = sorted(d1, key=lambda mc: tuple(a.n for a in mc[0]))[-1]
        return T('eq0', p if lead[1] > 0 else q)

    def cond_gt0(self, p):
        c = pconst(p)
        if c is not None:
            return K(c > 0)
        return T('cond', T('gt0', self.scaled(p)), 'pos')

    def scaled(self, p):
        """Divide by the (positive) content of the coefficients."""
        ms = pmonos(p)
        if len(ms) == 1:
            (m, c), = ms
            if c not in (1, -1):
                q = ONE
                for a in m:
                    q = pmul(q, a)
                return q if c > 0 else pneg(q)
        elif all(isinstance(c, int) for m, c in ms):
            import math
            g = 0
            for m, c in ms:
                g = math.gcd(g, c)
            if g > 1:
                q = ZERO
                for m, c in ms:
                    t = K(c // g)
                    for a in m:
                        t = pmul(t, a)
                    q = padd(q, t)
                return q
        return p

    def notv(self, v):
        if v.op == 'cond':
            return T('cond', v.args[0], 'neg' if v.args[1] == 'pos' else 'pos')
        if v.op == 'k':
            return K(not v.args[1])
        return K(not self.truth(v))

    def surely_num(self, v):
        return isinstance(v, Term) and (is_knum(v) and v.args[0] != 'bool' or v.op == 'poly' or self.kind(v).split(':')[0] in ('num', 'nat', 'int'))

    def numericish(self, v):
        if is_knum(v) or v.op == 'poly':
            return True
        if v.op in ('k', 'ref', 'tup', 'flist', 'fn', 'cls', 'ext', 'bm', 'fdict'):
            return False
        return self.kind(v).split(':')[0] in ('num', 'nat', 'int', 'td', 'dt', 'date', 'datetime', 'time', 'any', 'bool')

    def eq_cond(self, a, b):
        if a is b:
            return TRUE
        if a.op in DATED or b.op in DATED:
            r = dates.eq(self, a, b)
            if r is not None:
                return r
        if a.op == 'k' and b.op == 'k':
            return K(a.args[1] == b.args[1])
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                return self.isnone_cond(y)
        if a.op == 'ref' or b.op == 'ref':
            return self.eq_ref(a, b)
        if a.op in ('tup', 'flist') and b.op in ('tup', 'flist'):
            if a.op != b.op:
                return FALSE
            return self.eq_segs(a.args[0], b.args[0])
        HARD = ('tup', 'flist', 'fn', 'cls', 'ext', 'bm', 'mod')
        if a.op in HARD and b.op in HARD:
            return FALSE
        ka, kb = self.kind(a).split(':')[0], self.kind(b).split(':')[0]
        if a.op in ('cond',) or b.op in ('cond',) or (ka == 'bool' and kb == 'bool') \
                or (ka == 'bool' and b.op == 'k') or (kb == 'bool' and a.op == 'k'):
            if (ka == 'bool' or a.op in ('cond', 'k')) and (kb == 'bool' or b.op in ('cond', 'k')):
                return K(self.truth(a) == self.truth(b)) if not (a.op == 'k' and not isinstance(kv(a), (bool, int)) or b.op == 'k' and not isinstance(kv(b), (bool, int))) else FALSE
        if (is_knum(a) or a.op == 'poly' or ka in ('num', 'nat', 'int')) and self.numericish(b) or \
           (is_knum(b) or b.op == 'poly' or kb in ('num', 'nat', 'int')) and self.numericish(a):
            d = psub(a, b)
            c = pconst(d)
            if c is not None:
                return K(c == 0)
            return T('cond', self.eq0(d), 'pos')
        x, y = sorted((a, b))
        return T('cond', T('eq', x, y), 'pos')

    def eq_ref(self, a, b):
        # each side is asked in turn (the right one first if it is of a subclass) until one has an answer
        asked = [(x, y) for x, y in ((a, b), (b, a)) if x.op == 'ref' and self.deref(x).kind == 'inst']
        if len(asked) == 2:
            ca, cb = self.deref(a).cls, self.deref(b).cls
            if ca is not cb and ca in cb.mro():
                asked.reverse()
        own = [(x, y) for x, y in asked if isinstance((self.deref(x).cls.find('__eq__') or (0, 0))[1], FuncInfo)]
        for x, y in own:
            r = self.call_method(x, '__eq__', [s1(y)], [])
            if r.op != 'ext':
                return r
        if own:
            return K(a is b)
        if a.op != 'ref':
            a, b = b, a
        o = self.deref(a)
        if o.kind in ('list', 'inst') and (b.op == 'ref' or b.op in ('tup', 'flist')):
            sa = self.maybe_segs(a)
            sb = self.maybe_segs(b)
            if sa is not None and sb is not None and o.kind == 'list':
                return self.eq_segs(sa, sb)
        if o.kind == 'list' and b.op not in ('ref', 'tup', 'k', 'fn', 'cls'):
            # list against an opaque value: decided on its frozen form
            x, y = sorted((self.freeze(a), b))
            return T('cond', T('eq', x, y), 'pos')
        if b.op == 'ref':
            return K(a is b)
        return FALSE

    def eq_segs(self, sa, sb):
        if sa == sb:
            return TRUE
        if all(s.op == 's1' for s in sa) and all(s.op == 's1' for s in sb):
            if len(sa) != len(sb):
                return FALSE
            for x, y in zip(sa, sb):
                if not self.truth(self.eq_cond(x.args[0], y.args[0])):
                    return FALSE
            return TRUE
        x, y = sorted((T('seq', tuple(sa)), T('seq', tuple(sb))))
        return T('cond', T('eq', x, y), 'pos')

    def isnone_cond(self, y):
        if y is NONE:
            return TRUE
        if y.op in ('td', 'dt', 'secs', 'ratio', 'rslice', 'k', 'ref', 'tup', 'flist', 'fn', 'cls', 'ext', 'bm', 'mod', 'poly', 'cond', 'join', 'concat', 'fstr', 'obj', 'signature', 'frng', 'rangev', 'slice',
                    'hash', 'fset', 'fdict'):
            return FALSE
        if self.kind_notnone(y):
            return FALSE
        return T('cond', T('isnone', y), 'pos')

    def compare(self, op, a, b, node, ctx):
        t = type(op)
        if t in (ast.Is, ast.IsNot) and (a.op in DATED or b.op in DATED) and a is not b:
            # two values that came about separately: one object only if something makes them so
            return K(t is ast.IsNot)
        if t in (ast.Eq, ast.Is):
            if t is ast.Is and (a.op == 'ref' or b.op == 'ref'):
                return K(a is b)
            return self.eq_cond(a, b)
        if t in (ast.NotEq, ast.IsNot):
            if t is ast.IsNot and (a.op == 'ref' or b.op == 'ref'):
                return K(a is not b)
            return self.notv(self.eq_cond(a, b))
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b, node, ctx)
            return r if t is ast.In else self.notv(r)
        if a.op == 'k' and b.op == 'k':
            try:
                x, y = kv(a), kv(b)
                return K({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t] if False else
                         (x < y if t is ast.Lt else x <= y if t is ast.LtE else x > y if t is ast.Gt else x >= y))
            except TypeError:
                self.throw('TypeError', node, ctx, 'op')
        if (a is NONE or b is NONE):
            self.throw('TypeError', node, ctx, 'op')
        if a.op in DATED or b.op in DATED:
            return dates.order(self, t, a, b, node, ctx)
        self.event('order', a, t.__name__, (a, b), loc=self.loc(node, ctx))
        self.may_raise(T('cmp', a, b), ['TypeError'], node, ctx)
        if t is ast.Lt:
            return self.cond_gt0(psub(b, a))
        if t is ast.Gt:
            return self.cond_gt0(psub(a, b))
        if t is ast.LtE:
            return self.notv(self.cond_gt0(psub(a, b)))
        return self.notv(self.cond_gt0(psub(b, a)))

    def contains(self, a, b, node, ctx):
        b0 = b
        if b.op == 'ref':
            o = self.deref(b)
            if o.kind == 'inst':
                f = o.cls.find('__contains__')
                if f and isinstance(f[1], FuncInfo):
                    return self.to_bool(self.call_method(b, '__contains__', [s1(a)], []))
        if b.op == 'ref' and self.is_mapping(b):
            segs = self.dict_segs(b)
            keys = [self.entry_key(s) for s in segs if s.op == 's1']
            if len(keys) == len(segs):
                for k in keys:
                    if self.truth(self.eq_cond(k, a)):
                        return TRUE
                return FALSE
            if any(k is a for k in keys):
                return TRUE
            for s in segs:
                el = self.elementwise(s) if s.op != 's1' else None
                if el is not None and el[2].op == 'tup':
                    at = self.unify(el[2].args[0][0].args[0], el[1], a)
                    if at is not None and self.in_dom(at, el[0]):
                        return TRUE
            return T('cond', T('contains', a, self.freeze(b)), 'pos')
        segs = self.maybe_segs(b)
        if segs is not None and segs and all(s.op == 's1' for s in segs):
            for s in segs:
                if self.truth(self.eq_cond(s.args[0], a)):
                    return TRUE
            return FALSE
        if segs is not None and not segs:
            return FALSE
        if segs is not None and len(segs) == 1 and segs[0].op == 'rg':
            lo, hi, st = segs[0].args
            if st is ONE:
                if not self.truth(self.notv(self.cond_gt0(psub(lo, a)))):
                    return FALSE
                return self.cond_gt0(psub(hi, a))
        if b.op == 'rslice' and b.args[3] in (NONE, ONE) and b.args[1].op != 'slice' and self.is_int(a):
            if not self.truth(self.notv(self.cond_gt0(psub(T('attr', b, 'start'), a)))):
                return FALSE
            return self.cond_gt0(psub(T('attr', b, 'stop'), a))
        if b0.op == 'ref' and segs is None:
            return T('cond', T('contains', self.freeze(a), self.freeze(b0)), 'pos')
        return T('cond', T('contains', self.freeze(a), T('seq', segs) if segs is not None else b), 'pos')

    def to_bool(self, v):
        if v.op in ('k',):
            return K(bool(kv(v)))
        if v.op == 'cond':
            return v
        return K(self.truth(v))

    # ------------------------------------------------------------ exceptions
    def make_exc(self, cls, args=()):
        return self.new(Obj('exc', cls=cls, attrs={'args': tup(*args)}))

    def throw(self, cls, node, ctx, origin='lang', args=()):
        e = self.make_exc(cls, args)
        raise PyRaise(e, cls, self.loc(node, ctx), origin)

    def handled(self):
        out = []
        for h in self.handlers:
            for c in h:
                if c not in out:
                    out.append(c)
        return out

    def may_raise(self, what, classes, node, ctx, origin='op'):
        """Inside try statements: branch on whether the operation raises one of the handled classes."""
        hs = self.handled()
        if not hs:
            return
        for c in classes:
            if any(exc_is(c, h) for h in hs):
                if self.choose(T('raises', what, c)):
                    self.throw(c, node, ctx, origin)

    def may_raise_any(self, what, node, ctx, origin):
        if origin == 'opaque' and not self.opaque_raises:
            return
        hs = self.handled()
        for h in hs:
            c = 'ValueError' if h in ('Exception', 'BaseException') else h
            if self.choose(T('raises', what, c)):
                self.throw(c, node, ctx, origin)

    # ------------------------------------------------------------ sequences
    def maybe_segs(self, v):
        """Segments of a sequence-like value without consuming it; None if not a known sequence."""
        op = v.op
        if op in ('tup', 'flist', 'seq', 'fset', 'ftup'):
            return v.args[0]
        if op == 'rangev':
            return self.range_segs(v)
        if op == 'ref':
            o = self.deref(v)
            if o.kind in ('list', 'set'):
                return o.segs
            if o.kind == 'dict':
                return self.keys_segs(o.segs)
            if o.kind == 'inst':
                if self.is_mapping(v):
                    return self.keys_segs(self.dict_segs(v))
                if 'data' in o.attrs and self.is_userlist(o):
                    return self.maybe_segs(o.attrs['data'])
                return None
            return None
        if op == 'k':
            if isinstance(kv(v), str) and len(kv(v)) <= 64:
                return tuple(s1(K(c)) for c in kv(v))
            return None
        if op in ('fn', 'cls', 'ext', 'bm', 'mod', 'poly', 'cond'):
            return None
        k = self.kind(v).split(':')[0]
        if k in ('emitter', 'field', 'callable', 'factory', 'num', 'nat', 'int', 'bool'):
            return None
        if k == 'map':
            return (T('sp', T('mkeys', v), ZERO, T('len', v)),)
        return (T('sp', v, ZERO, self.len_of(v)),)

    def range_segs(self, v):
        lo, hi, st = v.args
        n = self.dom_count(T('rg', lo, hi, st))
        return self.norm_segs((T('rg', lo, padd(lo, pmul(st, n)), st),))

    def is_userlist(self, o):
        return o.kind == 'inst' and any(b in ('collections.UserList', 'builtins.list') for b in o.cls.mro() if isinstance(b, str))

    def is_mapping(self, v):
        if v.op == 'fdict':
            return True
        if v.op != 'ref':
            return self.kind(v).split(':')[0] == 'map' if v.op in ('in',) else False
        o = self.deref(v)
        if o.kind == 'dict':
            return True
        return o.kind == 'inst' and any(b in ('collections.OrderedDict', 'builtins.dict', 'collections.UserDict') for b in o.cls.mro() if isinstance(b, str))

    def dict_segs(self, v):
        """Entry segments ((key, value) tuples) of a mapping."""
        if v.op == 'fdict':
            return v.args[0]
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'dict':
                return o.segs
            if o.kind == 'inst':
                d = o.attrs.get('$d')
                if d is None:
                    return ()
                return self.deref(d).segs
        if self.kind(v).split(':')[0] == 'map':
            return self.norm_segs((T('sp', T('entries', v), ZERO, T('len', v)),))
        segs = self.maybe_segs(v)
        if segs is None:
            raise Undecided('not a mapping: %s' % show(v))
        return segs

    def set_dict_segs(self, v, segs):
        o = self.deref(v)
        if o.kind == 'dict':
            if o.meta.get('shared') and self.collect and not self.shared_zone:
                self.event('mutshared', v, 'dict', (), loc='')
            o.segs = tuple(segs)
        else:
            d = o.attrs.get('$d')
            if d is None:
                o.attrs['$d'] = self.new_dict(segs)
            else:
                self.deref(d).segs = tuple(segs)

    def entry_key(self, seg):
        v = seg.args[0]
        return v.args[0][0].args[0]

    def entry_val(self, seg):
        v = seg.args[0]
        return v.args[0][1].args[0]

    def map_segs(self, segs, f):
        """Element-wise image of segments."""
        out = []
        for s in segs:
            if s.op == 's1':
                out.append(s1(f(s.args[0])))
            elif s.op == 'each':
                dom, ix, cases = self.open_each(s)
                out.append(T('each', dom, ix, tuple((g, self.map_segs(p, f)) for g, p in cases)))
            elif s.op == 'rep':
                out.append(T('rep', self.map_segs(s.args[0], f), s.args[1]))
            elif s.op == 'forever':
                out.append(T('forever', self.map_segs(s.args[0], f)))
            elif s.op in ('sp', 'rg'):
                dom, ix, v = self.elementwise(s)
                out.append(T('each', dom, ix, (((), (s1(f(v)),)),)))
            else:
                out.append(T('mapped', s, f(T('elem', T('seq', (s,)), T('ix', 0, s)))))
        return self.norm_segs(out)

    def keys_segs(self, segs):
        return self.map_segs(segs, lambda v: self.tup_item(v, 0))

    def vals_segs(self, segs):
        return self.map_segs(segs, lambda v: self.tup_item(v, 1))

    def tup_item(self, v, i):
        if v.op == 'tup':
            segs = v.args[0]
            if all(s.op == 's1' for s in segs[:i + 1]) and len(segs) > i:
                return segs[i].args[0]
        return T('elem', v, K(i))

    def fresh_ix(self, dom, *avoid):
        d = sum(1 for x in self.active if x[0] is dom)
        while any(occurs(T('ix', d, dom), a) for a in avoid):
            d += 1
        return T('ix', d, dom)

    def close_ix(self, dom, ix, *bodies):
        """Close bodies over the loop index: (bound variable, closed bodies)."""
        if ix.op == 'bv':
            return (ix,) + bodies
        d = 0
        subs = subterms(bodies)
        while T('bv', d, dom) in subs:
            d += 1
        b = T('bv', d, dom)
        return (b,) + tuple(subst(x, {ix: b}) for x in bodies)

    def open_each(self, s, *avoid):
        dom, bv, cases = s.args
        if bv.op != 'bv':
            return dom, bv, cases
        ix = self.fresh_ix(dom, s, *avoid)
        return dom, ix, subst(cases, {bv: ix})

    def elem_seg(self, src, v, ix):
        """(src, lo) when v is element lo+ix of src, for the loop-invariant lo."""
        if v.op == 'elem':
            base, i = v.args
        elif v.op == 'mkey':
            base, i = T('mkeys', v.args[0]), v.args[1]
        elif v.op == 'tup' and len(v.args[0]) == 2 and all(x.op == 's1' for x in v.args[0]) and v.args[0][0].args[0].op == 'mkey' \
                and v.args[0][1].args[0].op == 'mval' and v.args[0][0].args[0].args == v.args[0][1].args[0].args:
            k = v.args[0][0].args[0]
            base, i = T('entries', k.args[0]), k.args[1]
        else:
            return None
        lo = psub(i, ix)
        if occurs(ix, lo) or occurs(ix, base):
            return None
        return base, lo

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if s.op == 'each' and s.args[1].op == 'bv' and len(s.args[2]) > 1:
                out.append(s)
                continue
            if s.op == 'each':
                dom, ix, cases = self.open_each(s)
                if len(cases) == 1 and cases[0][0] == ():
                    pl = cases[0][1]
                    if pl == ():
                        continue
                    if dom.op == 'repdom' and pconst(dom.args[0]) in (0, 1):
                        out.extend(self.norm_segs(tuple(self.renorm(x) for x in subst(pl, {ix: ZERO}))) if pconst(dom.args[0]) else ())
                        continue
                    if dom.op == 'repdom' and len(pl) == 1 and pl[0].op == 's1':
                        v = pl[0].args[0]
                        es = self.elem_seg(None, v, ix)
                        if es is not None:
                            s = T('sp', es[0], es[1], padd(es[1], dom.args[0]))
                            if out and out[-1].op == 'sp' and out[-1].args[0] is es[0] and out[-1].args[2] is es[1]:
                                prev = out.pop()
                                s = T('sp', es[0], prev.args[1], s.args[2])
                            out.append(s)
                            continue
                        if occurs(ix, v) and v.op in ('poly', 'ix'):
                            lo = subst(v, {ix: ZERO})
                            st = psub(subst(v, {ix: ONE}), lo)
                            if pconst(st) not in (None, 0) and padd(lo, pmul(st, ix)) is v and not occurs(ix, lo):
                                out.append(T('rg', lo, padd(lo, pmul(st, dom.args[0])), st))
                                continue
                    if not occurs(ix, pl):
                        cnt = self.dom_count(dom)
                        if cnt is not None:
                            s = T('rep', pl, cnt)
                elif all(p == () for g, p in cases):
                    continue
                if s.op == 'each':
                    bv, cases = self.close_ix(dom, ix, cases)
                    s = T('each', dom, bv, cases)
            if s.op == 'sp':
                if s.args[1] is s.args[2]:
                    continue
                src = s.args[0]
                width = pconst(psub(s.args[2], s.args[1]))
                if isinstance(width, int) and width <= 8 and src.op != 'countup':
                    out.extend(s1(self.elem(src, padd(s.args[1], K(i)))) for i in range(width))
                    continue
                if src.op in ('seq', 'flist', 'tup') and s.args[1] is ZERO and s.args[2] is self.seq_len(src.args[0]):
                    out.extend(src.args[0])
                    continue
                while out and out[-1].op == 's1' and out[-1].args[0].op == 'elem' and out[-1].args[0] is self.elem(src, psub(s.args[1], ONE)):
                    out.pop()
                    s = T('sp', src, psub(s.args[1], ONE), s.args[2])
                if out and out[-1].op == 'sp' and out[-1].args[0] is src and out[-1].args[2] is s.args[1]:
                    prev = out.pop()
                    out.append(T('sp', src, prev.args[1], s.args[2]))
                    continue
                if src.op == 'seq' and len(src.args[0]) == 1 and src.args[0][0].op == 'forever' and len(src.args[0][0].args[0]) == 1 \
                        and src.args[0][0].args[0][0].op == 's1':
                    out.extend(self.norm_segs((T('rep', src.args[0][0].args[0], psub(s.args[2], s.args[1])),)))
                    continue
                if src.op in ('seq', 'flist', 'tup') and len(src.args[0]) == 1 and src.args[0][0].op in ('each', 'rep', 'rg'):
                    n = psub(s.args[2], s.args[1])
                    dom = T('repdom', n)
                    ix = self.fresh_ix(dom, s)
                    v = self.elem(src, padd(s.args[1], ix))
                    if not (v.op == 'elem' and v.args[0] is src):
                        out.extend(self.norm_segs((T('each', dom, ix, (((), (s1(v),)),)),)))
                        continue
            if s.op == 's1' and s.args[0].op == 'elem' and out and out[-1].op == 'sp' and s.args[0] is T('elem', out[-1].args[0], out[-1].args[2]):
                prev = out.pop()
                out.append(T('sp', prev.args[0], prev.args[1], padd(prev.args[2], ONE)))
                continue
            if s.op == 'each' and s.args[0].op == 'repdom' and isinstance(pconst(s.args[0].args[0]), int) and pconst(s.args[0].args[0]) <= 8:
                dom, ix, cases = self.open_each(s)
                if len(cases) == 1 and cases[0][0] == () and not any(t.op == 'prev' for t in subterms(cases[0][1])):
                    for i in range(pconst(dom.args[0])):
                        out.extend(self.norm_segs(self.renorm(subst(cases[0][1], {ix: K(i)}))))
                    continue
            if s.op == 'rg':
                n = pconst(self.dom_count(s))
                if isinstance(n, int) and n <= 8:
                    out.extend(s1(padd(s.args[0], pmul(s.args[2], K(i)))) for i in range(n))
                    continue
            if s.op == 'rep':
                if not self.entail_ge0(s.args[1]):
                    c = pconst(s.args[1])
                    s = T('rep', s.args[0], K(0) if c is not None else T('max0', s.args[1]))
                c = pconst(s.args[1])
                if s.args[0] == () or c == 0:
                    continue
                if isinstance(c, int) and 1 <= c <= 8:
                    for _ in range(c):
                        out.extend(s.args[0])
                    continue
                if isinstance(c, int) and c < 0:
                    continue
            out.append(s)
        return tuple(out)

    def dom_count(self, dom):
        if dom.op == 'sp':
            return psub(dom.args[2], dom.args[1])
        if dom.op == 'rg':
            lo, hi, st = dom.args
            if st is ONE:
                d = psub(hi, lo)
                if self.entail_ge0(d):
                    return d
                c = pconst(d)
                if c is not None:
                    return K(max(c, 0))
                return T('max0', d)
            if pconst(st) not in (None, 0):
                q = pdiv_exact(psub(hi, lo), st)
                if q is not None:
                    if self.entail_ge0(q):
                        return q
                    c = pconst(q)
                    return T('max0', q) if c is None else K(max(c, 0))
            return T('count', dom)
        if dom.op == 'repdom':
            return dom.args[0]
        if dom.op == 'upto' and False:
            return None
        if dom.op == 'each':
            return T('count', dom)
        if dom.op == 'forever' or dom.op == 'inf':
            return None
        return T('count', dom)

    def seg_len(self, s):
        op = s.op
        if op == 's1':
            return ONE
        if op == 'sp':
            return psub(s.args[2], s.args[1])
        if op == 'rg':
            return self.dom_count(s)
        if op == 'rep':
            return pmul(self.seq_len(s.args[0]), s.args[1])
        if op == 'each':
            dom, ix, cases = self.open_each(s)
            return self.sum_cases(dom, ix, [(g, self.seq_len(p)) for g, p in cases])
        if op == 'forever':
            return T('inf')
        if op == 'mapped':
            return self.seg_len(s.args[0])
        return T('len', s)

    def seq_len(self, segs):
        r = ZERO
        for s in segs:
            r = padd(r, self.seg_len(s))
        return r

    def num_cases(self, cases):
        """Merge guarded numbers; a case under x == 0 folds into its sibling when that agrees at x = 0."""
        cases = merge_cases([(frozenset(g), p) for g, p in cases])
        changed = True
        while changed and len(cases) > 1:
            changed = False
            cs = list(cases)
            for i, (g, p) in enumerate(cs):
                for j, (h, q) in enumerate(cs):
                    if i == j or len(g) != len(h):
                        continue
                    d1, d2 = set(g) - set(h), set(h) - set(g)
                    if len(d1) != 1 or len(d2) != 1:
                        continue
                    (a, x), (b, y) = d1.pop(), d2.pop()
                    if a is b and a.op == 'eq0' and x is False and y is True and a.args[0].op not in ('poly', 'k') \
                            and subst(p, {a.args[0]: ZERO}) is q:
                        rest = [c for k, c in enumerate(cs) if k not in (i, j)]
                        rest.append((tuple(c for c in g if c[0] is not a), p))
                        cases = merge_cases([(frozenset(g_), p_) for g_, p_ in rest])
                        changed = True
                        break
                if changed:
                    break
        return cases

    def sum_cases(self, dom, ix, cases):
        """Total over the domain of a per-index quantity given by guarded cases."""
        cases = self.num_cases(cases)
        if not cases:
            return ZERO
        if len(cases) == 1 and cases[0][0] == () and dom.op == 'repdom' and isinstance(pconst(dom.args[0]), int) and 0 <= pconst(dom.args[0]) <= 8:
            r = ZERO
            for i in range(pconst(dom.args[0])):
                r = padd(r, self.renorm(subst(cases[0][1], {ix: K(i)})))
            return r
        if len(cases) == 1 and cases[0][0] == ():
            r = ZERO
            for m, c in pmonos(cases[0][1]):
                dep = tuple(a for a in m if occurs(ix, a))
                ind = [a for a in m if not occurs(ix, a)]
                base = K(c)
                for a in ind:
                    base = pmul(base, a)
                if dep:
                    bv, dep = self.close_ix(dom, ix, dep)
                    r = padd(r, pmul(base, T('sum1', dom, dep, bv)))
                else:
                    n = self.dom_count(dom)
                    if n is None:
                        n = T('inf')
                    r = padd(r, pmul(base, n))
            return r
        if all(p is ZERO for g, p in cases):
            return ZERO
        bv, c0 = self.close_ix(dom, ix, cases)
        return T('sumc', dom, c0, bv)

    def prefix_sum(self, dom, ix, cases, at):
        """Sum of the per-index quantity over the indices before at."""
        cases = self.num_cases(cases)
        if len(cases) == 1 and cases[0][0] == ():
            r = ZERO
            for m, c in pmonos(cases[0][1]):
                dep = tuple(a for a in m if occurs(ix, a))
                base = K(c)
                for a in m:
                    if not occurs(ix, a):
                        base = pmul(base, a)
                if dep:
                    bv, dep = self.close_ix(dom, ix, dep)
                    r = padd(r, pmul(base, T('psum', dom, dep, bv, at)))
                else:
                    r = padd(r, pmul(base, at))
            return r
        bv, c0 = self.close_ix(dom, ix, cases)
        return T('psumc', dom, c0, bv, at)

    def canon_dom(self, dom):
        return dom

    def len_of(self, v):
        if v.op == 'out':
            n = v.args[2]
            if n is not NONE:
                return n
        if v.op in ('sorted', 'reversed'):
            return self.seq_len(v.args[0].args[0]) if v.args[0].op == 'seq' else T('len', v)
        if v.op in ('seq', 'tup', 'flist', 'fset'):
            return self.seq_len(v.args[0])
        if v.op == 'draw' and v.args[1] in ('choices', 'sample'):
            for a in v.args[3]:
                if a[0] == 'k':
                    return a[1]
            return ONE if v.args[1] == 'choices' else T('len', v)
        if v.op == 'accum':
            return self.seq_len(v.args[0].args[0])
        if v.op == 'rslice':
            return T('len', v)
        if v.op == 'k' and isinstance(kv(v), str):
            return K(len(kv(v)))
        if v.op in ('mkeys', 'entries'):
            return T('len', v.args[0])
        if v.op == 'elem' and v.args[0].op == 'out' and False:
            return None
        return T('len', v)

    def elem(self, src, idx):
        """Element idx of an opaque sequence (normalised)."""
        if src.op == 'sp':
            return self.elem(src.args[0], padd(src.args[1], idx))
        if src.op == 'entries':
            return tup(T('mkey', src.args[0], idx), T('mval', src.args[0], idx))
        if src.op == 'mkeys':
            return T('mkey', src.args[0], idx)
        if src.op in ('seq', 'tup', 'flist'):
            segs = src.args[0]
            c = pconst(idx)
            if isinstance(c, int) and all(s.op == 's1' for s in segs[:c + 1]) and 0 <= c < len(segs):
                return segs[c].args[0]
            if segs and all(s is segs[0] for s in segs) and segs[0].op == 's1':
                return segs[0].args[0]
            if len(segs) == 2 and segs[0].op == 's1' and segs[1].op in ('sp', 'rg', 'each') and c is None:
                e = self.elementwise(segs[1])
                if e is not None:       # the first one, then those of the rest shifted by one
                    return T('prev', segs[0].args[0], self.renorm(subst(e[2], {e[1]: psub(idx, ONE)})), idx)
            if len(segs) == 1:
                s = segs[0]
                if s.op == 'sp':
                    return self.elem(s.args[0], padd(s.args[1], idx))
                if s.op == 'rg':
                    return padd(s.args[0], pmul(s.args[2], idx))
                if s.op == 'forever' and s.args[0] and all(x.op == 's1' for x in s.args[0]):
                    if len(s.args[0]) == 1:
                        return s.args[0][0].args[0]
                    if isinstance(c, int) and c >= 0:
                        return s.args[0][c % len(s.args[0])].args[0]
                if s.op == 'rep' and len(s.args[0]) == 1 and s.args[0][0].op == 's1':
                    return s.args[0][0].args[0]
                e = self.elementwise(s)
                if e is not None:
                    dom, ix, val = e
                    return self.renorm(subst(val, {ix: idx}))
        if src.op in ('seq', 'flist', 'tup') and len(src.args[0]) == 1 and src.args[0][0].op == 'forever' and idx is ZERO:
            f = src.args[0][0].args[0]
            if f and f[0].op in ('sp', 's1'):
                return f[0].args[0] if f[0].op == 's1' else self.elem(f[0].args[0], f[0].args[1])
        if idx.op == 'fmod' and src.op in ('seq', 'flist', 'tup') and idx.args[1] is self.seq_len(src.args[0]):
            return self.elem(T('seq', (T('forever', src.args[0]),)), idx.args[0])
        if idx.op == 'fmod' and src.op in ('in', 'fresh', 'attr', 'elem') and idx.args[1] is self.len_of(src):
            return self.elem(T('seq', (T('forever', (T('sp', src, ZERO, idx.args[1]),)),)), idx.args[0])
        return T('elem', src, idx)

    def renorm(self, v):
        """Re-evaluate elem() and clip() terms after substitution."""
        memo = self._renorm
        if memo is not None:
            return self.renorm_in(v, memo)
        self._renorm = {}
        try:
            return self.renorm_in(v, self._renorm)
        finally:
            self._renorm = None

    _renorm = None

    def renorm_in(self, v, memo):
        if isinstance(v, tuple):
            return tuple(self.renorm_in(x, memo) for x in v)
        if not isinstance(v, Term):
            return v
        r = memo.get(v)
        if r is None:
            r = memo[v] = self.renorm_one(v)
        return r

    def renorm_one(self, v):
        if v.op == 'k':
            return v
        if not any(s.op in ('elem', 'clip', 'max0', 'sp', 'rep', 'rg', 'nuniq', 'fdiv') or s.op == 'repdom' and pconst(s.args[0]) is not None for s in subterms(v)):
            return v
        if v.op in ('seq', 'flist', 'tup', 'forever', 'fset', 'fdict'):
            return T(v.op, self.norm_segs(tuple(self.renorm(x) for x in v.args[0])))
        if v.op == 'poly':
            r = ZERO
            for m, c in pmonos(v):
                p = K(c)
                for a in m:
                    p = pmul(p, self.renorm(a))
                r = padd(r, p)
            return r
        if v.op == 'elem':
            return self.elem(self.renorm(v.args[0]), self.renorm(v.args[1]))
        if v.op == 'clip':
            x, n = self.renorm(v.args[0]), self.renorm(v.args[1])
            if self.entail_ge0(x) and self.entail_ge0(psub(n, x)):
                return x
            return T('clip', x, n)
        if v.op == 'max0':
            x = self.renorm(v.args[0])
            c = pconst(x)
            return K(max(c, 0)) if c is not None else x if self.entail_ge0(x) else T('max0', x)
        if v.op == 'fdiv' and self.is_int(v.args[0]) and self.is_int(v.args[1]):
            a, b = self.renorm(v.args[0]), self.renorm(v.args[1])
            if pconst(b) != 0 and (pconst(b) is not None or self.surely_ge0(psub(b, ONE)) or self.surely_ge0(psub(pneg(b), ONE))):
                return dates.fdiv(self, a, b)
            return T('fdiv', a, b)
        if v.op == 'prev' and pconst(v.args[2]) is not None:
            return self.renorm(v.args[0] if pconst(v.args[2]) == 0 else v.args[1])
        if v.op == 'nuniq':
            segs = self.norm_segs(tuple(self.renorm(x) for x in v.args[0]))
            if not segs:
                return ZERO
            return ONE if len(segs) == 1 and segs[0].op == 's1' else T('nuniq', segs)
        if v.op == 'sumc' and v.args[0].op == 'repdom':
            dom, cases, bv = self.renorm(v.args[0]), v.args[1], v.args[2]
            c = pconst(dom.args[0])
            if isinstance(c, int) and 0 <= c <= 3:
                total = ZERO
                for i in range(c):
                    for guards, x in cases:
                        known = [self.holds(self.renorm(subst(a, {bv: K(i)})), b) for a, b in guards]
                        if False in known:
                            continue
                        if None in known:
                            return T(v.op, *[self.renorm(a) for a in v.args])
                        total = padd(total, self.renorm(subst(x, {bv: K(i)})))
                        break
                return total
        if v.op == 'cond' and v.args[0].op in ('gt0', 'eq0'):
            p = self.renorm(v.args[0].args[0])
            if pconst(p) is not None:
                r = (pconst(p) > 0 if v.args[0].op == 'gt0' else pconst(p) == 0)
                return K(r == (v.args[1] == 'pos'))
            return T('cond', T(v.args[0].op, p), v.args[1])
        return T(v.op, *[self.renorm(a) for a in v.args])

    def holds(self, a, b):
        """Is the condition met?  None: it cannot be told."""
        if a.op == 'contains' and a.args[1].op in ('seq', 'flist', 'tup') and not a.args[1].args[0]:
            return b is False
        r = self.query(a)
        return None if r is None else r is b

    def elementwise(self, s):
        """(dom, ix, value) when the segment has exactly one element per index."""
        if s.op == 'sp':
            dom = T('repdom', self.seg_len(s))
            ix = self.fresh_ix(dom, s)
            return dom, ix, self.elem(s.args[0], padd(s.args[1], ix))
        if s.op == 'rg':
            dom = T('repdom', self.dom_count(s))
            ix = self.fresh_ix(dom, s)
            return dom, ix, padd(s.args[0], pmul(s.args[2], ix))
        if s.op == 'each':
            if len(s.args[2]) != 1:
                return None
            dom, ix, cases = self.open_each(s)
            if len(cases) == 1 and cases[0][0] == () and len(cases[0][1]) == 1 and cases[0][1][0].op == 's1':
                return dom, ix, cases[0][1][0].args[0]
        if s.op == 'rep' and len(s.args[0]) == 1 and s.args[0][0].op == 's1':
            dom = T('repdom', s.args[1])
            return dom, self.fresh_ix(dom, s), s.args[0][0].args[0]
        return None

    def index_segs(self, segs, idx):
        c = pconst(idx)
        if isinstance(c, int):
            if c >= 0:
                n = 0
                for s in segs:
                    if s.op == 's1':
                        if n == c:
                            return s.args[0]
                        n += 1
                    else:
                        break
                else:
                    return None     # out of range
            else:
                n = -1
                for s in reversed(segs):
                    if s.op == 's1':
                        if n == c:
                            return s.args[0]
                        n -= 1
                    else:
                        break
                else:
                    return None
                idx = padd(self.seq_len(segs), idx)
        if len(segs) == 1:
            return self.elem(T('seq', tuple(segs)), idx)
        return T('elem', T('seq', tuple(segs)), idx)

    def slice_segs(self, segs, lo, hi, step):
        segs = tuple(segs)
        n = None
        if step not in (None, NONE, ONE):
            if step is K(-1) and lo in (None, NONE) and hi in (None, NONE):
                return (T('sp', T('reversed', T('seq', segs)), ZERO, self.seq_len(segs)),)
            src = T('slice', T('seq', segs), lo or NONE, hi or NONE, step)
            return (T('sp', src, ZERO, T('len', src)),)
        n = self.seq_len(segs)
        lo = ZERO if lo in (None, NONE) else lo
        cl = pconst(lo)
        if cl is not None and cl < 0:
            lo = padd(n, lo)
        whole_hi = hi in (None, NONE)
        if whole_hi:
            hi = n
        else:
            ch = pconst(hi)
            if ch is not None and ch < 0:
                hi = padd(n, hi)
        if lo is ZERO and hi is n:
            return segs
        # leading single items
        c1, c2 = pconst(lo), pconst(hi)
        if all(s.op == 's1' for s in segs):
            if isinstance(c1, int) and isinstance(c2, int):
                return segs[c1:c2]
            if isinstance(c1, int) and whole_hi:
                return segs[c1:]
            if isinstance(c1, int) and c1 >= 0 and c2 is None and len(segs) <= 4 and self.is_int(hi) and self.entail_ge0(hi):
                for k in range(len(segs)):
                    if self.truth(T('cond', self.eq0(psub(hi, K(k))), 'pos')):
                        return segs[c1:k]
                return segs[c1:]
        if not whole_hi and not self.entail_ge0(psub(n, hi)):
            hi = T('clip', hi, n)
        if not self.entail_ge0(lo):
            lo = T('clip', lo, n)
        if isinstance(c1, int) and whole_hi and all(s.op == 's1' for s in segs[:c1]):
            return segs[c1:]
        if len(segs) == 1 and segs[0].op == 'sp':
            s = segs[0]
            return self.norm_segs((T('sp', s.args[0], padd(s.args[1], lo), padd(s.args[1], hi)),))
        if len(segs) == 1 and segs[0].op == 'rep' and len(segs[0].args[0]) == 1:
            return self.norm_segs((T('rep', segs[0].args[0], psub(hi, lo)),))
        return self.norm_segs((T('sp', T('seq', segs), lo, hi),))

    # iteration ---------------------------------------------------------
    def iter_segs(self, v, node, ctx, consume=True):
        """Segments produced by iterating over v (consuming iterators)."""
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'iter':
                segs = self.slice_segs(o.segs, o.pos, None, None) if o.pos is not ZERO else o.segs
                if consume:
                    if any(s.op == 'forever' for s in o.segs):
                        o.meta['drained'] = True
                    else:
                        o.pos = self.seq_len(o.segs)
                return segs
            if o.kind == 'gen':
                self.force_gen(v)
                return self.iter_segs(v, node, ctx, consume)
            if o.kind == 'set':
                self.event('setorder', v, 'iter', (), loc=self.loc(node, ctx))
                return (T('sp', T('setorder', T('seq', o.segs)), ZERO, T('nuniq', o.segs)),)
            if o.kind == 'inst':
                f = o.cls.find('__iter__')
                if f and isinstance(f[1], FuncInfo):
                    r = self.call_method(v, '__iter__', [], [])
                    return self.iter_segs(r, node, ctx, consume)
                segs = self.maybe_segs(v)
                if segs is not None:
                    return segs
                if o.cls.find('__getitem__'):
                    n = self.to_num(self.call_method(v, '__len__', [], []))
                    dom = T('repdom', n)
                    ix = self.fresh_ix(dom)
                    el = self.call_method(v, '__getitem__', [s1(ix)], [])
                    return self.norm_segs((T('each', T('repdom', n), ix, (((), (s1(el),)),)),))
                raise Undecided('iteration over %r' % o.cls)
        if v.op == 'join' and v.args[0] is K('') and self.single_chars(v.args[1]):
            return v.args[1]
        if v.op == 'setv':
            self.event('setorder', v, 'iter', (), loc=self.loc(node, ctx))
        if v.op == 'fset':
            self.event('setorder', v, 'iter', (), loc=self.loc(node, ctx))
            return (T('sp', T('setorder', v), ZERO, T('len', v)),)
        if v.op == 'fiter':
            return self.slice_segs(v.args[0], v.args[1], None, None)
        if v.op == 'fdict':
            return self.keys_segs(v.args[0])
        segs = self.maybe_segs(v)
        if segs is None:
            if v is NONE or is_knum(v):
                self.throw('TypeError', node, ctx, 'op')
            if self.kind(v).split(':')[0] in ('emitter', 'field') and not self.choose(T('has', v, '__iter__')):
                self.throw('TypeError', node, ctx, 'missing:__iter__')
            raise Undecided('iteration over %s at %s' % (show(v), self.loc(node, ctx)))
        return self.norm_segs(segs)

    def as_iter(self, v, node, ctx):
        """iter(v) -> ref to iterator object."""
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind in ('iter',):
                return v
            if o.kind == 'gen':
                return v
        if v.op == 'fresh':
            # an opaque iterator has its own position
            return self.new(Obj('iter', segs=(T('sp', v, ZERO, T('len', v)),), pos=ZERO))
        segs = self.iter_segs(v, node, ctx)
        return self.new(Obj('iter', segs=tuple(segs), pos=ZERO))

    def next_of(self, v, node, ctx, default=None):
        if v.op == 'fresh':
            v = self.as_iter(v, node, ctx)
        if v.op != 'ref':
            segs = (T('sp', v, ZERO, T('len', v)),)
            raise Undecided('next() of %s' % show(v))
        o = self.deref(v)
        if o.kind == 'gen':
            self.force_gen(v)
            o = self.deref(v)
        if o.kind != 'iter':
            if o.kind == 'inst' and o.cls.find('__next__'):
                return self.call_method(v, '__next__', [], [])
            raise Undecided('next() of non-iterator')
        inf = any(s.op == 'forever' for s in o.segs)
        pos = o.pos
        n = self.seq_len(o.segs)
        if not inf:
            if isinstance(pconst(pos), int) and isinstance(pconst(n), int):
                if pconst(pos) >= pconst(n):
                    if default is not None:
                        return default
                    self.throw('StopIteration', node, ctx, 'op')
            elif 'StopIteration' in self.handled() or 'Exception' in self.handled() or \
                    (default is not None and not self.active):
                if not self.truth(self.cond_gt0(psub(n, pos))):
                    if default is not None:
                        return default
                    self.throw('StopIteration', node, ctx, 'op')
            else:
                self.event('next', v, 'default' if default is not None else 'plain', (T('seq', o.segs), pos), loc=self.loc(node, ctx))
        r = self.index_segs(o.segs, pos)
        if r is None:
            if default is not None:
                return default
            self.throw('StopIteration', node, ctx, 'op')
        o.pos = padd(pos, ONE)
        return r

    def force_gen(self, v):
        """Summarise a generator's yields as segments."""
        o = self.deref(v)
        if o.kind != 'gen':
            return
        if o.meta.get('forcing'):
            raise Undecided('generator consumed while it is being summarised')
        o.meta['busy'] = o.meta['forcing'] = True
        fi = self.fns[o.meta['fn']]
        acc = self.new_list()
        ctx = Ctx(o.meta['frame'], fi, fi.module)
        fr = self.heap[o.meta['frame']]
        fr.meta['yield'] = acc
        saved_ev = self.events
        self.events = []
        inf = False
        hs, self.handlers = self.handlers, []
        try:
            self.exec_body(fi.node.body, ctx)
        except ReturnEx:
            pass
        except InfiniteEx:
            inf = True
        finally:
            self.handlers = hs
        segs = self.deref(acc).segs
        evs = self.events
        self.events = saved_ev
        if evs:
            self.events.append(Ev('lazy', v, 'generator', tuple(evs), (), None, ''))
        o = self.deref(v)
        o.kind = 'iter'
        o.segs = self.norm_segs(segs)
        if inf and not any(s.op == 'forever' for s in o.segs):
            o.segs = o.segs + (T('forever', ()),)
        o.pos = ZERO
        o.meta['lazy_events'] = tuple(evs)

    # ------------------------------------------------------------ loops
    def iterate(self, segs, body, node, ctx):
        """Run body(element) for every element of the segments (loops summarised)."""
        for s in segs:
            op = s.op
            if op == 's1':
                try:
                    body(s.args[0])
                except ContinueEx:
                    pass
            elif op == 'sp':
                src = s.args[0]
                n = pconst(psub(s.args[2], s.args[1]))
                if isinstance(n, int) and n <= 8:
                    for i in range(n):
                        try:
                            body(self.elem(src, padd(s.args[1], K(i))))
                        except ContinueEx:
                            pass
                    continue
                self.generic_loop(T('repdom', self.seg_len(s)), lambda ix, src=src, s=s: body(self.elem(src, padd(s.args[1], ix))), node, ctx)
            elif op == 'rg':
                n = pconst(self.dom_count(s))
                if isinstance(n, int) and n <= 8:
                    for i in range(n):
                        try:
                            body(padd(s.args[0], pmul(s.args[2], K(i))))
                        except ContinueEx:
                            pass
                    continue
                self.generic_loop(T('repdom', self.dom_count(s)), lambda ix, s=s: body(padd(s.args[0], pmul(s.args[2], ix))), node, ctx)
            elif op == 'rep':
                n = pconst(s.args[1])
                if isinstance(n, int) and n <= 8:
                    for _ in range(n):
                        self.iterate(s.args[0], body, node, ctx)
                    continue
                dom = T('repdom', s.args[1])
                self.generic_loop(dom, lambda ix, s=s: self.iterate(s.args[0], body, node, ctx), node, ctx)
            elif op == 'each':
                dom, ix0, cases = s.args

                def run(ix, dom=dom, ix0=ix0, cases=cases):
                    for g, p in cases:
                        g, p = self.renorm(subst(g, {ix0: ix})), self.renorm(subst(p, {ix0: ix}))
                        ok = True
                        for a, b in g:
                            if self.choose(a) != b:
                                ok = False
                                break
                        if ok:
                            self.iterate(p, body, node, ctx)
                            return
                self.generic_loop(dom, run, node, ctx)
            elif op == 'forever':
                dom = T('forever', s.args[0])
                self.generic_loop(dom, lambda ix, s=s: self.iterate(s.args[0], body, node, ctx), node, ctx, infinite=True)
            elif op == 'mapped' or op == 'spre':
                src = T('seq', (s,))
                d = T('repdom', self.seg_len(s))
                self.generic_loop(d, lambda ix, src=src: body(T('elem', src, ix)), node, ctx)
            else:
                raise Undecided('iteration over segment %s' % op)

    # locations: ('a', objid, attr) ('c', objid) content ('p', objid) pos ('h', term)
    def get_loc(self, loc, snap=None):
        heap = self.heap if snap is None else snap[0]
        if loc[0] == 'a':
            o = heap.get(loc[1])
            return None if o is None else o.attrs.get(loc[2])
        if loc[0] == 'c':
            o = heap.get(loc[1])
            return None if o is None else o.segs
        if loc[0] == 'p':
            o = heap.get(loc[1])
            return None if o is None else o.pos
        if loc[0] == 'h':
            h = self.hist if snap is None else snap[1]
            return h.get(loc[1])

    def set_loc(self, loc, v):
        if loc[0] == 'a':
            if v is None:
                self.heap[loc[1]].attrs.pop(loc[2], None)
            else:
                self.heap[loc[1]].attrs[loc[2]] = v
        elif loc[0] == 'c':
            self.heap[loc[1]].segs = v
        elif loc[0] == 'p':
            self.heap[loc[1]].pos = v
        elif loc[0] == 'h':
            self.hist[loc[1]] = v

    def diff(self, hv, snap, ix):
        out = []
        for i, o in hv[0].items():
            p = snap[0].get(i)
            if p is None:
                continue
            if o.kind == 'gen' and p.kind == 'iter':
                raise Undecided('generator first consumed inside a loop')
            for k in set(o.attrs) | set(p.attrs):
                if o.attrs.get(k) is not p.attrs.get(k):
                    out.append(('a', i, k))
            if o.segs != p.segs:
                out.append(('c', i))
            if o.pos is not p.pos:
                out.append(('p', i))
        for t in set(hv[1]) | set(snap[1]):
            if hv[1].get(t) is not snap[1].get(t):
                if not occurs(ix, t):
                    out.append(('h', t))
        return out

    def placeholder(self, key, loc, init):
        if loc[0] == 'c':
            return (T('spre', key, loc),)
        if init is None and loc[0] == 'a':
            return None
        ph = T('pre', key, loc)
        if loc[0] in ('a', 'p') and isinstance(init, Term) and self.surely_num(init) and ph not in self.notnum:
            self.numph.add(ph)
        return ph

    def generic_loop(self, dom, body, node, ctx, infinite=False, while_loop=False, given=None):
        self.stats['loops'] += 1
        self.prepare_gens()
        ix = self.fresh_ix(dom)
        key = T('loop', dom, ix.args[0])
        mods = {}
        scope = lambda a, ix=ix, key=key: any(s is ix or (s.op in ('pre', 'spre') and s.args[0] is key) for s in subterms(a))

        def run():
            if given:
                for a, b in given[1]:
                    self.levels[-1].facts[subst(a, {given[0]: key})] = b
            body(ix)
        rounds = 0
        paths = None
        while True:
            rounds += 1
            if rounds > 12:
                raise Undecided('loop summary does not stabilise at %s' % self.loc(node, ctx))
            base = self.snapshot()
            for loc, init in mods.items():
                self.set_loc(loc, self.placeholder(key, loc, init))
            hv = self.snapshot()
            self.active.append((dom, ix, key))
            self.dry += 1
            try:
                paths = self.sub_explore(run, scope)
            finally:
                self.dry -= 1
                self.active.pop()
            new = {}
            for dec, oc, val, snap, lvl in paths:
                if oc == 'normal':
                    for loc in self.diff(hv, snap, ix):
                        if loc not in mods:
                            new[loc] = self.get_loc(loc, base)
            self.restore(base)
            if not new:
                break
            for loc in sorted(new, key=str):
                mods[loc] = new[loc]
        # hist locations not yet recorded have an implicit initial state
        for loc in mods:
            if loc[0] == 'h' and mods[loc] is None:
                mods[loc] = self.init_hist(loc[1])
        # final, scoped pass
        base = self.snapshot()
        for loc, init in mods.items():
            self.set_loc(loc, self.placeholder(key, loc, init))
        hv = self.snapshot()
        self.active.append((dom, ix, key))
        outer = (self.levels[-1], len(self.levels[-1].decisions))
        try:
            paths = self.sub_explore(run, scope)
        finally:
            self.active.pop()
        nfirst = hv[4]
        self.restore(base)
        normal = [p for p in paths if p[1] == 'normal']
        exits = [p for p in paths if p[1] not in ('normal', 'infinite')]
        if not normal and not while_loop:
            # body always leaves on the first element
            if not infinite:
                cnt = self.dom_count(dom)
                if not self.truth(self.cond_gt0(cnt)):
                    return
            lo = ZERO
            body(lo)
            return
        # per-location summaries -------------------------------------------------
        m = {}            # placeholder -> value at a generic iteration
        after = {}        # loc -> value after the loop
        rawposts = {}
        for loc in mods:
            rawposts[loc] = [(frozenset((a, b) for a, b in dec), self.freeze_new(self.get_loc(loc, snap), snap, base[4], loc)) for dec, oc, val, snap, lvl in normal]
        canon_ix = ix
        pending = []
        for loc, init in mods.items():
            ph = self.placeholder(key, loc, init)
            posts = rawposts[loc]
            if loc[0] == 'c':
                pre = ph[0]
                ok = all(p is not None and len(p) >= 1 and p[0] is pre for g, p in posts) and \
                    not any(occurs(pre, p[1:]) for g, p in posts)
                pending.append(('content', loc, init, pre, posts, ok))
            elif ph is None:
                pending.append(('last', loc, init, None, posts, True))
            else:
                deltas = None
                if loc[0] in ('a', 'p') and all(self.numericish(p) for g, p in posts if p is not None) and all(p is not None for g, p in posts) and self.numericish(init):
                    ds = [(g, psub(p, ph)) for g, p in posts]
                    if not any(occurs(ph, d) for g, d in ds):
                        deltas = ds
                if deltas is not None:
                    pending.append(('num', loc, init, ph, deltas, True))
                else:
                    pending.append(('other', loc, init, ph, posts, True))
        wrong = [ph for kindp, loc, init, ph, posts, ok in pending if kindp in ('num', 'other') and ph in self.numph
                 and not all(self.surely_num(self.get_loc(loc, p[3])) for p in normal)]
        if wrong:
            # not numbers after all: look again without that assumption
            self.numph -= set(wrong)
            self.notnum |= set(wrong)
            self.restore(base)
            return self.generic_loop(dom, body, node, ctx, infinite, while_loop, given)
        if while_loop:
            c = self.counted(normal, exits, key, mods, hv, ix)
            if c is not None:
                self.restore(base)
                return self.generic_loop(T('repdom', c[0]), body, node, ctx, given=(key, c[1]))
            if dom.op == 'while' and len(dom.args) == 2:
                # name the loop by what it does, not by where it stands
                sig = self.loop_sig(pending, paths, key, ix)
                self.restore(base)
                return self.generic_loop(T('while', sig), body, node, ctx, while_loop=True)
        # values at a generic iteration
        canon = {}
        if any(kindp == 'content' and (not ok or any(occurs(ph, a) for dec, oc, val, snap, lvl in normal for a, b in dec)) for kindp, loc, init, ph, posts, ok in pending):
            # lists changed in ways not summarised are named by what the loop does to them
            sig, order = self.loop_sig(pending, paths, key, ix, True)
            canon = {loc: i for i, loc in enumerate(order)}
            for kindp, loc, init, ph, posts, ok in pending:
                if kindp == 'content':
                    m[ph] = T('spre', T('loopn', dom, sig), ('c', canon[loc]))
        for kindp, loc, init, ph, posts, ok in pending:
            if kindp == 'num':
                cs = merge_cases(posts)
                if len(cs) == 1 and cs[0][0] == () and not occurs(ix, cs[0][1]) and not self.has_pre(cs[0][1], key) and not while_loop:
                    lo = ZERO
                    m[ph] = padd(init, pmul(cs[0][1], psub(ix, lo)))
                elif len(cs) == 1 and cs[0][0] == () and not self.has_pre(cs[0][1], key):
                    m[ph] = padd(init, self.prefix_sum(dom, ix, posts, ix))
                else:
                    m[ph] = padd(init, self.prefix_sum(dom, ix, posts, ix))
            elif kindp == 'other':
                cs = merge_cases(posts)
                if all(not occurs(ph, p) for g, p in posts):
                    if loc[0] == 'h' or len(cs) != 1:
                        bv, cs = self.close_ix(dom, ix, cs)
                        m[ph] = T('carried', dom, self.fz(init), cs, bv, ix)
                    else:
                        back = self.renorm(subst(cs[0][1], {ix: psub(ix, ONE)}))
                        if self.renorm(subst(back, {ix: ZERO})) is init:
                            m[ph] = back
                        else:
                            m[ph] = T('prev', self.fz(init), back, ix)
                elif all(p is ph for g, p in posts):
                    m[ph] = init
                else:
                    bv, cs = self.close_ix(dom, ix, subst(cs, {ph: T('self')}))
                    m[ph] = T('carried', dom, self.fz(init), cs, bv, ix)
        m2 = {}
        for k_, v_ in m.items():
            v_ = subst(v_, {q: w for q, w in m.items() if q is not k_})
            if self.has_pre(v_, key):
                v_ = subst(v_, {s: T('carried0', s.args[1][0]) for s in subterms(v_) if s.op in ('pre',) and s.args[0] is key})
            m2[k_] = v_
        m = m2

        def fin(x):
            return self.renorm(subst(x, m)) if m else x
        # conservation laws of while loops / exit values
        count = None if (infinite or while_loop) else self.dom_count(dom)
        exitvals = {}
        if while_loop:
            nums = [(loc, init, ph, posts) for kindp, loc, init, ph, posts, ok in pending if kindp == 'num']
            j = 0
            for loc, init, ph, posts in nums:
                mate = None
                for loc2, init2, ph2, posts2 in nums:
                    if loc2 in exitvals and loc2 != loc:
                        d1 = {g: d for g, d in posts}
                        d2 = {g: d for g, d in posts2}
                        if d1.keys() == d2.keys() and all(padd(d1[g], d2[g]) is ZERO for g in d1):
                            mate = ('-', loc2, init2)
                        elif d1.keys() == d2.keys() and all(d1[g] is d2[g] for g in d1):
                            mate = ('+', loc2, init2)
                if mate:
                    x = exitvals[mate[1]]
                    delta = psub(x, mate[2])
                    exitvals[loc] = psub(init, delta) if mate[0] == '-' else padd(init, delta)
                else:
                    X = T('exitval', dom, j)
                    j += 1
                    exitvals[loc] = X
                    # inductive sign: every iteration ends with a value >= 0
                    good = bool(normal)
                    for (dec, oc, val, snap, lvl) in normal:
                        self.levels.append(lvl)
                        try:
                            if not self.entail_ge0(self.get_loc(loc, snap)):
                                good = False
                        finally:
                            self.levels.pop()
                    if good and self.entail_ge0(init):
                        self.nonneg.add(X)
        # events of the loop
        cases_ev = []
        for dec, oc, val, snap, lvl in paths:
            evs = tuple(self.subst_ev(e, fin) for e in snap[2])
            cases_ev.append((tuple((fin(a), b) for a, b in dec), oc, evs))
        loopev = None
        if any(e for g, oc, e in cases_ev):
            loopev = Ev('loop', dom, 'infinite' if infinite else 'while' if while_loop else 'for', tuple(cases_ev), ix, None, self.loc(node, ctx))
        # which way does the loop end?
        exit_path = None
        if exits:
            if while_loop or infinite:
                for p in exits[:-1]:
                    if self.choose(T('exits', dom, tuple(sorted((fin(a).n, b) for a, b in p[0])))):
                        exit_path = p
                        break
                else:
                    exit_path = exits[-1]
            else:
                for p in exits:
                    if self.choose(T('exits', dom, tuple(sorted((fin(a).n, b) for a, b in p[0])))):
                        exit_path = p
                        break
        elif infinite or while_loop:
            exit_path = 'never'
        udom = dom if exit_path is None or exit_path == 'never' else T('upto', dom)
        forever = exit_path == 'never'
        if loopev is not None:
            self.events.append(loopev)
        end = {}
        for kindp, loc, init, ph, posts, ok in pending:
            if kindp == 'other' and forever is False:
                v = self.growing(init, ph, [(frozenset((fin(a), b) for a, b in g), fin(p) if p is not None else None) for g, p in posts], fin(ph), udom, ix)
                if v is not None:
                    end[loc] = v
                    continue
            if kindp == 'content':
                if not ok:
                    hv_ = T('havoc', udom, sig, init, canon[loc])
                    end[loc] = (T('sp', hv_, ZERO, T('len', hv_)),)
                    continue
                cases = merge_cases([(frozenset((fin(a), b) for a, b in g), self.norm_segs(fin(p[1:]))) for g, p in posts])
                if forever:
                    if len(cases) == 1 and cases[0][0] == ():
                        seg = T('forever', cases[0][1])
                    else:
                        seg = T('forever', (T('cases', cases),))
                    end[loc] = tuple(init) + (seg,)
                else:
                    end[loc] = self.norm_segs(tuple(init) + (T('each', udom, ix, cases),))
            elif kindp == 'num':
                if loc in exitvals:
                    end[loc] = exitvals[loc]
                elif udom is not dom:
                    end[loc] = padd(init, self.prefix_sum(udom, ix, [(frozenset((fin(a), b) for a, b in g), fin(d)) for g, d in posts], T('last', udom)))
                else:
                    end[loc] = padd(init, self.sum_cases(dom, ix, [(frozenset((fin(a), b) for a, b in g), fin(d)) for g, d in posts]))
            elif kindp == 'last':
                cs = merge_cases([(frozenset((fin(a), b) for a, b in g), fin(p) if p is not None else NONE) for g, p in posts])
                bv, cs = self.close_ix(dom, ix, cs)
                end[loc] = T('lastval', udom, cs, bv)
            else:
                cs = merge_cases([(frozenset((fin(a), b) for a, b in g), p) for g, p in posts])
                if all(p is ph for g, p in posts):
                    end[loc] = init
                elif len(cs) == 1 and cs[0][0] == () and not occurs(ix, cs[0][1]) and not occurs(ph, cs[0][1]) and not self.has_pre(cs[0][1], key) \
                        and (count is not None and self.query(T('gt0', count)) is True):
                    end[loc] = cs[0][1]
                elif len(cs) == 1 and cs[0][0] == () and count is not None and not occurs(ph, cs[0][1]) and not self.has_pre(cs[0][1], key) \
                        and self.renorm(subst(cs[0][1], {ix: K(-1)})) is init:
                    end[loc] = self.renorm(subst(cs[0][1], {ix: psub(count, ONE)}))
                else:
                    bv, cs = self.close_ix(dom, ix, fin(subst(cs, {ph: T('self')})))
                    end[loc] = T('fold', udom, self.fz(init), cs, bv)
        # per-element states
        elem_h = {}
        for dec, oc, val, snap, lvl in normal:
            for t, h in snap[1].items():
                if occurs(ix, t):
                    elem_h.setdefault(t, []).append((frozenset((fin(a), b) for a, b in dec), fin(h)))
        for t, hs in elem_h.items():
            cs = merge_cases(hs)
            if len(hs) < len(normal):
                known = {g for g, h in hs}
                for dec, oc, val, snap, lvl in normal:
                    g = frozenset((fin(a), b) for a, b in dec)
                    if g not in known:
                        hs.append((g, base[1].get(t) or self.init_hist(t)))
                cs = merge_cases(hs)
            if len(cs) == 1 and cs[0][0] == ():
                self.put_hist(t, cs[0][1])
            else:
                self.put_hist(t, T('stc', cs))
        for loc, v in end.items():
            self.set_loc(loc, v)
        if exit_path is None:
            return
        if forever:
            raise InfiniteEx()
        # leave through exit_path: replay its effects on top of the summary
        dec, oc, val, snap, lvl = exit_path
        em = {}
        for loc in mods:
            ph = self.placeholder(key, loc, mods[loc])
            if loc[0] == 'c':
                em[ph[0]] = None
            elif ph is not None:
                em[ph] = end.get(loc, mods[loc])

        for loc in mods:
            if loc[0] == 'c':
                ph = self.placeholder(key, loc, mods[loc])
                em[T('len', ph[0])] = self.seq_len(end.get(loc, mods[loc]))

        def finx(x):
            return self.renorm(subst(x, {a: b for a, b in em.items() if b is not None}))

        def fin_segs(segs):
            out = []
            for s in segs:
                if s.op == 'spre' and s.args[0] is key:
                    out.extend(end.get(s.args[1], mods[s.args[1]]))
                else:
                    out.append(finx(s))
            return self.norm_segs(out)
        cur = self.heap
        for i, o in snap[0].items():
            h = hv[0].get(i)
            if h is None:
                no = o.copy()
                no.attrs = {k: finx(v) if isinstance(v, Term) else v for k, v in no.attrs.items()}
                no.segs = fin_segs(no.segs) if no.segs is not None else None
                no.pos = finx(no.pos) if no.pos is not None else None
                self.heap[i] = no
                continue
            c = self.heap[i]
            for k in set(o.attrs) | set(h.attrs):
                if o.attrs.get(k) is not h.attrs.get(k):
                    if o.attrs.get(k) is None:
                        c.attrs.pop(k, None)
                    else:
                        c.attrs[k] = finx(o.attrs[k])
            if o.segs != h.segs:
                c.segs = fin_segs(o.segs)
            if o.pos is not h.pos:
                c.pos = finx(o.pos)
        for t, h in snap[1].items():
            if hv[1].get(t) is not h:
                self.hist[t] = finx(h)
        self.events.append(Ev('loopexit', dom, oc, tuple(self.subst_ev(e, finx) for e in snap[2]), (), None, self.loc(node, ctx)))
        for a, b in dec:
            a2 = finx(a)
            if not occurs(ix, a2):
                self.assume(a2, b)
        if oc == 'break':
            raise BreakEx()
        if oc == 'return':
            raise ReturnEx(finx(val))
        if oc == 'raise':
            raise PyRaise(val.exc, val.cls, val.loc, val.origin)
        raise Undecided('loop exit %s' % oc)

    def unplaced(self, t):
        m = {x: T('opre', x.args[1][0]) for x in subterms(t) if x.op in ('pre', 'spre') and isinstance(x.args[1], tuple)}
        return subst(t, m) if m else t

    def loop_sig(self, pending, paths, key, ix, order=False):
        inner = [x.args[-1] for kindp, loc, init, ph, posts, ok in pending for g, p in posts
                 for t in list(p if isinstance(p, tuple) else (p,)) + [a for a, b in g] if isinstance(t, Term) for x in subterms(t) if x.op in ('wph', 'wix')]
        inner += [x.args[-1] for dec, oc, val, snap, lvl in paths for a, b in dec for x in subterms(a) if x.op in ('wph', 'wix')]
        high = 1 + max(inner) if inner else 0           # placeholders of loops inside this one are other ones
        anon = {ix: T('wix', high)}
        rows = []
        for kindp, loc, init, ph, posts, ok in pending:
            if kindp == 'last':
                continue
            for x in (T('pre', key, loc), T('spre', key, loc)):
                anon[x] = T('wph', high)
        for kindp, loc, init, ph, posts, ok in pending:
            if kindp == 'last':
                continue
            # what tells rows apart must not depend on where objects happen to live
            plain = lambda t: show(self.unplaced(subst(t, anon)))
            text = sorted((sorted((plain(a), b) for a, b in g), plain(p) if p is not None else '') for g, p in posts)
            rows.append((kindp, loc[0], show(self.unplaced(self.fz(init))) if isinstance(init, (Term, tuple)) else str(init), str(text), loc, init, posts))
        rows.sort(key=lambda r: r[:4])
        m = {ix: T('wix', high)}
        for i, r in enumerate(rows):
            for op in ('pre', 'spre'):
                m[T(op, key, r[4])] = T('wph', i, high)
        out = []
        gs = lambda g: frozenset((subst(a, m), b) for a, b in g)
        for r in rows:
            ps = uset(T('sigc', uset(T('sigb', a, b) for a, b in gs(g)), subst(p, m) if isinstance(p, Term) else T('pytup', *subst(p, m)) if isinstance(p, tuple) else T('none'))
                      for g, p in r[6])
            init = self.fz(r[5]) if isinstance(r[5], (Term, tuple)) else NONE
            out.append(T('sigrow', init if isinstance(init, Term) else T('pytup', *init), ps))
        ends = uset(T('sige', oc if isinstance(oc, str) else str(oc), uset(T('sigb', subst(a, m), b) for a, b in dec))
                    for dec, oc, val, snap, lvl in paths if oc != 'normal')
        sig = T('sig', T('sig', *out), ends, high)
        return (sig, [r[4] for r in rows]) if order else sig

    def growing(self, init, ph, posts, self_, udom, ix):
        """x = x + ... in a loop, for lists, tuples and strings: the concatenation of all pieces."""
        pre = T('growpre')
        if init is None or any(p is None for g, p in posts):
            return None
        posts = [(g, subst(p, {self_: pre, ph: pre})) for g, p in posts]
        if init.op == 'ref' and self.deref(init).kind == 'list':
            form, isegs = 'flist', self.deref(init).segs
        elif init.op == 'tup':
            form, isegs = 'tup', init.args[0]
        elif init.op == 'join' or (init.op == 'k' and isinstance(kv(init), str)):
            form, isegs = 'join', self.str_segs(init)
        else:
            return None
        cases = []
        for g, p in posts:
            if p is pre:
                cases.append((g, ()))
                continue
            if p.op != form:
                return None
            segs = p.args[1] if form == 'join' else p.args[0]
            if form == 'join' and p.args[0] is not K(''):
                return None
            if not segs:
                return None
            h = s1(pre) if form == 'join' else T('sp', pre, ZERO, T('len', pre))
            if segs[0] is not h or occurs(pre, segs[1:]):
                return None
            cases.append((g, segs[1:]))
        if any(mentions(g, lambda t: t is pre) for g, p in cases):
            return None
        segs = self.norm_segs(tuple(isegs) + (T('each', udom, ix, merge_cases(cases)),))
        if form == 'flist':
            return self.new_list(segs)
        if form == 'tup':
            return tup_segs(segs)
        return self.str_join(K(''), segs)

    def single_chars(self, segs):
        return all(s.op == 's1' and (s.args[0].op == 'chr' or s.args[0].op == 'k' and isinstance(kv(s.args[0]), str) and len(kv(s.args[0])) == 1)
                   or s.op == 'each' and all(self.single_chars(p) for g, p in s.args[2])
                   or s.op == 'rep' and self.single_chars(s.args[0]) for s in segs)

    def str_segs(self, v):
        if v.op == 'k' and kv(v) == '':
            return ()
        if v.op == 'join' and v.args[0] is K(''):
            return v.args[1]
        return (s1(v),)

    def str_join(self, sep, segs):
        if len(segs) == 1 and segs[0].op == 's1':
            sep = K('')
        if sep is not K(''):
            return T('join', sep, segs)

        def flat(ss):
            out = []
            for x in ss:
                if x.op == 's1':
                    out.extend(self.str_segs(x.args[0]))
                elif x.op == 'each':
                    dom, ix, cases = self.open_each(x)
                    out.extend(self.norm_segs((T('each', dom, ix, tuple((g, flat(p)) for g, p in cases)),)))
                else:
                    out.append(x)
            return tuple(out)
        segs = flat(segs)
        if not segs:
            return K('')
        if len(segs) == 1 and segs[0].op == 's1' and is_k(segs[0].args[0]):
            return segs[0].args[0]
        return T('join', K(''), segs)

    def counted(self, normal, exits, key, mods, hv, ix):
        """(count, facts) of a while loop whose test counts a quantity down to its limit by one."""
        if not normal:
            return None
        pre = {}
        for loc, init in mods.items():
            ph = self.placeholder(key, loc, init)
            if loc[0] == 'c':
                pre[T('len', ph[0])] = (loc, self.seq_len(init))
            elif ph is not None and init is not None:
                pre[ph] = (loc, init)
        for dec, oc, val, snap, lvl in exits:
            if oc != 'break' or len(dec) != 1 or any(e.kind != 'order' for e in snap[2]) or self.diff(hv, snap, ix):
                continue
            atom, b = dec[0]
            if atom.op not in ('gt0', 'eq0'):
                continue
            if not all((atom, not b) in d for d, o, v, s, l in normal):
                continue
            if any((atom, not b) not in d for d, o, v, s, l in exits if d is not dec):
                continue
            p = atom.args[0]
            deltas = set()
            for d, o, v, s, l in normal:
                m = {}
                for ph, (loc, init) in pre.items():
                    if occurs(ph, p):
                        x = self.get_loc(loc, s)
                        m[ph] = self.seq_len(x) if loc[0] == 'c' else x
                        if m[ph] is None or not self.numericish(m[ph]):
                            return None
                        if loc[0] == 'c':
                            m[ph] = subst(m[ph], {T('len', T('sp', 0)): ZERO})
                deltas.add(psub(subst(p, m), p))
            if len(deltas) != 1:
                continue
            c = pconst(deltas.pop())
            p0 = subst(p, {ph: init for ph, (loc, init) in pre.items() if occurs(ph, p)})
            if self.has_pre(p0, key) or occurs(ix, p0) or not self.is_int(p0):
                continue
            if atom.op == 'gt0' and b is False and c == -1:
                q = p0
            elif atom.op == 'gt0' and b is True and c == 1:
                q = psub(ONE, p0)
            elif atom.op == 'eq0' and b is True and c in (1, -1):
                q = p0 if c == -1 else pneg(p0)
                if not self.entail_ge0(q):
                    continue
            else:
                continue
            k = pconst(q)
            count = K(max(k, 0)) if k is not None else q if self.entail_ge0(q) else T('max0', q)
            return count, [(atom, not b)]
        return None

    def prepare_gens(self):
        """Generators reachable from the frames are summarised before a loop uses them."""
        for i, o in list(self.heap.items()):
            if o.kind == 'gen' and not o.meta.get('busy'):
                if self.in_body_gens(o):
                    o.meta['busy'] = True
                    self.force_gen(T('ref', i))

    def in_body_gens(self, o):
        # infinite ones are cheap and order-insensitive; finite ones may call children: force lazily is
        # impossible inside a loop, so force now
        return not o.meta.get('nolazy')

    def has_pre(self, t, key):
        return any(s.op in ('pre', 'spre') and s.args[0] is key for s in subterms(t))

    def fz(self, v):
        if v is None:
            return NONE
        if isinstance(v, tuple):
            return T('seq', v)
        return self.freeze(v)

    def freeze_new(self, v, snap, limit, loc):
        """Objects allocated inside the iteration become immutable values."""
        if v is None:
            return None
        refs = set()
        for s in subterms(v):
            if s.op == 'ref' and s.args[0] not in self.heap:
                refs.add(s)
        if not refs:
            return v
        saved = self.heap, self.hist
        self.heap, self.hist = snap[0], snap[1]
        try:
            m = {r: self.freeze(r) for r in refs}
        finally:
            self.heap, self.hist = saved
        return subst(v, m)

    def subst_ev(self, e, f):
        return Ev(e.kind, f(e.target) if isinstance(e.target, Term) else e.target, e.name,
                  tuple(self.subst_any(a, f) for a in e.args), self.subst_any(e.kw, f),
                  f(e.result) if isinstance(e.result, Term) else e.result, e.loc)

    def subst_any(self, a, f):
        if isinstance(a, Term):
            return f(a)
        if isinstance(a, Ev):
            return self.subst_ev(a, f)
        if isinstance(a, tuple):
            return tuple(self.subst_any(x, f) for x in a)
        return a

    def init_hist(self, t):
        return T('st', T('attr0', t, 'rng_seed'), T('init', t))

    def get_hist(self, t):
        h = self.hist.get(t)
        if t.op in ('elem', 'mval'):
            for k in reversed(list(self.hist)):
                if k is t:
                    break
                if k.op != t.op or k.args[0] is not t.args[0]:
                    continue
                ki, ti = k.args[1], t.args[1]
                free = [x for x in subterms(ki) if x.op == 'ix' and not any(a[1] is x for a in self.active) and not occurs(x, ti)]
                if free:
                    # state left behind by an earlier loop over (part of) the same sequence
                    ix = free[0]
                    pos = psub(ti, subst(ki, {ix: ZERO}))
                    n = self.dom_count(ix.args[1])
                    if padd(subst(ki, {ix: ZERO}), ix) is not ki or n is None:
                        raise Undecided('element state of %s' % show(k))
                    if not self.truth(self.cond_gt0(padd(pos, ONE))) or not self.truth(self.cond_gt0(psub(n, pos))):
                        continue
                    h = subst(self.hist[k], {ix: pos})
                    break
                d = psub(ki, ti)
                if pconst(d) is not None:
                    continue
                if self.truth(self.eq0(d)):
                    h = self.hist[k]
                    break
        if h is None:
            h = self.init_hist(t)
        while h.op == 'stc':
            # per-element case split made by an earlier loop
            for g, v in h.args[0]:
                if all(self.choose(a) == b for a, b in g):
                    break
            else:
                raise Undecided('element state split')
            h = v
            self.put_hist(t, h)
        return h

    def put_hist(self, t, v):
        self.hist.pop(t, None)
        self.hist[t] = v

    def hist_parts(self, t):
        h = self.get_hist(t)
        if h.op == 'st':
            return h.args
        return T('seedof', h), h

    # ------------------------------------------------------------ freezing
    def freeze(self, v, seen=None):
        """Immutable, identity-free description of a value and what it reaches."""
        if seen is None:
            seen = {}
        if isinstance(v, tuple):
            return tuple(self.freeze(x, seen) for x in v)
        if not isinstance(v, Term):
            return v
        if v.op == 'ref':
            i = v.args[0]
            if i in seen:
                return T('back', seen[i])
            o = self.heap.get(i)
            if o is None:
                return v
            seen = dict(seen)
            seen[i] = len(seen)
            if o.kind == 'gen':
                snap = self.snapshot()
                self.force_gen(v)
                r = self.freeze(v, {k: x for k, x in seen.items() if k != i})
                self.restore(snap)
                return r
            if o.kind == 'list':
                return T('flist', self.freeze(o.segs, seen))
            if o.kind == 'dict':
                return T('fdict', self.freeze(o.segs, seen))
            if o.kind == 'set':
                return T('fset', self.freeze(o.segs, seen))
            if o.kind == 'iter':
                return T('fiter', self.freeze(o.segs, seen), o.pos)
            if o.kind == 'rng':
                return T('frng', self.freeze(o.attrs['state'], seen))
            if o.kind == 'inst':
                return T('obj', o.cls.qual, tuple((k, self.freeze(x, seen)) for k, x in sorted(o.attrs.items())))
            if o.kind == 'exc':
                return T('fexc', o.cls)
            if o.kind == 'frame':
                return T('fframe')
            return T('fobj', o.kind)
        if v.op == 'fn':
            return T('ffn', v.args[0])
        if v.op == 'bm':
            return T('fbm', self.freeze(v.args[0], seen), self.freeze(v.args[1], seen))
        if v.op in ('tup',):
            return T('tup', self.freeze(v.args[0], seen))
        if not any(s.op == 'ref' for s in subterms(v)):
            return v
        return T(v.op, *[self.freeze(a, seen) if isinstance(a, (Term, tuple)) else a for a in v.args])

    # ------------------------------------------------------------ frames / names
    def lookup(self, name, ctx, node):
        fid = ctx.fid
        while fid is not None:
            fr = self.heap[fid]
            if name in fr.attrs and name not in fr.meta.get('globals', ()):
                return fr.attrs[name]
            fid = fr.meta.get('parent')
        return self.global_name(ctx.mod, name, node, ctx)

    def global_name(self, mod, name, node=None, ctx=None):
        key = ('glob', mod.name, name)
        if key in self.statics:
            return self.statics[key]
        r = self.p.resolve_name(mod, name)
        if r is None:
            import builtins
            if hasattr(builtins, name):
                return T('ext', 'builtins.' + name)
            if name in ('__name__', '__file__', '__doc__'):
                return K(mod.name)
            if ctx is not None:
                self.throw('NameError', node, ctx, 'lang')
            raise Undecided('unresolved name %s' % name)
        v = self.binding(r)
        if r[0] == 'expr':
            self.statics[key] = v
        return v

    def binding(self, r):
        if r[0] == 'func':
            return self.fnval(r[1], -1)
        if r[0] == 'class':
            return T('cls', r[1].qual)
        if r[0] == 'module':
            return T('mod', r[1].name)
        if r[0] == 'ext':
            return T('ext', r[1])
        if r[0] == 'expr':
            m, e = r[1], r[2]
            key = ('expr', m.name, e.lineno, e.col_offset)
            if key in self.statics:
                return self.statics[key]
            if key in self.binding_now:
                # the right hand side of a rebinding still sees the earlier value
                names = {n for n, b in m.globals.items() if b[0] == 'expr' and b[1] is e}
                old = [s.value for s in m.order if isinstance(s, ast.Assign) and s.lineno < e.lineno
                       and any(isinstance(t, ast.Name) and t.id in names for t in s.targets)]
                if not old:
                    raise Undecided('a global defined through itself')
                return self.binding(('expr', m, old[-1]))
            self.shared_zone += 1
            evs = self.events
            self.events = []
            self.binding_now.append(key)
            try:
                fid = self.module_frame(m)
                v = self.eval(e, Ctx(fid, None, m))
            finally:
                self.binding_now.pop()
                self.shared_zone -= 1
                self.events = evs
            self.statics[key] = v
            self.finish_global(m, e, v)
            return v
        raise Undecided('binding %r' % (r,))

    def finish_global(self, m, e, v):
        """Statements at the top level of the module that go on to change the object a global was given."""
        if v.op != 'ref' or self.deref(v).kind not in ('list', 'dict', 'set'):
            return
        names = {n for n, b in m.globals.items() if b[0] == 'expr' and b[1] is e}
        if not names:
            return
        later = [s for s in m.order if changes(s, names)]
        if not later:
            return
        self.shared_zone += 1
        evs = self.events
        self.events = []
        try:
            fid = self.module_frame(m)
            for n in names:
                self.statics[('glob', m.name, n)] = v
            for s in later:
                self.exec(s, Ctx(fid, None, m))
            for n in names:
                w = self.heap[fid].attrs.get(n)
                if w is not None and isinstance(w, Term):
                    self.statics[('glob', m.name, n)] = w
        finally:
            self.shared_zone -= 1
            self.events = evs

    def module_frame(self, m):
        key = ('mf', m.name)
        if key not in self.statics:
            self.statics[key] = self.new(Obj('frame', meta={'parent': None}))
        return self.statics[key].args[0]

    def fnval(self, fi, fid):
        self.fns[fi.key] = fi
        return T('fn', fi.key, fid)

    # ------------------------------------------------------------ attributes
    def class_of(self, v):
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                return o.cls
        return None

    def cls_info(self, v):
        if v.op == 'cls':
            return self.p.classes[v.args[0]]
        return None

    def member_value(self, owner, mem, name, selfv, node, ctx):
        """Value of a class member accessed through instance selfv."""
        if isinstance(mem, FuncInfo):
            return T('bm', selfv, self.fnval(mem, -1))
        if isinstance(mem, Prop):
            if mem.getter is None:
                self.throw('AttributeError', node, ctx, 'lang')
            if mem.cached:
                o = self.deref(selfv)
                if name in o.attrs:
                    return o.attrs[name]
                r = self.call(self.fnval(mem.getter, -1), [s1(selfv)], [], node, ctx)
                self.deref(selfv).attrs[name] = r
                return r
            return self.call(self.fnval(mem.getter, -1), [s1(selfv)], [], node, ctx)
        if mem[0] == 'static':
            return self.fnval(mem[1], -1)
        if mem[0] == 'class':
            return T('bm', T('cls', self.deref(selfv).cls.qual), self.fnval(mem[1], -1))
        if mem[0] == 'expr':
            return self.binding(('expr', owner.module, mem[1]))
        if mem[0] == 'ext':
            return T('bm', selfv, T('ext', mem[1] + '.' + mem[2]))
        raise Undecided('member %s' % name)

    def getattr_(self, v, name, node, ctx, default=None):
        """default: value when the attribute is missing (None: raise AttributeError)."""
        op = v.op
        if op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                f = o.cls.find(name)
                if f and isinstance(f[1], Prop) and not f[1].cached:
                    if default is not None:
                        try:
                            return self.member_value(f[0], f[1], name, v, node, ctx)
                        except PyRaise as e:
                            if exc_is(e.cls, 'AttributeError'):
                                return default
                            raise
                    return self.member_value(f[0], f[1], name, v, node, ctx)
                if name in o.attrs:
                    return o.attrs[name]
                if f:
                    return self.member_value(f[0], f[1], name, v, node, ctx)
                if name == '__class__':
                    return T('cls', o.cls.qual)
                if name == '__dict__':
                    return self.new(Attrs(self, v.args[0]))
                g = o.cls.find('__getattr__')
                if g and isinstance(g[1], FuncInfo):
                    return self.call_method(v, '__getattr__', [s1(K(name))], [])
                if name in ('__init__', '__hash__', '__eq__', '__repr__', '__str__'):
                    return T('bm', v, T('ext', 'builtins.object.' + name))
                if default is not None:
                    return default
                self.throw('AttributeError', node, ctx, 'lang')
            if o.kind in ('list', 'dict', 'set', 'iter', 'gen', 'rng', 'exc', 'frame'):
                if o.kind == 'exc' and name in o.attrs:
                    return o.attrs[name]
                if default is not None and not self.builtin_has(o, name):
                    return default
                if not self.builtin_has(o, name):
                    self.throw('AttributeError', node, ctx, 'lang')
                return T('bm', v, T('ext', o.kind + '.' + name))
        if op == 'super':
            start, selfv = self.p.classes[v.args[0]], v.args[1]
            cls = self.deref(selfv).cls if selfv.op == 'ref' else self.cls_info(selfv)
            f = cls.find(name, after=start)
            if f is None:
                if name in ('__init__', '__init_subclass__', '__setattr__', '__repr__', '__str__', '__eq__', '__hash__', '__getattribute__'):
                    return T('bm', selfv, T('ext', 'builtins.object.' + name))
                if default is not None:
                    return default
                self.throw('AttributeError', node, ctx, 'lang')
            return self.member_value(f[0], f[1], name, selfv, node, ctx)
        if op == 'cls':
            c = self.cls_info(v)
            f = c.find(name)
            if f:
                mem = f[1]
                if isinstance(mem, FuncInfo):
                    return self.fnval(mem, -1)
                if isinstance(mem, Prop):
                    return T('propobj', c.qual, name)
                if mem[0] == 'static':
                    return self.fnval(mem[1], -1)
                if mem[0] == 'class':
                    return T('bm', v, self.fnval(mem[1], -1))
                if mem[0] == 'expr':
                    return self.binding(('expr', f[0].module, mem[1]))
                if mem[0] == 'ext':
                    return T('ext', mem[1] + '.' + mem[2])
            if name in ('__name__', '__qualname__'):
                return K(c.name)
            if name == '__mro__':
                return T('mro', c.qual)
            if default is not None:
                return default
            return T('attr', v, name)
        if op == 'mod':
            m = self.p.modules[v.args[0]]
            r = self.p.resolve_name(m, name)
            if r is None:
                if m.name + '.' + name in self.p.modules:
                    return T('mod', m.name + '.' + name)
                g = self.p.resolve_name(m, '__getattr__') if '__getattr__' in m.globals else None
                if g is not None and g[0] == 'func' and not name.startswith('__'):
                    try:
                        return self.call(self.binding(g), [s1(K(name))], [], node, ctx)
                    except PyRaise as e:
                        if default is not None and exc_is(e.cls, 'AttributeError'):
                            return default
                        raise
                if default is not None:
                    return default
                self.throw('AttributeError', node, ctx, 'lang')
            return self.binding(r) if r[0] != 'expr' else self.global_name(m, name)
        if op == 'ext':
            return T('ext', v.args[0] + '.' + name)
        if op in ('tup', 'flist', 'fdict', 'fset'):
            return T('bm', v, T('ext', {'tup': 'tuple', 'flist': 'list', 'fdict': 'dict', 'fset': 'set'}[op] + '.' + name))
        if op == 'obj':
            for k, x in v.args[1]:
                if k == name:
                    return x
            raise Undecided('attribute %s of a frozen object' % name)
        if op == 'k':
            if kv(v) is None or not hasattr(kv(v), name):
                if default is not None:
                    return default
                self.throw('AttributeError', node, ctx, 'none')
            return T('bm', v, T('ext', v.args[0] + '.' + name))
        if op == 'fn':
            if name in ('__name__', '__qualname__'):
                return K(self.fns[v.args[0]].name)
            if name in FN_ATTRS:
                return T('attr', v, name)
            if name.startswith('cache_') or name == '__wrapped__':
                raise Undecided('%s of a function' % name)
            if default is not None:
                return default
            self.throw('AttributeError', node, ctx, 'missing:' + name)
        if op == 'sigof':
            if name == 'parameters':
                a = self.sig_args(v)
                return self.new_dict(tuple(s1(tup(K(x), T('param', v, x))) for x in a))
            return T('bm', v, T('ext', 'opaque.' + name))
        if op == 'param' and name == 'name':
            return K(v.args[1])
        if op == 'bm':
            return T('attr', self.freeze(v), name)
        if op == 'rangev':
            return {'start': v.args[0], 'stop': v.args[1], 'step': v.args[2]}.get(name) or T('bm', v, T('ext', 'range.' + name))
        return self.opaque_attr(v, name, node, ctx, default)

    def sig_args(self, v):
        f, bound = v.args
        a = self.fns[f.args[0]].node.args
        xs = [x.arg for x in a.posonlyargs + a.args][bound:]
        return xs + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])

    BUILTIN_ATTRS = {
        'list': dir(list), 'dict': dir(dict), 'set': dir(set), 'iter': ['__next__', '__iter__', '__length_hint__'],
        'gen': ['__next__', '__iter__', 'send', 'close', 'throw'], 'exc': ['args', 'with_traceback'], 'frame': [],
    }

    def builtin_has(self, o, name):
        if o.kind == 'rng':
            import random
            return hasattr(random.Random, name)
        return name in self.BUILTIN_ATTRS.get(o.kind, ())

    # opaque collaborators ------------------------------------------------
    METHODLIKE = {'reset', 'seed', 'emit', 'emit_many', '__call__'}

    def opaque_attr(self, v, name, node, ctx, default=None):
        if v.op in DATED:
            if default is not None and not dates.has(v, name):
                return default
            return dates.attr(self, v, name, node, ctx)
        if v.op == 'rslice':
            if name == 'step' and v.args[3] in (NONE, ONE):
                return ONE
            if name == 'step' and v.args[1].op != 'slice' and self.kind(v.args[1]) != 'slice' and v.args[0].args[2] is ONE:
                return v.args[3]
            if name in ('start', 'stop', 'step'):
                return T('attr', v, name)
        if v.op == 'slice' and name in ('start', 'stop', 'step'):
            return v.args[('start', 'stop', 'step').index(name)]
        if v.op == 'slice' and name == 'indices':
            return T('bm', v, T('ext', 'opaque.' + name))
        k = self.kind(v)
        base = k.split(':')[0]
        if (v, name) in self.pinned:
            self.event('read', v, name, loc=self.loc(node, ctx))
            return self.pinned[v, name]
        if base in ('emitter', 'field'):
            if not self.choose(T('has', v, name)):
                if default is not None:
                    return default
                self.throw('AttributeError', node, ctx, 'missing:' + name)
            if name == 'seed' and False:
                pass
            if name in self.METHODLIKE:
                return T('bm', v, T('ext', 'opaque.' + name))
            if name == 'rng_seed':
                return self.hist_parts(v)[0]
            if name == 'previous':
                return self.previous_of(v)
            self.event('read', v, name, loc=self.loc(node, ctx))
            if name in CONFIG_ATTRS:
                return T('attr', v, name)
            return T('attr', v, name, self.hist_parts(v)[1])
        if base == 'any' and default is not None:
            if not self.choose(T('has', v, name)):
                return default
            return T('attr', v, name)
        if base == 'any' and 'AttributeError' in self.handled():
            if not self.choose(T('has', v, name)):
                self.throw('AttributeError', node, ctx, 'missing:' + name)
        if base == 'member':
            # arbitrary group member: it may be None, any attribute may be missing, methods are opaque
            if self.choose(T('isnone', v)) or not self.choose(T('has', v, name)):
                if default is not None:
                    return default
                self.throw('AttributeError', node, ctx, 'missing:' + name)
            return T('bm', v, T('ext', 'opaque.' + name))
        if base in ('callable', 'factory'):
            if name in ('function', '__wrapped__', 'func'):
                if not self.choose(T('has', v, name)):
                    if default is not None:
                        return default
                    self.throw('AttributeError', node, ctx, 'missing:' + name)
                return T('attrf', v, name)
            return T('attr', v, name)
        if base in ('seq', 'str', 'iter', 'map', 'num', 'nat', 'int', 'bool', 'rng', 'td', 'dt', 'date', 'datetime', 'time'):
            if default is not None and (base in ('num', 'nat', 'int', 'bool') or base == 'str' and not hasattr('', name)):
                return default
            if base in ('td', 'dt', 'date', 'datetime', 'time', 'any'):
                return T('bm', v, T('ext', 'opaque.' + name)) if name in DT_METHODS else T('attr', v, name)
            return T('bm', v, T('ext', 'opaque.' + name))
        if default is not None:
            if not self.choose(T('has', v, name)):
                return default
            return T('attr', v, name)
        if name in DT_METHODS:
            return T('bm', v, T('ext', 'opaque.' + name))
        if v.op == 'attr' and v.args[1] == 'parameters':
            return T('bm', v, T('ext', 'opaque.' + name))
        return T('attr', v, name)

    def previous_of(self, f):
        seed, ph = self.hist_parts(f)
        while ph.op == 'seeded':
            ph = ph.args[1]
        self.event('previous', f, 'previous', result=None)
        if ph.op == 'after':
            return T('out', f, ph.args[0], ph.args[1])
        if ph.op == 'fresh':
            return NONE
        return T('attr', f, 'previous', ph)

    def setattr_(self, v, name, val, node, ctx):
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                f = o.cls.find(name)
                if f and isinstance(f[1], Prop) and not f[1].cached:
                    if f[1].setter is None:
                        self.throw('AttributeError', node, ctx, 'lang')
                    self.call(self.fnval(f[1].setter, -1), [s1(v), s1(val)], [], node, ctx)
                    return
                sa = o.cls.find('__setattr__')
                if sa and isinstance(sa[1], FuncInfo) and not self.in_setattr(ctx):
                    self.call_method(v, '__setattr__', [s1(K(name)), s1(val)], [])
                    return
                o.attrs[name] = val
                return
            if o.kind == 'exc':
                o.attrs[name] = val
                return
            if o.kind == 'rng':
                raise Undecided('attribute set on generator')
        if v.op in ('cls', 'mod', 'fn', 'ext'):
            self.event('setstatic', v, name, (val,), loc=self.loc(node, ctx))
            return
        base = self.kind(v).split(':')[0]
        if base in ('emitter', 'field', 'member'):
            self.event('setattr', v, name, (self.freeze(val),), loc=self.loc(node, ctx))
            self.may_raise_any(T('setof', v, name), node, ctx, 'opaque')
            seed, ph = self.hist_parts(v)
            if name == 'rng_seed':
                self.put_hist(v, T('st', val, ph))
            else:
                self.put_hist(v, T('st', seed, T('set', ph, name, self.freeze(val))))
            return
        self.event('setattr', v, name, (self.freeze(val),), loc=self.loc(node, ctx))

    def in_setattr(self, ctx):
        return ctx.fn is not None and ctx.fn.name == '__setattr__'

    def hasattr_(self, v, name, node, ctx):
        op = v.op
        if op in DATED:
            return K(dates.has(v, name))
        if op == 'super':
            start, selfv = self.p.classes[v.args[0]], v.args[1]
            cls = self.deref(selfv).cls if selfv.op == 'ref' else self.cls_info(selfv)
            return K(cls.find(name, after=start) is not None)
        if op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                f = o.cls.find(name)
                if f and isinstance(f[1], Prop):
                    try:
                        self.member_value(f[0], f[1], name, v, node, ctx)
                        return TRUE
                    except PyRaise as e:
                        if exc_is(e.cls, 'AttributeError'):
                            return FALSE
                        raise
                return K(bool(f) or name in o.attrs)
            return K(self.builtin_has(o, name))
        if op == 'k':
            return K(hasattr(kv(v), name))
        if op == 'fn':
            return K(name in FN_ATTRS)
        if op in ('cls',):
            return K(self.cls_info(v).find(name) is not None)
        if op in ('tup',):
            return K(hasattr((), name))
        if op in ('flist',):
            return K(hasattr([], name))
        if op == 'slice':
            return K(hasattr(slice(0), name))
        base = self.kind(v).split(':')[0]
        if base == 'str':
            return K(hasattr('', name))
        if base == 'seq' and name in ('__len__', '__iter__', '__getitem__'):
            return TRUE
        if base in ('callable', 'factory') and name == '__call__':
            return TRUE
        if base == 'member' and self.choose(T('isnone', v)):
            return FALSE
        return T('cond', T('has', v, name), 'pos')

    # ------------------------------------------------------------ statements
    def exec_body(self, body, ctx):
        for s in body:
            self.exec(s, ctx)

    def exec(self, s, ctx):
        self.stats['steps'] += 1
        if self.stats['steps'] > self.limit:
            raise Undecided('step budget exhausted')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s at %s' % (type(s).__name__, self.loc(s, ctx)))
        m(s, ctx)

    def x_Pass(self, s, ctx):
        pass

    def x_Expr(self, s, ctx):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, ctx)

    def x_Assign(self, s, ctx):
        v = self.eval(s.value, ctx)
        for t in s.targets:
            self.assign(t, v, ctx)

    def x_AnnAssign(self, s, ctx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, ctx), ctx)

    def x_AugAssign(self, s, ctx):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, ctx, t)
            self.assign(t, self.augop(s.op, cur, self.eval(s.value, ctx), s, ctx), ctx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, ctx)
            cur = self.getattr_(o, t.attr, t, ctx)
            self.setattr_(o, t.attr, self.augop(s.op, cur, self.eval(s.value, ctx), s, ctx), s, ctx)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, ctx)
            i = self.eval_index(t.slice, ctx)
            cur = self.getitem(o, i, t, ctx)
            self.setitem(o, i, self.augop(s.op, cur, self.eval(s.value, ctx), s, ctx), s, ctx)
        else:
            raise Undecided('augmented assignment')

    def augop(self, op, cur, val, node, ctx):
        if cur.op == 'ref' and self.deref(cur).kind == 'list':
            o = self.deref(cur)
            if isinstance(op, ast.Add):
                segs = self.iter_segs(val, node, ctx)
                self.mutated(cur, 'extend', node, ctx)
                o = self.deref(cur)
                o.segs = self.norm_segs(o.segs + tuple(segs))
                return cur
            if isinstance(op, ast.Mult):
                self.mutated(cur, '*=', node, ctx)
                o.segs = self.norm_segs((T('rep', o.segs, self.to_num(val)),))
                return cur
        if cur.op == 'ref' and self.deref(cur).kind == 'dict' and isinstance(op, ast.BitOr):
            self.call_method_ext(cur, 'update', [s1(val)], [], node, ctx)
            return cur
        if cur.op not in ('k', 'poly', 'tup', 'ref') and isinstance(op, (ast.Add, ast.Mult, ast.BitOr)):
            base = self.kind(cur).split(':')[0]
            if base in ('seq', 'map'):
                self.event('mutate', cur, type(op).__name__ + '=', (), loc=self.loc(node, ctx))
        return self.binop(op, cur, val, node, ctx)

    def mutated(self, v, what, node, ctx):
        """Record in-place modification of a heap object (for ownership rules)."""
        if v.op == 'ref':
            o = self.deref(v)
            if o.meta.get('shared') and not self.shared_zone:
                self.event('mutshared', v, what, (), loc=self.loc(node, ctx))
            if o.meta.get('user'):
                self.event('mutate', o.meta['user'], what, (), loc=self.loc(node, ctx))

    def assign(self, t, v, ctx):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, ctx)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, ctx), t.attr, v, t, ctx)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, ctx), self.eval_index(t.slice, ctx), v, t, ctx)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, t, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.new_list(self.iter_segs(v, t, ctx)), ctx)
        else:
            raise Undecided('assignment target')

    def setname(self, name, v, ctx):
        fr = self.heap[ctx.fid]
        if name in fr.meta.get('nonlocals', ()):
            fid = fr.meta.get('parent')
            while fid is not None:
                f2 = self.heap[fid]
                if name in f2.attrs:
                    f2.attrs[name] = v
                    return
                fid = f2.meta.get('parent')
        if name in fr.meta.get('globals', ()):
            self.event('setstatic', T('mod', ctx.mod.name), name, (self.freeze(v),), loc=ctx.mod.name)
            self.statics[('glob', ctx.mod.name, name)] = v
            return
        fr.attrs[name] = v

    def unpack(self, elts, v, node, ctx):
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op not in ('tup',) and not (v.op == 'ref'):
            segs = self.maybe_segs(v)
            if segs is None:
                raise Undecided('unpacking %s' % show(v))
        segs = self.iter_segs(v, node, ctx)
        if all(s.op == 's1' for s in segs):
            vals = [s.args[0] for s in segs]
            if stars:
                i = stars[0]
                j = len(elts) - i - 1
                for e, x in zip(elts[:i], vals[:i]):
                    self.assign(e, x, ctx)
                mid = vals[i:len(vals) - j]
                self.assign(elts[i].value, self.new_list([s1(x) for x in mid]), ctx)
                for e, x in zip(elts[i + 1:], vals[len(vals) - j:]):
                    self.assign(e, x, ctx)
                return
            if len(vals) != len(elts):
                self.throw('ValueError', node, ctx, 'lang')
            for e, x in zip(elts, vals):
                self.assign(e, x, ctx)
            return
        if stars:
            i = stars[0]
            if i == len(elts) - 1:
                for j, e in enumerate(elts[:i]):
                    self.assign(e, self.index_segs(segs, K(j)), ctx)
                self.assign(elts[i].value, self.new_list(self.slice_segs(segs, K(i), None, None)), ctx)
                return
            raise Undecided('starred unpacking')
        for j, e in enumerate(elts):
            self.assign(e, self.index_segs(segs, K(j)), ctx)

    def x_Delete(self, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.heap[ctx.fid].attrs.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, ctx)
                if o.op == 'ref' and self.deref(o).kind == 'inst':
                    ob = self.deref(o)
                    f = ob.cls.find(t.attr)
                    if f and isinstance(f[1], Prop):
                        if f[1].deleter is None:
                            self.throw('AttributeError', s, ctx, 'lang')
                        self.call(self.fnval(f[1].deleter, -1), [s1(o)], [], s, ctx)
                    elif t.attr in ob.attrs:
                        del ob.attrs[t.attr]
                    else:
                        self.throw('AttributeError', s, ctx, 'lang')
                else:
                    raise Undecided('del attribute')
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, ctx)
                i = self.eval_index(t.slice, ctx)
                self.delitem(o, i, s, ctx)
            else:
                raise Undecided('del')

    def x_Return(self, s, ctx):
        raise ReturnEx(self.eval(s.value, ctx) if s.value is not None else NONE)

    def x_Break(self, s, ctx):
        raise BreakEx()

    def x_Continue(self, s, ctx):
        raise ContinueEx()

    def x_Global(self, s, ctx):
        fr = self.heap[ctx.fid]
        fr.meta['globals'] = tuple(fr.meta.get('globals', ())) + tuple(s.names)

    def x_Nonlocal(self, s, ctx):
        fr = self.heap[ctx.fid]
        fr.meta['nonlocals'] = tuple(fr.meta.get('nonlocals', ())) + tuple(s.names)

    def x_Assert(self, s, ctx):
        if not self.truth(self.eval(s.test, ctx)):
            self.throw('AssertionError', s, ctx, 'raise')

    def x_If(self, s, ctx):
        if self.truth(self.eval(s.test, ctx)):
            self.exec_body(s.body, ctx)
        else:
            self.exec_body(s.orelse, ctx)

    def x_Import(self, s, ctx):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            self.setname(nm, T('mod', full) if full in self.p.modules else T('ext', full), ctx)

    def x_ImportFrom(self, s, ctx):
        base = self.p._abs_from(ctx.mod, s)
        for a in s.names:
            if base in self.p.modules:
                r = self.p.resolve_name(self.p.modules[base], a.name)
                if r is None and base + '.' + a.name in self.p.modules:
                    v = T('mod', base + '.' + a.name)
                elif r is None:
                    self.throw('ImportError', s, ctx, 'lang')
                else:
                    v = self.binding(r)
            else:
                v = T('ext', base + '.' + a.name)
            self.setname(a.asname or a.name, v, ctx)

    def x_FunctionDef(self, s, ctx):
        fi = self.local_fn(s, ctx, s.name)
        v = self.closure(fi, s, ctx)
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, ctx)
        self.setname(s.name, v, ctx)

    def x_ClassDef(self, s, ctx):
        raise Undecided('nested class')

    def local_fn(self, node, ctx, name):
        key = (ctx.mod.name, node.lineno, node.col_offset)
        cache = self.__dict__.setdefault('_localfns', {})
        fi = cache.get((key, id(node)))
        if fi is None:
            fi = FuncInfo(node, ctx.mod, ctx.fn.cls if ctx.fn else None,
                          (ctx.fn.qual + '.' if ctx.fn else '') + name, parent=ctx.fn)
            cache[(key, id(node))] = fi
        return fi

    def closure(self, fi, node, ctx):
        v = self.fnval(fi, ctx.fid)
        a = node.args
        fr = self.heap[ctx.fid]
        ds = []
        for d in a.defaults:
            ds.append(self.eval(d, ctx))
        ks = []
        for d in a.kw_defaults:
            ks.append(self.eval(d, ctx) if d is not None else None)
        if ds or ks:
            self.heap[ctx.fid].meta['def:' + fi.key] = (tuple(ds), tuple(ks))
        return v

    def x_Raise(self, s, ctx):
        if s.exc is None:
            if not self.exc_stack:
                self.throw('RuntimeError', s, ctx, 'lang')
            e = self.exc_stack[-1]
            raise PyRaise(e.exc, e.cls, e.loc, e.origin)
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func, ctx)
            cls = self.exc_class(c)
            if cls is not None:
                args = []
                for a in e.args:
                    if isinstance(a, ast.Starred):
                        continue
                    args.append(self.lazy_message(a, ctx))
                ex = self.make_exc(cls, args)
                if s.cause is not None and not isinstance(s.cause, ast.Constant):
                    pass
                raise PyRaise(ex, cls, self.loc(s, ctx), 'raise')
        v = self.eval(e, ctx)
        if v.op == 'ref' and self.deref(v).kind == 'exc':
            raise PyRaise(v, self.deref(v).cls, self.loc(s, ctx), 'raise')
        cls = self.exc_class(v)
        if cls is not None:
            raise PyRaise(self.make_exc(cls), cls, self.loc(s, ctx), 'raise')
        raise Undecided('raise of %s' % show(v))

    def exc_class(self, c):
        if c.op == 'ext' and c.args[0].startswith('builtins.'):
            n = c.args[0][9:]
            if n in EXC_PARENT or n == 'BaseException':
                return n
        if c.op == 'exccls':
            return c.args[0]
        if c.op == 'cls':
            ci = self.cls_info(c)
            for b in ci.mro():
                if isinstance(b, str) and b.startswith('builtins.') and b[9:] in EXC_PARENT:
                    EXC_PARENT.setdefault(ci.name, b[9:])
                    return ci.name
        return None

    def lazy_message(self, a, ctx):
        """Messages of exceptions are not part of any property: evaluate only plain names."""
        if isinstance(a, (ast.Name, ast.Constant, ast.Attribute)):
            try:
                return self.eval(a, ctx)
            except PyRaise:
                raise
        if isinstance(a, ast.JoinedStr):
            return T('fstr', a.lineno)
        has_effect = any(isinstance(n, ast.Call) for n in ast.walk(a))
        if not has_effect:
            return T('fstr', a.lineno)
        return T('fstr', a.lineno)

    def x_Try(self, s, ctx):
        classes = []
        for h in s.handlers:
            hc = self.handler_classes(h, ctx)
            classes.extend(hc)
        pending = None
        try:
            try:
                if classes:
                    self.handlers.append(classes)
                nh = len(self.handlers)
                try:
                    self.exec_body(s.body, ctx)
                finally:
                    if classes:
                        del self.handlers[nh - 1:]
                self.exec_body(s.orelse, ctx)
            except PyRaise as e:
                for h in s.handlers:
                    hc = self.handler_classes(h, ctx)
                    if any(exc_is(e.cls, c) for c in hc):
                        if h.name:
                            self.setname(h.name, e.exc, ctx)
                        self.exc_stack.append(e)
                        try:
                            self.exec_body(h.body, ctx)
                        except PyRaise as e2:
                            if e.origin == 'opaque' and e2.exc is not e.exc:
                                self.event('swallowed', None, e.cls, (), loc=self.loc(h, ctx))
                            raise
                        finally:
                            self.exc_stack.pop()
                        if e.origin.startswith('opaque') or e.origin.startswith('member'):
                            self.event('swallowed', None, e.cls, (), loc=self.loc(h, ctx))
                        break
                else:
                    raise
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            pending = e
        if s.finalbody:
            self.exec_body(s.finalbody, ctx)
        if pending is not None:
            raise pending

    def handler_classes(self, h, ctx):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.eval(t, ctx)
            if v.op == 'tup':
                for sg in v.args[0]:
                    c = self.exc_class(sg.args[0])
                    if c:
                        out.append(c)
                continue
            c = self.exc_class(v)
            out.append(c or 'unknown:' + show(v))
        return out

    def x_With(self, s, ctx):
        sup = []
        for it in s.items:
            e = it.context_expr
            if isinstance(e, ast.Call):
                f = self.eval(e.func, ctx)
                if f.op == 'ext' and f.args[0] == 'contextlib.suppress':
                    for a in e.args:
                        c = self.exc_class(self.eval(a, ctx))
                        if c:
                            sup.append(c)
                    continue
                if f.op == 'ext' and f.args[0] in ('warnings.catch_warnings',):
                    continue
            raise Undecided('with statement at %s' % self.loc(s, ctx))
        if not sup:
            self.exec_body(s.body, ctx)
            return
        self.handlers.append(sup)
        nh = len(self.handlers)
        try:
            self.exec_body(s.body, ctx)
        except PyRaise as e:
            if not any(exc_is(e.cls, c) for c in sup):
                raise
            if e.origin.startswith('opaque') or e.origin.startswith('member'):
                self.event('swallowed', None, e.cls, (), loc=self.loc(s, ctx))
        finally:
            del self.handlers[nh - 1:]

    def x_For(self, s, ctx):
        it = self.eval(s.iter, ctx)
        if it.op == 'ref' and self.deref(it).kind == 'gen':
            self.force_gen(it)
        segs = self.iter_segs(it, s, ctx)

        def body(el):
            self.assign(s.target, el, ctx)
            self.exec_body(s.body, ctx)
        try:
            self.iterate(segs, body, s, ctx)
        except BreakEx:
            return
        self.exec_body(s.orelse, ctx)

    def x_While(self, s, ctx):
        # concrete constant tests that are false never run
        test_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        live = []
        seen = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in seen:
                seen.add(n.id)
                try:
                    v = self.lookup(n.id, ctx, n)
                except (PyRaise, Undecided):
                    continue
                if v.op in ('ext', 'cls', 'mod', 'fn'):
                    continue
                f = self.freeze(v) if not (v.op == 'ref' and self.deref(v).kind == 'gen') else T('gen')
                live.append((n.id, f))
        dom = T('while', (ctx.fn.qual if ctx.fn else '') + ':' + str(s.lineno - (ctx.fn.node.lineno if ctx.fn else 0)), tuple(sorted(live, key=lambda x: x[0])))

        def body(ix):
            if not test_true:
                if not self.truth(self.eval(s.test, ctx)):
                    raise BreakEx()
            self.exec_body(s.body, ctx)
        if s.orelse and not test_true and any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            raise Undecided('while-else with break')
        try:
            self.generic_loop(dom, body, s, ctx, while_loop=True)
        except BreakEx:
            pass
        if not test_true:
            self.exec_body(s.orelse, ctx)

    def x_Match(self, s, ctx):
        raise Undecided('match statement')
