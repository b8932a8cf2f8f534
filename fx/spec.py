"""Obligation framework: scenarios over the public API, decided on abstract summaries.

A check is a set of scenarios.  Each scenario drives the analysed program's
public interface on abstract inputs; the interpreter partitions it into paths,
and the scenario states obligations on every path.  An obligation is proved,
violated, or undecided (the summary is not precise enough); only a violated one
is an alarm.
"""
import hashlib
import json
import os
import pickle
import re
import select
import sys
import time
import traceback

from .world import *   # noqa
from .program import AnalysisBroken
from . import dates
from .ground import witness

sys.setrecursionlimit(20000)

REPO = os.environ.get('FX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

IMPRECISE = {'havoc', 'pre', 'spre', 'chunk', 'lastval', 'exitval', 'unknown', 'finx', 'loop', 'loopn', 'bitop', 'while'}


def foreign(t):
    """Calls of library functions that are not modelled."""
    return {s for s in subterms(t) if s.op == 'extcall' and str(s.args[0]) != 'builtins.dict.fromkeys'} if isinstance(t, (Term, tuple)) else set()


def imprecise(*ts):
    if len(ts) == 2 and foreign(ts[0]) != foreign(ts[1]):
        return True
    return any(mentions(t, lambda s: s.op in IMPRECISE) for t in ts if isinstance(t, (Term, tuple)))


class Ob:
    __slots__ = ('status', 'rule', 'scenario', 'msg', 'at', 'path')

    def __init__(self, status, rule, scenario, msg, at, path):
        self.status, self.rule, self.scenario, self.msg, self.at, self.path = status, rule, scenario, msg, at, path


class Sc(World):
    """The world of one scenario, with obligations."""

    def __init__(self, program, chk, name, budget):
        super().__init__(program, budget)
        self.chk, self.name = chk, name
        self.buf = []
        self.at_default = ''

    # -------------------------------------------------------- histories
    def unchanged(self, snap):
        """Everything that existed at the snapshot is as it was then."""
        heap, statics = snap[0], snap[3]
        for i, o in heap.items():
            n = self.heap.get(i)
            if n is not None and n.kind == o.kind == 'frame' and all(n.attrs.get(k) == v for k, v in o.attrs.items()):
                continue    # a local that only now gets its first value is nobody else's
            if n is not None and n.kind in ('gen', 'iter') and o.kind == 'gen' and o.segs is None and n.pos in (None, ZERO) and n.attrs == o.attrs:
                continue    # what it yields was only worked out
            if n is None or (n.kind, n.cls, n.segs, n.pos) != (o.kind, o.cls, o.segs, o.pos) or n.attrs != o.attrs:
                if os.environ.get('FX_DEBUG'):
                    print('changed', o.kind, o.cls, o.meta, str(o.attrs)[:300], str(o.segs)[:200], '->', n and (str(n.attrs)[:300], str(n.segs)[:200]))
                return False
        return all(self.statics.get(k) == v for k, v in statics.items())

    def again_and_again(self, use, rule, msg, at, limit=40):
        """use(turn) for every turn: the turn that leaves everything as it found it stands for all later ones."""
        for turn in range(limit):
            snap = self.snapshot()
            if use(turn) is False:
                return
            if turn and self.unchanged(snap):
                self.ok(rule)
                return
        self.undec(rule, msg + ': every use leaves something changed', at)

    # -------------------------------------------------------- obligations
    def _path(self):
        ds = self.levels[0].decisions if self.levels else []
        return [('' if b else 'not ') + show(a)[:160] for a, b in ds if a is not None]

    def ok(self, rule):
        self.buf.append(Ob('proved', rule, self.name, '', '', None))

    def fail(self, rule, msg, at=None):
        self.ruled_out()
        if any(a.op == 'eq' and all(x.op in ('seq', 'tup', 'flist') for x in a.args) for a, b in self.all_facts()):
            # the path rests on whether two sequences are equal, which was not worked out
            self.undec(rule, msg, at)
            return
        self.buf.append(Ob('violated', rule, self.name, msg, at or self.at_default, self._path()))

    def ruled_out(self):
        """A path whose conditions contradict each other decides nothing."""
        if self.impossible():
            raise Infeasible()
        self.contradicted(True)

    def undec(self, rule, msg, at=None):
        self.ruled_out()
        self.buf.append(Ob('undecided', rule, self.name, msg, at or self.at_default, self._path()))

    def require(self, cond, rule, msg, at=None, vague=False):
        if cond:
            self.ok(rule)
        elif vague:
            self.undec(rule, msg, at)
        else:
            self.fail(rule, msg, at)
        return bool(cond)

    def simp(self, v, pins=False):
        """v with the equalities known on this path substituted."""
        m = {}
        for a, b in list(self.all_facts()):
            if b and a.op == 'isnone':
                m[a.args[0]] = NONE
        for a, b in list(self.all_facts()):
            if not b or a.op != 'eq0' or not self.is_int(a.args[0]):
                continue
            p = subst(a.args[0], m)
            for mono, c in sorted(pmonos(p), key=lambda mc: -max([x.n for x in mc[0]] or [0])):
                if len(mono) == 1 and c in (1, -1):
                    rest = psub(p, pmul(K(c), mono[0]))
                    if not occurs(mono[0], rest):
                        x, y = mono[0], pneg(rest) if c == 1 else rest
                        m = {k: subst(t, {x: y}) for k, t in m.items()}
                        m[x] = y
                        break
        for x, c in self.pinned_down(m).items() if pins else ():
            m = {k: subst(t, {x: c}) for k, t in m.items()}
            m[x] = c
        for _ in range(4):
            w = self.renorm(subst(v, m))
            if w is v:
                break
            v = w
        return v

    def pinned_down(self, m):
        """Whole numbers that the inequalities known on this path leave one value for."""
        lo, hi, ne = {}, {}, {}
        for a, b in self.all_facts():
            if a.op not in ('gt0', 'eq0') or a.op == 'eq0' and b:
                continue
            p = subst(a.args[0], m)
            ms = [(mono, c) for mono, c in pmonos(p) if mono]
            if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][1] not in (1, -1):
                continue
            x, c = ms[0][0][0], ms[0][1]
            if not self.is_int(x):
                continue
            k = pconst(psub(p, pmul(K(c), x)))
            if k is None or k != int(k):
                continue
            k = int(k)
            if a.op == 'eq0':
                ne.setdefault(x, set()).add(-k * c)
            elif b and c == 1:           # x + k > 0
                lo.setdefault(x, []).append(1 - k)
            elif b:                      # k - x > 0
                hi.setdefault(x, []).append(k - 1)
            elif c == 1:                 # x + k <= 0
                hi.setdefault(x, []).append(-k)
            else:                        # k - x <= 0
                lo.setdefault(x, []).append(k)
        out = {}
        for x, h in hi.items():
            h = min(h)
            ls = lo.get(x, []) + ([0] if self.entail_ge0(x) else [])
            if not ls:
                continue
            l = max(ls)
            while h > l and h in ne.get(x, ()):
                h -= 1
            while l < h and l in ne.get(x, ()):
                l += 1
            if l == h:
                out[x] = K(l)
        return out

    def equal(self, a, b):
        """Are the two values equal on this path?  True / False / None (cannot tell)."""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        a, b = self.simp(a), self.simp(b)
        if a is b:
            return True
        r = self.num_equal(a, b)
        if r is not None:
            return r
        x, y = self.simp(a, True), self.simp(b, True)
        if x is y or self.num_equal(x, y):
            return True
        self.contradicted()
        if imprecise(a, b):
            return None
        r, inst = witness(self, a, b, list(self.all_facts()))
        if os.environ.get('FX_WIT'):
            print('witness', r, str(inst)[:int(os.environ['FX_WIT'])])
        if r != 'differ':
            return None
        return False

    def contradicted(self, all_=False):
        """A path whose facts contradict each other once put together is none."""
        for a, b in list(self.all_facts()):
            if a.op in ('eq0', 'gt0') and (all_ or any(s.op == 'fdiv' for s in subterms(a))):
                c = pconst(self.simp(a.args[0]))
                if c is not None and b != (c == 0 if a.op == 'eq0' else c > 0):
                    raise Infeasible()
                if a.op == 'eq0' and b:
                    for x in dates.apart(self, dates.known(self, a.args[0])) or ():
                        x = self.simp(x)
                        for y in [self.simp(y.args[0]) for y, yes in self.all_facts() if y.op == 'eq0' and not yes]:
                            if psub(x, y) is ZERO or padd(x, y) is ZERO:
                                raise Infeasible()

    def norm(self, v):
        if isinstance(v, tuple):
            return T('pytup', *[self.norm(x) if isinstance(x, (tuple, Term)) else x for x in v])
        return self.freeze(lift(v))

    def num_equal(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and a.op in ('td', 'dt') and (a.op == 'td' or a.args[0] == b.args[0] and a.args[2] is b.args[2]):
            k = 0 if a.op == 'td' else 1
            return self.num_equal(a.args[k], b.args[k])
        if isinstance(a, Term) and isinstance(b, Term) and self.arith(a) and self.arith(b):
            d = psub(a, b)
            if pconst(d) is not None:
                return pconst(d) == 0
            if self.entail_ge0(d) and self.entail_ge0(pneg(d)):
                return True
            if self.impossible(psub(d, ONE)) and self.impossible(psub(pneg(d), ONE)):
                return True
        return None

    def arith(self, t):
        if is_knum(t):
            return t.args[0] != 'bool'
        return t.op == 'poly' or self.numericish(t)

    def same(self, got, want, rule, msg, at=None):
        r = self.equal(got, want)
        if r is True:
            self.ok(rule)
        else:
            txt = '%s: found %s, expected %s' % (msg, show(self.norm(got))[:CUT], show(self.norm(want))[:CUT])
            (self.fail if r is False else self.undec)(rule, txt, at)
        return r is True

    def differs(self, got, want, rule, msg, at=None):
        r = self.equal(got, want)
        if r is False:
            self.ok(rule)
        else:
            (self.fail if r else self.undec)(rule, '%s: %s' % (msg, show(self.norm(got))[:400]), at)

    def is_fresh_list(self, v):
        return v.op == 'ref' and self.deref(v).kind == 'list'

    def has_len(self, v, n, rule, msg, at=None):
        """v is a list of exactly n values."""
        kind = self.kind(v).split(':')[0] if v.op != 'ref' else self.deref(v).kind
        if v.op == 'ref' and kind == 'list' or v.op == 'flist':
            pass
        elif kind in ('seq', 'list') and v.op in ('out', 'draw', 'drawseq', 'sorted', 'app'):
            pass
        elif v.op in ('k', 'tup', 'rangev') or v.op == 'ref' or kind in ('num', 'nat', 'int', 'bool', 'str'):
            self.fail(rule, '%s: the result is not a list: %s' % (msg, show(self.norm(v))[:300]), at)
            return False
        else:
            self.undec(rule, '%s: not known to be a list: %s' % (msg, show(self.norm(v))[:300]), at)
            return None
        m = self.seq_len(self.deref(v).segs) if v.op == 'ref' else self.len_of(v)
        n = lift(n)
        if m is None:
            self.undec(rule, '%s: length unknown: %s' % (msg, show(self.norm(v))[:300]), at)
            return None
        m = self.simp(m)
        n = self.simp(n)
        r = self.num_equal(m, n)
        if not r and m is not n and self.num_equal(self.simp(m, True), self.simp(n, True)):
            r = True
        if r is True or m is n:
            self.ok(rule)
            return True
        txt = '%s: the list has %s values, expected %s' % (msg, show(m)[:300], show(n))
        if imprecise(m):
            self.undec(rule, txt, at)
            return None
        self.fail(rule, txt, at)
        return False

    # -------------------------------------------------------- program points
    def where(self, module, cls=None, meth=None):
        """file:line (qualname) of a public function, class or (resolved) method."""
        name = '.'.join(x for x in (module, cls, meth) if x)
        m = self.p.modules.get('fauxdoc.' + module)
        if m is None or cls is None:
            return name
        r = self.p.resolve_name(m, cls)
        if not r or not hasattr(r[1], 'node'):
            return name
        x = r[1]
        if meth is not None and isinstance(x, ClassInfo):
            f = x.find(meth)
            f = f[1] if f else None
            if isinstance(f, tuple):
                f = f[1]
            f = getattr(f, 'setter', None) or getattr(f, 'getter', None) or f
            if not hasattr(f, 'node'):
                return name
            x = f
        return '%s:%d (%s)' % (self.p.rel(x.module.path), x.node.lineno, getattr(x, 'qual', name))

    # -------------------------------------------------------- events
    def trace(self, evs, kinds=('call',), want=None):
        """Canonical effect trace: what is done to collaborators, in order."""
        out = []
        for e in evs:
            if e.kind == 'loop':
                cases = []
                for g, oc, inner in e.args:
                    t = self.trace(inner, kinds, want)
                    cases.append((frozenset(g), (T('oc', oc), t)))
                if any(p[1] for g, p in cases):
                    cs = merge_cases(cases)
                    r = self.close_ix(e.target, e.kw, cs)
                    out.append(T('trloop', e.target, r[0], r[1]))
            elif e.kind == 'loopexit':
                out.extend(self.trace(e.args, kinds, want))
            elif e.kind in kinds and (want is None or want(e)):
                out.append(T('tr', e.kind, self.freeze(e.target) if isinstance(e.target, Term) else e.target, e.name, self.freeze(e.args), self.freeze(tuple(sorted(e.kw, key=lambda t: show(t)))) if e.kw else ()))
        return tuple(out)

    def calls(self, evs, *targets):
        """Calls received by the targets, in order; None when some happen inside a loop."""
        out = []
        for e in evs:
            if e.kind == 'loop':
                for g, oc, inner in e.args:
                    r = self.calls(inner, *targets)
                    if r is None or r:
                        return None
            elif e.kind == 'loopexit':
                r = self.calls(e.args, *targets)
                if r is None:
                    return None
                out += r
            elif e.kind == 'call' and e.target in targets:
                out.append((e.target, e.name, e.args, e.loc))
        return out

    def count_calls(self, evs, hit):
        """How many events satisfy hit: a count, 'varies' when it depends on data, None when unknown."""
        tot = ZERO
        for e in evs:
            if e.kind == 'loop':
                per = [(g, self.count_calls(inner, hit)) for g, oc, inner in e.args]
                if all(c is ZERO for g, c in per):
                    continue
                if any(c is None or c == 'varies' for g, c in per):
                    return None if any(c is None for g, c in per) else 'varies'
                c = per[0][1]
                if any(x is not c for g, x in per):
                    return 'varies' if any(mentions(a, lambda t: t.op in ('elem', 'out', 'mval', 'attr', 'app')) for g, x in per for a, b in g) else None
                d = self.dom_count(e.target)
                if d is None or occurs(e.kw, c):
                    return None
                tot = padd(tot, pmul(c, d))
            elif e.kind == 'loopexit':
                c = self.count_calls(e.args, hit)
                if c is None or c == 'varies':
                    return c
                tot = padd(tot, c)
            elif hit(e):
                tot = padd(tot, ONE)
        return tot

    def tally(self, evs, hit, want, rule, msg, at=None):
        c = self.count_calls(evs, hit)
        if c is None:
            self.undec(rule, msg + ': not counted', at)
        elif c == 'varies':
            self.fail(rule, msg + ': the number of calls depends on the data', at)
        else:
            self.same(c, want, rule, msg, at)

    def histories(self, evs, src, kinds=('call', 'setattr')):
        """What happens to a generic element of src: [(guards, events)]."""
        gen = T('ix', 0, T('generic', src))
        alts = [({}, [])]
        for e in evs:
            if e.kind == 'loop':
                cases, hit = [], False
                for g, oc, inner in e.args:
                    m = {e.kw: gen}
                    mine = []
                    for x in inner:
                        if x.kind in kinds and isinstance(x.target, Term) and x.target.op in ('elem', 'mval') and x.target.args[0] is src:
                            if x.target.args[1] is not e.kw:
                                raise Undecided('element visited out of step')
                            mine.append(self.subst_ev(x, lambda t, m=m: subst(t, m)))
                        elif x.kind == 'loop' and self.histories([x], src, kinds) != [({}, [])]:
                            raise Undecided('elements visited in a nested loop')
                    hit = hit or bool(mine)
                    cases.append(({subst(a, m): b for a, b in g}, oc, mine))
                if not hit:
                    continue
                d = self.dom_count(e.target)
                if d is not T('len', src) and d is not self.len_of(src):
                    raise Undecided('loop over part of the elements')
                new = []
                for g0, ev0 in alts:
                    for g, oc, mine in cases:
                        if all(g0.get(a, b) == b for a, b in g.items()):
                            new.append(({**g0, **g}, ev0 + mine))
                alts = new
        return alts

    def mark(self):
        return len(self.events)

    def since(self, mark):
        return self.events[mark:]


def flat_events(evs):
    """All events, those inside loop summaries included (loop marks kept)."""
    for e in evs:
        yield e
        if e.kind == 'loop':
            for case in e.args:
                if isinstance(case, tuple) and len(case) == 3:
                    for x in flat_events(case[2]):
                        yield x


CUT = int(os.environ.get('FX_CUT', '400'))


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.scenarios = []
        self.lints = []
        self.batch = 1          # scenarios decided by one process

    def sc(self, name, at=None, raises='fail', budget=4000000, floor=1, catch=()):
        """raises: what an exception escaping the scenario means ('fail' | 'ok' | 'undecided');
        floor: how many paths must end normally."""
        def deco(fn):
            self.scenarios.append((name, fn, at, raises, budget, floor))
            return fn
        return deco

    def lint(self, name):
        """A query over the syntax tree: fn(program) yields (status, rule, msg, at)."""
        def deco(fn):
            self.lints.append((name, fn))
            return fn
        return deco


def run_scenario(program, chk, sc):
    name, fn, at, raises, budget, floor = sc
    w = Sc(program, chk, name, budget)
    if at:
        w.at_default = w.where(*at)
    obs = []
    normal = [0]

    def body():
        w.buf = []
        try:
            fn(w)
        except Undecided as e:
            w.undec('analysis', 'not decided: %s' % e)
            normal[0] += 1
        except PyRaise as e:
            done(e)
            raise
        normal[0] += 1
        done(None)

    def done(e):
        if e is not None:
            txt = '%s escapes (%s)' % (e.cls, e.origin)
            if raises == 'fail':
                w.fail('no-exception', txt, e.loc)
            elif raises == 'undecided':
                w.undec('no-exception', txt, e.loc)
        obs.extend(w.buf)
    try:
        w.explore(body)
        if normal[0] < floor:
            obs.append(Ob('violated', 'returns', name, 'no execution path of this operation completes', w.at_default, []))
    except Undecided as e:
        obs.append(Ob('undecided', 'analysis', name, 'not decided: %s' % e, w.at_default, []))
    except AnalysisBroken:
        raise
    except Exception as e:          # a construct the engine cannot handle is no verdict
        if os.environ.get('FX_DEBUG'):
            traceback.print_exc()
        obs.append(Ob('undecided', 'analysis', name, 'analysis failed: %s: %s' % (type(e).__name__, str(e)[:200]), w.at_default, []))
    return obs, w.stats


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) rule=(\S+) scenario="([^"]*)" (.*)', line)
            if m:
                out.append(m.groups())
    return out


JOBS = int(os.environ.get('FX_JOBS', '0')) or min(8, os.cpu_count() or 1)
EACH = float(os.environ.get('FX_EACH', '200'))          # seconds for one scenario
WALL = float(os.environ.get('FX_WALL', '0'))            # seconds for all scenarios of a check


def spread(program, chk, todo):
    """Decide every scenario, each in a process of its own forked from this one, so that what a
    scenario yields does not depend on which ones ran before it."""
    total = WALL or 600
    start = time.time()
    end = start + total
    res = [None] * len(todo)
    if os.environ.get('FX_SERIAL'):
        for i, sc in enumerate(todo):
            t = time.time()
            o, st = run_scenario(program, chk, sc)
            res[i] = (o, dict(st, funcs=[str(f) for f in st['funcs']]), time.time() - t)
        return res
    sys.stdout.flush()
    sys.stderr.flush()
    live = {}
    nxt = 0
    size = chk.batch
    units = [list(range(i, min(i + size, len(todo)))) for i in range(0, len(todo), size)]

    def gave_up(u, why, spent):
        for j in units[u]:
            res[j] = ([Ob('undecided', 'analysis', todo[j][0], why, '', [])], {}, spent)

    while nxt < len(units) or live:
        while nxt < len(units) and len(live) < JOBS:
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    out = []
                    try:
                        for j in units[nxt]:
                            t = time.time()
                            o, st = run_scenario(program, chk, todo[j])
                            out.append((o, dict(st, funcs=[str(f) for f in st['funcs']]), time.time() - t))
                    except AnalysisBroken as e:
                        out = ('broken', str(e), 0)
                    sys.stdout.flush()
                    with os.fdopen(wr, 'wb') as f:
                        f.write(pickle.dumps(out))
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(wr)
            live[r] = (nxt, pid, time.time(), [])
            nxt += 1
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            i, pid, t, parts = live[r]
            d = os.read(r, 1 << 20)
            if d:
                parts.append(d)
                continue
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            try:
                out = pickle.loads(b''.join(parts))
            except Exception:
                gave_up(i, 'the analysis of this scenario gave no result', time.time() - t)
                continue
            if out[0] == 'broken':
                for r2, (j, p2, _, _) in live.items():
                    os.kill(p2, 9)
                raise AnalysisBroken(out[1])
            for j, x in zip(units[i], out):
                res[j] = x
        for r2, (j, p2, t, parts) in list(live.items()):
            if time.time() - t > EACH and not parts:
                os.kill(p2, 9)
                os.waitpid(p2, 0)
                os.close(r2)
                del live[r2]
                gave_up(j, 'not decided within %d s' % EACH, time.time() - t)
        if time.time() > start + 150 and any(x and any(o.status == 'violated' for o in x[0]) for x in res):
            end = 0          # there is a verdict already
        if time.time() > end:
            for r2, (j, p2, t, _) in list(live.items()):
                os.kill(p2, 9)
                os.waitpid(p2, 0)
                os.close(r2)
            for j in range(len(todo)):
                if res[j] is None:
                    res[j] = ([Ob('undecided', 'analysis', todo[j][0], 'not decided within %d s' % total, '', [])], {}, 0)
            break
    return res


def run(pid, tier='quick', seed=1, only=None, verbose=False):
    import importlib
    t0 = time.time()
    program = Program(os.path.join(REPO, 'src/fauxdoc'), extra={'fauxdoc.zz_client': os.path.join(VERIF, 'specs', 'client.py')})
    mod = importlib.import_module('specs.%s' % pid.lower())
    chk = mod.check
    obs = []
    tot = {'paths': 0, 'calls': 0, 'loops': 0, 'forks': 0, 'steps': 0}
    funcs = set()
    todo = [sc for sc in chk.scenarios if not only or only in sc[0]]
    nsc = len(todo)
    for sc, (o, st, wall) in zip(todo, spread(program, chk, todo)):
        obs += o
        for k in tot:
            tot[k] += st.get(k, 0)
        funcs |= set(st.get('funcs', ()))
        if verbose:
            print('  %-60s %4d paths %4d ob %5.2fs %s' % (sc[0][:60], st.get('paths', 0), len(o), wall,
                  '' if all(x.status == 'proved' for x in o) else {s: sum(x.status == s for x in o) for s in ('violated', 'undecided')}))
    sites = 0
    for name, fn in chk.lints:
        if only and only not in name:
            continue
        for status, rule, msg, at in fn(program):
            obs.append(Ob(status, rule, name, msg, at, []))
            sites += 1
    return chk, obs, tot, funcs, nsc, sites, time.time() - t0


def report(pid, tier, seed, only=None, verbose=False):
    chk, obs, tot, funcs, nsc, sites, wall = run(pid, tier, seed, only, verbose)
    viol, seen = {}, {}
    for o in obs:
        if o.status == 'violated':
            viol.setdefault((o.rule, o.scenario), []).append(o)
    kn = [k for k in known() if k[0] == pid]
    out = []
    for (rule, sc), os_ in sorted(viol.items()):
        k = [x for x in kn if x[1] == rule and x[2] == sc]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0][3]))
            continue
        out.append((rule, sc, os_))
    und = [o for o in obs if o.status == 'undecided']
    useen = set()
    for o in und:
        if (o.rule, o.scenario) not in useen and len(useen) < 25:
            useen.add((o.rule, o.scenario))
            print('UNDECIDED %s [%s] %s at %s' % (o.scenario, o.rule, o.msg[:max(300, CUT - 100)], o.at))
    paths = []
    if not only and not os.environ.get('FX_NOEV') and os.path.isdir(os.path.join(VERIF, 'out')):
        for f in os.listdir(os.path.join(VERIF, 'out')):
            if f.startswith(pid + '-'):
                os.remove(os.path.join(VERIF, 'out', f))
    for rule, sc, os_ in out:
        h = hashlib.sha1(('%s|%s|%s' % (pid, rule, sc)).encode()).hexdigest()[:10]
        d = os.path.join(VERIF, 'out')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.txt' % (pid, h))
        with open(p, 'w') as f:
            f.write('property: %s\nrule: %s\nscenario: %s\n' % (pid, rule, sc))
            f.write('reproduce: cd %s && python3 check.py %s --only %r\n' % (VERIF, pid, sc))
            for o in os_[:20]:
                f.write('\nat: %s\n%s\npath conditions:\n' % (o.at, o.msg))
                for c in o.path or []:
                    f.write('    %s\n' % c)
        o = os_[0]
        print('  %s: [%s] %s  (%s)' % (o.at, rule, o.msg[:400], sc))
        paths.append(p)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Path-sensitive abstract interpretation of /repo/src/fauxdoc: every scenario drives the public interface '
                           'on abstract inputs of unbounded size; each trace partition discharges the listed obligations.',
            'scenarios': nsc, 'paths': tot['paths'], 'obligations': len(obs),
            'discharged': sum(o.status == 'proved' for o in obs),
            'undecided': len(und), 'known_findings': sum(1 for k in viol) - len(out),
            'functions_analysed': len(funcs), 'function_list': sorted(str(f) for f in funcs)[:200],
            'calls_resolved': tot['calls'], 'loops_summarised': tot['loops'], 'branches_forked': tot['forks'],
            'lint_sites': sites,
            'rules': sorted({o.rule for o in obs}),
            'samples': [{'scenario': o.scenario, 'rule': o.rule, 'status': o.status} for o in obs[:5]],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 3), 'violations': len(out),
    }
    if not only and not os.environ.get('FX_NOEV'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    print('%s: %d scenarios, %d paths, %d obligations, %d proved, %d undecided, %d violations (%.1fs)' % (
        pid, nsc, tot['paths'], len(obs), ev['coverage']['discharged'], len(und), len(out), wall))
    for p in paths:
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1 if out else 0


ASSUMPTIONS = [
    'collaborators given by the user follow the documented protocols: an emitter called with n returns a list of n values, '
    'parts do not reach back into the object that owns them',
    'standard-library calls behave as documented (models in fx/evalx.py)',
    'exact arithmetic: floating-point rounding is not modelled',
]
