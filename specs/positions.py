"""Do the values of a list come from pairwise distinct positions of a sequence?  Decided on symbolic summaries.

DISTINCT / REPEATS / None (cannot tell), with a reason.
"""
from fx.spec import *      # noqa

DISTINCT, REPEATS = 'distinct', 'repeats'
HOLE = T('hole')


def affine(w, p, ix):
    """(coefficient, offset) of p in ix, or None."""
    if p is ix:
        return 1, ZERO
    if p.op != 'poly':
        return (0, p) if not occurs(ix, p) else None
    c = 0
    rest = ZERO
    for mono, k in pmonos(p):
        if mono == (ix,):
            c = k
        else:
            t = K(k)
            for x in mono:
                if occurs(ix, x):
                    return None
                t = pmul(t, x)
            rest = padd(rest, t)
    return c, rest


def ranges(segs, out):
    for s in segs:
        out.append(s)


class Prover:
    def __init__(self, w, base, final=False):
        self.w, self.base, self.final = w, base, final

    # -------------------------------------------------- one value per index
    def injective(self, v, ix, depth=0):
        """Is ix -> position of v in the base injective?  -> (verdict, the map with ix at the top replaced, index)"""
        w = self.w
        if depth > 8:
            return None, 'too deep'
        if v.op != 'elem':
            if not occurs(ix, v) and not any(x.op in ('draw', 'havoc') for x in subterms(v)):
                return REPEATS, 'the same value is handed out again'
            return None, 'value %s' % show(v)[:80]
        src, idx = v.args
        # component of a tuple in a sequence of tuples
        if src.op == 'elem' and idx.op == 'k':
            return self.component(src, idx, ix, depth)
        a = affine(w, idx, ix)
        if src is self.base:
            if a is not None:
                return (DISTINCT, '') if a[0] != 0 else (REPEATS, 'one position of the items for every value')
            if idx.op == 'elem':       # items[p[i]]
                return self.injective_pos(idx, ix, depth)
            return self.drawn_index(idx, ix)
        if a is None:
            return None, 'index %s' % show(idx)[:80]
        if a[0] == 0:
            return (REPEATS, 'one value handed out for every index') if not occurs(ix, src) else self.varying(src, ix)
        return self.whole(src, depth + 1)

    def varying(self, src, ix):
        if src.op == 'draw':
            return REPEATS, 'each value is drawn on its own, without regard to the others'
        return None, 'index into %s' % show(src)[:80]

    def drawn_index(self, idx, ix):
        if any(x.op == 'draw' for x in subterms(idx)) and occurs(ix, idx):
            return REPEATS, 'positions are drawn independently of each other'
        return None, 'index %s' % show(idx)[:80]

    def injective_pos(self, v, ix, depth):
        """Like injective, for values that are positions themselves."""
        src, idx = v.args
        a = affine(self.w, idx, ix)
        if a is None:
            return None, 'index %s' % show(idx)[:80]
        if a[0] == 0:
            return (None, '') if occurs(ix, src) else (REPEATS, 'one position for every value')
        return self.whole(src, depth + 1, positions=True)

    def component(self, src, j, ix, depth):
        s2, idx = src.args
        if s2.op != 'sorted' and s2.op not in ('seq', 'flist', 'tup'):
            return None, 'component of %s' % show(s2)[:60]
        a = affine(self.w, idx, ix)
        if a is None or a[0] == 0:
            return None, 'index %s' % show(idx)[:80]
        segs = s2.args[0] if s2.op != 'sorted' else s2.args[0].args[0]
        if len(segs) != 1:
            return None, 'several parts'
        e = self.w.elementwise(segs[0])
        if e is None:
            return None, 'part %s' % segs[0].op
        dom, ix2, val = e
        if val.op == 'tup' and all(s.op == 's1' for s in val.args[0]) and kv(j) < len(val.args[0]):
            return self.injective(val.args[0][kv(j)].args[0], ix2, depth + 1)
        return None, 'component of %s' % show(val)[:60]

    # -------------------------------------------------- all elements of a sequence
    def whole(self, src, depth=0, positions=False):
        """Do all elements of src sit at distinct positions of the base (or: are they distinct positions)?"""
        if depth > 8:
            return None, 'too deep'
        if src is self.base:
            return DISTINCT, ''
        if src.op == 'sorted':
            return self.whole(src.args[0], depth + 1, positions)
        if src.op in ('seq', 'flist', 'tup'):
            return self.segs(src.args[0], depth + 1, positions)
        if src.op == 'draw':
            meth = src.args[1]
            pop = src.args[2][0] if src.args[2] else None
            if meth in ('sample', 'shuffle'):
                return self.whole(pop, depth + 1, positions)
            if meth == 'choices':
                return REPEATS, 'drawn with replacement'
        if src.op == 'havoc':
            return self.loop(src, positions)
        return None, 'source %s' % src.op

    def segs(self, segs, depth=0, positions=False):
        """The same for a list of segments."""
        w = self.w
        out = []
        for s in segs:
            if s.op == 's1':
                out.append(self.piece(s.args[0], None, depth, positions))
            elif s.op == 'rg':
                if not positions:
                    return None, 'numbers'
                out.append((DISTINCT, '', ('rg',), s.args[0], s.args[1]))
            elif s.op == 'sp':
                src, lo, hi = s.args
                v = self.whole(src, depth + 1, positions)
                out.append(v + (src, lo, hi))
            elif s.op == 'rep':
                if w.entail_gt0(psub(s.args[1], ONE)) is False:
                    r = self.segs(s.args[0], depth + 1, positions)
                    out.append(r + (('rep',), ZERO, ZERO))
                else:
                    out.append((REPEATS, 'the same values are repeated', ('rep',), ZERO, ZERO))
            elif s.op == 'each':
                e = w.elementwise(s)
                if e is None:
                    return None, 'conditional values'
                dom, ix, val = e
                out.append(self.piece(val, (ix, w.dom_count(dom)), depth, positions))
            else:
                return None, 'part %s' % s.op
        for o in out:
            if o[0] is REPEATS:
                return REPEATS, o[1]
        for o in out:
            if o[0] is not DISTINCT:
                return None, o[1]
        for i, a in enumerate(out):
            for b in out[:i]:
                r = self.apart(a, b)
                if r[0] is not DISTINCT:
                    return r
        return DISTINCT, ''

    def piece(self, val, over, depth, positions):
        """(verdict, reason, what it ranges over, lo, hi)"""
        w = self.w
        if over is None:
            k = None
            if val.op == 'elem':
                src, idx = val.args
                if src.op == 'elem' and idx.op == 'k' and src.args[0].op in ('sorted', 'seq'):
                    v = self.component(T('elem', src.args[0], HOLE), idx, HOLE, depth)
                    return v + ((src.args[0], idx), src.args[1], padd(src.args[1], ONE))
                v = self.whole(src, depth + 1, positions) if src is not self.base else (DISTINCT, '')
                return v + (src, idx, padd(idx, ONE))
            return (None, 'value %s' % show(val)[:80], None, ZERO, ZERO)
        ix, count = over
        v = self.injective(val, ix, depth) if not positions else self.injective_pos(val, ix, depth) if val.op == 'elem' else (
            (DISTINCT, '') if affine(w, val, ix) and affine(w, val, ix)[0] else (None, 'position %s' % show(val)[:60]))
        if v[0] is not DISTINCT:
            if v[0] is REPEATS and w.entail_gt0(psub(count, ONE)) is False:
                return (None, 'at most one value', None, ZERO, ZERO)
            return v + (None, ZERO, ZERO)
        # the interval of underlying indices
        over, idx = self.under(val)
        a = affine(w, idx, ix) if idx is not None else None
        if a is None or a[0] not in (1, -1):
            return v + (None, ZERO, ZERO)
        lo = a[1] if a[0] == 1 else padd(psub(a[1], count), ONE)
        return v + (over, lo, padd(lo, count))

    def under(self, val):
        if val.op == 'elem' and val.args[0].op == 'elem' and val.args[1].op == 'k':
            return (val.args[0].args[0], val.args[1]), val.args[0].args[1]
        if val.op == 'elem':
            return val.args[0], val.args[1]
        return None, None

    def apart(self, a, b):
        w = self.w
        if a[2] is None or b[2] is None or a[2] != b[2]:
            if self.final and self.independent(a[2], b[2]) and all(self.some(psub(x[4], x[3])) for x in (a, b)):
                return REPEATS, 'values of two orders drawn independently of each other'
            return None, 'values from different orders'
        if w.entail_ge0(psub(a[3], b[4])) or w.entail_ge0(psub(b[3], a[4])):
            return DISTINCT, ''
        if w.entail_ge0(psub(a[3], a[4])) or w.entail_ge0(psub(b[3], b[4])):
            return DISTINCT, ''
        gt = lambda x: w.entail_gt0(x) is True
        if all(gt(x) for x in (psub(a[4], b[3]), psub(b[4], a[3]), psub(a[4], a[3]), psub(b[4], b[3]))):
            return REPEATS, 'values %s to %s of the order are handed out, and %s to %s of it again' % tuple(show(x)[:60] for x in (b[3], b[4], a[3], a[4]))
        return None, 'positions %s and %s' % (show(a[3])[:60], show(b[3])[:60])

    def some(self, p):
        w = self.w
        if w.entail_gt0(p) is True:
            return True
        for mono, c in pmonos(p):
            x = mono[0] if len(mono) == 1 else None
            if x is not None and x.op == 'fdiv' and is_knum(x.args[1]) and kv(x.args[1]) > 0:
                # d*(y // d) lies between y - d + 1 and y
                y, d = x.args
                bound = y if c < 0 else padd(psub(y, d), ONE)
                return self.some(padd(pmul(d, psub(p, pmul(K(c), x))), pmul(K(c), bound)))
        return False

    def all_of_base(self, t):
        if t is self.base:
            return True
        return t.op in ('seq', 'flist', 'tup') and len(t.args[0]) == 1 and t.args[0][0] is T('sp', self.base, ZERO, self.w.len_of(self.base))

    def independent(self, a, b):
        """Two random orders of the whole base, nothing of one known to the other?"""
        out = []
        for x in (a, b):
            x = x[0] if isinstance(x, tuple) else x
            if x is None or not isinstance(x, Term) or x.op not in ('sorted', 'draw'):
                return False
            ds = drawn_in(x)
            if not ds or x.op == 'draw' and (x.args[1] not in ('sample', 'shuffle') or not self.all_of_base(x.args[2][0])):
                return False
            if x.op == 'sorted' and any(y.op in ('havoc', 'sp', 'loopn') for y in subterms(x.args[0])):
                return False
            out.append((x, ds))
        (x, dx), (y, dy) = out
        return not (dx & dy)

    # -------------------------------------------------- selection loops
    def loop(self, h, positions):
        dom, sig, init, row = h.args
        if sig.op != 'sig':
            return None, 'loop'
        if not self.empty(init):
            return None, 'the loop starts with values'
        marks, why = self.preserved(sig, row, 0)
        if marks is REPEATS:
            return REPEATS, why
        return (DISTINCT, '') if marks else (None, why)

    def empty(self, init):
        return init == () or isinstance(init, Term) and init.args == ()

    def rows(self, sig):
        out = []
        for r in sig.args[0].args:
            init, cases = r.args
            out.append((init, [({(b.args[0], b.args[1]) for b in c.args[0].args}, c.args[1]) for c in cases.args]))
        return out

    def ph(self, t, i=None):
        return isinstance(t, Term) and t.op == 'wph' and (i is None or t.args[0] == i)

    def preserved(self, sig, r, depth):
        """Rows whose marks guarantee that row r collects distinct positions (a set), or REPEATS, or () with a reason."""
        if depth > 3:
            return (), 'too deep'
        rows = self.rows(sig)
        high = sig.args[2]
        own = lambda i: T('wph', i, high)
        self.still = {own(k) for k, (init, cases) in enumerate(rows) if all(self.same(post, own, k) for g, post in cases)}
        good = None
        for g, post in rows[r][1]:
            if post.op != 'pytup' or not post.args or post.args[0] is not own(r):
                return (), 'the collected values are rewritten'
            rest = post.args[1:]
            if not rest:
                continue
            if len(rest) == 1 and rest[0].op == 's1':
                m, why = self.guarded(rows, own, r, g, rest[0].args[0])
            else:
                m, why = self.inside(sig, rows, own, r, rest, depth)
            if m is REPEATS:
                common = frozenset.intersection(*[frozenset(g2) for g2, p2 in rows[r][1]])
                if any(self.counts(a, r, own) for a, b in g if (a, b) not in common):
                    return (), why + ' (it depends on how many were)'
                return m, why
            good = m if good is None else good & m
            if not good:
                return (), why or 'no mark covers every way to collect a value'
        if good is None:
            return (), 'nothing collected'
        good = {k for k in good if self.kept(rows, own, k, sig)}
        return good, '' if good else 'marks are taken back'

    def position(self, v):
        if v.op == 'elem' and v.args[0] is self.base:
            return v.args[1]
        return v

    def state_of(self, own, t):
        """Rows of this loop a term depends on, generators aside."""
        out = set()
        seen = set()

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, Term) or x in seen:
                return
            seen.add(x)
            if x.op == 'wph':
                if x is own(x.args[0]) and x not in self.still:
                    out.add(x.args[0])
                return
            if x.op == 'draw':
                walk(x.args[2:])
                return
            for y in x.args:
                walk(y)
        walk(t)
        return out

    def guarded(self, rows, own, r, g, v):
        p = self.position(v)
        marks = set()
        dep = set()
        for a, b in g:
            dep |= self.state_of(own, a)
            k = self.asks(own, a, b, p, v)
            if k is not None and k < len(rows) and self.marked(rows, own, k, g, p, v):
                marks.add(k)
        for x in subterms(p):
            if x.op == 'draw':           # drawn afresh with weights that exclude what was taken
                for k in self.state_of(own, x.args[2:]):
                    dep.add(k)
                    if x.args[1] in ('choices',) and p.op == 'elem' and self.marked(rows, own, k, g, p, v):
                        marks.add(k)
        if marks:
            return marks, ''
        # does anything this path depends on change on it?
        changing = {k for k in dep if k != r and any(g2 >= g and not self.same(post, own, k) for g2, post in rows[k][1]) or k == r}
        if any(x.op == 'draw' for x in subterms(p)) and not changing and not any(self.counts(a, r, own) for a, b in g):
            return REPEATS, 'a position is collected without a check (or a mark) that it was not collected before'
        return set(), 'no mark recognised'

    def counts(self, a, r, own):
        """Does a condition look at how much was collected (the row itself, or anything of an outer loop)?"""
        a = subst(a, {x: HOLE for x in subterms(a) if x.op == 'draw'})
        return any(x.op == 'wph' and (x is own(r) or x is not own(x.args[0])) for x in subterms(a))

    def same(self, post, own, k):
        if post.op in ('flist', 'seq', 'tup') and len(post.args[0]) == 1:
            post = post.args[0][0]
        elif post.op == 'pytup' and len(post.args) == 1:
            post = post.args[0]
        return post is own(k) or post.op == 'sp' and post.args == (own(k), ZERO, T('len', own(k)))

    def asks(self, own, a, b, p, v):
        """The row whose marks this condition looks up for p, if it says 'not marked'."""
        if a.op == 'true' and b and a.args[0].op == 'elem' and a.args[0].args[1] is p:
            return self.row_of(own, a.args[0].args[0])
        if a.op == 'gt0' and b:
            ms = pmonos(a.args[0])
            ms = [(m, c) for m, c in ms if m]
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][1] > 0 and pconst(psub(a.args[0], pmul(K(ms[0][1]), ms[0][0][0]))) in (0,):
                t = ms[0][0][0]
                if t.op == 'elem' and t.args[1] is p:
                    return self.row_of(own, t.args[0])
        if a.op == 'eq0' and not b and a.args[0].op == 'elem' and a.args[0].args[1] is p:
            return self.row_of(own, a.args[0].args[0])
        if a.op == 'contains' and not b and a.args[0] in (p, v):
            return self.row_of(own, a.args[1])
        return None

    def row_of(self, own, t):
        if t.op in ('seq', 'flist', 'fset', 'tup') and len(t.args[0]) == 1:
            t = t.args[0][0]
        if t.op == 'sp' and t.args[1] is ZERO:
            t = t.args[0]
        if t.op in ('seq', 'flist', 'fset') and len(t.args[0]) == 1:
            t = t.args[0][0]
        return t.args[0] if self.ph(t) and t is own(t.args[0]) else None

    def marked(self, rows, own, k, g, p, v):
        """On the path with conditions g, does row k mark p?"""
        cs = [post for g2, post in rows[k][1] if g2 <= g] or [post for g2, post in rows[k][1] if g <= g2]
        return bool(cs) and all(self.marks(post, own, k, p, v) for post in cs)

    def marks(self, post, own, k, p, v):
        if post.op != 'pytup' or not post.args:
            return False
        if post.args[0] is own(k) and len(post.args) == 2 and post.args[1].op == 's1' and post.args[1].args[0] in (p, v):
            return True
        return any(q is p and z for q, z in self.updates(post, own, k) or ())

    def updates(self, post, own, k):
        """[(position set, set to something falsy)] when post is row k with elements replaced; None otherwise."""
        if self.same(post, own, k):
            return []
        if post.op != 'pytup' or len(post.args) != 1 or post.args[0].op != 'sp' or post.args[0].args[1] is not ZERO:
            return None
        t = post.args[0].args[0]
        out = []
        while t.op == 'upd':
            x = t.args[2]
            out.append((t.args[1], x.op == 'k' and not kv(x)))
            t = t.args[0]
        return out if self.row_of(own, t) == k else None

    def kept(self, rows, own, k, sig):
        """No case of row k takes a mark back."""
        for g, post in rows[k][1]:
            if post.op == 'pytup' and post.args and post.args[0] is own(k):      # only ever grows
                continue
            u = self.updates(post, own, k)
            if u is not None and all(z for q, z in u):
                continue
            if self.from_inner(post, own, k) is not None:
                continue
            return False
        return True

    # -------------------------------------------------- an inner loop
    def inner_sigs(self, t):
        return [x.args[1] for x in subterms(t) if x.op == 'loopn']

    def from_inner(self, post, own, k):
        """(signature of the inner loop, its row) when post is row k as an inner loop leaves it."""
        if post.op == 'pytup' and len(post.args) == 1 and post.args[0].op == 'sp' and post.args[0].args[0].op == 'havoc':
            h = post.args[0].args[0]
            i = h.args[3]
            if h.args[1].op == 'sig' and self.row_of(own, T('seq', (self.rows(h.args[1])[i][0].args[0] if self.rows(h.args[1])[i][0].op == 'seq' else ()))) == k:
                return h.args[1], i
        return None

    def inside(self, sig, rows, own, r, rest, depth):
        found = set()
        for k, (init, cases) in enumerate(rows):
            for g, post in cases:
                f = self.from_inner(post, own, k)
                if f:
                    found.add((f[0], f[1], k))
        sigs = {f[0] for f in found} | {x for s in rest for x in self.inner_sigs(s)}
        why = 'values collected by an inner loop'
        for s2 in sigs:
            rows2 = self.rows(s2)
            for r2, (init2, _) in enumerate(rows2):
                if init2.op != 'seq' or self.row_of(own, init2) != r:
                    continue
                m2, why = self.preserved(s2, r2, depth + 1)
                if m2 is REPEATS:
                    return m2, why
                back = {k for f, i, k in found if f is s2 and i in m2}
                if m2 and not back:
                    fresh = [i for i in m2 if not any(self.ph(x) and x is own(x.args[0]) for x in subterms(rows2[i][0]))]
                    if len(fresh) == len(m2) and all(self.no_state(own, rows2[i][0]) for i in m2):
                        return REPEATS, 'what was collected is forgotten before the next round'
                return back, '' if back else 'marks of an inner loop are lost'
        # no signature: the appended values carry no state at all
        for s in rest:
            if s.op == 'each':
                for g, segs in s.args[2]:
                    for x in segs:
                        if x.op == 's1' and self.careless(own, g, x.args[0], s.args[1]):
                            return REPEATS, 'a position is collected without a check that it was not collected before'
        return set(), why

    def careless(self, own, g, v, ix):
        """Is v, one of a batch drawn with replacement, collected whatever was collected in earlier batches?"""
        p = self.position(v)
        if p.op != 'elem' or p.args[0].op != 'draw' or p.args[0].args[1] != 'choices' or p.args[1] is not ix:
            return False
        d = p.args[0]
        for a, b in g:
            a = subst(a, {p: HOLE, v: HOLE})
            inner = [x for x in subterms(a) if x.op == 'loopn']
            if inner:
                a = subst(a, {x: HOLE for x in subterms(a) if x.op == 'spre' and self.fresh(own, x, d)})
                a = subst(a, {x: HOLE for x in subterms(a) if x.op == 'draw' and self.like(own, x, d)})
                if any(x.op in ('pre', 'havoc', 'draw') for x in subterms(a)) or self.state_of(own, a):
                    return False
            elif occurs(ix, a) or self.state_of(own, a) or mentions(a, lambda y: y.op in ('spre', 'pre', 'havoc', 'draw')):
                return False
        return True

    def fresh(self, own, x, d):
        """A list of an inner loop that starts afresh, whatever was collected in earlier rounds."""
        if x.args[0].op != 'loopn' or x.args[0].args[1].op != 'sig':
            return False
        sig = x.args[0].args[1]
        rows, high = self.rows(sig), sig.args[2]
        todo, seen = [x.args[1][1]], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            init, cases = rows[i]
            parts = [init] + [a for g, post in cases for a, b in g] + [post for g, post in cases]
            parts = [subst(t, {y: HOLE for y in subterms(t) if y.op == 'draw' and self.like(own, y, d)}) for t in parts]
            if any(self.state_of(own, t) or mentions(t, lambda y: y.op in ('pre', 'spre', 'havoc')) for t in parts):
                return False
            todo += [y.args[0] for t in parts for y in subterms(t) if y.op == 'wph' and y.args[1] == high]
        return True

    def like(self, own, x, d):
        """A draw that knows of what was collected only how much it was, as d does."""
        lens = {y for y in subterms(x) if y.op == 'len' and y.args[0].op in ('seq', 'wph', 'flist')}
        return not self.state_of(own, tuple(subst(y, {z: HOLE for z in lens}) if isinstance(y, Term) else y for y in flat_terms(x.args[2:])))

    def no_state(self, own, t):
        return not mentions(t, lambda x: x.op == 'wph' and x is own(x.args[0]))


def drawn_in(t):
    """The draws a value is made of; not those that only brought the generator to where it was."""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, Term):
            if x.op == 'draw':
                out.add(x)
                todo.extend(x.args[2:])
            else:
                todo.extend(x.args)
    return out


def flat_terms(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat_terms(y)
    else:
        yield x


def positions(w, values, base, final=False):
    """values: a list of frozen segments, base: the sequence handed out."""
    return Prover(w, base, final).segs(tuple(values))


def segs_of(w, v):
    v = w.simp(w.norm(v))
    if v.op in ('flist', 'seq', 'tup'):
        return v.args[0]
    return None


def distinct(w, values, base, rule, msg, at):
    if values is None:
        w.undec(rule, msg, at)
        return
    r, why = positions(w, values, base)
    if r is None:
        r, why = positions(w, segs_of(w, T('flist', tuple(values))), base, final=True)
    if r is DISTINCT:
        w.ok(rule)
    elif r is REPEATS:
        w.fail(rule, '%s: %s' % (msg, why), at)
    else:
        w.undec(rule, '%s: cannot tell (%s)' % (msg, why), at)
