"""How was a handed-out value selected?  Judged on the symbolic value alone.

A value stands for a position of the items; the ways of drawing a position that select in proportion to given weights are
recognised (DRAWN).  What provably selects otherwise is WRONG; anything else is None.
"""
from fx.spec import *      # noqa
from .positions import Prover, affine, flat_terms

DRAWN, WRONG = 'drawn', 'wrong'
CL = 'zz_client'


def ratio(a, b):
    """Do two numeric terms differ by a constant positive factor?  True / None"""
    pa, pb = dict(pmonos(a)), dict(pmonos(b))
    if not pb or set(pa) != set(pb):
        return None
    qs = {pa[m] / pb[m] for m in pb}
    return True if len(qs) == 1 and qs.pop() > 0 else None


class Selection:
    def __init__(self, w, base, weights, cum, replace):
        """weights / cum: the weights in force in either reading (None: unweighted);
        replace: are positions drawn independently of each other?"""
        self.w, self.base, self.replace = w, base, replace
        self.weighted = weights is not None or cum is not None
        self.L = T('len', base)
        if self.weighted:
            self.given = weights if weights is not None else cum
            f = lambda nm, x: self.listed(w.freeze(w.apply(w.fun(CL, nm), x)))
            self.W = f('as_tuple', weights) if weights is not None else f('steps', cum)
            self.C = f('as_tuple', cum) if cum is not None else f('totals', weights)

    # -------------------------------------------------- sequences
    def segs(self, t):
        if t.op in ('seq', 'flist', 'tup'):
            return t.args[0]
        return (T('sp', t, ZERO, T('len', t)),)

    def per(self, t):
        """(index, value, count) of a sequence with one value per index."""
        s = [x for x in self.segs(t)]
        if len(s) != 1:
            return None
        e = self.w.elementwise(s[0])
        return (e[1], e[2], self.w.dom_count(e[0])) if e else None

    def listed(self, t):
        return T('flist', t.args[0]) if t.op in ('tup', 'seq') else t

    def same_seq(self, a, b):
        return self.w.equal(self.listed(a), self.listed(b))

    # -------------------------------------------------- the weights of a draw
    def constant_weights(self, t, cumulative):
        """Does this sequence weigh every position the same?"""
        p = self.per(t)
        if p is None:
            return None
        ix, v, n = p
        if any(x.op == 'psum' for x in subterms(v)):
            return None
        a = affine(self.w, v, ix)
        if a is None:
            return False if any(x.op == 'elem' for x in subterms(v)) and not any(x.op in ('havoc', 'pre', 'spre') for x in subterms(v)) else None
        if cumulative:
            return a[0] > 0 and self.w.num_equal(a[1], K(a[0])) is True
        return a[0] == 0 if a[0] == 0 else False

    def judge_weights(self, cum=None, plain=None):
        """Do these weights (None: none) stand for those in force?  DRAWN / WRONG / None"""
        if cum is None and plain is None:
            return (WRONG, 'drawn without the weights in force') if self.weighted else (DRAWN, '')
        if not self.weighted:
            r = self.constant_weights(cum if cum is not None else plain, cum is not None)
            if r is None:
                return None, 'weights %s' % show(cum if cum is not None else plain)[:80]
            return (DRAWN, '') if r else (WRONG, 'drawn with weights although none are in force: %s' % show(cum if cum is not None else plain)[:120])
        got, want = (cum, self.C) if cum is not None else (plain, self.W)
        r = self.same_seq(got, want)
        if r is True:
            return DRAWN, ''
        if cum is not None and self.same_seq(got, self.listed(self.w.freeze(self.w.apply(self.w.fun(CL, 'totals'), self.W)))) is True:
            return DRAWN, ''
        p, q = self.per(got), self.per(want)
        if p and q and ratio(subst(p[1], {p[0]: q[0]}), q[1]):
            return DRAWN, ''
        if r is False:
            return WRONG, 'drawn with other weights than those in force: %s instead of %s' % (show(got)[:160], show(want)[:160])
        return None, 'weights %s' % show(got)[:120]

    def kw(self, d):
        return dict(d.args[3])

    # -------------------------------------------------- populations
    def population(self, pop):
        """'items' | 'positions' of all items in order | None"""
        s = self.segs(self.w.simp(self.w.norm(pop)))
        if len(s) == 1:
            x = s[0]
            if x.op == 'sp' and x.args[0] is self.base:
                return 'items' if x.args[1] is ZERO and self.eq(x.args[2], self.L) else 'part'
            if x.op == 'rg':
                return 'positions' if x.args[0] is ZERO and x.args[2] is ONE and self.eq(x.args[1], self.L) else 'part'
            e = self.w.elementwise(x)
            if e and e[2].op == 'elem' and e[2].args[0] is self.base and e[2].args[1] is e[1] and self.eq(self.w.dom_count(e[0]), self.L):
                return 'items'
            if e and e[2] is e[1] and self.eq(self.w.dom_count(e[0]), self.L):
                return 'positions'
        if any(x.op in ('fset', 'mkset', 'setiter') for x in subterms(pop)):
            return 'part'
        return None

    def eq(self, a, b):
        w = self.w
        a, b = w.simp(a), w.simp(b)
        return a is b or w.num_equal(a, b) is True

    # -------------------------------------------------- one value
    def value(self, v, ix=None):
        """How a value (one per index ix, when given) was selected."""
        w = self.w
        v = w.simp(v)
        if not any(x.op in ('draw', 'havoc') for x in subterms(v)):
            if w.entail_gt0(psub(self.L, ONE)) is False:
                return DRAWN, ''                # a single item: no choice
            return (WRONG, 'not drawn at all: %s' % show(v)[:100]) if not imprecise(v) and v.op in ('elem', 'k') else (None, 'value %s' % show(v)[:80])
        if ix is not None and not occurs(ix, v):
            if w.entail_gt0(psub(self.L, ONE)) is False:
                return DRAWN, ''
            return (WRONG, 'one drawn value stands for all') if not mentions(v, lambda x: x.op in ('havoc', 'pre', 'spre')) else (None, 'value %s' % show(v)[:80])
        if v.op == 'elem' and v.args[0] is self.base:
            return self.position(v.args[1], ix)
        return self.position(v, ix, items=True)

    def position(self, p, ix, items=False):
        """How a position of the items (or, with items, an item itself) was selected."""
        w = self.w
        if p.op == 'draw':
            return self.single(p, items)
        if p.op == 'elem':
            src, i = p.args
            if src.op == 'elem' and i.op == 'k' and src.args[0].op in ('sorted', 'seq', 'flist'):
                return self.ordered(src.args[0], src.args[1], ix, p, items)
            if src.op == 'sorted':
                return self.ordered(src, i, ix, p, items)
            if src.op == 'draw':
                return self.batch(src, i, ix, items)
            if src.op == 'havoc':
                return self.loop(src, items)
            if src.op in ('seq', 'flist') and len(src.args[0]) == 1:
                s = src.args[0][0]
                e = w.elementwise(s)
                if e:
                    v = w.simp(subst(e[2], {e[1]: i}))
                    return self.position(v, ix, items) if not (v.op == 'elem' and v.args[0] is self.base and items) else self.position(v.args[1], ix)
                if s.op == 'sp' and s.args[0].op == 'havoc':
                    return self.loop(s.args[0], items)
        if p.op in ('op', 'int', 'floor', 'trunc', 'math') or p.op == 'poly':
            d = [x for x in subterms(p) if x.op == 'draw']
            if len(d) == 1 and d[0].args[1] == 'random' and self.weighted:
                return None, 'computed from a random number'
        return None, 'value %s' % show(p)[:100]

    def fits(self, kind, items):
        return kind == ('items' if items else 'positions')

    def judge_population(self, pop, items):
        k = self.population(pop)
        if k == 'part':
            return WRONG, 'drawn from %s instead of all items' % show(pop)[:100]
        if k is None or not self.fits(k, items):
            return None, 'drawn from %s' % show(pop)[:100]
        return DRAWN, ''

    def single(self, d, items):
        meth, args, kw = d.args[1], d.args[2], self.kw(d)
        if meth == 'choice':
            r = self.judge_population(args[0], items)
            return r if r[0] is not DRAWN else self.judge_weights()
        if meth in ('randrange', 'randint', '_randbelow') and not items:
            lo, hi = (ZERO, args[0]) if len(args) == 1 else (args[0], args[1]) if len(args) == 2 else (None, None)
            if lo is None or kw:
                return None, 'drawn by %s' % meth
            if meth == 'randint':
                hi = padd(hi, ONE)
            if self.eq(lo, ZERO) and self.eq(hi, self.L):
                return self.judge_weights()
            if self.w.num_equal(self.w.simp(hi), self.w.simp(self.L)) is False or self.w.num_equal(lo, ZERO) is False:
                return WRONG, 'positions %s to %s are drawn instead of all' % (show(lo)[:40], show(hi)[:40])
        return None, 'drawn by %s' % meth

    def batch(self, d, i, ix, items):
        meth, args, kw = d.args[1], d.args[2], self.kw(d)
        if meth not in ('choices', 'sample', 'shuffle'):
            return None, 'drawn by %s' % meth
        if ix is not None and not occurs(ix, d):
            a = affine(self.w, i, ix)
            if a is None:
                return None, 'index %s' % show(i)[:60]
            if a[0] == 0:
                return WRONG, 'one drawn value stands for all'
        r = self.judge_population(args[0], items)
        if r[0] is not DRAWN:
            return r
        if meth == 'choices':
            if len(args) > 1 or set(kw) - {'k', 'cum_weights', 'weights'}:
                return None, 'arguments of choices'
            return self.judge_weights(kw.get('cum_weights'), kw.get('weights'))
        if 'counts' in kw:
            return None, 'arguments of sample'
        if self.replace and (ix is None or not occurs(ix, d)) and self.w.equal(self.w.simp(kw.get('k', ONE)), ONE) is not True:
            return WRONG, 'drawn without replacement although items are replaced'
        return self.judge_weights()

    # -------------------------------------------------- random orders by score
    def ordered(self, srt, i, ix, v, items):
        w = self.w
        if srt.op in ('seq', 'flist'):
            if len(srt.args[0]) == 1:
                e = w.elementwise(srt.args[0][0])
                if e:
                    x = w.simp(T('elem', subst(e[2], {e[1]: i}), v.args[1]))
                    if x is not v:
                        return self.value(x, ix)
            return None, 'value %s' % show(v)[:80]
        seq, keys, rev = srt.args
        p = self.per(seq)
        if p is None:
            return None, 'an order of %s' % show(seq)[:80]
        gx, gv, count = p
        if not self.eq(count, self.L):
            return None, 'an order of %s values' % show(count)[:40]
        here = gv
        if v.op == 'elem' and v.args[0] is not srt:     # a component of tuples
            here = self.component(gv, v.args[1])
        if here is None:
            return None, 'an order of %s' % show(gv)[:80]
        at = here.args[1] if items and here.op == 'elem' and here.args[0] is self.base else here if not items else None
        if at is not gx:
            return None, 'an order of %s' % show(here)[:80]
        if keys is NONE:
            key = self.component(gv, ZERO)
            if key is None:
                key = gv
        else:
            q = self.per(keys)
            if q is None:
                return None, 'scores'
            key = subst(q[1], {q[0]: gx})
        if key.op == 'tup':
            key = self.component(key, ZERO)
        # which end is handed out first?
        up = self.direction(i, ix)
        if up is None:
            return None, 'index %s' % show(i)[:60]
        descending = up == (rev is TRUE)
        return self.score(key, gx, descending)

    def component(self, t, j):
        if t.op == 'tup' and all(s.op == 's1' for s in t.args[0]) and isinstance(kv(j), int) and -len(t.args[0]) <= kv(j) < len(t.args[0]):
            return t.args[0][kv(j)].args[0]
        return None

    def direction(self, i, ix):
        """Is the order handed out from its start (True) or its end (False)?"""
        if ix is not None:
            a = affine(self.w, i, ix)
            return None if a is None or a[0] == 0 else a[0] > 0
        c = [(m, k) for m, k in pmonos(i) if m == (self.L,) or len(m) == 1 and m[0].op == 'len']
        if not c and all(k >= 0 for m, k in pmonos(i)):
            return True
        if len(c) == 1 and c[0][1] == 1 and all(k <= 0 for m, k in pmonos(i) if m != c[0][0]):
            return False
        return None

    def weight_at(self, gx):
        w = self.w
        p = self.per(self.W)
        return w.simp(subst(p[1], {p[0]: gx})) if p else None

    def score(self, key, gx, descending):
        """Does ordering by this score select in proportion to the weights (independently drawn exponential deviates)?"""
        w = self.w
        key = w.simp(key)
        draws = [x for x in subterms(key) if x.op == 'draw']
        draws = [d for d in draws if not any(d is not e and occurs(d, e) for e in draws)]
        if not draws:
            return (WRONG, 'the order is not random: %s' % show(key)[:100]) if not imprecise(key) else (None, 'score')
        if len(draws) != 1 or not occurs(gx, draws[0]):
            if len(draws) == 1 and not mentions(key, lambda x: x.op in ('havoc', 'pre', 'spre')):
                return WRONG, 'one random number stands for all scores'
            return None, 'score %s' % show(key)[:100]
        d = draws[0]
        U = T('in', '~u', 'num')
        X = T('in', '~w', 'num')
        wt = self.weight_at(gx) if self.weighted else None
        form = subst(key, {d: U})
        if self.weighted:
            den = self.denominator(form, U)
            if den is not None and den is not wt:
                r = self.weight_like(den, gx)
                if r is not None:
                    return (WRONG, 'ordered by %s instead of the weights in force' % show(den)[:100]) if r is False else self.ends(self.sign(subst(form, {den: X}) if den.op != 'poly' else form, U, X), descending) if den.op != 'poly' else (None, 'score %s' % show(form)[:100])
        if wt is not None:
            form = subst(form, {wt: X}) if wt.op != 'poly' else self.replace_poly(form, wt, X)
        rest = [x for x in subterms(form) if x.op == 'elem' or x is gx]
        if rest:
            x = max(rest, key=lambda t: len(show(t)))
            if x.op == 'elem' and x.args[1] is gx and self.weighted and x.args[0].op == 'in' and not occurs(X, form):
                return WRONG, 'ordered by %s instead of the weights in force' % show(x)[:80]
            if x.op == 'elem' and x.args[0].op == 'in' and not self.weighted and x.args[0] is not self.base:
                return WRONG, 'ordered by %s although no weights are in force' % show(x)[:80]
            return None, 'score %s' % show(form)[:120]
        if d.args[1] == 'expovariate':
            if len(d.args[2]) == 1 and form is U:
                lam = d.args[2][0]
                if self.weighted and w.equal(lam, wt) is True:
                    return (WRONG, 'low weights come first') if descending else (DRAWN, '')
                if not self.weighted and not occurs(gx, lam):
                    return DRAWN, ''
                return None, 'expovariate(%s)' % show(lam)[:60]
            return None, 'score %s' % show(form)[:100]
        if d.args[1] != 'random' or d.args[2]:
            if not self.weighted and form is U and d.args[1] in ('random', 'uniform', 'gauss', 'getrandbits', 'betavariate', 'normalvariate') and not any(occurs(gx, a) for a in flat_terms(d.args[2])):
                return DRAWN, ''
            return None, 'scored by %s' % d.args[1]
        if not self.weighted:
            return DRAWN, ''
        if not occurs(X, form):
            return WRONG, 'the weights do not enter the order'
        s = self.sign(form, U, X)
        if s is None:
            ops = {x.op for x in subterms(form)} - {'poly', 'k', 'in', 'mono'}
            if not ops or self.proper_product(form, U, X):
                return WRONG, 'the score %s does not select in proportion to the weights' % show(form)[:80]
            return None, 'score %s' % show(form)[:120]
        return self.ends(s, descending)

    def ends(self, s, descending):
        if s is None:
            return None, 'score'
        if (s > 0) != descending:
            return WRONG, 'low weights come first (%s order)' % ('descending' if descending else 'ascending')
        return DRAWN, ''

    def denominator(self, f, U):
        """What log(u) is divided by."""
        for x in subterms(f):
            if x.op == 'op' and x.args[0] == 'Div':
                a, b = x.args[1] if isinstance(x.args[1], tuple) else x.args[1:3]
                if occurs(U, a) and self.logu(a, U) and not occurs(U, b):
                    return b
            if x.op == 'op' and x.args[0] == 'Pow':
                a, b = x.args[1] if isinstance(x.args[1], tuple) else x.args[1:3]
                if self.plain(a, U) and b.op == 'op' and b.args[0] == 'Div':
                    c, e = b.args[1] if isinstance(b.args[1], tuple) else b.args[1:3]
                    if pconst(c):
                        return e
        return None

    def weight_like(self, den, gx):
        """Are these the weights in force, up to a constant?  True / False / None"""
        w = self.w
        wt = self.weight_at(gx)
        if ratio(den, wt):
            return True
        dom = T('repdom', self.L)
        seq = lambda v: T('flist', (self.each(dom, gx, v),))
        r = w.equal(seq(den), seq(wt))
        if r is False and not any(x.op in ('elem', 'len') and x.args[0] is self.given or x is self.given for x in subterms(den)):
            return None if not any(x.op == 'in' for x in subterms(den)) else False
        if r is False:          # a constant multiple?  (the sum of all weights, say)
            if den.op in ('op',) or den.op == 'poly' and any(len(m) > 1 for m, k in pmonos(den)):
                return None
        return r

    def each(self, dom, ix, v):
        r = self.w.close_ix(dom, ix, (((), (s1(v),)),))
        return T('each', dom, r[0], r[1])

    def replace_poly(self, form, wt, X):
        ms = pmonos(wt)
        lead = [m for m, k in ms if k == 1 and len(m) == 1]
        if not lead:
            return form
        y = lead[0][0]
        return subst(form, {y: psub(X, psub(wt, y))})

    def proper_product(self, form, U, X):
        """log(u) times w: the reciprocal weights."""
        ms = pmonos(form)
        lu = T('math', 'log', (U,))
        return len(ms) == 1 and set(ms[0][0]) == {lu, X}

    def sign(self, f, U, X):
        """+1 / -1 when f is an increasing / decreasing function of log(u)/w."""
        ms = pmonos(f) if f.op == 'poly' else None
        if ms is not None:
            body = [(m, k) for m, k in ms if m]
            if len(body) == 1:
                m, k = body[0]
                if len(m) == 1:
                    s = self.sign(m[0], U, X)
                    return None if s is None else s if k > 0 else -s
                if len(m) == 2:
                    for a, b in (m, m[::-1]):
                        if self.inverse(a, X) and self.logu(b, U):
                            return self.logu(b, U) * (1 if k > 0 else -1)
            return None
        if f.op == 'op' and f.args[0] in ('Div', 'div', '/'):
            a, b = f.args[1][0] if isinstance(f.args[1], tuple) else f.args[1], f.args[1][1] if isinstance(f.args[1], tuple) else f.args[2]
            k = self.logu(a, U)
            if k and b is X:
                return k
            if k and ratio(b, X):
                return k
            if k and pneg(b) is X:
                return -k
        if f.op == 'op' and f.args[0] == 'Pow':
            a, b = f.args[1] if isinstance(f.args[1], tuple) else f.args[1:3]
            if self.plain(a, U) and self.inverse(b, X):
                return 1
        if f.op == 'math' and f.args[0] in ('log', 'log2', 'log10', 'exp'):
            return self.sign(f.args[1][0], U, X)
        return None

    def plain(self, a, U):
        return a is U or a is psub(ONE, U)

    def inverse(self, a, X):
        if a.op == 'op' and a.args[0] in ('Div',):
            x, y = a.args[1] if isinstance(a.args[1], tuple) else a.args[1:3]
            return (pconst(x) or 0) > 0 and y is X
        return False

    def logu(self, a, U):
        """k with a = k * |.| * log(u): its sign."""
        if a.op == 'math' and a.args[0] in ('log', 'log2', 'log10') and self.plain(a.args[1][0], U):
            return 1
        if a.op == 'poly':
            ms = pmonos(a)
            if len(ms) == 1 and len(ms[0][0]) == 1:
                s = self.logu(ms[0][0][0], U)
                return s and (s if ms[0][1] > 0 else -s)
        return 0

    # -------------------------------------------------- selection loops
    def loop(self, h, items):
        """Positions collected by a loop: every draw in it selects by the weights in force, those already collected set to nothing."""
        w = self.w
        if h.args[1].op != 'sig':
            return None, 'loop'
        sigs = {x.args[2]: x for x in subterms(h) if x.op == "sig" and len(x.args) > 2}
        # only the draws collected values come from
        draws = self.own_draws(h.args[1])
        draws = [d for d in draws if d.args[1] in ('choices', 'choice', 'sample', 'shuffle', 'randrange', 'randint', '_randbelow')]
        if not draws:
            return None, 'no draw recognised in the loop'
        worst = (DRAWN, '')
        for d in draws:
            r = self.loop_draw(d, sigs)
            if r[0] is WRONG:
                return r
            if r[0] is None:
                worst = r
        return worst

    def own_draws(self, sig):
        """The draws a loop makes itself (not those that led to the state it starts from)."""
        out, seen = set(), set()

        def walk(x):
            if isinstance(x, (tuple, frozenset)):
                for y in x:
                    walk(y)
            elif isinstance(x, Term) and x not in seen:
                seen.add(x)
                if x.op == 'sigrow':
                    walk(x.args[1])
                    return
                if x.op == 'draw':
                    out.add(x)
                for y in x.args:
                    walk(y)
        walk(sig.args[:2])
        return out

    def loop_draw(self, d, sigs):
        meth, args, kw = d.args[1], d.args[2], self.kw(d)
        pop = args[0] if args else None
        if meth != 'choices':
            if self.weighted and meth in ('choice', 'sample', 'shuffle') and self.population(pop) in ('items', 'positions'):
                return WRONG, 'drawn without the weights in force'
            return None, 'drawn by %s in a loop' % meth
        k = self.population(pop)
        if k == 'part':
            return WRONG, 'drawn from %s instead of all items' % show(pop)[:100]
        if k is None:
            return None, 'drawn from %s' % show(pop)[:100]
        ws = kw.get('cum_weights', kw.get('weights'))
        if ws is None:
            return self.judge_weights()
        got = self.initial(ws, sigs, 'cum_weights' in kw)
        if got is None:
            return None, 'weights %s' % show(ws)[:120]
        cum, t = got
        return self.judge_weights(t if cum else None, None if cum else t)

    def initial(self, ws, sigs, cum):
        """(cumulative?, the weights the loop starts with); later ones only have weights of collected positions set to nothing."""
        w = self.w
        t = self.strip(ws)
        while t.op == 'accum' and len(t.args) >= 1 and cum:
            cum = False
            t = self.strip(t.args[0])
        for _ in range(6):
            if t.op == 'wph':
                i, high = t.args[0], t.args[1]
                sig = sigs.get(high)
                if sig is None:
                    return None
                pr = Prover(w, self.base)
                rows = pr.rows(sig)
                own = lambda k: T('wph', k, high)
                pr.still = {own(k) for k, (init, cases) in enumerate(rows) if all(pr.same(post, own, k) for g, post in cases)}
                if not pr.kept(rows, own, i, sig):
                    return None
                t = self.strip(rows[i][0])
            else:
                break
        if mentions(t, lambda x: x.op in ('wph', 'havoc', 'pre', 'spre', 'loopn')):
            return None
        return cum, t

    def strip(self, t):
        """A sequence that is another one, whole."""
        for _ in range(6):
            if t.op in ('seq', 'flist', 'tup') and len(t.args[0]) == 1:
                s = t.args[0][0]
                if s.op == 'sp' and s.args[1] is ZERO and s.args[0].op in ('wph', 'accum', 'seq', 'flist', 'in'):
                    t = s.args[0]
                    continue
                if s.op in ('wph',):
                    t = s
                    continue
            break
        return t

    # -------------------------------------------------- all values
    def all(self, segs):
        w = self.w
        worst = (DRAWN, '')
        whole = []
        for s in segs:
            if s.op == 's1':
                r = self.value(s.args[0])
            elif s.op == 'sp':
                src, lo, hi = s.args
                ix = T('ix', 0, T('generic', src))
                r = self.value(w.elem(src, padd(lo, ix)), ix)
                if src is self.base and w.entail_gt0(psub(self.L, ONE)) is not False:
                    r = (WRONG, 'items %s to %s are handed out undrawn' % (show(lo)[:40], show(hi)[:40]))
            elif s.op == 'rep':
                r = self.all(s.args[0])
                if r[0] is DRAWN and w.truth(w.cond_gt0(psub(self.L, ONE))) and w.truth(w.cond_gt0(psub(s.args[1], ONE))):
                    r = (WRONG, 'drawn values are repeated')
            elif s.op == 'each':
                e = w.elementwise(s)
                r = self.value(e[2], e[1]) if e else (None, 'conditional values')
            else:
                r = (None, 'part %s' % s.op)
            if r[0] is WRONG:
                return r
            if r[0] is None:
                worst = r
        return worst


def selected(w, segs, base, weights, cum, replace, rule, msg, at):
    if segs is None:
        w.undec(rule, msg + ': values not known', at)
        return
    r, why = Selection(w, base, weights, cum, replace).all(segs)
    if r is DRAWN:
        w.ok(rule)
    elif r is WRONG:
        w.fail(rule, '%s: %s' % (msg, why), at)
    else:
        w.undec(rule, '%s: cannot tell (%s)' % (msg, why), at)
