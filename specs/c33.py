"""C33: the curve and chance helpers build the choice emitters they describe."""
import math

from fx import formula as fo
from .configs import *     # noqa
from .positions import segs_of

check = Check('C33')
CL = 'zz_client'
L = T('len', items)
mu, sigma, flo, p = inp('mu', 'num'), inp('sigma', 'num'), inp('floor', 'num'), inp('p', 'num')
j, x = inp('j', 'nat'), inp('x', 'nat')
xf = inp('x', 'num')
PI = T('ext', 'math.pi')
MUS, SIGMAS, FLOORS = (0.5, 1, 2.5, 4), (0.5, 1, 2.25), (0, 0.001, 0.05, 0.3, 2)


# ------------------------------------------------------------ the documented curves, as formulas
def exp_(t):
    return T('math', 'exp', (t,))


def over(a, b):
    return T('op', 'Div', a, b)


def to(a, b):
    return T('op', 'Pow', a, b)


def poisson_curve(x, mu):
    return over(pmul(to(mu, x), exp_(pneg(mu))), T('math', 'factorial', (x,)))


def gaussian_curve(x, mu, sigma):
    z = over(psub(x, mu), sigma)
    return over(exp_(over(pneg(to(z, K(2))), K(2))), pmul(sigma, T('math', 'sqrt', (pmul(K(2), PI),))))


def poisson_at(x, mu):
    return mu ** x * math.exp(-mu) / math.factorial(x)


def gaussian_at(x, mu, sigma):
    return math.exp(-((x - mu) / sigma) ** 2 / 2) / (sigma * math.sqrt(2 * math.pi))


def told(w, got, terms, at, want, grid, rule, msg, given=()):
    """got has one of the normal forms given (each with the facts it needs), or differs at a witness."""
    facts = [(a, b) for a, b in w.all_facts()] + list(given)
    for term, needs in terms:
        if fo.same(got, term) and needs(facts):
            w.ok(rule)
            return
    wit = fo.witness(got, want, grid, facts)
    if wit:
        w.fail(rule, '%s: %s gives %s' % (msg, show(got)[:160], wit), at)
    else:
        w.undec(rule, '%s: %s' % (msg, show(got)[:200]), at)


def always(facts):
    return True


# ------------------------------------------------------------ the curves themselves
def positive(w, *vs):
    for v in vs:
        w.assume(T('gt0', v), True)


FUNCS = {
    'poisson': ((x, mu), poisson_curve(x, mu), lambda e: poisson_at(e[x], e[mu]), {x: (0, 1, 2, 5), mu: MUS}),
    'poisson by default': ((x,), poisson_curve(x, K(1)), lambda e: poisson_at(e[x], 1), {x: (0, 1, 2, 5)}),
    'gaussian': ((xf, mu, sigma), gaussian_curve(xf, mu, sigma), lambda e: gaussian_at(e[xf], e[mu], e[sigma]), {xf: (-1, 0.5, 2, 3), mu: (0,) + MUS, sigma: SIGMAS}),
    'gaussian by default': ((xf,), gaussian_curve(xf, K(0), K(1)), lambda e: gaussian_at(e[xf], 0, 1), {xf: (-1, 0.5, 2, 3)}),
}
for fname, (args, term, at_, grid) in FUNCS.items():
    def body(w, fname=fname, args=args, term=term, at_=at_, grid=grid):
        if len(args) > 1:
            positive(w, *args[1:]) if fname == 'poisson' else positive(w, sigma)
        name = fname.split()[0]
        r = w.freeze(w.apply(w.fun('mathtools', name), *args))
        told(w, r, [(term, always)], w.where('mathtools', name), at_, grid, 'curve', 'the %s curve' % name)
    check.sc('the curve: ' + fname, ('mathtools', fname.split()[0]), raises='ok')(body)


BOUNDS = {'none': ((), {}), 'lower': ((flo,), {}), 'lower by name': ((), {'mn': flo}), 'upper': ((), {'mx': mu}), 'both': ((flo, mu), {}), 'no lower': ((NONE, mu), {})}
for bname, (args, kw) in BOUNDS.items():
    def body(w, args=args, kw=kw):
        bound = dict(zip(('mn', 'mx'), args), **kw)
        lo, hi = bound.get('mn', NONE), bound.get('mx', NONE)
        if lo is not NONE and hi is not NONE:
            w.assume(T('gt0', psub(lo, hi)), False)
        r = w.freeze(w.apply(w.fun('mathtools', 'clamp'), xf, *args, **kw))
        at = w.where('mathtools', 'clamp')
        below = lo is not NONE and w.truth(w.cond_gt0(psub(lo, xf)))
        above = hi is not NONE and not below and w.truth(w.cond_gt0(psub(xf, hi)))
        want = lo if below else hi if above else xf
        w.same(r, want, 'clamp', 'a number is limited to the given bounds', at)
    check.sc('clamp: ' + bname, ('mathtools', 'clamp'))(body)


# ------------------------------------------------------------ the weights of the curve helpers
def weights_of(w, o, at):
    ws = w.freeze(w.apply(w.fun(CL, 'as_tuple'), w.get(o, 'weights')))
    segs = segs_of(w, ws)
    w.same(w.seq_len(segs), L, 'weights', 'one weight for each item', at)
    w.assume_ge(psub(L, j), 1)
    if len(segs) == 1 and segs[0].op == 'each':
        dom, bv, cs = segs[0].args
        if all(len(part) == 1 and part[0].op == 's1' for _, part in cs):
            cs = subst(cs, {bv: j})
            return [(w.renorm(part[0].args[0]), tuple(g)) for g, part in cs]
    return [(w.freeze(w.index_segs(segs, j)), ())]


def exceeds(big, small, strictly=None):
    """Do the facts say that big is at least small?"""
    d = fo.add(fo.form(big), fo.form(small), -1)

    def needs(facts):
        if floor_is_zero(small, facts) or floor_is_zero(pneg(small), facts):
            return True
        for a, b in facts:
            if a.op != 'gt0' or not b and a.op != 'gt0':
                continue
            try:
                f = fo.form(a.args[0])
            except fo.NoForm:
                continue
            g = f if b else fo.mul(fo.num(-1), f)
            if scaled(g, d):
                return True
        return False
    return needs


def floor_is_zero(v, facts):
    """Is v known not to be positive (it is documented not to be negative, and the curves are positive)?"""
    if v is flo:
        return any(a.op == 'gt0' and not b and a.args[0] is flo or a.op == 'eq0' and b and a.args[0] is flo for a, b in facts)
    return v.op == 'k' and v is not NONE and v.args[1] == 0


def scaled(a, b):
    """a is a positive multiple of b."""
    da, db = dict(a.items()), dict(b.items())
    if set(da) != set(db) or not da:
        return False
    ks = {da[m] / db[m] for m in da}
    return len(ks) == 1 and ks.pop() > 0


n1 = padd(j, ONE)
CURVES = {
    'poisson_choice': {
        'all settings': ({'mu': mu, 'weight_floor': flo}, poisson_curve(n1, mu), flo, lambda e: max(poisson_at(e[j] + 1, e[mu]), e[flo]), {j: (0, 1, 2, 5), mu: MUS, flo: FLOORS}),
        'by position': ((mu, flo), poisson_curve(n1, mu), flo, lambda e: max(poisson_at(e[j] + 1, e[mu]), e[flo]), {j: (0, 1, 2, 5), mu: MUS, flo: FLOORS}),
        'by default': ({}, poisson_curve(n1, K(1)), K(0), lambda e: poisson_at(e[j] + 1, 1), {j: (0, 1, 2, 5)}),
    },
    'gaussian_choice': {
        'all settings': ({'mu': mu, 'sigma': sigma, 'weight_floor': flo}, gaussian_curve(n1, mu, sigma), flo, lambda e: max(gaussian_at(e[j] + 1, e[mu], e[sigma]), e[flo]),
                         {j: (0, 1, 2, 5), mu: (0, 1, 2.5), sigma: SIGMAS, flo: FLOORS}),
        'by position': ((mu, sigma, flo), gaussian_curve(n1, mu, sigma), flo, lambda e: max(gaussian_at(e[j] + 1, e[mu], e[sigma]), e[flo]),
                        {j: (0, 1, 2, 5), mu: (0, 1, 2.5), sigma: SIGMAS, flo: FLOORS}),
        'by default': ({}, gaussian_curve(n1, K(0), K(1)), K(0), lambda e: gaussian_at(e[j] + 1, 0, 1), {j: (0, 1, 2, 5)}),
    },
}


def bring_up(w, fn, given, **more):
    """The helper's emitter for some documented arguments."""
    w.assume_ge(L, 1)
    positive(w, mu, sigma)
    w.assume(T('gt0', pneg(flo)), False)
    if isinstance(given, tuple):
        return w.apply(w.fun(CH, fn), items, *given, **more)
    return w.apply(w.fun(CH, fn), items, **given, **more)


OTHERS = {
    'poisson_choice': ({'mu': mu, 'weight_floor': K(2)}, {'mu': K(3), 'weight_floor': flo}, {'mu': K(3)}, {}),
    'gaussian_choice': ({'mu': mu, 'sigma': sigma, 'weight_floor': K(2)}, {'mu': mu, 'sigma': K(3), 'weight_floor': flo}, {'mu': K(3), 'sigma': sigma, 'weight_floor': flo}, {'mu': mu}),
}
for fn, cases in CURVES.items():
    for (cname, (given, curve, low, at_, grid)), before in [(c, b) for c in cases.items() for b in (None,) + OTHERS[fn]]:
        def body(w, fn=fn, given=given, curve=curve, low=low, at_=at_, grid=grid, before=before):
            if before is not None:
                bring_up(w, fn, before)          # one made before with other settings has no say in this one
            o = bring_up(w, fn, given)
            at = w.where(CH, fn)
            for r, conds in weights_of(w, o, at):
                told(w, r, [(curve, exceeds(curve, low)), (low, exceeds(low, curve))], at, at_, {**grid, L: (12,)}, 'weights',
                     'item k (counting from 1) has the weight the curve has at k, or the floor where that is more', conds)
        check.sc('%s weights, %s%s' % (fn, cname, '' if before is None else ', after %s' % (', '.join(
            '%s %s' % (k, show(v)) for k, v in before.items()) or 'the default')), (CH, fn), raises='ok')(body)
        if before is not None:
            continue

        def body(w, fn=fn, given=given):
            o = bring_up(w, fn, given)
            at = w.where(CH, fn)
            w.same(w.freeze(w.apply(w.fun(CL, 'as_tuple'), w.get(o, 'items'))), w.freeze(w.apply(w.fun(CL, 'as_tuple'), items)), 'items', 'the emitter chooses among the given items', at)
        check.sc('%s items, %s' % (fn, cname), (CH, fn), raises='ok')(body)

    noun = inp('noun', 'str')
    FLAGS = {
        'no settings': ({}, TRUE, FALSE, K(''), NONE),
        'no replacement': ({'replace': FALSE}, FALSE, FALSE, K(''), NONE),
        'replace after call': ({'replace_only_after_call': TRUE}, TRUE, TRUE, K(''), NONE),
        'replace after call, without replacement': ({'replace': FALSE, 'replace_only_after_call': TRUE}, TRUE, TRUE, K(''), NONE),
        'noun and seed': ({'noun': noun, 'rng_seed': seed}, TRUE, FALSE, noun, seed),
        'everything': ({'replace': FALSE, 'replace_only_after_call': FALSE, 'noun': noun, 'rng_seed': seed}, FALSE, FALSE, noun, seed),
    }
    order = ('replace', 'replace_only_after_call', 'noun', 'rng_seed')
    for pos in (False, True):
        for sname, (kw, rep, roac, nn, sd) in FLAGS.items():
            if pos and len(kw) < 4:
                continue

            def body(w, fn=fn, kw=kw, rep=rep, roac=roac, nn=nn, sd=sd, pos=pos):
                if pos:
                    w.assume_ge(L, 1)
                    positive(w, mu, sigma)
                    w.assume(T('gt0', pneg(flo)), False)
                    head = (mu, flo) if fn == 'poisson_choice' else (mu, sigma, flo)
                    o = w.apply(w.fun(CH, fn), items, *head, *[kw[k] for k in order])
                else:
                    o = bring_up(w, fn, {}, **kw)
                at = w.where(CH, fn)
                for attr, want in (('replace', rep), ('replace_only_after_call', roac), ('noun', nn), ('rng_seed', sd)):
                    w.same(w.freeze(w.get(o, attr)), want, 'settings', '%s is as given to the helper' % attr, at)
            check.sc('%s, %s%s' % (fn, sname, ' by position' if pos else ''), (CH, fn), raises='ok')(body)


# ------------------------------------------------------------ chance
def flips(w, o, at):
    """[(value, weight)] of an emitter that chooses among a few literal values."""
    segs = segs_of(w, w.freeze(w.apply(w.fun(CL, 'as_tuple'), w.get(o, 'items'))))
    if not all(s.op == 's1' for s in segs):
        return None
    ws = w.get(o, 'weights')
    if ws is NONE:
        wts = [ONE] * len(segs)
    else:
        wsegs = segs_of(w, w.freeze(w.apply(w.fun(CL, 'as_tuple'), ws)))
        if not all(s.op == 's1' for s in wsegs) or len(wsegs) != len(segs):
            return None
        wts = [s.args[0] for s in wsegs]
    return list(zip([s.args[0] for s in segs], wts))


def picked(w, fl, always_, points):
    """A chance at which some draw picks the other value."""
    for pt in points:
        env = {p: pt}
        if fo.holds(list(w.all_facts()), env) is not True:
            continue
        try:
            wts = [fo.number(wt, env) for _, wt in fl]
        except (fo.NoNumber, ArithmeticError, ValueError, TypeError):
            continue
        total, run = sum(wts), 0
        if total <= 0:
            continue
        for i, ((v, _), wt) in enumerate(zip(fl, wts)):
            low, run = max(run, 0), run + wt
            high = total if i == len(fl) - 1 else min(run, total)
            if v is not always_ and high - low > 1e-9:
                return '%s=%s %s is picked for draws from %.3g to %.3g of %.3g' % (show(p), pt, show(v), low, high, total)
    return None


def between(w):
    w.assume(T('gt0', p), True)
    w.assume(T('gt0', psub(ONE, p)), True)


@check.sc('chance, probability', (CH, 'chance'))
def _(w):
    between(w)
    o = w.apply(w.fun(CH, 'chance'), p)
    at = w.where(CH, 'chance')
    fl = flips(w, o, at)
    if fl is None or not all(v in (TRUE, FALSE) for v, _ in fl):
        w.require(fl is None, 'chance', 'a chance emitter emits True and False only', at)
        if fl is None:
            w.undec('chance', 'the values a chance emitter chooses among', at)
        return
    yes = total = ZERO
    for v, wt in fl:
        total = padd(total, wt)
        yes = padd(yes, wt) if v is TRUE else yes
    told(w, psub(yes, pmul(p, total)), [(ZERO, always)], at, lambda e: 0, {p: (0.125, 0.25, 0.5, 0.875)}, 'chance', 'True has the share of the weights that was asked for')
    w.require(not fo.same(total, ZERO), 'chance', 'the weights do not sum to nothing', at)


for cname, (edge, always_) in {'none': (ZERO, FALSE), 'all': (ONE, TRUE), 'less than none': (None, FALSE), 'more than all': (None, TRUE)}.items():
    def body(w, edge=edge, always_=always_):
        q = edge if edge is not None else p
        if edge is None:
            w.assume(T('gt0', pneg(p) if always_ is FALSE else psub(p, ONE)), True)
        o = w.apply(w.fun(CH, 'chance'), q)
        at = w.where(CH, 'chance')
        fl = flips(w, o, at)
        if fl is None:
            w.undec('edge', 'the values a chance emitter chooses among', at)
            return
        msg = 'a chance of %s is always %s' % ('at most 0' if always_ is FALSE else 'at least 1', always_.args[1])
        if all(v is always_ for v, _ in fl):
            w.ok('edge')
            return
        # a draw finds the first running total above r * (sum of all), 0 <= r < 1 (or the last value)
        total = ZERO
        for v, wt in fl:
            total = padd(total, wt)
        wit = picked(w, fl, always_, (-0.25, -0.5, -1, -3) if always_ is FALSE else (1.25, 1.5, 2, 4))
        if wit:
            w.fail('edge', '%s: with %s' % (msg, wit), at)
            return
        if not w.entail_gt0(total):
            w.undec('edge', msg + ': the weights sum to %s' % show(total), at)
            return
        run = ZERO
        for i, (v, wt) in enumerate(fl):
            low = run
            run = padd(run, wt)
            if v is always_:
                continue
            # it is never picked: its running total is not above 0, or the one before is already the whole
            never = w.entail_ge0(pneg(run)) or w.entail_ge0(psub(low, total)) and i > 0
            if never:
                w.ok('edge')
            elif w.entail_gt0(wt):
                w.fail('edge', msg + ': %s has the weight %s' % (show(v), show(wt)), at)
            else:
                w.undec('edge', msg, at)
    check.sc('chance of %s' % cname, (CH, 'chance'), raises='ok')(body)


@check.sc('chance, seed', (CH, 'chance'))
def _(w):
    between(w)
    o = w.apply(w.fun(CH, 'chance'), p, seed)
    w.same(w.freeze(w.get(o, 'rng_seed')), seed, 'settings', 'the seed is the one given to the helper', w.where(CH, 'chance'))
