"""C18: sequence emitters repeat their sequence exactly, with no item lost or added."""
from .configs import *     # noqa

check = Check('C18')
fac2 = inp('fac2', 'factory')
x1, x2, x3 = inp('x1', 'any'), inp('x2', 'any'), inp('x3', 'any')


class Reference:
    """The endless repetition of the sequence, and a position in it."""

    def __init__(self, w, src):
        self.w, self.pos = w, ZERO
        segs = src if isinstance(src, tuple) else (T('sp', src, ZERO, w.len_of(src)),)
        self.line = T('seq', (T('forever', segs),))

    def take(self, k):
        """The next k values (a number) or the next value (None)."""
        w, start = self.w, self.pos
        self.pos = padd(self.pos, ONE if k is None else lift(k))
        if k is None:
            return w.elem(self.line, start)
        return w.new_list(w.norm_segs((T('sp', self.line, start, self.pos),)))


def nonempty(w, *srcs):
    for src in srcs:
        w.assume(w.cond_gt0(T('len', src)).args[0], True)


def play(w, o, ref, plan, restart, where):
    for k in plan:
        if k == 'reset':
            w.do(o, 'reset')
            ref.pos = ZERO
        elif k == 'look':
            for name in ('num_unique_values', 'emits_unique_values', 'reset_after_call', 'iterator_factory'):
                w.get(o, name)
        elif k in ('off', 'on'):
            w.put(o, 'reset_after_call', k == 'on')
            restart = k == 'on'
        else:
            r = w.do(o, '__call__', *([] if k is None else [k]))
            w.same(r, ref.take(k), 'in-order', 'the values continue the repeated sequence', w.where(FX, where, 'emit' if k is None else 'emit_many'))
            if restart:
                ref.pos = ZERO


PLANS = [(None, n, None, m, None), (n, 'look', n, None, 1), (0, None, 0, n, 0, None), (None, 'reset', None, n, 'reset', n),
         (2, None, 3, 'look', None), (n, 'reset', 'on', n, m, None, 'off', None, n, None)]


def sequential(src, restart, plan, segs=None):
    def body(w):
        nonempty(w, items)
        o = w.new_(FX, 'Sequential', src(w), restart)
        play(w, o, Reference(w, segs or items), plan, restart, 'Sequential')
    return body


def iterative(restart, plan):
    def body(w):
        nonempty(w, T('fresh', fac))
        o = w.new_(FX, 'Iterative', fac, restart)
        play(w, o, Reference(w, T('fresh', fac)), plan, restart, 'Iterative')
    return body


three = (s1(x1), s1(x2), s1(x3))
for i, plan in enumerate(PLANS):
    for restart in (False, True):
        tag = 'plan %d%s' % (i, ', reset after call' if restart else '')
        check.sc('Sequential any items, ' + tag, (FX, 'Sequential', 'emit_many'))(sequential(lambda w: items, restart, plan))
        check.sc('Sequential three items, ' + tag, (FX, 'Sequential', 'emit_many'))(sequential(lambda w: w.list_(x1, x2, x3), restart, plan, three))
        check.sc('Sequential one item, ' + tag, (FX, 'Sequential', 'emit_many'))(sequential(lambda w: tup(x1), restart, plan, (s1(x1),)))
        check.sc('Iterative, ' + tag, (FX, 'Iterative', 'emit_many'))(iterative(restart, plan))


def asks_anew(evs, f, inside=False):
    """Is the factory called again on every round of an endless loop?  None when no such loop is seen."""
    ans = None
    for e in evs:
        if e.kind == 'call' and e.target is f and inside:
            return True
        if e.kind == 'lazy':
            r = asks_anew(e.args, f, False)
            if r is None and any(x.kind == 'call' and x.target is f for x in e.args):
                r = False
        elif e.kind == 'loop':
            r = [asks_anew(inner, f, True) for g, oc, inner in e.args]
            r = True if True in r else False if e.name in ('while', 'infinite') else None
        elif e.kind == 'loopexit':
            r = asks_anew(e.args, f, inside)
        else:
            continue
        if r:
            return True
        ans = ans if r is None else r
    return ans


@check.sc('Iterative asks its factory for a new iterator each round', (FX, 'Iterative', 'make_infinite_iter'))
def _(w):
    nonempty(w, T('fresh', fac))
    o = w.new_(FX, 'Iterative', fac)
    k = w.mark()
    w.do(o, '__call__', n)
    r = asks_anew(w.since(k), fac)
    w.require(r, 'fresh-iteration', 'starting over does not take a fresh iterator from the factory', vague=r is None)


for cls in ('Iterative', 'Sequential'):
    for before in (None, n):
        @check.sc('%s starts over with a new factory, after %s' % (cls, before and 'several' or 'one'), (FX, cls, 'iterator_factory'), raises='ok')
        def _(w, cls=cls, before=before):
            nonempty(w, T('fresh', fac), T('fresh', fac2), items)
            o = w.new_(FX, cls, fac if cls == 'Iterative' else items)
            w.do(o, '__call__', *([] if before is None else [before]))
            w.put(o, 'iterator_factory', fac2)
            play(w, o, Reference(w, T('fresh', fac2)), PLANS[0], False, cls)
            play(w, o, Reference(w, T('fresh', fac2)), ('reset', None, n), False, cls)
