"""C19: generated words and texts use exactly the parts their emitters supply."""
from .configs import *     # noqa

check = Check('C19')
CL = 'zz_client'


def history(w, o, h):
    if h == 'after emitting':
        w.do(o, '__call__', 2)
    elif h == 'after reset':
        w.do(o, '__call__')
        w.do(o, 'reset')
    elif h == 'after seeding':
        w.do(o, 'seed', seed2)


HIST = ('new', 'after emitting', 'after reset', 'after seeding')


def drawn(w, k, e):
    """Results of the calls of a part emitter since the mark; None when some happen in a loop."""
    if w.calls(w.since(k), e) is None:
        return None
    return [x for x in w.since(k) if x.kind == 'call' and x.target is e and x.name == '__call__']


def word_case(h, num):
    def body(w):
        w.plain(lenem, charem)
        o = w.new_(TX, 'Word', lenem, charem, rng_seed=seed)
        history(w, o, h)
        at = w.where(TX, 'Word', 'emit' if num is None else 'emit_many')
        # what a word by word implementation would do from here
        snap = w.snapshot()
        k = w.mark()
        lens = [w.apply(lenem)] if num is None else w.apply(lenem, num)
        slow = None
        if num is not None:
            slow = w.norm(w.apply(w.fun(CL, 'each_word'), lens, charem))
        w.restore(snap)
        k = w.mark()
        r = w.do(o, '__call__', *([] if num is None else [num]))
        ls, cs = drawn(w, k, lenem), drawn(w, k, charem)
        if slow is not None and w.equal(r, slow):
            w.ok('parts')
            return
        if ls is None or cs is None or len(ls) != 1 or len(cs) > 1 or ls[0].args[0] not in (NONE, lift(num) if num is not None else NONE, ONE):
            single = ls is not None and cs is not None
            w.require(False, 'parts', 'lengths are drawn once per call and the letters once: %s, %s' % (
                show([x.args for x in ls or []]), show([x.args for x in cs or []])), at, vague=not (single and num is None and len(cs) > 1))
            return
        L = w.list_(ls[0].result) if ls[0].args[0] is NONE else ls[0].result
        if not cs:
            w.same(w.apply(w.fun('zz_client', 'first'), w.apply(w.fun(CL, 'words_of'), L, w.list_())) if num is None
                   else w.apply(w.fun(CL, 'words_of'), L, w.list_()), r, 'parts', 'no letters were drawn', at)
            return
        total = w.len_sum(L) if hasattr(w, 'len_sum') else w.apply(w.fun(CL, 'total'), L)
        w.same(cs[0].args[0], total, 'letters-drawn', 'as many letters are drawn as the words have in total', at)
        want = w.apply(w.fun(CL, 'words_of'), L, cs[0].result)
        if num is None:
            want = w.apply(w.fun(CL, 'first'), want)
        w.same(r, want, 'parts', 'a word consists of the letters drawn for it, in order', at)
    check.sc('Word %s, %s' % (h, 'single' if num is None else show(lift(num))), (TX, 'Word'))(body)


for h in HIST:
    for num in (None, 0, 1, 2, n):
        word_case(h, num)


def text_case(h, num, sep, rounds=False):
    def body(w):
        w.plain(lenem, wordem, sepem)
        size = inp('size', 'nat')
        if rounds:
            w.have(wordem, 'replace_only_after_call')
            w.pin(wordem, replace_only_after_call=True)
            w.pin(wordem, num_unique_values=size)
            w.lack(lenem, 'items')
            w.assume(w.cond_gt0(size).args[0], True)
        else:
            w.lack(wordem, 'replace_only_after_call')
        o = w.new_(TX, 'Text', lenem, wordem, *([sepem] if sep else []), rng_seed=seed)
        history(w, o, h)
        at = w.where(TX, 'Text', 'emit' if num is None else 'emit_many')
        k = w.mark()
        snap = w.snapshot()
        r = w.do(o, '__call__', *([] if num is None else [num]))
        ls, ws, ss = drawn(w, k, lenem), drawn(w, k, wordem), drawn(w, k, sepem)
        if ls is None or len(ls) != 1 or ls[0].args[0] not in (NONE, lift(num) if num is not None else NONE, ONE):
            w.undec('parts', 'numbers of words are not drawn once per call', at)
            return
        L = w.list_(ls[0].result) if ls[0].args[0] is NONE else ls[0].result
        total = w.apply(w.fun(CL, 'total'), L)
        gaps = w.apply(w.fun(CL, 'seps_needed'), L)
        if rounds:
            got = w.norm(r)
            calls = w.trace(w.since(k), want=lambda e: e.target in (wordem, sepem))
            w.restore(snap)
            kk = w.mark()
            w.apply(lenem, *ls[0].args if ls[0].args[0] is not NONE else [])
            if w.truth(w.cond_gt0(psub(total, size))):
                words = w.apply(w.fun(CL, 'in_rounds'), wordem, total, size)
            else:
                words = w.apply(wordem, total)
            seps = w.apply(sepem, gaps)
        else:
            if ws is None or ss is None or len(ws) > 1 or len(ss) > 1:
                w.undec('parts', 'words and separators are not drawn in one go', at)
                return
            words, seps = w.list_(), w.list_()
            if ws:
                w.same(ws[0].args[0], total, 'words-drawn', 'as many words are drawn as the texts have in total', at)
                words = ws[0].result
            if not sep:
                seps = w.apply(w.fun(CL, 'spaces'), gaps)
            elif ss:
                w.same(ss[0].args[0], gaps, 'separators-drawn', 'as many separators are drawn as there are gaps between words', at)
                seps = ss[0].result
            got = r
        want = w.apply(w.fun(CL, 'texts_of'), L, words, seps)
        if num is None:
            want = w.apply(w.fun(CL, 'first'), want)
        w.same(got, want, 'parts', 'a text consists of the words drawn for it with the separators drawn between them, in order', at)
    check.sc('Text %s, %s, %s%s' % (h, 'single' if num is None else show(lift(num)), 'separators' if sep else 'default separator',
                                  ', words in rounds' if rounds else ''), (TX, 'Text'))(body)


for h in HIST:
    for num in (None, 0, 1, 2, n):
        for sep in (True, False):
            text_case(h, num, sep)
for num in (None, n):
    text_case('new', num, True, True)


# lengths that are known: the edges a shortcut for them could get wrong
LENGTHS = {'of no letters': 0, 'of one letter': 1, 'of two letters': 2}
for lname, size in LENGTHS.items():
    for num in (None, 0, 1, 2, n):
        @check.sc('words all %s, %s' % (lname, 'single' if num is None else show(lift(num))), (TX, 'Word'))
        def _(w, size=size, num=num):
            w.plain(charem)
            if num is n:
                w.assume_ge(n, 2)          # one and none are asked for in scenarios of their own
            o = w.new_(TX, 'Word', w.new_(FX, 'Static', lift(size)), charem, rng_seed=seed)
            at = w.where(TX, 'Word', 'emit' if num is None else 'emit_many')
            k = w.mark()
            r = w.do(o, '__call__', *([] if num is None else [num]))
            if size == 0:
                want = w.norm(lift('')) if num is None else w.norm(w.apply(w.fun(CL, 'empties'), num))
                w.same(w.norm(r), want, 'parts', 'words of no letters are empty, and there are as many as asked for', at)
                return
            cs = drawn(w, k, charem)
            if cs is None or len(cs) > 1:
                w.undec('parts', 'letters are not drawn in one go', at)
                return
            L = w.apply(w.fun(CL, 'same_number'), size, 1 if num is None else num)
            want = w.apply(w.fun(CL, 'words_of'), L, cs[0].result if cs else w.list_())
            if num is None:
                want = w.apply(w.fun(CL, 'first'), want)
            w.same(w.norm(r), w.norm(want), 'parts', 'a word consists of the letters drawn for it, in order', at)

        @check.sc('texts all %s, %s' % (lname.replace('letter', 'word'), 'single' if num is None else show(lift(num))), (TX, 'Text'))
        def _(w, size=size, num=num):
            w.plain(wordem, sepem)
            w.lack(wordem, 'replace_only_after_call')
            o = w.new_(TX, 'Text', w.new_(FX, 'Static', lift(size)), wordem, sepem, rng_seed=seed)
            at = w.where(TX, 'Text', 'emit' if num is None else 'emit_many')
            k = w.mark()
            r = w.do(o, '__call__', *([] if num is None else [num]))
            if size == 0:
                want = w.norm(lift('')) if num is None else w.norm(w.apply(w.fun(CL, 'empties'), num))
                w.same(w.norm(r), want, 'parts', 'texts of no words are empty, and there are as many as asked for', at)
                return
            ws, ss = drawn(w, k, wordem), drawn(w, k, sepem)
            if ws is None or ss is None or len(ws) > 1 or len(ss) > 1:
                w.undec('parts', 'words and separators are not drawn in one go', at)
                return
            L = w.apply(w.fun(CL, 'same_number'), size, 1 if num is None else num)
            want = w.apply(w.fun(CL, 'texts_of'), L, ws[0].result if ws else w.list_(), ss[0].result if ss else w.list_())
            if num is None:
                want = w.apply(w.fun(CL, 'first'), want)
            w.same(r, want, 'parts', 'a text consists of the words drawn for it with the separators drawn between them, in order', at)
