"""What resetting and seeding do to the parts of a composite (shared by C02, C03, C04)."""
from .configs import *     # noqa

CL = 'zz_client'
COMPOSITES = [c for c in ALL if c.children]


def comp(name, cls, build, children):
    COMPOSITES.append(Conf(name, build, CL, cls, children=children))


comp("a user's composite", 'Pair', lambda w, **k: w.new_(CL, 'Pair', em, em2, **seeded(k)), (em, em2))
comp('a composite of composites', 'Pair', lambda w, **k: w.new_(CL, 'Pair', w.new_(TX, 'Word', lenem, charem), w.new_(WR, 'WrapOne', em, cb), **seeded(k)),
     (lenem, charem, em))
NESTED = Conf('a field of composites', lambda w, **k: w.new_(PR, 'Field', 'fname', w.new_(TX, 'Text', lenem, w.new_(CL, 'Pair', em, em2), sepem), **seeded(k)), PR, 'Field',
              kind='field', children=(lenem, em, em2, sepem))
COMPOSITES.append(NESTED)
UNSEEDED = [
    Conf('Word without a seed', lambda w, **k: w.new_(TX, 'Word', lenem, charem), TX, 'Word', children=(lenem, charem)),
    Conf('Text without a seed', lambda w, **k: w.new_(TX, 'Text', lenem, wordem, sepem), TX, 'Text', children=(lenem, wordem, sepem)),
    Conf('WrapOne without a seed', lambda w, **k: w.new_(WR, 'WrapOne', em, cb), WR, 'WrapOne', children=(em,)),
    Conf('WrapMany without a seed', lambda w, **k: w.new_(WR, 'WrapMany', ems, cb), WR, 'WrapMany', children=(ems,)),
    Conf('Field without a seed', lambda w, **k: w.new_(PR, 'Field', 'fname', em, rep, gate=gate), PR, 'Field', kind='field', children=(em, rep, gate)),
]


def fold(evs):
    """What a history of operations leaves a part in: ('fresh' | 'seeded', seed) when nothing was asked of it since."""
    ph, cur = 'untouched', None
    for e in evs:
        if e.kind == 'setattr':
            if e.name == 'rng_seed':
                cur = e.args[0]
                if ph[0] == 'fresh':
                    ph = ('fresh, reseeded', cur)
            else:
                ph = ('changed', e.name)
        elif e.name == 'reset':
            ph = ('fresh', cur)
        elif e.name == 'seed':
            if ph != ('fresh', e.args[0]):      # seeding again what was just started from that seed changes nothing
                ph = ('seeded', e.args[0])
            cur = e.args[0]
        else:
            ph = ('used', ph)
    return ph


def told(w, evs, child):
    """[(known to hold on it, operations a child received in order)]; a family of children is represented by a generic one."""
    if child.args[1].startswith('map') or child.args[1].startswith('seq'):
        return w.histories(evs, child)
    out = []
    for e in evs:
        if e.kind == 'loop':
            for g, oc, inner in e.args:
                if told(w, inner, child)[0][1]:
                    raise Undecided('child used in a loop')
        elif e.kind == 'loopexit':
            out += told(w, e.args, child)[0][1]
        elif e.target is child and e.kind in ('call', 'setattr'):
            out.append(e)
    return [({}, out)]


def has(w, child, name, guards):
    """Does the (generic) child have the attribute?  True / False / None, on this path."""
    if child.args[1].startswith('map'):
        for a, b in guards.items():
            if a.op == 'has' and a.args[1] == name:
                return b
        return None
    return w.choose(T('has', child, name))


def histories_of(c):
    """The histories considered for a composite."""
    nested = ' composites' in c.name
    return [h for h in HIST if not (nested and h == 'after a child is replaced') and not (len(c.children) > 3 and h in ('after many values', 'after a reset'))]


def child_name(c):
    return c.args[0]


HIST = ('new', 'after one value', 'after many values', 'after seeding', 'after setting its seed', 'after a reset', 'after a child is replaced')


def prepare(w, c):
    for x in c.children:
        if x.args[1].startswith('emitter'):
            w.pin(x, num_unique_values=NONE)
            w.lack(x, 'items', 'replace_only_after_call')
    w.pin(em3, num_unique_values=NONE)


def bring(w, c, h):
    """An object with the given history: (object, its children now, its seed now)."""
    o = c.build(w)
    s, kids = seed, list(c.children)
    if h == 'after one value':
        w.attempt(lambda: w.do(o, '__call__'))
    elif h == 'after many values':
        w.attempt(lambda: w.do(o, '__call__', *([] if c.kind == 'field' else [n])))
        w.attempt(lambda: w.do(o, '__call__'))
    elif h == 'after seeding':
        w.do(o, 'seed', seed2)
        s = seed2
    elif h == 'after setting its seed':
        w.put(o, 'rng_seed', seed2)
        s = seed2
    elif h == 'after a reset':
        w.do(o, '__call__')
        w.do(o, 'reset')
    elif h == 'after a child is replaced':
        old = kids[0]
        if old.args[1].startswith('map'):
            w.assume(T('contains', K('a key'), old), False)
            w.do(w.get(o, 'emitters'), '__setitem__', 'a key', em3)
            kids.append(em3)
        else:
            for x in kids[1:] + [em3]:
                if w.eq(x, old):
                    raise Infeasible()
            w.apply(w.fun(CL, 'swap'), w.get(o, 'emitters'), old, em3)
            kids[0] = em3
    return o, kids, s
