"""C20: group operations reach every member, skip only what is missing, hide no errors."""
from .configs import *     # noqa

check = Check('C20')
GR = 'group'
CL = 'zz_client'
ms = inp('ms', 'seq:member')
mm = inp('mm', 'map:member')
m1, m2, m3 = inp('m1', 'member'), inp('m2', 'member'), inp('m3', 'member')
a1, a2, a3 = inp('a1', 'any'), inp('a2', 'any'), inp('a3', 'any')
KINDS = ('call', 'setattr')


def own(e):
    return e.target is not None


def operate(w, group, what):
    if what == 'do_method':
        return w.do(group, 'do_method', 'run', a1, a2, extra=a3)
    if what == 'do_method, no arguments':
        return w.do(group, 'do_method', 'run')
    if what == 'do_method reset':
        return w.do(group, 'do_method', 'reset')
    if what == 'do_method seed':
        return w.do(group, 'do_method', 'seed', a1)
    return w.do(group, 'setattr', 'level', a1)


def compare(w, group, members, what, at):
    """The members receive what the reference sends them, and nothing an operation raises is lost."""
    snap = w.snapshot()
    k = w.mark()
    w.opaque_raises = True
    r = w.attempt(lambda: operate(w, group, what))
    w.opaque_raises = False
    evs = w.since(k)
    lost = [e for e in flat_events(evs) if e.kind == 'swallowed']
    w.require(not lost, 'errors-reach-caller', 'an error raised by a member is swallowed: %s' % ', '.join(str(e.name) for e in lost[:3]),
              lost[0].loc if lost else at)
    if r[0] == 'raise':
        w.require(r[1].origin == 'opaque', 'errors-reach-caller', '%s (%s) escapes instead of what the member raised' % (r[1].cls, r[1].origin), r[1].loc)
        return
    w.restore(snap)
    k = w.mark()
    r = operate(w, group, what)
    got = w.trace(w.since(k), KINDS)
    w.restore(snap)
    k = w.mark()
    if what == 'do_method':
        w.apply(w.fun(CL, 'tell'), members, 'run', a1, a2, extra=a3)
    elif what == 'do_method, no arguments':
        w.apply(w.fun(CL, 'tell'), members, 'run')
    elif what == 'do_method reset':
        w.apply(w.fun(CL, 'tell'), members, 'reset')
    elif what == 'do_method seed':
        w.apply(w.fun(CL, 'tell'), members, 'seed', a1)
    else:
        w.apply(w.fun(CL, 'put_on'), members, 'level', a1)
    want = w.trace(w.since(k), KINDS)
    w.same(got, want, 'reaches-members', 'every member that has it is reached exactly once, in order, with the arguments given', at)
    w.require(r is NONE, 'reaches-members', 'return values are ignored', at, vague=True)


OPS = ('do_method', 'do_method, no arguments', 'do_method reset', 'do_method seed', 'setattr')


def case(name, build, kind):
    for what in OPS:
        meth = 'setattr' if what == 'setattr' else 'do_method'

        def body(w, what=what, meth=meth):
            at = w.where(GR, kind, meth)
            group, members = build(w)
            compare(w, group, members, what, at)
        check.sc('%s: %s' % (name, what), (GR, kind, meth))(body)


case('group of any members', lambda w: (w.new_segs(GR, 'ObjectGroup', [star(ms)]), ms), 'ObjectGroup')
case('group of three', lambda w: (w.new_(GR, 'ObjectGroup', m1, m2, m3), tup(m1, m2, m3)), 'ObjectGroup')
case('group with None', lambda w: (w.new_(GR, 'ObjectGroup', NONE, m2, NONE), tup(m2)), 'ObjectGroup')
case('group of none', lambda w: (w.new_(GR, 'ObjectGroup'), tup()), 'ObjectGroup')
case('map of any members', lambda w: (w.new_(GR, 'ObjectMap', mm), w.apply(w.fun(CL, 'values_of'), mm)), 'ObjectMap')
case('map of three', lambda w: (w.new_(GR, 'ObjectMap', w.dict_(x=m1, y=m2, z=m3)), tup(m1, m2, m3)), 'ObjectMap')
case('map with None', lambda w: (w.new_(GR, 'ObjectMap', w.dict_(x=NONE, y=m2, z=NONE)), tup(m2)), 'ObjectMap')
case('map of none', lambda w: (w.new_(GR, 'ObjectMap', w.dict_()), tup()), 'ObjectMap')


def appended(w):
    g = w.new_segs(GR, 'ObjectGroup', [star(ms)])
    w.do(g, 'do_method', 'reset')
    w.do(g, 'append', m1)
    return g, w.apply(w.fun(CL, 'with_one'), ms, m1)


def replaced(w):
    g = w.new_(GR, 'ObjectMap', w.dict_(x=m1, y=m2))
    w.do(g, 'do_method', 'reset')
    w.do(g, '__setitem__', 'x', m3)
    return g, tup(m3, m2)


def added(w):
    w.assume(T('contains', K('a key'), mm), False)
    g = w.new_(GR, 'ObjectMap', mm)
    w.do(g, 'setattr', 'level', a1)
    w.do(g, '__setitem__', 'a key', m1)
    return g, w.apply(w.fun(CL, 'with_one'), w.apply(w.fun(CL, 'values_of'), mm), m1)


case('group with a member appended', appended, 'ObjectGroup')
case('map with a member replaced', replaced, 'ObjectMap')
case('map with a member added', added, 'ObjectMap')


# ------------------------------------------------------------ composites built on groups
for c in ALL:
    if not c.children:
        continue

    # (a callback that rejects its arguments is meant to be reported as such when it is set)
    for op in ('reset', 'seed') if c.users or c.module == WR else ('reset', 'seed', 'construct'):
        def body(w, c=c, op=op):
            for x in c.children:
                if x.args[1].startswith('emitter'):
                    w.pin(x, num_unique_values=NONE)
            k = w.mark()
            if op != 'construct':
                o = c.build(w)
                k = w.mark()
            w.opaque_raises = True
            r = w.attempt(lambda: c.build(w) if op == 'construct' else w.do(o, op, *([seed2] if op == 'seed' else [])))
            w.opaque_raises = False
            lost = [e for e in flat_events(w.since(k)) if e.kind == 'swallowed']
            w.require(not lost, 'errors-reach-caller', 'an error raised by a child is swallowed: %s' % ', '.join(str(e.name) for e in lost[:3]),
                      lost[0].loc if lost else w.at_default)
        check.sc('%s: errors of children, %s' % (c.name, op), c.at(None if op == 'construct' else op), raises='ok')(body)
