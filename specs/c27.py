"""C27: deprecated and public names stay reachable, listed and announced."""
import os

from fx import compat, imports
from .configs import *     # noqa

check = Check('C27')

# the deprecations the changelog announces
DEPRECATED = {'typing': ('Number', 'EmitterLikeCallable', 'StrEmitterLike', 'IntEmitterLike', 'BoolEmitterLike'),
              'emitters': ('Wrap',), 'emitters.wrappers': ('Wrap',)}
name1 = inp('name1', 'str')
n1, n2, o1, o2, fn, ft, rep = (inp('n1', 'str'), inp('n2', 'str'), inp('o1', 'any'), inp('o2', 'any'), inp('fn', 'str'), inp('ft', 'str'),
                               inp('rep', 'str'))


def warned(evs):
    out = []
    for e in flat_events(evs):
        if e.kind == 'warn':
            vals = [a for s in e.args for a in subterms(s)] + [a for s in e.kw for a in subterms(s)]
            if any(a.op == 'ext' and a.args[0] in ('builtins.DeprecationWarning',) for a in vals):
                out.append(e)
    return out


def module(w, name):
    return T('mod', 'fauxdoc.' + name)


def right_object(w, mod, name, v, at):
    if name == 'Number':
        ok = v == T('ext', 'builtins.float')
        w.require(ok, 'deprecated-object', '%s.Number is not float' % mod, at)
    elif name == 'Wrap':
        c = w.cls_info(v) if v.op == 'cls' else None
        names = {x.name for x in c.mro() if hasattr(x, 'name')} if c is not None else set()
        w.require(c is not None and 'Emitter' in names and c.name not in ('WrapOne', 'WrapMany'), 'deprecated-object',
                  '%s.Wrap is not the wrapper base class' % mod, at)
    else:
        w.require(v is not NONE and v.op != 'k', 'deprecated-object', '%s.%s is not a type' % (mod, name), at)
        want = {'StrEmitterLike': 'builtins.str', 'IntEmitterLike': 'builtins.int', 'BoolEmitterLike': 'builtins.bool'}.get(name)
        if want:
            seen = set(subterms(w.freeze(v)))
            w.require(T('ext', want) in seen or not any(x.op == 'ext' for x in seen), 'deprecated-object',
                      '%s.%s is not about %s' % (mod, name, want), at, vague=True)


def direct(mod, name):
    @check.sc('%s.%s' % (mod, name))
    def f(w):
        m = w.p.modules['fauxdoc.' + mod]
        at = w.where(mod, None, '__getattr__') if '__getattr__' in m.globals else '%s:1' % w.p.rel(m.path)

        def use(turn):
            k = w.mark()
            try:
                v = w.get(module(w, mod), name)
            except PyRaise as e:
                w.fail('deprecated-resolves', '%s.%s raises %s' % (mod, name, e.cls), e.loc or at)
                return False
            w.ok('deprecated-resolves')
            evs = w.since(k)
            w.require(warned(evs), 'deprecated-announced', 'use %d of %s.%s gives no DeprecationWarning' % (turn + 1, mod, name), at)
            right_object(w, mod, name, v, at)
        w.again_and_again(use, 'deprecated-announced', '%s.%s is announced' % (mod, name), at)


def missing(mod):
    @check.sc('%s: any other name' % mod)
    def f(w):
        if '__getattr__' not in w.p.modules['fauxdoc.' + mod].globals:
            w.ok('missing-is-attribute-error')
            return
        at = w.where(mod, None, '__getattr__')
        for n in DEPRECATED[mod]:
            if w.eq(name1, K(n)):
                raise Infeasible()
        k = w.mark()
        try:
            r = w.apply(w.fun(mod, '__getattr__'), name1)
        except PyRaise as e:
            w.require(exc_is(e.cls, 'AttributeError'), 'missing-is-attribute-error', '%s raises %s for a name it does not have' % (mod, e.cls), e.loc or at)
            w.require(not warned(w.since(k)), 'missing-not-announced', 'a missing name is announced as deprecated', at)
            return
        w.fail('missing-is-attribute-error', '%s answers a name it does not have' % mod, at)


SETS = {'Sub': set.__sub__, 'BitOr': set.__or__, 'BitAnd': set.__and__, 'BitXor': set.__xor__}


def names_in(w, t):
    """The set of names a collection of literal names holds (None: not a literal one)."""
    if isinstance(t, tuple):
        out = set()
        for s in t:
            if s.op == 's1' and s.args[0].op == 'k' and isinstance(kv(s.args[0]), str):
                out.add(kv(s.args[0]))
                continue
            if s.op != 'sp' or s.args[1] is not ZERO:
                return None
            base, _, hi = s.args
            whole = [w.len_of(base)] + ([w.seq_len(base.args[0].args[0])] if base.op in ('sorted', 'setorder') and base.args[0].op == 'seq' else []) \
                + ([T('nuniq', base.args[0].args[0])] if base.op == 'setorder' and base.args[0].op == 'seq' else [])
            part = names_in(w, base)
            if hi not in whole or part is None:
                return None
            out |= part
        return out
    if t.op in ('flist', 'seq', 'tup', 'fset'):
        return names_in(w, t.args[0])
    if t.op == 'fdict':
        return None
    if t.op in ('sorted', 'setorder'):
        return names_in(w, t.args[0])
    if t.op == 'op' and len(t.args) == 3 and t.args[0] in SETS:
        a, b = names_in(w, t.args[1]), names_in(w, t.args[2])
        return None if a is None or b is None else SETS[t.args[0]](a, b)
    return None


def listing(mod):
    @check.sc('%s: listing' % mod)
    def f(w):
        m = w.p.modules['fauxdoc.' + mod]
        if '__dir__' in m.globals:
            at = w.where(mod, None, '__dir__')
            r = w.simp(w.freeze(w.apply(w.fun(mod, '__dir__'))))
            have = names_in(w, r)
            if have is None:
                w.undec('deprecated-listed', 'the names dir(%s) lists: %s' % (mod, show(r)[:200]), at)
                return
        else:
            at = '%s:1' % w.p.rel(m.path)
            have = set(m.globals)
        lost = [n for n in DEPRECATED[mod] if n not in have]
        w.require(not lost, 'deprecated-listed', 'dir(%s) does not list %s' % (mod, ', '.join(lost)), at)
        lost = [n for n in m.globals if n not in have and not n.startswith('_')]
        w.require(not lost, 'names-listed', 'dir(%s) does not list %s' % (mod, ', '.join(lost)), at)


for mod in DEPRECATED:
    for name in DEPRECATED[mod]:
        direct(mod, name)
    missing(mod)
    listing(mod)


def different(w, *names):
    for i, a in enumerate(names):
        for b in names[:i]:
            if w.eq(a, b):
                raise Infeasible()


def table(w):
    return w.new_dict([s1(tup(n1, tup(rep, o1))), s1(tup(n2, tup(NONE, o2)))])


@check.sc('announcing: a deprecated attribute')
def announce(w):
    at = w.where('warn', None, 'get_deprecated_attr')
    different(w, n1, n2)
    t = table(w)

    def use(turn):
        for n, o in ((n1, o1), (n2, o2), (n1, o1)):
            k = w.mark()
            r = w.apply(w.fun('warn', 'get_deprecated_attr'), n, fn, ft, t if turn % 2 else table(w))
            w.same(r, o, 'deprecated-object', 'a deprecated attribute is the object recorded for it', at)
            w.require(warned(w.since(k)), 'deprecated-announced', 'a deprecated attribute is handed out without a DeprecationWarning', at)
    w.again_and_again(use, 'deprecated-announced', 'a deprecated attribute is announced', at)


@check.sc('announcing: any other attribute')
def refuse(w):
    at = w.where('warn', None, 'get_deprecated_attr')
    different(w, n1, n2, name1)
    k = w.mark()
    try:
        w.apply(w.fun('warn', 'get_deprecated_attr'), name1, fn, ft, table(w))
    except PyRaise as e:
        w.require(exc_is(e.cls, 'AttributeError'), 'missing-is-attribute-error', 'a missing attribute raises %s' % e.cls, e.loc or at)
        w.require(not warned(w.since(k)), 'missing-not-announced', 'a missing attribute is announced as deprecated', at)
        return
    w.fail('missing-is-attribute-error', 'a missing attribute is answered', at)


@check.sc('announcing: setting the iterator factory of a sequence', raises='ok')
def factory(w):
    at = w.where('emitters.fixed', 'Sequential', '__init__')
    o = w.new_('emitters.fixed', 'Sequential', inp('items', 'seq'))
    factories = [inp('f1', 'factory'), inp('f2', 'factory')]
    for turn in range(10):
        k = w.mark()
        try:
            w.put(o, 'iterator_factory', factories[turn % 2])
        except PyRaise:
            return
        w.require(warned(w.since(k)), 'deprecated-announced', 'setting the iterator factory of a sequence gives no DeprecationWarning', at)


@check.lint('imports')
def resolve(program):
    root = os.path.dirname(os.path.dirname(program.root))
    own = [n for n, m in sorted(program.modules.items()) if m.path.startswith(program.root)]
    short = {n: n[len(program.package) + 1:] for n in own}

    def dynamic(mod, name):
        return name in DEPRECATED.get(short.get(mod), ())
    for v in sorted(compat.supported(os.path.join(root, 'pyproject.toml'))):
        splitters = {}

        def split(m, test):
            c = splitters.setdefault(m.name, compat.Checker(program, m, frozenset({v}), {}))
            t, f = c.split(test)
            return bool(t), bool(f)
        imp = imports.Importer(program, split, dynamic)
        for n in own:
            imp.load(n)
        for n in own:
            imp.functions(n)
        for s in imp.sites:
            yield ('proved' if s.ok else 'violated'), s.rule, s.msg, s.at
        for n in own:
            sp = imp.spaces[n]
            m = program.modules[n]
            at = '%s:1' % program.rel(m.path)
            try:
                names = imp.exported(n)
            except (ValueError, AttributeError, TypeError):
                yield 'undecided', 'public-names', 'the names in __all__ of %s cannot be told' % n, at
                continue
            for x in names or ():
                ok = x in sp.names or n + '.' + x in program.modules or ('__getattr__' in sp.names and dynamic(n, x))
                yield ('proved' if ok else 'violated'), 'public-names', '%s declares %s public and has no such name' % (n, x), at
            for x in DEPRECATED.get(short[n], ()):
                yield ('violated' if sp.names.get(x) == 'yes' else 'proved'), 'deprecated-announced', \
                    '%s.%s is an ordinary attribute: using it gives no warning' % (n, x), at
