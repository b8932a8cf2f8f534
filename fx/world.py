"""Scenario vocabulary: drive the public API of the analysed program abstractly."""
from .interp import *          # noqa
from .terms import *           # noqa
from .evalx import Interp
from .program import Program


def inp(name, kind):
    return T('in', name, kind)


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (list, tuple)):
        return tup(*[lift(y) for y in x])
    return K(x)


class World(Interp):
    """An interpreter with helpers for writing scenarios."""

    def new_(self, module, cls, *pos, **kw):
        ci = self.p.cls('fauxdoc.' + module, cls)
        return self.construct(ci, [s1(lift(p)) for p in pos], self._kw(kw), self._node(), self._dummy_ctx())

    def _kw(self, kw):
        return [s1(tup(K(k), lift(v))) for k, v in kw.items()]

    def _node(self):
        from .evalx import _DUMMY
        return _DUMMY

    def do(self, v, name, *pos, **kw):
        return self.call_method(v, name, [s1(lift(p)) for p in pos], self._kw(kw))

    def apply(self, f, *pos, **kw):
        return self.call(f, [s1(lift(p)) for p in pos], self._kw(kw), self._node(), self._dummy_ctx())

    def get(self, v, name):
        return self.getattr_(v, name, self._node(), self._dummy_ctx())

    def put(self, v, name, val):
        return self.setattr_(v, name, lift(val), self._node(), self._dummy_ctx())

    def fun(self, module, name):
        """A public function of the package."""
        return self.p.public('fauxdoc.' + module, name) and self.global_name(self.p.modules['fauxdoc.' + module], name)

    def dict_(self, **kw):
        return self.new_dict(self._kw(kw))

    def list_(self, *vals):
        return self.new_list([s1(lift(v)) for v in vals])

    def attempt(self, fn):
        """('ok', value) or ('raise', PyRaise)"""
        try:
            return 'ok', fn()
        except PyRaise as e:
            return 'raise', e

    def eq(self, a, b):
        """a == b as the program would decide it, forking where it can be either."""
        return self.truth(self.eq_cond(lift(a), lift(b)))

    def distinct_names(self, *fields):
        for i, a in enumerate(fields):
            for b in fields[:i]:
                if self.eq(self.get(b, 'name'), self.get(a, 'name')):
                    raise Infeasible()

    def assume_ge(self, x, k):
        """Only histories with x >= k."""
        p = psub(lift(x), K(k - 1))
        c = pconst(p)
        if c is None:
            self.assume(T('gt0', self.scaled(p)), True)
        elif c <= 0:
            raise Infeasible()

    def rng(self, name='rng'):
        """A caller-supplied generator in an arbitrary state."""
        return self.new(Obj('rng', cls='random.Random', attrs={'state': T('anyrng', name)}))

    def random(self, seed):
        """random.Random(seed)"""
        return self.call_ext('random.Random', [s1(lift(seed))], [], self._node(), self._dummy_ctx())

    def have(self, v, *names):
        for x in names:
            self.assume(T('has', v, x), True)

    def lack(self, v, *names):
        for x in names:
            self.assume(T('has', v, x), False)

    def pin(self, v, **attrs):
        """Fix attributes of a collaborator, whatever its state."""
        for k, x in attrs.items():
            self.pinned[v, k] = lift(x)

    def plain(self, *vs, own=('seed', 'rng_seed')):
        """Collaborators that can be seeded and do not count their unique values."""
        for v in vs:
            self.have(v, *own)
            self.pin(v, num_unique_values=NONE)

    def call_segs(self, f, pos, kw=()):
        return self.call(f, list(pos), list(kw), self._node(), self._dummy_ctx())

    def new_segs(self, module, cls, pos, kw=()):
        ci = self.p.cls('fauxdoc.' + module, cls)
        return self.construct(ci, list(pos), list(kw), self._node(), self._dummy_ctx())


def star(src):
    """*src as positional arguments."""
    return T('sp', src, ZERO, T('len', src))
