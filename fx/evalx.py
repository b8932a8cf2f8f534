"""Expression evaluation, calls and models of the standard library."""
import ast

from .terms import *           # noqa
from . import dates
from .program import ClassInfo, FuncInfo, Prop
from .interp import (BreakEx, ContinueEx, Ctx, Ev, InfiniteEx, Infeasible, Interp as Base, Obj, PyRaise, ReturnEx, Undecided,
                     exc_is)

DT_METHODS = {'time', 'date', 'timetz', 'total_seconds', 'isoformat', 'combine', 'fromisoformat', 'replace', 'bind', 'join',
              'format', 'append', 'extend', 'get', 'keys', 'values', 'items', 'index', 'count', 'utcoffset', 'toordinal', 'split',
              'strip', 'lower', 'upper', 'startswith', 'endswith', 'update', 'pop', 'sort', 'insert', 'remove', 'reverse', 'clear',
              'setdefault', 'copy', 'astimezone', 'timestamp', 'weekday', 'bind_partial'}
import fx.interp as _fi
_fi.DT_METHODS = DT_METHODS

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', '__setitem__',
            '__delitem__', 'add', 'discard', 'move_to_end'}

PLAIN_DECORATORS = {'property', 'cached_property', 'setter', 'getter', 'deleter', 'staticmethod', 'classmethod', 'overload', 'abstractmethod',
                    'abstractproperty', 'override', 'final', 'no_type_check', 'deprecated'}

ENTROPY_PREFIX = ('random.', 'secrets.', 'uuid.', 'time.', 'os.urandom', 'os.getpid', 'numpy.random')
ENTROPY_EXACT = {'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'builtins.id',
                 'builtins.hash', 'random.SystemRandom', 'os.times', 'builtins.input', 'datetime.datetime.timestamp'}


class Interp(Base):

    # ------------------------------------------------------------ expressions
    def eval(self, e, ctx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s at %s' % (type(e).__name__, self.loc(e, ctx)))
        return m(e, ctx)

    def e_Constant(self, e, ctx):
        return K(e.value)

    def e_Name(self, e, ctx):
        return self.lookup(e.id, ctx, e)

    def e_NamedExpr(self, e, ctx):
        v = self.eval(e.value, ctx)
        self.setname(e.target.id, v, ctx)
        return v

    def e_JoinedStr(self, e, ctx):
        # text content is opaque; evaluate interpolated calls for their effects only when simple
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                if any(isinstance(n, (ast.IfExp, ast.BoolOp, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(p.value)):
                    parts.append(T('fpart', p.lineno, p.col_offset))
                    continue
                try:
                    parts.append(self.freeze(self.eval(p.value, ctx)))
                except Undecided:
                    parts.append(T('fpart', p.lineno, p.col_offset))
            else:
                parts.append(K(p.value))
        return T('fstr', tuple(parts))

    def e_Attribute(self, e, ctx):
        v = self.eval(e.value, ctx)
        return self.getattr_(v, e.attr, e, ctx)

    def e_IfExp(self, e, ctx):
        return self.eval(e.body if self.truth(self.eval(e.test, ctx)) else e.orelse, ctx)

    def e_BoolOp(self, e, ctx):
        v = None
        for x in e.values:
            v = self.eval(x, ctx)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if v.op != 'cond' else FALSE
            if isinstance(e.op, ast.Or) and t:
                return v if v.op != 'cond' else TRUE
        return v

    def e_UnaryOp(self, e, ctx):
        v = self.eval(e.operand, ctx)
        if isinstance(e.op, ast.Not):
            if v.op in ('cond', 'k'):
                return self.notv(v)
            return K(not self.truth(v))
        if isinstance(e.op, ast.USub):
            if is_knum(v):
                return K(-kv(v))
            return dates.neg(v) if dates.is_date(v) and v.op != 'dt' else pneg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return T('inv', v)

    def e_Compare(self, e, ctx):
        left = self.eval(e.left, ctx)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, ctx)
            res = self.compare(op, left, right, e, ctx)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return FALSE
            left = right
        return res

    def e_BinOp(self, e, ctx):
        a = self.eval(e.left, ctx)
        b = self.eval(e.right, ctx)
        return self.binop(e.op, a, b, e, ctx)

    def is_seqval(self, v):
        if v.op in ('tup', 'flist', 'seq'):
            return True
        if v.op == 'ref':
            o = self.deref(v)
            return o.kind == 'list' or self.is_userlist(o)
        if v.op in ('k', 'poly', 'cond', 'fn', 'cls', 'ext', 'bm'):
            return False
        return self.kind(v).split(':')[0] == 'seq'

    def to_num(self, v):
        if v.op == 'cond':
            return K(1 if self.truth(v) else 0)
        return v

    def binop(self, op, a, b, node, ctx):
        t = type(op)
        a, b = (a, b) if t is ast.Mod else (self.to_num(a), self.to_num(b))
        if dates.is_date(a) and not (t is ast.Mod and a.op == 'k') or dates.is_date(b) and not (a.op == 'k' and isinstance(kv(a), str)):
            return dates.binop(self, t, a, b, node, ctx)
        if a.op == 'k' and b.op == 'k':
            x, y = kv(a), kv(b)
            try:
                if t is ast.Add:
                    return K(x + y)
                if t is ast.Sub:
                    return K(x - y)
                if t is ast.Mult:
                    return K(x * y)
                if t is ast.Div:
                    return K(x / y)
                if t is ast.FloorDiv:
                    return K(x // y)
                if t is ast.Mod:
                    return K(x % y) if not isinstance(x, str) else T('fstr', (a, b))
                if t is ast.Pow and abs(y) < 64:
                    return K(x ** y)
                if t is ast.BitOr:
                    return K(x | y)
                if t is ast.BitAnd:
                    return K(x & y)
            except ZeroDivisionError:
                self.throw('ZeroDivisionError', node, ctx, 'op')
            except TypeError:
                self.throw('TypeError', node, ctx, 'op')
        for x, y in ((a, b), (b, a)):
            if x.op == 'ref' and self.deref(x).kind == 'inst' and not self.is_userlist(self.deref(x)):
                nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(t)
                c = self.deref(x).cls.find(nm) if nm else None
                if c and isinstance(c[1], FuncInfo) and x is a:
                    return self.call_method(x, nm, [s1(y)], [])
                raise Undecided('operator on %r' % self.deref(x).cls)
        if t is ast.Add:
            if self.is_seqval(a) or self.is_seqval(b):
                sa, sb = self.iter_segs(a, node, ctx), self.iter_segs(b, node, ctx)
                segs = self.norm_segs(tuple(sa) + tuple(sb))
                if a.op == 'tup':
                    return tup_segs(segs)
                if a.op == 'ref' and self.deref(a).kind == 'inst':
                    raise Undecided('concatenation of a UserList')
                return self.new_list(segs)
            if (a.op == 'k' and isinstance(kv(a), str)) or (b.op == 'k' and isinstance(kv(b), str)) or \
                    self.kind(a) == 'str' or self.kind(b) == 'str':
                return self.str_join(K(''), tuple(self.str_segs(a)) + tuple(self.str_segs(b)))
            return padd(a, b)
        if t is ast.Sub:
            if a.op == 'ref' or b.op == 'ref':
                return T('op', 'Sub', self.freeze(a), self.freeze(b))
            return psub(a, b)
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if self.is_seqval(x):
                    segs = self.norm_segs((T('rep', tuple(self.iter_segs(x, node, ctx)), y),))
                    return tup_segs(segs) if x.op == 'tup' else self.new_list(segs)
                if x.op == 'k' and isinstance(kv(x), str):
                    return T('strrep', x, y)
            return pmul(a, b)
        if t is ast.BitOr and self.is_mapping(a):
            d = self.new_dict(self.dict_segs(a))
            self.dict_update(d, self.dict_segs(b))
            return d
        if t is ast.Mod and (a.op == 'k' and isinstance(kv(a), str) or self.kind(a) == 'str'):
            return T('fstr', (a, self.freeze(b)))
        if t in (ast.FloorDiv, ast.Mod):
            self.event('div', a, t.__name__, (a, b), loc=self.loc(node, ctx))
            self.may_raise(T('zero', b), ['ZeroDivisionError'], node, ctx)
            return self.divmod_(a, b)[0 if t is ast.FloorDiv else 1]
        if t is ast.Div:
            self.event('div', a, 'Div', (a, b), loc=self.loc(node, ctx))
            c = pconst(b)
            if c:
                return pmul(a, K(1 / c))
        return T('op', t.__name__, self.freeze(a), self.freeze(b))

    def divmod_(self, a, b):
        if is_knum(a) and is_knum(b) and kv(b):
            return K(kv(a) // kv(b)), K(kv(a) % kv(b))
        q = pdiv_exact(a, b)
        if q is not None and self.is_int(q):
            return q, ZERO
        inner = [(mono[0], c) for mono, c in pmonos(a) if len(mono) == 1 and mono[0].op == 'fmod' and mono[0].args[1] is b and isinstance(c, int)]
        if inner:
            # (x + c*(y mod b)) mod b == (x + c*y) mod b
            a2 = a
            for t, c in inner:
                a2 = padd(a2, pmul(K(c), psub(t.args[0], t)))
            return T('fdiv', a, b), self.divmod_(a2, b)[1]
        return T('fdiv', a, b), T('fmod', a, b)

    def e_List(self, e, ctx):
        return self.new_list(self.elts(e.elts, ctx))

    def e_Tuple(self, e, ctx):
        return tup_segs(self.elts(e.elts, ctx))

    def e_Set(self, e, ctx):
        return self.new(Obj('set', segs=self.elts(e.elts, ctx)))

    def elts(self, elts, ctx):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_segs(self.eval(x.value, ctx), x, ctx))
            else:
                out.append(s1(self.eval(x, ctx)))
        return self.norm_segs(out)

    def e_Dict(self, e, ctx):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.dict_segs(self.eval(v, ctx)))
            else:
                kk = self.eval(k, ctx)
                self.dict_put(d, kk, self.eval(v, ctx))
        return d

    def e_Lambda(self, e, ctx):
        fi = self.local_fn(e, ctx, '<lambda>')
        return self.closure(fi, e, ctx)

    def comp(self, e, ctx, emit):
        """Run a comprehension as nested append loops in a scope of its own."""
        fid = self.new(Obj('frame', meta={'parent': ctx.fid})).args[0]
        c2 = Ctx(fid, ctx.fn, ctx.mod)

        def go(i):
            if i == len(e.generators):
                emit(c2)
                return
            g = e.generators[i]
            it = self.eval(g.iter, ctx if i == 0 else c2)
            if it.op == 'ref' and self.deref(it).kind == 'gen':
                self.force_gen(it)
            segs = self.iter_segs(it, e, ctx)

            def body(el):
                self.assign(g.target, el, c2)
                for cond in g.ifs:
                    if not self.truth(self.eval(cond, c2)):
                        return
                go(i + 1)
            self.iterate(segs, body, e, ctx)
        go(0)

    def e_ListComp(self, e, ctx):
        acc = self.new_list()

        def emit(c2):
            v = self.eval(e.elt, c2)
            o = self.deref(acc)
            o.segs = self.norm_segs(o.segs + (s1(v),))
        self.comp(e, ctx, emit)
        return acc

    def e_GeneratorExp(self, e, ctx):
        acc = self.e_ListComp(e, ctx)
        return self.new(Obj('iter', segs=self.deref(acc).segs, pos=ZERO))

    def e_SetComp(self, e, ctx):
        acc = self.e_ListComp(e, ctx)
        return self.new(Obj('set', segs=self.deref(acc).segs))

    def e_DictComp(self, e, ctx):
        acc = self.new_dict()

        def emit(c2):
            k = self.eval(e.key, c2)
            v = self.eval(e.value, c2)
            self.dict_put(acc, k, v)
        self.comp(e, ctx, emit)
        return acc

    def e_Yield(self, e, ctx):
        v = self.eval(e.value, ctx) if e.value is not None else NONE
        acc = self.yield_acc(ctx)
        o = self.deref(acc)
        o.segs = self.norm_segs(o.segs + (s1(v),))
        return NONE

    def e_YieldFrom(self, e, ctx):
        v = self.eval(e.value, ctx)
        if v.op == 'ref' and self.deref(v).kind == 'gen':
            self.force_gen(v)
        segs = self.iter_segs(v, e, ctx)
        acc = self.yield_acc(ctx)
        o = self.deref(acc)
        o.segs = self.norm_segs(o.segs + tuple(segs))
        if any(s.op == 'forever' for s in segs):
            raise InfiniteEx()
        return NONE

    def yield_acc(self, ctx):
        fid = ctx.fid
        while fid is not None:
            fr = self.heap[fid]
            if 'yield' in fr.meta:
                return fr.meta['yield']
            fid = fr.meta.get('parent')
        raise Undecided('yield outside a generator')

    def e_Starred(self, e, ctx):
        raise Undecided('starred')

    def e_Await(self, e, ctx):
        raise Undecided('await')

    def eval_index(self, sl, ctx):
        if isinstance(sl, ast.Slice):
            g = lambda x: self.eval(x, ctx) if x is not None else NONE
            return T('slice', g(sl.lower), g(sl.upper), g(sl.step))
        return self.eval(sl, ctx)

    def e_Slice(self, e, ctx):
        return self.eval_index(e, ctx)

    def e_Subscript(self, e, ctx):
        v = self.eval(e.value, ctx)
        if v.op in ('ext', 'cls') or (v.op == 'sub'):
            return v if v.op != 'ext' else T('ext', v.args[0])
        i = self.eval_index(e.slice, ctx)
        return self.getitem(v, i, e, ctx)

    # ------------------------------------------------------------ items
    def getitem(self, v, i, node, ctx):
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                f = o.cls.find('__getitem__')
                if f and isinstance(f[1], FuncInfo):
                    return self.call_method(v, '__getitem__', [s1(i)], [])
            if self.is_mapping(v):
                return self.dict_get(v, i, node, ctx)
            if o.kind == 'inst' and self.is_userlist(o):
                r = self.getitem(o.attrs['data'], i, node, ctx)
                if i.op == 'slice':
                    return self.construct(o.cls, [s1(r)], [], node, ctx)
                return r
            if o.kind == 'set':
                self.throw('TypeError', node, ctx, 'op')
            if o.kind == 'inst':
                self.throw('TypeError', node, ctx, 'op')
        if v.op == 'fdict':
            return self.dict_get(v, i, node, ctx)
        if v.op == 'rangev':
            return self.range_get(v, i, node, ctx)
        if v.op == 'rslice':
            return self.renorm(padd(T('attr', v, 'start'), pmul(self.opaque_attr(v, 'step', node, ctx), i)))
        if v.op == 'k' and isinstance(kv(v), (str, bytes)) and is_knum(i):
            try:
                return K(kv(v)[kv(i)])
            except IndexError:
                self.throw('IndexError', node, ctx, 'op')
        if v is NONE:
            self.throw('TypeError', node, ctx, 'op')
        if v.op not in ('ref', 'tup', 'flist', 'seq', 'k') and self.kind(v).split(':')[0] == 'map':
            if i.op == 'slice':
                self.throw('TypeError', node, ctx, 'op')
            if i.op == 'mkey' and i.args[0] is v:
                return T('mval', v, i.args[1])
            return T('mget', v, i)
        segs = self.maybe_segs(v)
        if segs is None:
            raise Undecided('subscript of %s at %s' % (show(v), self.loc(node, ctx)))
        if i.op == 'slice':
            lo, hi, st = i.args
            r = self.slice_segs(segs, lo, hi, st)
            if v.op == 'tup':
                return tup_segs(r)
            if v.op in ('ref', 'flist', 'seq') or self.kind(v).split(':')[0] in ('seq', 'any', 'list'):
                return self.new_list(r)
            return T('seq', r)
        if i.op == 'k' and not is_knum(i):
            self.throw('TypeError', node, ctx, 'op')
        self.event('index', v if v.op != 'ref' else None, 'index', (T('seq', tuple(segs)), i), loc=self.loc(node, ctx))
        if 'IndexError' in self.handled() or 'LookupError' in self.handled():
            n = self.seq_len(segs)
            if not self.truth(self.cond_gt0(psub(n, i))):
                self.throw('IndexError', node, ctx, 'op')
        r = self.index_segs(segs, i)
        if r is None:
            self.throw('IndexError', node, ctx, 'op')
        return r

    def range_get(self, v, i, node, ctx):
        lo, hi, st = v.args
        n = self.len_range(v)
        if i.op == 'slice':
            a, b, c = i.args
            if a is NONE and b is NONE and c in (NONE, ONE):
                return v
            return T('rslice', v, a, b, c)
        if self.kind(i) == 'slice' or self.query(T('isinst', i, 'builtins.slice')) is True:
            return T('rslice', v, i, NONE, NONE)
        if self.is_nonneg_atom(i) or (is_knum(i) and kv(i) >= 0):
            if not self.truth(self.cond_gt0(psub(n, i))):
                self.throw('IndexError', node, ctx, 'op')
            return padd(lo, pmul(st, i))
        if self.is_int(i):
            if self.truth(self.notv(self.cond_gt0(pneg(i)))):
                if not self.truth(self.cond_gt0(psub(n, i))):
                    self.throw('IndexError', node, ctx, 'op')
                return padd(lo, pmul(st, i))
            if not self.truth(self.notv(self.cond_gt0(pneg(padd(n, i))))):
                self.throw('IndexError', node, ctx, 'op')
            return padd(lo, pmul(st, padd(n, i)))
        if self.truth(self.cond_gt0(T('outofrange', i, n))):
            self.throw('IndexError', node, ctx, 'op')
        return padd(lo, pmul(st, T('ridx', i, n)))

    def len_range(self, v):
        return self.dom_count(T('rg', *v.args))

    def setitem(self, v, i, val, node, ctx):
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                f = o.cls.find('__setitem__')
                if f and isinstance(f[1], FuncInfo):
                    self.call_method(v, '__setitem__', [s1(i), s1(val)], [])
                    return
            if self.is_mapping(v):
                self.mutated(v, '[]=', node, ctx)
                self.dict_put(v, i, val)
                return
            if o.kind == 'inst' and self.is_userlist(o):
                self.setitem(o.attrs['data'], i, val, node, ctx)
                return
            if o.kind == 'list':
                self.mutated(v, '[]=', node, ctx)
                o = self.deref(v)
                c = pconst(i) if i.op != 'slice' else None
                if isinstance(c, int) and all(s.op == 's1' for s in o.segs) and -len(o.segs) <= c < len(o.segs):
                    segs = list(o.segs)
                    segs[c] = s1(val)
                    o.segs = tuple(segs)
                    return
                if i.op == 'slice' and i.args[0] is NONE and i.args[1] is NONE:
                    o.segs = tuple(self.iter_segs(val, node, ctx))
                    return
                src = T('upd', T('seq', o.segs), i, self.freeze(val))
                self.event('setitem', v, 'setitem', (T('seq', o.segs), i, val), loc=self.loc(node, ctx))
                n = self.seq_len(o.segs) if i.op != 'slice' else T('len', src)
                o.segs = (T('sp', src, ZERO, n),)
                return
        if v.op in ('in', 'elem', 'attr', 'out', 'draw', 'mval', 'ret', 'app', 'attr0'):
            self.event('mutate', v, '[]=', (i,), loc=self.loc(node, ctx))
            return
        raise Undecided('item assignment to %s' % show(v))

    def delitem(self, v, i, node, ctx):
        if v.op == 'ref' and self.is_mapping(v):
            self.mutated(v, 'del', node, ctx)
            segs = self.dict_segs(v)
            self.set_dict_segs(v, tuple(s for s in segs if not (s.op == 's1' and self.entry_key(s) is i)))
            return
        if v.op == 'ref' and self.deref(v).kind == 'list':
            self.mutated(v, 'del', node, ctx)
            o = self.deref(v)
            c = pconst(i) if i.op != 'slice' else None
            if isinstance(c, int) and all(s.op == 's1' for s in o.segs):
                segs = list(o.segs)
                del segs[c]
                o.segs = tuple(segs)
                return
            if c == 0:
                o.segs = self.slice_segs(o.segs, ONE, None, None)
                return
            if i.op == 'slice' and i.args[0] in (NONE, ZERO) and i.args[2] in (NONE, ONE):
                o.segs = self.slice_segs(o.segs, i.args[1], None, None) if i.args[1] is not NONE else ()
                return
            raise Undecided('del item')
        if v.op in ('in', 'elem', 'attr', 'out'):
            self.event('mutate', v, 'del', (i,), loc=self.loc(node, ctx))
            return
        raise Undecided('del item')

    def unify(self, pat, ix, t):
        """The term at with pat[ix := at] = t, if there is one."""
        found = []

        def go(p, q):
            if p is q:
                return True
            if p is ix:
                found.append(q)
                return all(x is q for x in found)
            if not isinstance(p, Term) or not isinstance(q, Term):
                if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                    return all(go(a, b) for a, b in zip(p, q))
                return p == q
            if p.op != q.op or len(p.args) != len(q.args) or p.op == 'poly':
                return False
            return all(go(a, b) for a, b in zip(p.args, q.args))
        return found[0] if go(pat, t) and found else None

    def in_dom(self, at, dom):
        n = self.dom_count(dom)
        if n is None:
            return False
        if at.op == 'ix' and at.args[1] is dom:
            return True
        return self.entail_ge0(at) and self.entail_gt0(psub(n, at)) is True

    def dict_get(self, v, key, node, ctx, default=None):
        segs = self.dict_segs(v)
        for s in reversed(segs):
            if s.op == 's1':
                k = self.entry_key(s)
                if k is key:
                    return self.entry_val(s)
                if k.op == 'k' and key.op == 'k':
                    continue
                if self.truth(self.eq_cond(k, key)):
                    return self.entry_val(s)
            else:
                el = self.elementwise(s)
                if el is not None:
                    dom, ix, val = el
                    if val.op == 'tup' and len(val.args[0]) == 2:
                        k, x = val.args[0][0].args[0], val.args[0][1].args[0]
                        if k is key:
                            return x
                        at = self.unify(k, ix, key)
                        if at is not None and self.in_dom(at, dom):
                            return self.renorm(subst(x, {ix: at}))
                if s.op == 'sp' and s.args[0].op == 'entries':
                    return self._mapget(s.args[0].args[0], key, node, ctx, default)
                return T('dget', T('fdict', segs), self.freeze(key))
        if default is not None:
            return default
        self.throw('KeyError', node, ctx, 'op')

    def _mapget(self, m, key, node, ctx, default):
        if key.op == 'mkey' and key.args[0] is m:
            return T('mval', m, key.args[1])
        t = T('mget', m, self.freeze(key))
        if default is not None:
            if not self.choose(T('contains', key, m)):
                return default
        return t

    def dict_put(self, v, key, val):
        self.mutated(v, '[]=', None, None) if False else None
        segs = list(self.dict_segs(v))
        for j, s in enumerate(segs):
            if s.op == 's1' and self.entry_key(s) is key:
                segs[j] = s1(tup(key, val))
                self.set_dict_segs(v, segs)
                return
        segs.append(s1(tup(key, val)))
        self.set_dict_segs(v, self.norm_segs(segs))

    def dict_update(self, v, entries):
        for s in entries:
            if s.op == 's1':
                self.dict_put(v, self.entry_key(s), self.entry_val(s))
            else:
                self.set_dict_segs(v, self.norm_segs(tuple(self.dict_segs(v)) + (s,)))

    def entries_of(self, v, node, ctx):
        if self.is_mapping(v) or (v.op == 'ref' and self.deref(v).kind == 'inst' and self.is_mapping(v)):
            return self.dict_segs(v)
        if v.op not in ('ref', 'tup', 'flist', 'k') and self.kind(v).split(':')[0] == 'map':
            return self.dict_segs(v)
        return self.iter_segs(v, node, ctx)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, ctx):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not self.is_shadowed('super', ctx):
            if e.args:
                c = self.eval(e.args[0], ctx)
                sv = self.eval(e.args[1], ctx)
                return T('super', c.args[0], sv)
            fi = ctx.fn
            while fi is not None and fi.cls is None:
                fi = fi.parent
            fid = ctx.fid
            fr = self.heap[fid]
            while 'self' not in fr.meta and fr.meta.get('parent') is not None:
                fr = self.heap[fr.meta['parent']]
            return T('super', fi.cls.qual, fr.meta['self'])
        if isinstance(e.func, ast.Name) and e.func.id == 'vars' and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred) and not self.is_shadowed('vars', ctx):
            v = self.eval(e.args[0], ctx)
            if v.op == 'ref' and self.deref(v).kind == 'inst':
                return self.getattr_(v, '__dict__', e, ctx)
            raise Undecided('vars() at %s' % self.loc(e, ctx))
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'eval', 'exec', 'vars') and not self.is_shadowed(e.func.id, ctx):
            raise Undecided('%s() at %s' % (e.func.id, self.loc(e, ctx)))
        f = self.eval(e.func, ctx)
        pos = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                pos.extend(self.iter_segs(self.eval(a.value, ctx), a, ctx))
            else:
                pos.append(s1(self.eval(a, ctx)))
        kw = []
        for k in e.keywords:
            if k.arg is None:
                kw.extend(self.entries_of(self.eval(k.value, ctx), e, ctx))
            else:
                kw.append(s1(tup(K(k.arg), self.eval(k.value, ctx))))
        return self.call(f, pos, kw, e, ctx)

    def is_shadowed(self, name, ctx):
        fid = ctx.fid
        while fid is not None:
            if name in self.heap[fid].attrs:
                return True
            fid = self.heap[fid].meta.get('parent')
        return name in ctx.mod.globals

    def call_method(self, v, name, pos, kw, node=None, ctx=None):
        node = node or _DUMMY
        ctx = ctx or self._dummy_ctx()
        return self.call(self.getattr_(v, name, node, ctx), list(pos), list(kw), node, ctx)

    def _dummy_ctx(self):
        m = next(iter(self.p.modules.values()))
        return Ctx(self.module_frame(m), None, m)

    def call_method_ext(self, v, name, pos, kw, node, ctx):
        return self.method_model(v, self.deref(v).kind + '.' + name, pos, kw, node, ctx)

    def call(self, f, pos, kw, node, ctx):
        self.stats['calls'] += 1
        self.stats['steps'] += 1
        if self.stats['steps'] > self.limit:
            raise Undecided('step budget exhausted')
        op = f.op
        if op == 'fn':
            return self.call_fn(f, pos, kw, node, ctx)
        if op == 'memo':
            return self.call_memo(f, pos, kw, node, ctx)
        if op == 'bm':
            s, g = f.args
            if g.op == 'ext':
                return self.method_model(s, g.args[0], pos, kw, node, ctx)
            return self.call(g, [s1(s)] + list(pos), kw, node, ctx)
        if op == 'cls':
            return self.construct(self.cls_info(f), pos, kw, node, ctx)
        if op == 'ext':
            return self.call_ext(f.args[0], pos, kw, node, ctx)
        if op == 'exccls':
            return self.make_exc(f.args[0], [s.args[0] for s in pos if s.op == 's1'])
        if op == 'partial':
            return self.call(f.args[0], list(f.args[1]) + list(pos), list(f.args[2]) + list(kw), node, ctx)
        if op == 'getter':
            v = self.val(pos, 0)
            if f.args[0] == 'item':
                return self.getitem(v, f.args[1], node, ctx)
            return self.getattr_(v, kv(f.args[1]), node, ctx)
        if op == 'methcaller':
            return self.call(self.getattr_(self.val(pos, 0), kv(f.args[0]), node, ctx), list(f.args[1]), list(f.args[2]), node, ctx)
        if op == 'ref':
            o = self.deref(f)
            if o.kind == 'inst':
                return self.call_method(f, '__call__', pos, kw, node, ctx)
            raise Undecided('call of %s' % o.kind)
        if f is NONE:
            self.throw('TypeError', node, ctx, 'none')
        if op == 'k' or op in ('tup', 'poly'):
            self.throw('TypeError', node, ctx, 'op')
        return self.call_opaque(f, '__call__', pos, kw, node, ctx)

    def bind(self, fi, f, pos, kw, node, ctx):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        i = 0
        for n in names:
            if i < len(pos):
                s = pos[i]
                if s.op == 's1':
                    env[n] = s.args[0]
                    i += 1
                elif a.vararg is None or True:
                    # unknown number of positional arguments meets a named parameter
                    raise Undecided('starred argument of unknown length bound to parameter %s of %s' % (n, fi.qual))
            else:
                break
        rest = pos[i:]
        if a.vararg is not None:
            env[a.vararg.arg] = tup_segs(self.norm_segs(rest))
        elif rest:
            self.throw('TypeError', node, ctx, 'bind')
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = [x.arg for x in a.posonlyargs]
        for s in kw:
            if s.op == 's1':
                k = self.entry_key(s)
                v = self.entry_val(s)
                if k.op == 'k' and (kv(k) in names or kv(k) in kwonly) and kv(k) not in posonly:
                    if kv(k) in env:
                        self.throw('TypeError', node, ctx, 'bind')
                    env[kv(k)] = v
                    continue
            extra.append(s)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(extra)
        elif extra:
            if all(s.op == 's1' for s in extra):
                self.throw('TypeError', node, ctx, 'bind')
            raise Undecided('unknown keyword arguments for %s' % fi.qual)
        # defaults
        missing = [n for n in names if n not in env]
        if missing or any(k not in env for k in kwonly):
            ds, ks = self.defaults(fi, f)
            off = len(names) - len(ds)
            for n in missing:
                j = names.index(n) - off
                if j < 0:
                    self.throw('TypeError', node, ctx, 'bind')
                env[n] = ds[j]
            for j, n in enumerate(kwonly):
                if n not in env:
                    if ks[j] is None:
                        self.throw('TypeError', node, ctx, 'bind')
                    env[n] = ks[j]
        return env

    def defaults(self, fi, f):
        fid = f.args[1]
        a = fi.node.args
        if fid != -1:
            d = self.heap[fid].meta.get('def:' + fi.key)
            if d is not None:
                return d
        if not a.defaults and not a.kw_defaults:
            return (), ()
        key = ('defaults', fi.key)
        if key not in self.statics:
            self.shared_zone += 1
            evs = self.events
            self.events = []
            try:
                c = Ctx(self.module_frame(fi.module), None, fi.module)
                ds = []
                for d in a.defaults:
                    # class-level names (rare) resolve in the module
                    ds.append(self.eval(d, c))
                ks = [self.eval(d, c) if d is not None else None for d in a.kw_defaults]
            finally:
                self.shared_zone -= 1
                self.events = evs
            self.statics[key] = (tuple(ds), tuple(ks))
        return self.statics[key]

    def decorators(self, fi):
        """The decorators of a module level function or a method that change what a call does, innermost first."""
        cache = self.__dict__.setdefault('_decos', {})
        if fi.key not in cache:
            out = []
            for d in reversed(getattr(fi.node, 'decorator_list', ())):
                g = d.func if isinstance(d, ast.Call) else d
                n = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else ''
                if n not in PLAIN_DECORATORS:
                    out.append(d)
            cache[fi.key] = out
        return cache[fi.key]

    def decorated(self, fi):
        key = ('deco', fi.key)
        if key not in self.statics:
            self.fns[fi.key + '@raw'] = fi
            v = T('fn', fi.key + '@raw', -1)
            self.shared_zone += 1
            evs, self.events = self.events, []
            try:
                ctx = Ctx(self.module_frame(fi.module), None, fi.module)
                for d in self.decorators(fi):
                    v = self.decorate(v, d, ctx)
            finally:
                self.shared_zone -= 1
                self.events = evs
            self.statics[key] = v
        return self.statics[key]

    def decorate(self, v, d, ctx):
        g = self.eval(d.func if isinstance(d, ast.Call) else d, ctx)
        if g.op == 'ext':
            if g.args[0] in ('functools.lru_cache', 'functools.cache'):
                return T('memo', v, self.new_dict())
            if g.args[0] == 'functools.wraps':
                return v
            raise Undecided('decorator %s' % g.args[0])
        return self.call(self.eval(d, ctx) if isinstance(d, ast.Call) else g, [s1(v)], [], d, ctx)

    def call_memo(self, f, pos, kw, node, ctx):
        fn, table = f.args
        if any(s.op != 's1' for s in pos) or any(s.op != 's1' for s in kw):
            raise Undecided('a remembered call with arguments of unknown number')
        parts = [s.args[0] for s in pos] + [s.args[0] for s in kw]
        for x in parts:
            if x.op == 'ref' and self.deref(x).kind in ('list', 'dict', 'set'):
                self.throw('TypeError', node, ctx, 'op')
            if self.kind(x).split(':')[0] in ('seq', 'any', 'map'):
                self.may_raise(T('unhashable', x), ['TypeError'], node, ctx)
        key = tup(*parts)
        if self.truth(self.contains(key, table, node, ctx)):
            return self.getitem(table, key, node, ctx)
        v = self.call(fn, pos, kw, node, ctx)
        self.setitem(table, key, v, node, ctx)
        return v

    def call_fn(self, f, pos, kw, node, ctx):
        fi = self.fns[f.args[0]]
        if f.args[1] == -1 and not f.args[0].endswith('@raw') and self.decorators(fi):
            return self.call(self.decorated(fi), pos, kw, node, ctx)
        self.stats['funcs'].add(fi.key)
        self.depth += 1
        if self.depth > 40:
            raise Undecided('call depth (recursion) in %s' % fi.qual)
        env = self.bind(fi, f, pos, kw, node, ctx)
        parent = f.args[1] if f.args[1] != -1 else None
        fr = Obj('frame', attrs=env, meta={'parent': parent})
        if fi.cls is not None and parent is None:
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if names and names[0] in env:
                fr.meta['self'] = env[names[0]]
        fid = self.new(fr).args[0]
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.eval(fi.node.body, Ctx(fid, fi, fi.module))
            if fi.is_gen:
                return self.new(Obj('gen', meta={'fn': fi.key, 'frame': fid}))
            try:
                self.exec_body(fi.node.body, Ctx(fid, fi, fi.module))
            except ReturnEx as r:
                return r.value
            return NONE
        finally:
            self.depth -= 1

    def construct(self, ci, pos, kw, node, ctx):
        for b in ci.mro():
            if isinstance(b, str) and b.startswith('builtins.') and b[9:] in _fi.EXC_PARENT:
                return self.make_exc(self.exc_class(T('cls', ci.qual)), [s.args[0] for s in pos if s.op == 's1'])
        for d in ci.node.decorator_list:
            raise Undecided('decorated class %s' % ci.name)
        if any(isinstance(b, str) and b.startswith(('typing.NamedTuple', 'enum.', 'unknown')) for b in ci.mro()):
            raise Undecided('base class of %s' % ci.name)
        v = self.new(Obj('inst', cls=ci))
        self.event('new', v, ci.qual, (), loc=self.loc(node, ctx) if hasattr(node, 'lineno') else '')
        f = ci.find('__init__')
        if f is None:
            return v
        if isinstance(f[1], FuncInfo):
            self.call(self.fnval(f[1], -1), [s1(v)] + list(pos), kw, node, ctx)
        else:
            self.method_model(v, f[1][1] + '.__init__', pos, kw, node, ctx)
        return v

    # ------------------------------------------------------------ opaque collaborators
    def call_opaque(self, v, name, pos, kw, node, ctx):
        base = self.kind(v).split(':')[0]
        loc = self.loc(node, ctx)
        fpos = tuple(self.freeze(s) for s in pos)
        fkw = tuple(self.freeze(s) for s in kw)
        if base in ('emitter', 'field'):
            if all(s.op == 's1' for s in [*pos, *kw]):
                self.event('sig', v, name, fpos, fkw, None, loc)
            if name in ('emit', 'emit_many'):
                if name == 'emit_many' and pos:
                    pass
                name = '__call__'
            if name == '__call__':
                num = NONE
                if pos and pos[0].op == 's1':
                    num = pos[0].args[0]
                for s in kw:
                    if s.op == 's1' and self.entry_key(s) is K('number'):
                        num = self.entry_val(s)
                num = self.to_num(num)
                seed, ph = self.hist_parts(v)
                res = T('out', v, ph, num)
                self.event('call', v, '__call__', (num,), (), res, loc)
                self.may_raise_any(T('callof', v, ph, name), node, ctx, 'opaque')
                self.put_hist(v, T('st', seed, T('after', ph, num)))
                if num is not NONE and pconst(num) is None and self.query(T('gt0', pneg(num))) is None:
                    # protocol: a list of num values came back
                    self.assume(T('gt0', self.scaled(pneg(num))), False)
                return res
            if name == 'reset':
                seed, ph = self.hist_parts(v)
                self.event('call', v, 'reset', fpos, fkw, NONE, loc)
                self.may_raise_any(T('callof', v, ph, name), node, ctx, 'opaque')
                self.put_hist(v, T('st', seed, T('fresh', seed)))
                return NONE
            if name == 'seed':
                arg = pos[0].args[0] if pos and pos[0].op == 's1' else (self.entry_val(kw[0]) if kw else NONE)
                seed, ph = self.hist_parts(v)
                self.event('call', v, 'seed', (self.freeze(arg),), (), NONE, loc)
                self.may_raise_any(T('callof', v, ph, name), node, ctx, 'opaque')
                self.put_hist(v, T('st', arg, T('seeded', arg, ph)))
                return NONE
        if base == 'member':
            self.event('call', v, name, fpos, fkw, None, loc)
            self.may_raise_any(T('callof', v, name), node, ctx, 'opaque')
            seed, ph = self.hist_parts(v)
            self.put_hist(v, T('st', seed, T('did', ph, name, fpos, fkw)))
            return T('ret', v, name, fpos, fkw, ph)
        if base == 'factory':
            n = self.get_hist(v)
            self.event('call', v, '__call__', fpos, fkw, None, loc)
            self.may_raise_any(T('callof', v, 'factory'), node, ctx, 'opaque')
            it = T('fresh', v)
            return self.new(Obj('iter', segs=(T('sp', it, ZERO, T('len', it)),), pos=ZERO))
        # user callbacks and other opaque callables
        res = T('app', v if name == '__call__' else T('meth', v, name), fpos, fkw)
        self.event('call', v, name, fpos, fkw, res, loc)
        self.may_raise_any(T('callof', res), node, ctx, 'opaque')
        return res

    # ------------------------------------------------------------ models
    def vals(self, pos):
        if any(s.op != 's1' for s in pos):
            raise Undecided('starred argument of unknown length in a library call')
        return [s.args[0] for s in pos]

    def val(self, pos, i):
        return self.vals(pos)[i]

    def kwd(self, kw):
        d = {}
        for s in kw:
            if s.op != 's1':
                raise Undecided('unknown keyword arguments in a library call')
            d[kv(self.entry_key(s))] = self.entry_val(s)
        return d

    def call_ext(self, name, pos, kw, node, ctx):
        short = name
        m = MODELS.get(short)
        loc = self.loc(node, ctx)
        if name in ENTROPY_EXACT or (name.startswith(ENTROPY_PREFIX) and name != 'random.Random' and not name.startswith('random.Random.')):
            self.event('entropy', None, name, tuple(self.freeze(s) for s in pos), (), None, loc)
            if m is None:
                return T('entropy', name, loc)
        # unbound methods of library classes: list.append(x, ...)
        if m is None:
            parts = name.rsplit('.', 1)
            if parts[0] in ('builtins.list', 'builtins.dict', 'builtins.str', 'builtins.tuple', 'builtins.set', 'collections.OrderedDict',
                            'collections.UserList', 'random.Random', 'builtins.object') and pos and pos[0].op == 's1' and parts[1] not in ('fromkeys',):
                return self.method_model(pos[0].args[0], name, pos[1:], kw, node, ctx)
            self.event('ext', None, name, tuple(self.freeze(s) for s in pos), tuple(self.freeze(s) for s in kw), None, loc)
            res = T('extcall', name, tuple(self.freeze(s) for s in pos), tuple(self.freeze(s) for s in kw))
            if self.handled():
                self.may_raise(res, EXT_RAISES.get(name, ['ValueError', 'TypeError']), node, ctx)
            return res
        return m(self, pos, kw, node, ctx)

    def method_model(self, v, name, pos, kw, node, ctx):
        cls, meth = name.rsplit('.', 1)
        if cls == 'opaque':
            return self.opaque_method(v, meth, pos, kw, node, ctx)
        if cls == 'builtins.object':
            if meth in ('__init__', '__init_subclass__'):
                return NONE
            if meth == '__setattr__':
                a = self.vals(pos)
                self.deref(v).attrs[kv(a[0])] = a[1]
                return NONE
            if meth == '__repr__' or meth == '__str__':
                return T('fstr', (self.freeze(v),))
            if meth == '__hash__':
                return T('idhash', v)
            if meth == '__eq__':
                return K(v is self.val(pos, 0)) if v is self.val(pos, 0) else T('ext', 'builtins.NotImplemented')
            raise Undecided('object.%s' % meth)
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'rng' or cls == 'random.Random':
                return self.rng_method(v, meth, pos, kw, node, ctx)
            if o.kind == 'inst' and cls.startswith(('collections.UserList', 'builtins.list')):
                if meth == '__init__':
                    init = self.val(pos, 0) if pos else NONE
                    segs = self.iter_segs(init, node, ctx) if init is not NONE else ()
                    self.deref(v).attrs['data'] = self.new_list(segs)
                    return NONE
                return self.list_method(v, meth, pos, kw, node, ctx)
            if o.kind == 'inst' and cls.startswith(('collections.OrderedDict', 'builtins.dict', 'collections.UserDict')):
                if meth == '__init__':
                    self.deref(v).attrs['$d'] = self.new_dict()
                    meth = 'update'
                return self.dict_method(v, meth, pos, kw, node, ctx)
            if o.kind == 'inst' and cls.endswith('Sequence'):
                return self.seq_mixin(v, meth, pos, kw, node, ctx)
            if o.kind == 'list':
                return self.list_method(v, meth, pos, kw, node, ctx)
            if o.kind == 'dict':
                return self.dict_method(v, meth, pos, kw, node, ctx)
            if o.kind == 'set':
                return self.set_method(v, meth, pos, kw, node, ctx)
            if o.kind in ('iter', 'gen'):
                if meth == '__next__':
                    return self.next_of(v, node, ctx)
                if meth == '__iter__':
                    return v
                if meth == '__length_hint__':
                    self.force_gen(v)
                    o = self.deref(v)
                    return psub(self.seq_len(o.segs), o.pos)
                raise Undecided('iterator method %s' % meth)
            if o.kind == 'exc':
                return NONE
        if v.op in ('flist', 'tup', 'seq'):
            if meth in ('index', 'count', '__len__', '__getitem__', '__iter__', '__contains__', 'copy'):
                return self.list_method(v, meth, pos, kw, node, ctx)
            raise Undecided('method %s of immutable sequence value' % meth)
        if v.op == 'fdict':
            return self.dict_method(v, meth, pos, kw, node, ctx)
        if v.op == 'k':
            return self.str_method(v, meth, pos, kw, node, ctx)
        if v.op == 'rangev':
            if meth in ('index', 'count', '__len__', '__contains__', '__iter__', '__getitem__'):
                if meth == '__getitem__':
                    return self.range_get(v, self.val(pos, 0), node, ctx)
                if meth == '__len__':
                    return self.len_range(v)
                if meth == '__contains__':
                    return self.contains(self.val(pos, 0), v, node, ctx)
            raise Undecided('range.%s' % meth)
        return self.opaque_method(v, meth, pos, kw, node, ctx)

    def opaque_method(self, v, meth, pos, kw, node, ctx):
        if v.op == 'slice' and meth == 'indices' and len(pos) == 1:
            # range(n)[a:b:c] starts, stops and steps at exactly slice(a, b, c).indices(n)
            r = self.range_get(T('rangev', ZERO, self.val(pos, 0), ONE), v, node, ctx)
            if r.op == 'rangev':
                return tup(*r.args)
            return tup(*[self.opaque_attr(r, x, node, ctx) for x in ('start', 'stop', 'step')])
        if dates.is_date(v):
            return dates.method(self, v, meth, pos, kw, node, ctx)
        if v.op == 'sigof':
            if meth != 'bind':
                raise Undecided('signature.%s' % meth)
            f, bound = v.args
            self.bind(self.fns[f.args[0]], f, [s1(K('self'))] * bound + list(pos), kw, node, ctx)
            return T('app', T('meth', v, meth), (), ())
        base = self.kind(v).split(':')[0]
        if base in ('emitter', 'field', 'member', 'callable', 'factory'):
            return self.call_opaque(v, meth, pos, kw, node, ctx)
        if meth == 'join' or base == 'str':
            return self.str_method(v, meth, pos, kw, node, ctx)
        if base == 'rng':
            self.event('draw', v, meth, tuple(self.freeze(s) for s in pos), tuple(self.freeze(s) for s in kw), None, self.loc(node, ctx))
            return T('draw', v, meth, tuple(self.freeze(s) for s in pos), ())
        if base == 'map' and meth in ('keys', 'values', 'items', 'get', '__getitem__', '__contains__', '__len__', '__iter__'):
            return self.dict_method(v, meth, pos, kw, node, ctx)
        if base == 'iter' and meth == '__length_hint__':
            return T('app', T('meth', v, meth), (), ())
        if meth in MUTATORS and base in ('seq', 'map', 'any', 'list'):
            self.event('mutate', v, meth, tuple(self.freeze(s) for s in pos), (), None, self.loc(node, ctx))
            return T('app', T('meth', v, meth), tuple(self.freeze(s) for s in pos), ())
        if base == 'seq' and meth in ('index', 'count', '__len__', '__getitem__', '__iter__', '__contains__', 'copy'):
            return self.list_method(v, meth, pos, kw, node, ctx)
        fpos = tuple(self.freeze(s) for s in pos)
        fkw = tuple(self.freeze(s) for s in kw)
        if meth == 'total_seconds':
            return T('app', T('meth', v, meth), (), ())
        res = T('app', T('meth', v, meth), fpos, fkw)
        self.event('meth', v, meth, fpos, fkw, res, self.loc(node, ctx))
        if self.handled():
            self.may_raise(T('methof', res), {'bind': ['TypeError'], 'fromisoformat': ['ValueError']}.get(meth, ['TypeError', 'ValueError', 'AttributeError']), node, ctx)
        return res

    def rng_method(self, v, meth, pos, kw, node, ctx):
        o = self.deref(v)
        st = o.attrs['state']
        loc = self.loc(node, ctx)
        if meth == '__init__':
            o.attrs['state'] = T('seeded', self.val(pos, 0) if pos else NONE)
            return NONE
        if meth == 'seed':
            a = self.val(pos, 0) if pos else self.kwd(kw).get('a', NONE)
            self.event('rngseed', v, 'seed', (a,), loc=loc)
            o.attrs['state'] = T('seeded', a)
            return NONE
        if meth == 'getstate':
            return T('rngstate', st)
        if meth == 'setstate':
            a = self.val(pos, 0)
            o.attrs['state'] = a.args[0] if a.op == 'rngstate' else T('setstate', a)
            self.event('rngseed', v, 'setstate', (a,), loc=loc)
            return NONE
        args = self.vals(pos)
        kws = self.kwd(kw)
        fargs = []
        if meth in ('choices', 'sample', 'choice', 'shuffle'):
            names = {'choices': ['population', 'weights'], 'sample': ['population', 'k'], 'choice': ['seq'], 'shuffle': ['x']}[meth]
            d = dict(zip(names, args))
            d.update(kws)
            first = d.pop(names[0])
            fs = self.maybe_segs(first)
            pop = T('flist', self.freeze(fs)) if fs is not None else self.freeze(first)
            norm = []
            for k in sorted(d):
                if d[k] is NONE:
                    continue
                x = d[k]
                xs = self.maybe_segs(x) if k in ('weights', 'cum_weights') else None
                if xs is not None and k == 'weights' and meth == 'choices' and xs:
                    # choices(weights=w) is choices(cum_weights=accumulate(w))
                    xs = self.iter_segs(self.call_ext('itertools.accumulate', [s1(T('flist', self.freeze(xs)))], [], node, ctx), node, ctx)
                    k = 'cum_weights'
                norm.append((k, T('flist', self.freeze(xs)) if xs is not None else self.freeze(x)))
            norm.sort()
            fargs = (pop,)
            kwn = tuple(norm)
        else:
            fargs = tuple(self.freeze(a) for a in args)
            kwn = tuple(sorted((k, self.freeze(x)) for k, x in kws.items()))
        res = T('draw', st, meth, tuple(fargs), kwn)
        self.event('draw', v, meth, tuple(fargs), kwn, res, loc)
        if self.handled():
            self.may_raise(res, ['ValueError', 'IndexError', 'TypeError'], node, ctx)
        self.deref(v).attrs['state'] = T('drawn', st, meth, tuple(fargs), kwn)
        if meth == 'shuffle':
            self.mutate_seq(d_first := args[0] if args else None, res, node, ctx)
            return NONE
        if meth in ('choices', 'sample'):
            n = self.len_of(res)
            return self.new_list((T('sp', res, ZERO, n),))
        return res

    def mutate_seq(self, v, res, node, ctx):
        if v is not None and v.op == 'ref':
            self.mutated(v, 'shuffle', node, ctx)
            o = self.deref(v)
            if o.kind == 'list':
                o.segs = (T('sp', T('shuffled', res), ZERO, self.seq_len(o.segs)),)
                return
        if v is not None:
            self.event('mutate', v, 'shuffle', (), loc=self.loc(node, ctx))

    def _data(self, v):
        if v.op == 'ref' and self.deref(v).kind == 'inst':
            return self.deref(v).attrs['data']
        return v

    def list_method(self, v, meth, pos, kw, node, ctx):
        v0 = v
        v = self._data(v)
        if meth == '__init__':
            return NONE
        if meth in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', '__setitem__', '__delitem__', '__iadd__'):
            if v.op != 'ref':
                self.event('mutate', v, meth, tuple(self.freeze(s) for s in pos), (), None, self.loc(node, ctx))
                return NONE
            self.mutated(v, meth, node, ctx)
            if meth == 'append':
                x = self.val(pos, 0)
                o = self.deref(v)
                o.segs = self.norm_segs(o.segs + (s1(x),))
                return NONE
            if meth in ('extend', '__iadd__'):
                x = self.val(pos, 0)
                if x.op == 'ref' and self.deref(x).kind == 'gen':
                    self.force_gen(x)
                segs = self.iter_segs(x, node, ctx)
                o = self.deref(v)
                o.segs = self.norm_segs(o.segs + tuple(segs))
                return NONE if meth == 'extend' else v0
            if meth == 'insert':
                i, x = self.vals(pos)
                o = self.deref(v)
                if i is ZERO:
                    o.segs = self.norm_segs((s1(x),) + o.segs)
                    return NONE
                c = pconst(i)
                if isinstance(c, int) and c >= 0 and all(s.op == 's1' for s in o.segs[:c]):
                    o.segs = o.segs[:c] + (s1(x),) + o.segs[c:]
                    return NONE
                raise Undecided('list.insert')
            if meth == 'pop':
                o = self.deref(v)
                i = self.val(pos, 0) if pos else K(-1)
                n = self.seq_len(o.segs)
                self.event('index', None, 'pop', (T('seq', o.segs), i), loc=self.loc(node, ctx))
                if not o.segs:
                    self.throw('IndexError', node, ctx, 'op')
                r = self.index_segs(o.segs, i)
                if i is ZERO:
                    o.segs = self.slice_segs(o.segs, ONE, None, None)
                elif i is K(-1):
                    if o.segs[-1].op == 's1':
                        o.segs = o.segs[:-1]
                    else:
                        o.segs = self.norm_segs((T('sp', T('seq', o.segs), ZERO, psub(n, ONE)),)) if len(o.segs) != 1 or o.segs[0].op != 'sp' else \
                            self.norm_segs((T('sp', o.segs[0].args[0], o.segs[0].args[1], psub(o.segs[0].args[2], ONE)),))
                else:
                    raise Undecided('list.pop(i)')
                return r
            if meth == 'clear':
                self.deref(v).segs = ()
                return NONE
            if meth == 'reverse':
                o = self.deref(v)
                o.segs = self.reverse_segs(o.segs)
                return NONE
            if meth == 'sort':
                o = self.deref(v)
                r = self.sorted_term(o.segs, self.kwd(kw), node, ctx)
                self.deref(v).segs = (T('sp', r, ZERO, self.seq_len(o.segs)),)
                return NONE
            if meth == '__setitem__':
                a = self.vals(pos)
                self.setitem(v, a[0], a[1], node, ctx)
                return NONE
            if meth == '__delitem__':
                self.delitem(v, self.val(pos, 0), node, ctx)
                return NONE
            raise Undecided('list.%s' % meth)
        segs = self.maybe_segs(v)
        if meth == 'copy':
            if v0 is not v:
                return self.construct(self.deref(v0).cls, [s1(v0)], [], node, ctx)
            return self.new_list(segs)
        if meth == '__len__':
            return self.seq_len(segs)
        if meth == '__getitem__':
            return self.getitem(v0 if v0 is v else v, self.val(pos, 0), node, ctx)
        if meth == '__iter__':
            return self.new(Obj('iter', segs=tuple(segs), pos=ZERO))
        if meth == '__contains__':
            return self.contains(self.val(pos, 0), v, node, ctx)
        if meth in ('index', 'count'):
            res = T('app', T('meth', T('seq', tuple(segs)), meth), tuple(self.freeze(s) for s in pos), ())
            self.may_raise(res, ['ValueError'] if meth == 'index' else [], node, ctx)
            return res
        if meth in ('__eq__',):
            return self.to_bool(self.eq_cond(v, self._data(self.val(pos, 0))))
        if meth in ('__add__',):
            return self.new_list(self.norm_segs(tuple(segs) + tuple(self.iter_segs(self.val(pos, 0), node, ctx))))
        if meth == '__reversed__':
            return self.new(Obj('iter', segs=self.reverse_segs(segs), pos=ZERO))
        if meth == '__length_hint__':
            return self.seq_len(segs)
        raise Undecided('list.%s' % meth)

    def reverse_segs(self, segs):
        segs = tuple(segs)
        if all(s.op == 's1' for s in segs):
            return tuple(reversed(segs))
        if len(segs) == 1 and segs[0].op == 'sp' and segs[0].args[0].op == 'reversed' and segs[0].args[1] is ZERO and \
                segs[0].args[2] is self.seq_len(segs[0].args[0].args[0].args[0]):
            return segs[0].args[0].args[0].args[0]
        src = T('reversed', T('seq', segs))
        return (T('sp', src, ZERO, self.seq_len(segs)),)

    def seq_mixin(self, v, meth, pos, kw, node, ctx):
        if meth == '__iter__':
            return self.new(Obj('iter', segs=tuple(self.iter_segs(v, node, ctx)), pos=ZERO))
        if meth in ('__contains__', 'index', 'count', '__reversed__'):
            # inherited scan over the elements
            segs = self.iter_segs(v, node, ctx)
            if meth == '__contains__':
                return self.contains(self.val(pos, 0), tup_segs(segs), node, ctx)
            res = T('app', T('meth', T('seq', tuple(segs)), meth), tuple(self.freeze(s) for s in pos), ())
            if meth == 'index':
                self.may_raise(res, ['ValueError'], node, ctx)
            return res
        raise Undecided('Sequence.%s' % meth)

    def dict_method(self, v, meth, pos, kw, node, ctx):
        if meth in MUTATORS:
            if v.op != 'ref':
                self.event('mutate', v, meth, (), (), None, self.loc(node, ctx))
                return T('app', T('meth', v, meth), (), ())
            self.mutated(v, meth, node, ctx)
        if meth == 'keys':
            return T('dkeys', v) if False else self.new_list(self.keys_segs(self.dict_segs(v)))
        if meth == 'values':
            return self.new_list(self.vals_segs(self.dict_segs(v)))
        if meth == 'items':
            return self.new_list(self.dict_segs(v))
        if meth == '__iter__':
            return self.new(Obj('iter', segs=self.keys_segs(self.dict_segs(v)), pos=ZERO))
        if meth == '__len__':
            return self.seq_len(self.dict_segs(v))
        if meth == '__contains__':
            return self.contains(self.val(pos, 0), v, node, ctx)
        if meth == '__getitem__':
            return self.dict_get(v, self.val(pos, 0), node, ctx)
        if meth == '__setitem__':
            a = self.vals(pos)
            self.dict_put(v, a[0], a[1])
            return NONE
        if meth == '__delitem__':
            self.delitem(v, self.val(pos, 0), node, ctx)
            return NONE
        if meth == 'get':
            a = self.vals(pos)
            return self.dict_get(v, a[0], node, ctx, default=a[1] if len(a) > 1 else NONE)
        if meth in ('update', '__ior__'):
            if pos:
                src = self.val(pos, 0)
                self.dict_update(v, self.entries_of(src, node, ctx))
            self.dict_update(v, kw)
            return NONE if meth == 'update' else v
        if meth == 'setdefault':
            a = self.vals(pos)
            d = a[1] if len(a) > 1 else NONE
            missing = T('missing')
            r = self.dict_get(v, a[0], node, ctx, default=missing)
            if r is missing:
                self.dict_put(v, a[0], d)
                return d
            return r
        if meth == 'pop':
            a = self.vals(pos)
            missing = T('missing')
            r = self.dict_get(v, a[0], node, ctx, default=missing)
            if r is missing:
                if len(a) > 1:
                    return a[1]
                self.throw('KeyError', node, ctx, 'op')
            self.delitem(v, a[0], node, ctx)
            return r
        if meth == 'clear':
            self.set_dict_segs(v, ())
            return NONE
        if meth == 'copy':
            if v.op == 'ref' and self.deref(v).kind == 'inst':
                return self.construct(self.deref(v).cls, [s1(v)], [], node, ctx)
            return self.new_dict(self.dict_segs(v))
        raise Undecided('dict.%s' % meth)

    def set_method(self, v, meth, pos, kw, node, ctx):
        o = self.deref(v)
        if meth == 'add':
            o.segs = self.norm_segs(o.segs + (s1(self.val(pos, 0)),))
            return NONE
        if meth == 'update':
            segs = self.iter_segs(self.val(pos, 0), node, ctx)
            self.deref(v).segs = self.norm_segs(o.segs + tuple(segs))
            return NONE
        if meth in ('__len__',):
            return T('nuniq', o.segs)
        if meth in ('__contains__',):
            return self.contains(self.val(pos, 0), v, node, ctx)
        if meth == 'pop':
            self.event('setorder', v, 'pop', (), loc=self.loc(node, ctx))
            return T('setpop', T('seq', o.segs))
        return T('app', T('meth', self.freeze(v), meth), tuple(self.freeze(s) for s in pos), ())

    def str_method(self, v, meth, pos, kw, node, ctx):
        if meth == 'join':
            x = self.val(pos, 0)
            if x.op == 'ref' and self.deref(x).kind == 'gen':
                self.force_gen(x)
            segs = self.iter_segs(x, node, ctx)
            return self.str_join(v, self.freeze(tuple(segs)))
        if v.op == 'k' and all(s.op == 's1' and s.args[0].op == 'k' for s in pos) and not kw and isinstance(kv(v), (str, int, float)) and \
                meth in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'title', 'lstrip', 'rstrip', 'find', 'count'):
            try:
                r = getattr(kv(v), meth)(*[kv(s.args[0]) for s in pos])
                if isinstance(r, list):
                    return self.new_list(tuple(s1(K(x)) for x in r))
                return K(r)
            except Exception:
                pass
        return T('strm', meth, v, tuple(self.freeze(s) for s in pos), tuple(self.freeze(s) for s in kw))

    def sorted_term(self, segs, kws, node, ctx):
        key = kws.get('key')
        rev = kws.get('reverse', FALSE)
        rv = K(self.truth(rev))
        keyt = NONE
        if key is not None and key is not NONE:
            snap_ev = self.events
            ks = self.map_segs(segs, lambda el: self.call(key, [s1(el)], [], node, ctx))
            keyt = T('seq', self.freeze(ks))
        return T('sorted', T('seq', tuple(segs)), keyt, rv)

    def isinstance_(self, v, c, node, ctx):
        if c.op == 'tup':
            for s in c.args[0]:
                if self.truth(self.isinstance_(v, s.args[0], node, ctx)):
                    return TRUE
            return FALSE
        if c.op == 'type':
            return T('cond', T('isinst', v, c), 'pos')
        if c.op == 'cls':
            ci = self.cls_info(c)
            if v.op == 'ref':
                o = self.deref(v)
                if o.kind == 'inst':
                    return K(o.cls.is_sub(ci))
                return FALSE
            if v.op in ('k', 'tup', 'flist', 'poly', 'rangev', 'rslice', 'slice', 'td', 'dt', 'secs') or self.kind(v).split(':')[0] in ('int', 'nat', 'str', 'bool'):
                return FALSE
            if v.op == 'obj':
                oc = self.p.classes.get(v.args[0])
                return K(oc is not None and oc.is_sub(ci))
            return T('cond', T('isinst', v, ci.qual), 'pos')
        if c.op != 'ext':
            return T('cond', T('isinst', self.freeze(v), self.freeze(c)), 'pos')
        n = c.args[0]
        short = n.rsplit('.', 1)[-1]
        if v.op == 'k':
            x = kv(v)
            import collections.abc as abc
            tbl = {'builtins.int': int, 'builtins.str': str, 'builtins.float': float, 'builtins.bool': bool, 'builtins.list': list,
                   'builtins.tuple': tuple, 'builtins.dict': dict, 'builtins.object': object}
            if n in tbl:
                return K(isinstance(x, tbl[n]))
            if hasattr(abc, short):
                return K(isinstance(x, getattr(abc, short)))
            return FALSE
        SEQ = ('Sequence', 'Iterable', 'Collection', 'Sized', 'Container', 'Reversible')
        if dates.is_date(v):
            return K(dates.isinstance_of(v, n))
        if v.op == 'ref':
            o = self.deref(v)
            if o.kind == 'inst':
                for b in o.cls.mro():
                    if isinstance(b, str):
                        if b == n:
                            return TRUE
                        if short in SEQ + ('MutableSequence',) and b in ('collections.UserList', 'typing.Sequence', 'collections.abc.Sequence'):
                            return TRUE
                        if short in ('Mapping', 'MutableMapping', 'Iterable', 'Collection') and b in ('collections.OrderedDict', 'builtins.dict'):
                            return TRUE
                        if n == 'builtins.dict' and b == 'collections.OrderedDict':
                            return TRUE
                return K(n == 'builtins.object')
            kinds = {'list': ('list',) + SEQ + ('MutableSequence',), 'dict': ('dict', 'Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized'),
                     'set': ('set', 'Set', 'Iterable', 'Collection'), 'iter': ('Iterator', 'Iterable'), 'gen': ('Iterator', 'Iterable', 'Generator'),
                     'rng': ('Random',)}
            return K(short in kinds.get(o.kind, ()) or n == 'builtins.object')
        if v.op == 'tup':
            return K(short in ('tuple',) + SEQ)
        if v.op == 'flist':
            return K(short in ('list',) + SEQ + ('MutableSequence',))
        if v.op == 'slice':
            return K(short == 'slice')
        if v.op == 'rangev':
            return K(short in ('range',) + SEQ)
        base = self.kind(v).split(':')[0]
        if base == 'slice':
            return K(short == 'slice')
        if base in ('emitter', 'field', 'factory', 'rng', 'member'):
            if short in ('Sequence', 'list', 'tuple', 'str', 'int', 'float', 'dict', 'Mapping', 'NoneType', 'bool', 'set'):
                return FALSE
            if base in ('emitter', 'field') and short in ('Iterable', 'Sized'):
                return T('cond', T('has', v, '__iter__' if short == 'Iterable' else '__len__'), 'pos')
            return T('cond', T('isinst', v, n), 'pos')
        if base in ('num', 'nat', 'int', 'bool'):
            if short in ('Sequence', 'list', 'tuple', 'str', 'dict', 'Mapping', 'slice', 'date', 'datetime', 'time', 'timedelta'):
                return FALSE
            if short == 'int' and base in ('nat', 'int'):
                return TRUE
        if base == 'seq':
            if short in SEQ:
                return TRUE
            if short in ('int', 'float', 'dict', 'Mapping', 'set', 'slice', 'bool'):
                return FALSE
        if base == 'map' and short in ('Mapping', 'Iterable', 'Collection'):
            return TRUE
        if base == 'map' and short in ('Sequence', 'list', 'tuple', 'str', 'int', 'float', 'set', 'bool', 'NoneType'):
            return FALSE
        if base == 'td':
            return K(short in ('timedelta', 'object'))
        if base == 'date':
            return K(short in ('date', 'object'))
        if base == 'datetime':
            return K(short in ('date', 'datetime', 'object'))
        if base == 'time':
            return K(short in ('time', 'object'))
        if base == 'callable' and short in ('Sequence', 'list', 'tuple', 'str', 'int'):
            return FALSE
        if base == 'str':
            return K(short in ('str', 'object') + SEQ)
        return T('cond', T('isinst', v, n), 'pos')


_DUMMY = ast.parse('0').body[0].value

EXT_RAISES = {
    'inspect.signature': ['ValueError', 'TypeError'],
    'datetime.timedelta': ['TypeError', 'OverflowError'],
    'datetime.datetime.fromisoformat': ['ValueError', 'TypeError'],
    'datetime.date.fromisoformat': ['ValueError', 'TypeError'],
    'datetime.time.fromisoformat': ['ValueError', 'TypeError'],
}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


@model('builtins.len')
def m_len(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op == 'extcall' and v.args[0] == 'builtins.dict.fromkeys':
        return T('nuniq', v.args[1][0].args[0])
    if v.op == 'ref':
        o = I.deref(v)
        if o.kind == 'inst':
            f = o.cls.find('__len__')
            if f and isinstance(f[1], FuncInfo):
                return I.call_method(v, '__len__', [], [])
            if I.is_mapping(v):
                return I.seq_len(I.dict_segs(v))
        if o.kind == 'set':
            return T('nuniq', I.freeze(o.segs))
        if o.kind == 'dict':
            return I.seq_len(o.segs)
        if o.kind in ('iter', 'gen', 'rng'):
            I.throw('TypeError', node, ctx, 'op')
    if v.op == 'fset':
        return T('nuniq', v.args[0])
    if v.op == 'rangev':
        return I.len_range(v)
    if v is NONE or is_knum(v):
        I.throw('TypeError', node, ctx, 'op')
    if v.op == 'rslice':
        return T('len', v)
    segs = I.maybe_segs(v)
    if segs is None:
        if v.op == 'fdict':
            return I.seq_len(v.args[0])
        if I.kind(v).split(':')[0] in ('emitter', 'field') and not I.choose(T('has', v, '__len__')):
            I.throw('TypeError', node, ctx, 'missing:__len__')
        raise Undecided('len of %s' % show(v))
    return I.seq_len(segs)


def _seq_arg(I, pos, node, ctx, i=0):
    v = I.val(pos, i)
    if v.op == 'ref' and I.deref(v).kind == 'gen':
        I.force_gen(v)
    return I.iter_segs(v, node, ctx)


@model('builtins.list')
def m_list(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx) if pos else ()
    if any(s.op == 'forever' for s in segs):
        raise Undecided('list() of an endless iterator')
    return I.new_list(segs)


@model('builtins.tuple')
def m_tuple(I, pos, kw, node, ctx):
    if pos:
        v = I.val(pos, 0)
        if v.op == 'tup':
            return v
    return tup_segs(_seq_arg(I, pos, node, ctx) if pos else ())


@model('builtins.set', 'builtins.frozenset')
def m_set(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx) if pos else ()
    v = I.new(Obj('set', segs=tuple(segs)))
    I.event('mkset', v, 'set', (T('seq', tuple(segs)),), loc=I.loc(node, ctx))
    I.may_raise(T('unhashable', T('seq', I.freeze(tuple(segs)))), ['TypeError'], node, ctx)
    return v


@model('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys')
def m_fromkeys(I, pos, kw, node, ctx):
    segs = I.iter_segs(I.val(pos[:1], 0), node, ctx)
    val = I.val(pos, 1) if len(pos) > 1 else NONE
    if all(s.op == 's1' for s in segs):
        d = I.new_dict()
        for s in segs:
            I.setitem(d, s.args[0], val, node, ctx)
        return d
    I.may_raise(T('unhashable', T('seq', I.freeze(tuple(segs)))), ['TypeError'], node, ctx)
    return T('extcall', 'builtins.dict.fromkeys', (T('seq', I.freeze(tuple(segs))), I.freeze(val)), ())


@model('builtins.dict', 'collections.OrderedDict')
def m_dict(I, pos, kw, node, ctx):
    d = I.new_dict()
    if pos:
        I.dict_update(d, I.entries_of(I.val(pos, 0), node, ctx))
    I.dict_update(d, kw)
    return d


@model('collections.UserList')
def m_userlist(I, pos, kw, node, ctx):
    return m_list(I, pos, kw, node, ctx)


@model('collections.deque')
def m_deque(I, pos, kw, node, ctx):
    return m_list(I, pos[:1], kw, node, ctx)


@model('builtins.sum')
def m_sum(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    vs = I.vals(pos)
    start = vs[1] if len(vs) > 1 else I.kwd(kw).get('start', ZERO)
    r = start
    for s in segs:
        r = padd(r, _sum_seg(I, s))
    return r


def _sum_seg(I, s):
    if s.op == 's1':
        return I.to_num(s.args[0])
    if s.op == 'rep':
        t = ZERO
        for x in s.args[0]:
            t = padd(t, _sum_seg(I, x))
        return pmul(t, s.args[1])
    if s.op == 'sp':
        dom, ix, v = I.elementwise(s)
        return I.sum_cases(dom, ix, [((), v)])
    if s.op == 'each':
        dom, ix, cases = I.open_each(s)
        out = []
        for g, p in cases:
            for g2, t in _sum_piece(I, tuple(g), p):
                out.append((g2, t))
        return I.sum_cases(dom, ix, out)
    return T('sum', s)


def _sum_piece(I, g, p):
    """(guards, amount) a piece adds: a truth value adds one where it holds."""
    outs = [(g, ZERO)]
    for x in p:
        v = x.args[0] if x.op == 's1' else None
        if v is not None and v.op == 'cond':
            yes = v.args[1] == 'pos'
            outs = [(h + ((v.args[0], b),), padd(t, ONE if b == yes else ZERO)) for h, t in outs for b in (True, False)]
        else:
            outs = [(h, padd(t, _sum_seg(I, x))) for h, t in outs]
    return outs


@model('builtins.range')
def m_range(I, pos, kw, node, ctx):
    a = [I.to_num(x) for x in I.vals(pos)]
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a
    if lo.op == 'attr' and lo.args[0].op == 'rslice' and lo.args[1] == 'start' and hi is T('attr', lo.args[0], 'stop') and st is I.opaque_attr(lo.args[0], 'step', node, ctx):
        return lo.args[0]
    return T('rangev', lo, hi, st)


@model('builtins.iter')
def m_iter(I, pos, kw, node, ctx):
    if len(pos) != 1:
        raise Undecided('two-argument iter')
    return I.as_iter(I.val(pos, 0), node, ctx)


@model('builtins.next')
def m_next(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    return I.next_of(vs[0], node, ctx, vs[1] if len(vs) > 1 else None)


def _zip(I, lists, node, ctx, strict_len=True):
    if all(all(s.op == 's1' for s in L) for L in lists):
        return tuple(s1(tup(*[s.args[0] for s in t])) for t in zip(*lists))
    es = []
    for L in lists:
        if len(L) == 1 and L[0].op == 'sp' and L[0].args[2].op == 'endless':
            es.append(('stream', L))
        elif len(L) == 1 and I.elementwise(L[0]) is not None:
            es.append(I.elementwise(L[0]))
        elif any(s.op == 'forever' for s in L):
            es.append(('stream', L))
        else:
            # position-wise view of a general sequence
            src = T('seq', tuple(L))
            d = T('repdom', I.seq_len(L))
            ix = I.fresh_ix(d, src)
            es.append((d, ix, T('elem', src, ix)))
    base = None
    for e in es:
        if e[0] == 'stream':
            continue
        if base is None:
            base = e
            continue
        n1, n2 = I.dom_count(base[0]), I.dom_count(e[0])
        if n1 is not n2 and not I.entail_ge0(psub(n2, n1)):
            # possibly unequal lengths: stop at the shorter
            I.event('zipshort', None, 'zip', (n1, n2), loc=I.loc(node, ctx))
            if I.truth(I.cond_gt0(psub(n1, n2))):
                base = e
    if base is None:
        raise Undecided('zip of endless iterators')
    dom = base[0]
    vals = []
    allv = [e[2] for e in es if e[0] != 'stream']
    ix = base[1]
    if any(occurs(ix, e[2]) for e in es if e[0] != 'stream' and e[1] is not ix):
        ix = I.fresh_ix(dom, *allv)
    for e in es:
        if e[0] == 'stream':
            sp = e[1][0]
            vals.append(I.elem(sp.args[0], padd(sp.args[1], ix)) if sp.op == 'sp' else I.elem(T('seq', tuple(e[1])), ix))
        else:
            d2, ix2, v2 = e
            vals.append(I.renorm(subst(v2, {ix2: ix})) if ix2 is not ix else v2)
    return I.norm_segs((T('each', dom, ix, (((), (s1(tup(*vals)),)),)),))


@model('builtins.zip')
def m_zip(I, pos, kw, node, ctx):
    lists, shared = [], []
    for v in I.vals(pos):
        if v.op == 'ref' and I.deref(v).kind == 'gen':
            I.force_gen(v)
        if v.op == 'ref' and I.deref(v).kind == 'iter' and any(s.op == 'forever' for s in I.deref(v).segs):
            o = I.deref(v)
            shared.append((v, len(lists)))
            lists.append((T('sp', T('seq', o.segs), o.pos, T('endless')),))
            continue
        lists.append(I.iter_segs(v, node, ctx))
    segs = _zip(I, lists, node, ctx)
    for v, i in shared:
        others = [j for j in range(len(lists)) if j not in [k for _, k in shared]]
        if not (all(j < i for j in others) or all(j > i for j in others)) or I.active:
            raise Undecided('zip over a shared endless iterator')
        o = I.deref(v)
        o.pos = padd(padd(o.pos, I.seq_len(segs)), ONE if others[0] > i else ZERO)
    return I.new(Obj('iter', segs=segs, pos=ZERO))


@model('builtins.enumerate')
def m_enumerate(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    vs = I.vals(pos)
    start = vs[1] if len(vs) > 1 else I.kwd(kw).get('start', ZERO)
    out = []
    n = start
    for s in segs:
        if s.op == 's1':
            out.append(s1(tup(n, s.args[0])))
        else:
            e = I.elementwise(s)
            if e is None:
                src = T('seq', (s,))
                d = T('repdom', I.seg_len(s))
                e = (d, I.fresh_ix(d, src), T('elem', src, I.fresh_ix(d, src)))
            dom, ix, v = e
            lo = ZERO
            out.append(T('each', dom, ix, (((), (s1(tup(padd(n, psub(ix, lo)), v)),)),)))
        n = padd(n, I.seg_len(s))
    return I.new(Obj('iter', segs=I.norm_segs(out), pos=ZERO))


@model('builtins.sorted')
def m_sorted(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    r = I.sorted_term(segs, I.kwd(kw), node, ctx)
    return I.new_list((T('sp', r, ZERO, I.seq_len(segs)),))


@model('heapq.nlargest', 'heapq.nsmallest')
def m_nlargest(I, pos, kw, node, ctx):
    n = I.val(pos, 0)
    segs = _seq_arg(I, pos, node, ctx, 1)
    k = dict(I.kwd(kw))
    if len(pos) > 2:
        k['key'] = I.val(pos, 2)
    k['reverse'] = TRUE
    r = I.sorted_term(segs, k, node, ctx)
    L = I.seq_len(segs)
    hi = n if I.entail_ge0(psub(L, n)) else T('clip', n, L)
    return I.new_list((T('sp', r, ZERO, hi),))


@model('builtins.reversed')
def m_reversed(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    return I.new(Obj('iter', segs=I.reverse_segs(segs), pos=ZERO))


@model('builtins.map')
def m_map(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    f = vs[0]
    if len(vs) == 2:
        if vs[1].op == 'ref' and I.deref(vs[1]).kind == 'gen':
            I.force_gen(vs[1])
        segs = I.iter_segs(vs[1], node, ctx)
        star = False
    else:
        segs = _zip(I, [I.iter_segs(v, node, ctx) for v in vs[1:]], node, ctx)
        star = True
    acc = I.new_list()

    def body(el):
        args = list(el.args[0]) if star else [s1(el)]
        r = I.call(f, args, [], node, ctx)
        o = I.deref(acc)
        o.segs = I.norm_segs(o.segs + (s1(r),))
    I.iterate(segs, body, node, ctx)
    return I.new(Obj('iter', segs=I.deref(acc).segs, pos=ZERO))


@model('builtins.filter')
def m_filter(I, pos, kw, node, ctx):
    f = I.val(pos, 0)
    segs = _seq_arg(I, pos, node, ctx, 1)
    acc = I.new_list()

    def body(el):
        t = el if f is NONE else I.call(f, [s1(el)], [], node, ctx)
        if I.truth(t):
            o = I.deref(acc)
            o.segs = I.norm_segs(o.segs + (s1(el),))
    I.iterate(segs, body, node, ctx)
    return I.new(Obj('iter', segs=I.deref(acc).segs, pos=ZERO))


@model('builtins.any', 'builtins.all')
def m_anyall(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    is_any = isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'any'
    if all(s.op == 's1' for s in segs):
        for s in segs:
            t = I.truth(s.args[0])
            if t == is_any:
                return K(t)
        return K(not is_any)
    return T('cond', T('anyof' if is_any else 'allof', T('seq', I.freeze(tuple(segs)))), 'pos')


@model('builtins.min')
def m_min(I, pos, kw, node, ctx):
    return m_minmax(I, pos, kw, node, ctx, True)


@model('builtins.max')
def m_max(I, pos, kw, node, ctx):
    return m_minmax(I, pos, kw, node, ctx, False)


def m_minmax(I, pos, kw, node, ctx, is_min):
    vs = I.vals(pos)
    if len(vs) == 1:
        segs = I.iter_segs(vs[0], node, ctx)
        if all(s.op == 's1' for s in segs) and segs:
            vs = [s.args[0] for s in segs]
        else:
            return T('minmax', 'min' if is_min else 'max', T('seq', I.freeze(tuple(segs))), I.freeze(tuple(kw)))
    if kw:
        return T('minmax', 'min' if is_min else 'max', tuple(I.freeze(v) for v in vs), I.freeze(tuple(kw)))
    r = vs[0]
    for v in vs[1:]:
        d = psub(r, v) if is_min else psub(v, r)
        if I.truth(I.cond_gt0(d)):
            r = v
    return r


@model('builtins.isinstance')
def m_isinstance(I, pos, kw, node, ctx):
    v, c = I.vals(pos)
    return I.isinstance_(v, c, node, ctx)


@model('builtins.issubclass')
def m_issubclass(I, pos, kw, node, ctx):
    a, b = I.vals(pos)
    if a.op == 'cls' and b.op == 'cls':
        return K(I.cls_info(a).is_sub(I.cls_info(b)))
    return T('cond', T('issub', a, b), 'pos')


@model('builtins.hasattr')
def m_hasattr(I, pos, kw, node, ctx):
    v, n = I.vals(pos)
    if n.op != 'k':
        return T('cond', T('has', v, n), 'pos')
    return I.hasattr_(v, kv(n), node, ctx)


@model('builtins.getattr')
def m_getattr(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    if vs[1].op != 'k':
        # attribute chosen by the caller
        if not I.choose(T('has', vs[0], vs[1])):
            if len(vs) > 2:
                return vs[2]
            I.throw('AttributeError', node, ctx, 'missing:?')
        if I.kind(vs[0]).split(':')[0] in ('member', 'any', 'emitter', 'field'):
            return T('bm', vs[0], T('dynattr', vs[1])) if False else T('attrf', vs[0], vs[1])
        raise Undecided('getattr with a computed name')
    return I.getattr_(vs[0], kv(vs[1]), node, ctx, default=vs[2] if len(vs) > 2 else None)


@model('builtins.setattr')
def m_setattr(I, pos, kw, node, ctx):
    v, n, x = I.vals(pos)
    if n.op != 'k':
        I.event('setattr', v, n, (I.freeze(x),), loc=I.loc(node, ctx))
        seed, ph = I.hist_parts(v)
        I.put_hist(v, T('st', seed, T('set', ph, n, I.freeze(x))))
        return NONE
    I.setattr_(v, kv(n), x, node, ctx)
    return NONE


@model('builtins.delattr')
def m_delattr(I, pos, kw, node, ctx):
    v, n = I.vals(pos)
    if v.op == 'ref' and n.op == 'k':
        o = I.deref(v)
        if kv(n) in o.attrs:
            del o.attrs[kv(n)]
            return NONE
        I.throw('AttributeError', node, ctx, 'lang')
    raise Undecided('delattr')


@model('builtins.callable')
def m_callable(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op in ('fn', 'bm', 'cls', 'ext', 'partial'):
        return TRUE
    if v.op in ('k', 'tup', 'poly'):
        return FALSE
    if v.op == 'ref':
        o = I.deref(v)
        return K(o.kind == 'inst' and o.cls.find('__call__') is not None)
    b = I.kind(v).split(':')[0]
    if b in ('emitter', 'field', 'callable', 'factory'):
        return TRUE
    return T('cond', T('callable', v), 'pos')


@model('builtins.type')
def m_type(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op == 'ref':
        o = I.deref(v)
        if o.kind == 'inst':
            return T('cls', o.cls.qual)
        if o.kind == 'exc':
            return T('exccls', o.cls)
        return T('ext', 'builtins.' + o.kind)
    if v.op == 'k':
        return T('ext', 'builtins.' + v.args[0])
    if v.op == 'tup':
        return T('ext', 'builtins.tuple')
    if v.op == 'obj':
        return T('cls', v.args[0])
    if dates.is_date(v):
        return dates.type_of(v)
    if v.op in ('poly',) and I.is_int(v) or I.kind(v) in ('int', 'nat', 'str'):
        return T('ext', 'builtins.%s' % ('str' if I.kind(v) == 'str' else 'int'))
    return T('type', v)


@model('builtins.bool')
def m_bool(I, pos, kw, node, ctx):
    if not pos:
        return FALSE
    v = I.val(pos, 0)
    if v.op == 'cond':
        return v
    return K(I.truth(v))


@model('builtins.str', 'builtins.repr', 'builtins.format', 'builtins.ascii')
def m_str(I, pos, kw, node, ctx):
    if not pos:
        return K('')
    v = I.val(pos, 0)
    if v.op == 'k' and isinstance(kv(v), str) and isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'str':
        return v
    if v.op == 'ref' and I.deref(v).kind == 'inst':
        c = I.deref(v).cls
        for nm in ('__str__', '__repr__'):
            f = c.find(nm)
            if f and isinstance(f[1], FuncInfo):
                return I.call_method(v, nm, [], [])
    nm = node.func.id if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) else 'str'
    return T('strof', nm, I.freeze(v))


@model('builtins.int', 'builtins.float')
def m_int(I, pos, kw, node, ctx):
    if not pos:
        return ZERO
    v = I.val(pos, 0)
    isint = isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'int'
    if is_knum(v) and isint:
        return K(int(kv(v)))
    if v.op == 'cond' or I.kind(v) in ('bool',):
        return K(1 if I.truth(v) else 0)
    if I.is_int(v) and isint:
        return v
    if v.op == 'k' and not is_knum(v):
        I.throw('ValueError' if isinstance(kv(v), str) else 'TypeError', node, ctx, 'op')
    r = T('intof' if isint else 'floatof', I.freeze(v))
    I.may_raise(r, ['ValueError', 'TypeError'], node, ctx)
    return r


@model('builtins.hash')
def m_hash(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op == 'ref' and I.deref(v).kind == 'inst':
        f = I.deref(v).cls.find('__hash__')
        if f and isinstance(f[1], FuncInfo):
            return I.call_method(v, '__hash__', [], [])
    return T('hash', dates.canon(I.freeze(v)))


@model('builtins.id')
def m_id(I, pos, kw, node, ctx):
    return T('id', I.val(pos, 0))


@model('builtins.abs')
def m_abs(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if is_knum(v):
        return K(abs(kv(v)))
    if v.op in ('td', 'secs'):
        return dates.absolute(I, v)
    if I.entail_ge0(v):
        return v
    if I.is_int(v):
        return pneg(v) if I.truth(I.cond_gt0(pneg(v))) else v
    return T('abs', v)


@model('builtins.divmod')
def m_divmod(I, pos, kw, node, ctx):
    a, b = I.vals(pos)
    if dates.is_date(a) or dates.is_date(b):
        return tup(dates.binop(I, ast.FloorDiv, a, b, node, ctx), dates.binop(I, ast.Mod, a, b, node, ctx))
    I.event('div', a, 'divmod', (a, b), loc=I.loc(node, ctx))
    I.may_raise(T('zero', b), ['ZeroDivisionError'], node, ctx)
    q, r = I.divmod_(a, b)
    return tup(q, r)


@model('builtins.round')
def m_round(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    return v if I.is_int(v) else T('round', v)


@model('builtins.chr')
def m_chr(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op == 'k' and isinstance(kv(v), int):
        return K(chr(kv(v)))
    return v.args[0] if v.op == 'ord' else T('chr', v)


@model('builtins.ord')
def m_ord(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op == 'k' and isinstance(kv(v), str):
        return K(ord(kv(v)))
    return v.args[0] if v.op == 'chr' else T('ord', v)


@model('builtins.print', 'warnings.warn', 'warnings.simplefilter', 'logging.debug')
def m_print(I, pos, kw, node, ctx):
    nm = 'warn'
    I.event('warn', None, 'warn', tuple(I.freeze(s) for s in pos), tuple(I.freeze(s) for s in kw), None, I.loc(node, ctx))
    return NONE


@model('builtins.object')
def m_object(I, pos, kw, node, ctx):
    return T('sentinel', I.loc(node, ctx))


@model('builtins.slice')
def m_slice(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    if len(vs) == 1:
        return T('slice', NONE, vs[0], NONE)
    return T('slice', vs[0], vs[1], vs[2] if len(vs) > 2 else NONE)


@model('itertools.islice')
def m_islice(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    it = I.as_iter(vs[0], node, ctx)
    I.force_gen(it)
    o = I.deref(it)
    if len(vs) == 2:
        lo, hi = ZERO, vs[1]
    else:
        lo, hi = (ZERO if vs[1] is NONE else vs[1]), vs[2]
        if len(vs) > 3 and vs[3] not in (NONE, ONE):
            raise Undecided('islice with step')
    p0 = padd(o.pos, lo)
    inf = any(s.op == 'forever' for s in o.segs)
    if hi is NONE:
        if inf:
            raise Undecided('islice without stop on an endless iterator')
        return I.new(Obj('iter', segs=I.slice_segs(o.segs, p0, None, None), pos=ZERO))
    p1 = padd(o.pos, hi)
    if inf:
        segs = I.norm_segs((T('sp', T('seq', o.segs), p0, p1),))
    else:
        segs = I.slice_segs(o.segs, p0, p1, None)
        if I.active and not I.entail_ge0(psub(I.seq_len(o.segs), p1)):
            # consumption cursor inside a loop: exactness is judged by the rule
            segs = I.norm_segs((T('sp', o.segs[0].args[0], padd(o.segs[0].args[1], p0), padd(o.segs[0].args[1], p1)),)) \
                if len(o.segs) == 1 and o.segs[0].op == 'sp' else segs
            I.event('next', it, 'islice', (T('seq', o.segs), p1), loc=I.loc(node, ctx))
    if vs[0].op == 'ref' and it is vs[0]:
        I.deref(it).pos = p1
    return I.new(Obj('iter', segs=tuple(segs), pos=ZERO))


@model('itertools.accumulate')
def m_accumulate(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    if len(pos) == 1 and not kw and segs and 'fauxdoc.zz_client' in I.p.modules and all(
            s.op == 'sp' and I.elemkind(s.args[0]) == 'num' or s.op == 's1' and I.numericish(s.args[0]) for s in segs):
        r = I.call(I.global_name(I.p.modules['fauxdoc.zz_client'], 'totals'), [s1(T('tup', tuple(segs)))], [], node, ctx)
        return I.new(Obj('iter', segs=tuple(I.iter_segs(r, node, ctx)), pos=ZERO))
    src = T('accum', T('seq', tuple(segs)), tuple(I.freeze(s) for s in pos[1:]), tuple(I.freeze(s) for s in kw))
    return I.new(Obj('iter', segs=(T('sp', src, ZERO, I.seq_len(segs)),), pos=ZERO))


@model('itertools.cycle')
def m_cycle(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    if any(s.op == 'forever' for s in segs):
        return I.new(Obj('iter', segs=tuple(segs), pos=ZERO))
    segs = tuple(T('sp', T('memo', s.args[0]), *s.args[1:]) if s.op == 'sp' and s.args[0].op == 'fresh' else s for s in segs)
    return I.new(Obj('iter', segs=(T('forever', segs),), pos=ZERO))


@model('itertools.repeat')
def m_repeat(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    n = vs[1] if len(vs) > 1 else I.kwd(kw).get('times')
    if n is None:
        return I.new(Obj('iter', segs=(T('forever', (s1(vs[0]),)),), pos=ZERO))
    return I.new(Obj('iter', segs=I.norm_segs((T('rep', (s1(vs[0]),), n),)), pos=ZERO))


@model('itertools.chain')
def m_chain(I, pos, kw, node, ctx):
    out = []
    for v in I.vals(pos):
        if v.op == 'ref' and I.deref(v).kind == 'gen':
            I.force_gen(v)
        out.extend(I.iter_segs(v, node, ctx))
    return I.new(Obj('iter', segs=I.norm_segs(out), pos=ZERO))


@model('itertools.chain.from_iterable')
def m_chainf(I, pos, kw, node, ctx):
    segs = _seq_arg(I, pos, node, ctx)
    acc = I.new_list()

    def body(el):
        s = I.iter_segs(el, node, ctx)
        o = I.deref(acc)
        o.segs = I.norm_segs(o.segs + tuple(s))
    inf = False
    try:
        I.iterate(segs, body, node, ctx)
    except InfiniteEx:
        inf = True
    segs = I.deref(acc).segs
    return I.new(Obj('iter', segs=segs, pos=ZERO))


@model('itertools.count')
def m_count(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    a = vs[0] if vs else ZERO
    st = vs[1] if len(vs) > 1 else ONE
    return I.new(Obj('iter', segs=(T('forever', (T('countup', a, st),)),), pos=ZERO))


@model('itertools.zip_longest')
def m_zl(I, pos, kw, node, ctx):
    raise Undecided('zip_longest')


@model('itertools.starmap')
def m_starmap(I, pos, kw, node, ctx):
    f = I.val(pos, 0)
    segs = _seq_arg(I, pos, node, ctx, 1)
    acc = I.new_list()

    def body(el):
        r = I.call(f, list(I.iter_segs(el, node, ctx)), [], node, ctx)
        o = I.deref(acc)
        o.segs = I.norm_segs(o.segs + (s1(r),))
    I.iterate(segs, body, node, ctx)
    return I.new(Obj('iter', segs=I.deref(acc).segs, pos=ZERO))


@model('random.Random')
def m_Random(I, pos, kw, node, ctx):
    a = I.val(pos, 0) if pos else I.kwd(kw).get('x', NONE)
    v = I.new(Obj('rng', cls='random.Random', attrs={'state': T('seeded', a)}))
    I.event('newrng', v, 'Random', (a,), loc=I.loc(node, ctx))
    return v


@model('functools.partial')
def m_partial(I, pos, kw, node, ctx):
    return T('partial', I.val(pos[:1], 0), tuple(pos[1:]), tuple(kw))


@model('functools.reduce')
def m_reduce(I, pos, kw, node, ctx):
    vs = I.vals(pos)
    f = vs[0]
    segs = I.iter_segs(vs[1], node, ctx)
    box = I.new(Obj('frame', attrs={'acc': vs[2] if len(vs) > 2 else None}))
    if len(vs) < 3:
        if not segs or segs[0].op != 's1':
            raise Undecided('reduce without initial value')
        I.deref(box).attrs['acc'] = segs[0].args[0]
        segs = segs[1:]

    def body(el):
        r = I.call(f, [s1(I.deref(box).attrs['acc']), s1(el)], [], node, ctx)
        I.deref(box).attrs['acc'] = r
    I.iterate(segs, body, node, ctx)
    return I.deref(box).attrs['acc']


@model('operator.itemgetter')
def m_itemgetter(I, pos, kw, node, ctx):
    if len(pos) != 1:
        raise Undecided('itemgetter')
    return T('getter', 'item', I.val(pos, 0))


@model('operator.attrgetter')
def m_attrgetter(I, pos, kw, node, ctx):
    if len(pos) != 1 or '.' in kv(I.val(pos, 0)):
        raise Undecided('attrgetter')
    return T('getter', 'attr', I.val(pos, 0))


@model('operator.methodcaller')
def m_methodcaller(I, pos, kw, node, ctx):
    return T('methcaller', I.val(pos[:1], 0), tuple(pos[1:]), tuple(kw))


def _op(name, astop):
    @model('operator.' + name)
    def f(I, pos, kw, node, ctx):
        a, b = I.vals(pos)
        return I.binop(astop(), a, b, node, ctx)


for _n, _a in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('floordiv', ast.FloorDiv), ('mod', ast.Mod)):
    _op(_n, _a)


@model('typing.cast')
def m_cast(I, pos, kw, node, ctx):
    return I.val(pos, 1)


@model('copy.copy')
def m_copy(I, pos, kw, node, ctx):
    v = I.val(pos, 0)
    if v.op == 'ref':
        o = I.deref(v)
        if o.kind in ('list', 'dict', 'set'):
            return I.new(Obj(o.kind, segs=o.segs))
        if o.kind == 'inst' and not I.is_mapping(v) and not I.is_userlist(o):
            return I.new(Obj('inst', cls=o.cls, attrs=dict(o.attrs)))
        raise Undecided('copy.copy')
    if v.op in ('k', 'tup', 'poly', 'fn'):
        return v
    if I.kind(v).split(':')[0] == 'seq':
        return I.new_list(I.maybe_segs(v))
    return T('copyof', v)


def _math(nm):
    @model('math.' + nm)
    def f(I, pos, kw, node, ctx):
        vs = I.vals(pos)
        if nm in ('log', 'factorial', 'sqrt', 'gamma', 'lgamma'):
            I.event('domain', vs[0], nm, tuple(vs), loc=I.loc(node, ctx))
        r = T('math', nm, tuple(I.freeze(v) for v in vs))
        I.may_raise(r, ['ValueError', 'OverflowError'], node, ctx)
        return r


for _n in ('log', 'exp', 'sqrt', 'factorial', 'ceil', 'floor', 'pow', 'fabs', 'gamma', 'lgamma', 'erf', 'erfc'):
    _math(_n)


@model('inspect.signature')
def m_signature(I, pos, kw, node, ctx):
    v, bound = I.val(pos, 0), 0
    if v.op == 'ref' and I.deref(v).kind == 'inst':
        v = I.getattr_(v, '__call__', node, ctx)
    if v.op == 'bm' and v.args[1].op == 'fn':
        v, bound = v.args[1], 1
    if v.op == 'fn':
        return T('sigof', v, bound)
    v = I.freeze(v)
    r = T('signature', v)
    I.may_raise(r, ['ValueError', 'TypeError'], node, ctx)
    return r


@model('unittest.mock.call')
def m_mockcall(I, pos, kw, node, ctx):
    return T('mockcall')


def _dt(name):
    @model(name)
    def f(I, pos, kw, node, ctx):
        return dates.construct(I, name.rsplit('.', 1)[-1], pos, kw, node, ctx)


for _n in ('datetime.timedelta', 'datetime.date', 'datetime.datetime', 'datetime.time', 'datetime.datetime.combine'):
    _dt(_n)


def _iso(kind):
    @model('datetime.%s.fromisoformat' % kind)
    def f(I, pos, kw, node, ctx):
        return dates.fromiso(I, kind, pos, node, ctx)


for _n in ('date', 'time', 'datetime'):
    _iso(_n)


@model('sys.getsizeof')
def m_na(I, pos, kw, node, ctx):
    raise Undecided('sys')


@model('builtins.globals')
def m_globals(I, pos, kw, node, ctx):
    """The names of the module (what they are bound to is looked up when asked for by name only)."""
    m = ctx.mod
    names = ['__name__', '__doc__', '__package__', '__loader__', '__spec__', '__file__', '__builtins__'] + [n for n in m.globals]
    names += [x[len(m.name) + 1:] for x in I.p.modules if x.startswith(m.name + '.') and '.' not in x[len(m.name) + 1:]]
    return T('fdict', tuple(s1(tup(K(n), T('attr', T('mod', m.name), n))) for n in dict.fromkeys(names)))
