"""The resolved program: modules, imports, classes (C3 order), functions."""
import ast
import os


class AnalysisBroken(Exception):
    """A public anchor the rules need is gone: the run must not pass silently."""


class FuncInfo:
    def __init__(self, node, module, cls=None, qual='', parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.qual = qual
        self.name = getattr(node, 'name', '<lambda>')
        self.is_gen = _is_generator(node)
        self.key = '%s:%s:%d:%d' % (module.name, qual, node.lineno, node.col_offset)

    def __repr__(self):
        return '<fn %s>' % self.key


def _is_generator(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Prop:
    def __init__(self, getter=None, setter=None, deleter=None, cached=False):
        self.getter, self.setter, self.deleter, self.cached = getter, setter, deleter, cached


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.qual = module.name + '.' + name
        self.bases = []          # ClassInfo or dotted ext name
        self.members = {}        # name -> FuncInfo | Prop | ('static', f) | ('class', f) | ('expr', node)
        self._mro = None

    def __repr__(self):
        return '<class %s>' % self.qual

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            # 'builtins.object' and Generic markers last / irrelevant
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        """(owner, member) for name along the MRO (strictly after `after`)."""
        mro = self.mro()
        if after is not None:
            if after not in mro:
                return None
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.members:
                    return c, c.members[name]
            else:
                if ext_class_has(c, name):
                    return c, ('ext', c, name)
        return None

    def gives(self, name):
        """Instances have the attribute: the class defines it, or one of its methods sets it on self."""
        if self.find(name):
            return True
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == 'self'
                   for c in self.mro() if isinstance(c, ClassInfo) for x in ast.walk(c.node))

    def is_sub(self, other):
        return other in self.mro()


EXT_METHODS = {
    'collections.OrderedDict': {'__init__', '__getitem__', '__setitem__', '__delitem__', '__iter__', '__len__', '__contains__',
                                'keys', 'values', 'items', 'get', 'update', 'pop', 'popitem', 'clear', 'setdefault', 'copy',
                                'move_to_end', '__eq__', '__reversed__', '__repr__', 'fromkeys', '__reduce__', '__or__', '__ior__', '__ror__'},
    'collections.UserList': {'__init__', '__getitem__', '__setitem__', '__delitem__', '__iter__', '__len__', '__contains__',
                             'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'index', 'count', 'copy', 'reverse', 'sort',
                             '__add__', '__iadd__', '__mul__', '__eq__', '__reversed__', '__repr__', '__radd__'},
    'collections.abc.Sequence': {'__iter__', '__contains__', 'index', 'count', '__reversed__'},
    'builtins.object': {'__init__', '__repr__', '__str__', '__eq__', '__hash__', '__new__', '__setattr__', '__getattribute__', '__ne__'},
}
EXT_METHODS['builtins.dict'] = EXT_METHODS['collections.OrderedDict'] - {'move_to_end'}
EXT_METHODS['collections.UserDict'] = EXT_METHODS['collections.OrderedDict'] - {'move_to_end'}
EXT_METHODS['builtins.list'] = EXT_METHODS['collections.UserList']
EXT_METHODS['typing.Sequence'] = EXT_METHODS['collections.abc.Sequence']
IGNORED_BASES = {'typing.Generic', 'typing.Protocol', 'typing_extensions.Protocol', 'abc.ABC', 'builtins.object'}


def ext_class_has(c, name):
    if c == 'builtins.object':
        return False
    return name in EXT_METHODS.get(c, ())


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.globals = {}      # name -> binding
        self.stars = []
        self.order = []        # top level statements after static branch selection


class Program:
    def __init__(self, root, package='fauxdoc', extra=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.files = []
        self._load(root, package)
        for mod, path in (extra or {}).items():
            with open(path, encoding='utf-8') as f:
                self.modules[mod] = ModuleInfo(mod, path, ast.parse(f.read(), path), False)
        if not self.modules:
            raise AnalysisBroken('no modules found under %s' % root)
        self.classes = {}
        self.functions = []
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            self._link_classes(m)

    # -------------------------------------------------- loading
    def _load(self, d, name):
        for fn in sorted(os.listdir(d)):
            p = os.path.join(d, fn)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                self._load(p, name + '.' + fn)
            elif fn.endswith('.py'):
                mod = name if fn == '__init__.py' else name + '.' + fn[:-3]
                with open(p, encoding='utf-8') as f:
                    src = f.read()
                tree = ast.parse(src, p)
                self.files.append(p)
                self.modules[mod] = ModuleInfo(mod, p, tree, fn == '__init__.py')

    def rel(self, path):
        return os.path.relpath(path, os.path.dirname(os.path.dirname(self.root)))

    # -------------------------------------------------- indexing
    def _static_test(self, test):
        """Truth of an import-time condition on a current interpreter, or None."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            left = ast.dump(test.left)
            if "attr='version_info'" in left and isinstance(test.comparators[0], ast.Tuple):
                v = tuple(e.value for e in test.comparators[0].elts if isinstance(e, ast.Constant))
                cur = (3, 12)
                op = test.ops[0]
                if isinstance(op, ast.GtE):
                    return cur >= v
                if isinstance(op, ast.Gt):
                    return cur > v
                if isinstance(op, ast.Lt):
                    return cur < v
                if isinstance(op, ast.LtE):
                    return cur <= v
        if isinstance(test, ast.Name) and test.id == 'TYPE_CHECKING':
            return False
        if isinstance(test, ast.BoolOp):
            vals = [self._static_test(v) for v in test.values]
            if isinstance(test.op, ast.Or):
                if True in vals:
                    return True
                return None if None in vals else False
            if False in vals:
                return False
            return None if None in vals else True
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = self._static_test(test.operand)
            return None if v is None else not v
        return None

    def _stmts(self, body):
        for s in body:
            if isinstance(s, ast.If):
                v = self._static_test(s.test)
                if v is not False:
                    yield from self._stmts(s.body)
                if v is not True:
                    yield from self._stmts(s.orelse)
            elif isinstance(s, ast.Try):
                yield from self._stmts(s.body)
                yield from self._stmts(s.orelse)
                yield from self._stmts(s.finalbody)
            else:
                yield s

    def _index(self, m):
        for s in self._stmts(m.tree.body):
            m.order.append(s)
            if isinstance(s, ast.FunctionDef):
                f = FuncInfo(s, m, None, s.name)
                m.globals[s.name] = ('func', f)
                self.functions.append(f)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(s.name, m, s)
                m.globals[s.name] = ('class', c)
                self.classes[c.qual] = c
                self._index_class(c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.globals[a.asname] = ('mod', a.name)
                    else:
                        m.globals[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._abs_from(m, s)
                for a in s.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.globals[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = ('expr', s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                m.globals[a.id] = ('expr', b)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    m.globals[s.target.id] = ('expr', s.value)

    def _abs_from(self, m, s):
        if not s.level:
            return s.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        return '.'.join(parts + ([s.module] if s.module else []))

    def _index_class(self, c):
        for s in self._stmts(c.node.body):
            if isinstance(s, ast.FunctionDef):
                f = FuncInfo(s, c.module, c, c.name + '.' + s.name)
                self.functions.append(f)
                kind = 'plain'
                for d in s.decorator_list:
                    if isinstance(d, ast.Call):
                        d = d.func
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
                    if dn == 'property':
                        kind = 'prop'
                    elif dn == 'cached_property':
                        kind = 'cprop'
                    elif dn in ('setter', 'getter', 'deleter') and isinstance(d, ast.Attribute):
                        kind = dn
                        base = d.value
                    elif dn == 'staticmethod':
                        kind = 'static'
                    elif dn == 'classmethod':
                        kind = 'class'
                    elif dn == 'overload':
                        kind = 'skip'
                if kind == 'skip':
                    continue
                if kind == 'prop':
                    c.members[s.name] = Prop(getter=f)
                elif kind == 'cprop':
                    c.members[s.name] = Prop(getter=f, cached=True)
                elif kind in ('setter', 'getter', 'deleter'):
                    old = None
                    if isinstance(base, ast.Name):
                        old = c.members.get(base.id)
                    if not isinstance(old, Prop):
                        old = Prop()
                    new = Prop(old.getter, old.setter, old.deleter)
                    setattr(new, kind, f)
                    c.members[s.name] = new
                elif kind in ('static', 'class'):
                    c.members[s.name] = (kind, f)
                else:
                    c.members[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        v = s.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            fs = []
                            for a in v.args[:3]:
                                mem = c.members.get(a.id) if isinstance(a, ast.Name) else None
                                if isinstance(a, ast.Lambda):
                                    mem = FuncInfo(a, c.module, c, c.name + '.' + t.id)
                                fs.append(mem if isinstance(mem, FuncInfo) else None)
                            c.members[t.id] = Prop(*fs)
                        elif isinstance(v, ast.Name) and v.id in c.members:
                            c.members[t.id] = c.members[v.id]
                        else:
                            c.members[t.id] = ('expr', v)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    c.members[s.target.id] = ('expr', s.value)

    def _link_classes(self, m):
        for k, b in list(m.globals.items()):
            if b[0] != 'class':
                continue
            c = b[1]
            for be in c.node.bases:
                r = self._base(m, be)
                if r is not None:
                    c.bases.append(r)

    def _base(self, m, e):
        if isinstance(e, ast.Subscript):
            e = e.value
        r = self.resolve_expr(m, e)
        if r is None:
            return 'unknown.' + ast.dump(e)
        if r[0] == 'class':
            return r[1]
        if r[0] == 'ext':
            return None if r[1] in IGNORED_BASES else r[1]
        return 'unknown'

    # -------------------------------------------------- static resolution
    def resolve_name(self, m, name, seen=()):
        """-> ('func',FuncInfo)|('class',ClassInfo)|('module',ModuleInfo)|('ext',dotted)|('expr',module,node)|None"""
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        b = m.globals.get(name)
        if b is None:
            for st in m.stars:
                if st in self.modules:
                    r = self.resolve_name(self.modules[st], name, seen)
                    if r is not None:
                        return r
            if m.is_pkg and m.name + '.' + name in self.modules:
                return ('module', self.modules[m.name + '.' + name])
            return None
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'mod':
            if b[1] in self.modules:
                return ('module', self.modules[b[1]])
            return ('ext', b[1])
        if b[0] == 'from':
            base, nm = b[1], b[2]
            if base in self.modules:
                bm = self.modules[base]
                r = self.resolve_name(bm, nm, seen)
                if r is None and base + '.' + nm in self.modules:
                    return ('module', self.modules[base + '.' + nm])
                return r
            return ('ext', base + '.' + nm)
        if b[0] == 'expr':
            e = b[1]
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = self.resolve_expr(m, e, seen)
                if r is not None:
                    return r
            return ('expr', m, e)
        return None

    def resolve_expr(self, m, e, seen=()):
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id, seen)
            if r is None:
                import builtins
                if hasattr(builtins, e.id):
                    return ('ext', 'builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, seen)
            if b is None:
                return None
            if b[0] == 'module':
                r = self.resolve_name(b[1], e.attr, seen)
                if r is None and b[1].name + '.' + e.attr in self.modules:
                    return ('module', self.modules[b[1].name + '.' + e.attr])
                return r
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    # -------------------------------------------------- anchors
    def public(self, module, name):
        m = self.modules.get(module)
        r = self.resolve_name(m, name) if m else None
        if r is None:
            raise AnalysisBroken('public anchor %s.%s not found' % (module, name))
        return r

    def cls(self, module, name):
        r = self.public(module, name)
        if r[0] != 'class':
            raise AnalysisBroken('public anchor %s.%s is not a class' % (module, name))
        return r[1]
