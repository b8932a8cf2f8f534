"""What importing the package binds, statement by statement: a simulation of the import order over the syntax tree (no code is run).

A name has one of two states: bound on every way through the statements so far, or bound on some. Only names bound on none are reported.
"""
import ast
import builtins
import symtable

BUILTINS = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__loader__', '__annotations__',
                                 '__debug__', '__class__', '__module__', '__qualname__', '__dict__', '__all__', '__version__'} - {'__all__', '__version__'}


class Site:
    def __init__(self, ok, rule, msg, at):
        self.ok, self.rule, self.msg, self.at = ok, rule, msg, at


class Space:
    def __init__(self, m):
        self.m = m
        self.names = {}       # name -> 'yes' | 'maybe'
        self.mods = {}        # name -> dotted module it stands for
        self.done = False
        self.order = []


class Importer:
    def __init__(self, program, split, dynamic):
        """split(module, test) -> can the test be (true, false); dynamic(module, name): answered by the module's own __getattr__."""
        self.p, self.split, self.dynamic = program, split, dynamic
        self.spaces = {}
        self.sites = []
        self.calls = set()

    def site(self, ok, rule, msg, m, node):
        self.sites.append(Site(ok, rule, msg, '%s:%d' % (self.p.rel(m.path), getattr(node, 'lineno', 1))))

    def load(self, name):
        if name in self.spaces:
            return self.spaces[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.spaces:
                return self.spaces[name]
        m = self.p.modules[name]
        sp = self.spaces[name] = Space(m)
        self.body(m.tree.body, sp, 'yes')
        sp.done = True
        if '.' in name:
            par, _, last = name.rpartition('.')
            self.spaces[par].names.setdefault(last, 'yes')
            self.spaces[par].mods.setdefault(last, name)
        return sp

    # ------------------------------------------------------------ statements
    def bind(self, sp, name, how='yes', mod=None):
        if how == 'yes' or name not in sp.names:
            sp.names[name] = how
        if mod:
            sp.mods[name] = mod
        else:
            sp.mods.pop(name, None)

    def target(self, t, sp, how):
        for s in ast.walk(t):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                self.bind(sp, s.id, how)
            elif isinstance(s, ast.Name):
                self.use(s, sp)

    def body(self, stmts, sp, how):
        for s in stmts:
            self.stmt(s, sp, how)

    def branches(self, sp, runs):
        """Each alternative starts from the same names; a name stays bound for certain if every one binds it."""
        before = (dict(sp.names), dict(sp.mods))
        outs = []
        for r in runs:
            sp.names, sp.mods = dict(before[0]), dict(before[1])
            r()
            outs.append((sp.names, sp.mods))
        names, mods = {}, {}
        for n in {n for o in outs for n in o[0]}:
            names[n] = 'yes' if all(o[0].get(n) == 'yes' for o in outs) else 'maybe'
        for o in outs:
            mods.update(o[1])
        sp.names, sp.mods = names, mods

    def stmt(self, s, sp, how):
        m = sp.m
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, sp)
            a = s.args
            for e in a.defaults + [k for k in a.kw_defaults if k is not None]:
                self.expr(e, sp)
            if not self.lazy(m):
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    self.expr(x.annotation, sp)
                self.expr(s.returns, sp)
            self.bind(sp, s.name, how)
        elif isinstance(s, ast.ClassDef):
            for e in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(e, sp)
            inner = Space(m)
            inner.names = dict(sp.names)
            inner.mods = dict(sp.mods)
            self.body(s.body, inner, 'yes')
            self.bind(sp, s.name, how)
        elif isinstance(s, ast.Import):
            for a in s.names:
                top = a.name.split('.')[0]
                if top == self.p.package:
                    if a.name not in self.p.modules:
                        self.site(False, 'imports-resolve', 'there is no module %s' % a.name, m, s)
                    else:
                        self.load(a.name)
                        self.site(True, 'imports-resolve', a.name, m, s)
                self.bind(sp, a.asname or top, how, a.name if a.asname else top)
        elif isinstance(s, ast.ImportFrom):
            base = self.p._abs_from(m, s)
            if not base or base.split('.')[0] != self.p.package:
                for a in s.names:
                    self.bind(sp, a.asname or a.name, how)
                return
            if base not in self.p.modules:
                self.site(False, 'imports-resolve', 'there is no module %s' % base, m, s)
                for a in s.names:
                    self.bind(sp, a.asname or a.name, how)
                return
            src = self.load(base)
            for a in s.names:
                if a.name == '*':
                    al = self.exported(base)
                    for n in (al if al is not None else [n for n in src.names if not n.startswith('_')]):
                        self.bind(sp, n, how, src.mods.get(n))
                    continue
                mod = src.mods.get(a.name)
                if a.name in src.names:
                    ok = True
                elif base + '.' + a.name in self.p.modules:
                    self.load(base + '.' + a.name)
                    ok, mod = True, base + '.' + a.name
                else:
                    ok = '__getattr__' in src.names and self.dynamic(base, a.name)
                self.site(ok, 'imports-resolve', '%s from %s' % (a.name, base) if ok else
                          'importing the package fails: %s has no %s %s' % (
                              base, a.name, 'by the time it is imported (the imports form a cycle)' if not src.done else ''), m, s)
                self.bind(sp, a.asname or a.name, how, mod)
        elif isinstance(s, ast.Assign):
            self.expr(s.value, sp)
            for t in s.targets:
                self.target(t, sp, how)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id in sp.mods:
                sp.mods[s.targets[0].id] = sp.mods[s.value.id]
        elif isinstance(s, ast.AnnAssign):
            if not self.lazy(m):
                self.expr(s.annotation, sp)
            if s.value is not None:
                self.expr(s.value, sp)
                self.target(s.target, sp, how)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, sp)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    self.use(x, sp)
        elif isinstance(s, ast.If):
            self.expr(s.test, sp)
            t, f = self.split(m, s.test)
            runs = []
            if t:
                runs.append(lambda: self.body(s.body, sp, how))
            if f:
                runs.append(lambda: self.body(s.orelse, sp, how))
            self.branches(sp, runs)
        elif isinstance(s, ast.Try):
            # the handlers run from any point of the body
            guarded = any(h.type is None or 'Error' in ast.dump(h.type) or 'Exception' in ast.dump(h.type) for h in s.handlers)
            k = len(self.sites)
            self.branches(sp, [lambda: (self.body(s.body, sp, how), self.body(s.orelse, sp, how))]
                          + [lambda h=h: (self.bind(sp, h.name) if h.name else None, self.body(h.body, sp, how)) for h in s.handlers])
            if guarded:
                self.sites[k:] = [x for x in self.sites[k:] if x.ok]
            self.body(s.finalbody, sp, how)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, sp)
            else:
                self.expr(s.test, sp)

            def once():
                if isinstance(s, ast.For):
                    self.target(s.target, sp, how)
                self.body(s.body, sp, how)
            self.branches(sp, [once, lambda: None])
            self.body(s.orelse, sp, how)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, sp)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, sp, how)
            self.body(s.body, sp, how)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    sp.names.pop(t.id, None)
                    sp.mods.pop(t.id, None)
        elif isinstance(s, (ast.Expr, ast.Assert, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.expr(e, sp)

    def lazy(self, m):
        return any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names) for s in m.tree.body)

    # ------------------------------------------------------------ expressions evaluated on import
    def expr(self, e, sp, local=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            for x in e.args.defaults + [k for k in e.args.kw_defaults if k is not None]:
                self.expr(x, sp, local)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = set(local)
            for g in e.generators:
                self.expr(g.iter, sp, frozenset(inner))
                inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.expr(c, sp, frozenset(inner))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, sp, frozenset(inner))
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in local:
                self.use(e, sp)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, sp, local)
            self.bind(sp, e.target.id)
            return
        if isinstance(e, ast.Attribute):
            self.expr(e.value, sp, local)
            mod = self.module_of(e.value, sp)
            if mod is not None and isinstance(e.ctx, ast.Load):
                self.member(mod, e.attr, sp.m, e)
            return
        if isinstance(e, ast.Call):
            self.called(e.func, sp)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Starred, ast.Slice, ast.FormattedValue)):
                self.expr(c.value if isinstance(c, ast.keyword) else c, sp, local)

    def use(self, n, sp):
        ok = n.id in sp.names or n.id in BUILTINS
        self.site(ok, 'names-resolve', n.id if ok else 'importing the module fails: %s is not defined at this point' % n.id, sp.m, n)

    def module_of(self, e, sp):
        if isinstance(e, ast.Name):
            m = sp.mods.get(e.id)
            return m if m in self.p.modules else None
        if isinstance(e, ast.Attribute):
            b = self.module_of(e.value, sp)
            if b is not None and b in self.spaces:
                m = self.spaces[b].mods.get(e.attr)
                return m if m in self.p.modules else None
        return None

    def member(self, mod, name, m, node, final=False):
        sp = self.spaces.get(mod)
        ok = sp is not None and (name in sp.names or name.startswith('__') or ('__getattr__' in sp.names and self.dynamic(mod, name)))
        if sp is not None and not ok and final and mod + '.' + name in self.spaces:
            ok = True
        self.site(ok, 'names-resolve', '%s.%s' % (mod, name) if ok else '%s has no %s%s' % (
            mod, name, '' if final else ' by the time this runs'), m, node)

    def called(self, f, sp):
        """A package function called while importing: its body's names must be bound by then."""
        if not isinstance(f, ast.Name):
            return
        r = self.p.resolve_name(sp.m, f.id)
        if r is None or r[0] not in ('func', 'class'):
            return
        fi = r[1] if r[0] == 'func' else None
        if r[0] == 'class':
            g = r[1].find('__init__')
            fi = g[1] if g and hasattr(g[1], 'node') else None
        if fi is None or fi.key in self.calls or fi.module.name not in self.spaces:
            return
        self.calls.add(fi.key)
        space = self.spaces[fi.module.name] if fi.module is not sp.m else sp
        for name, node in global_names(fi.node, fi.module):
            ok = name in space.names or name in BUILTINS
            self.site(ok, 'names-resolve', name if ok else 'importing the package runs %s before %s is defined' % (fi.qual, name), fi.module, node)

    # ------------------------------------------------------------ what a module exports
    def exported(self, name):
        """The names in __all__ (None: it has none; raises ValueError when they cannot be told)."""
        m = self.p.modules[name]
        out = None
        for s in m.order:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id == '__all__' for t in ts) and s.value is not None:
                    out = self.strings(s.value, m, out)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == '__all__':
                out = (out or []) + self.strings(s.value, m, out)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(
                    s.value.func.value, ast.Name) and s.value.func.value.id == '__all__':
                a = s.value.func.attr
                if a == 'append':
                    out = (out or []) + self.strings(ast.List([s.value.args[0]], ast.Load()), m, out)
                elif a == 'extend':
                    out = (out or []) + self.strings(s.value.args[0], m, out)
                elif a in ('sort', 'reverse'):
                    pass
                elif a == 'remove':
                    out = [x for x in out if x != s.value.args[0].value]
                else:
                    raise ValueError(a)
        return out

    def strings(self, e, m, sofar):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += self.strings(x.value, m, sofar)
                elif isinstance(x, ast.Constant):
                    out.append(x.value)
                elif isinstance(x, ast.Attribute) and x.attr == '__name__' and isinstance(x.value, ast.Name):
                    out.append(x.value.id)
                else:
                    raise ValueError
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.strings(e.left, m, sofar) + self.strings(e.right, m, sofar)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('sorted', 'list', 'tuple', 'set') and len(e.args) == 1:
            return self.strings(e.args[0], m, sofar)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'keys':
            return self.strings(e.func.value, m, sofar)
        if isinstance(e, ast.Dict):
            return [k.value for k in e.keys]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'split' and isinstance(e.func.value, ast.Constant) and not e.args:
            return e.func.value.value.split()
        if isinstance(e, ast.Name) and e.id == '__all__':
            return list(sofar or [])
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Attribute) and e.attr == '__all__':
                r = self.p.resolve_expr(m, e.value)
                if r and r[0] == 'module':
                    return self.exported(r[1].name) or []
            r = self.p.resolve_expr(m, e)
            if r and r[0] == 'expr':
                return self.strings(r[2], r[1], None)
        raise ValueError

    # ------------------------------------------------------------ names used inside functions
    def functions(self, name):
        m = self.p.modules[name]
        sp = self.spaces[name]
        for n, node in global_names(m.tree, m):
            ok = n in sp.names or n in BUILTINS
            self.site(ok, 'names-resolve', n if ok else 'the name %s is used here and defined nowhere' % n, m, node)
        # module.attribute through an imported package module
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Load) and isinstance(s.value, ast.Name) and s.value.id in sp.mods:
                mod = sp.mods[s.value.id]
                if mod in self.spaces and not shadowed(m.tree, s):
                    self.member(mod, s.attr, m, s, final=True)
            if isinstance(s, ast.ImportFrom) and s not in m.tree.body:
                base = self.p._abs_from(m, s)
                if base and base.split('.')[0] == self.p.package:
                    for a in s.names:
                        if base not in self.p.modules:
                            self.site(False, 'imports-resolve', 'there is no module %s' % base, m, s)
                        elif a.name != '*':
                            if base not in self.spaces:
                                self.load(base)
                            self.member(base, a.name, m, s, final=True) if base + '.' + a.name not in self.p.modules else None


def shadowed(tree, attr):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(x is attr for x in ast.walk(f)):
            a = f.args
            names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            names |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if attr.value.id in names:
                return True
    return False


def global_names(tree, m):
    """(name, node) for every global a function below the tree reads (names it binds itself at module level included)."""
    with open(m.path, encoding='utf-8') as f:
        table = symtable.symtable(f.read(), m.path, 'exec')
    wanted = {}

    def walk(t):
        if t.get_type() in ('function', 'class'):
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global() and not s.is_assigned():
                    wanted.setdefault((t.get_lineno(), t.get_name()), set()).add(s.get_name())
        for c in t.get_children():
            walk(c)
    walk(table)
    out = []

    def visit(n, cur):
        key = None
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                visit(d, cur)
            line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
            key = wanted.get((n.lineno, n.name)) or wanted.get((line, n.name)) or set()
            if isinstance(n, ast.ClassDef):
                key = set()          # the class body runs on import
            for s in n.body:
                visit(s, key)
            return
        if isinstance(n, ast.Lambda):
            visit(n.body, wanted.get((n.lineno, 'lambda')) or set())
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and cur is not None:
            nm = {ast.ListComp: 'listcomp', ast.SetComp: 'setcomp', ast.DictComp: 'dictcomp', ast.GeneratorExp: 'genexpr'}[type(n)]
            cur = cur | (wanted.get((n.lineno, nm)) or set())
        if isinstance(n, ast.AnnAssign) and cur is not None:
            # annotations of local names are not evaluated
            visit(n.target, cur)
            if n.value is not None:
                visit(n.value, cur)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and cur is not None and n.id in cur:
            out.append((n.id, n))
        for c in ast.iter_child_nodes(n):
            visit(c, cur)
    visit(tree, None)
    return out
