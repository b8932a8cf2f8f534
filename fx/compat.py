"""Which Python versions a construct needs: a flow-aware query over the syntax tree (no code is run).

Every construct is checked against the versions it can execute on: sys.version_info guards (including early returns and named flags) narrow
that set, a try whose handlers catch the failure excuses it.
"""
import ast
import io
import json
import os
import sys
import tokenize

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'stdlib_names.json')
NEW_MODULES = {'zoneinfo': 9, 'graphlib': 9, 'tomllib': 11, 'importlib.metadata': 8, 'multiprocessing.shared_memory': 8, 'unittest.async_case': 8,
               'importlib.readers': 10, 'importlib.resources.abc': 11, 'asyncio.taskgroups': 11, 'asyncio.timeouts': 11, 'wsgiref.types': 11,
               'importlib.resources.simple': 11, 'asyncio.threads': 9, 'asyncio.mixins': 10, 'asyncio.exceptions': 8}
GONE_MODULES = {'asynchat': 12, 'asyncore': 12, 'distutils': 12, 'imp': 12, 'smtpd': 12, 'binhex': 11, 'formatter': 10, 'parser': 10,
                'symbol': 10, 'macpath': 8, 'dummy_threading': 9, '_dummy_thread': 9}


def _table(text):
    out = {}
    for line in text.strip().splitlines():
        mod, _, rest = line.partition(':')
        for item in rest.split():
            name, _, v = item.partition('@')
            out[(mod.strip(), name)] = int(v)
    return out


# names the standard library gained in 3.8, 3.9, 3.10 (later ones come from data/stdlib_names.json)
NEW = _table('''
math: prod@8 isqrt@8 comb@8 perm@8 dist@8 lcm@9 nextafter@9 ulp@9 cbrt@11 exp2@11 sumprod@12
itertools: pairwise@10 batched@12
functools: cached_property@8 singledispatchmethod@8 cache@9
typing: Protocol@8 Literal@8 Final@8 final@8 TypedDict@8 SupportsIndex@8 runtime_checkable@8 get_args@8 get_origin@8 Annotated@9 ParamSpec@10 Concatenate@10 TypeAlias@10 TypeGuard@10 is_typeddict@10 ParamSpecArgs@10 ParamSpecKwargs@10
statistics: fmean@8 geometric_mean@8 multimode@8 quantiles@8 NormalDist@8 correlation@10 covariance@10 linear_regression@10
random: randbytes@9 binomialvariate@12
random.Random: randbytes@9 binomialvariate@12
datetime.datetime: fromisocalendar@8
datetime.date: fromisocalendar@8
builtins: aiter@10 anext@10 EncodingWarning@10 ExceptionGroup@11 BaseExceptionGroup@11
builtins.str: removeprefix@9 removesuffix@9
builtins.bytes: removeprefix@9 removesuffix@9
builtins.int: as_integer_ratio@8 bit_count@10 is_integer@12
bisect: 
collections.Counter: total@10
contextlib: aclosing@10 chdir@11
operator: call@11
shlex: join@8
os: add_dll_directory@8 memfd_create@8 unshare@12 waitstatus_to_exitcode@9 pidfd_open@9 EFD_CLOEXEC@10 eventfd@10
pathlib.Path: link_to@8 readlink@9 is_relative_to@9 with_stem@9 hardlink_to@10 walk@12
sys: addaudithook@8 audit@8 unraisablehook@8 pycache_prefix@8 orig_argv@10 stdlib_module_names@10 platlibdir@9 exception@11 activate_stack_trampoline@12 monitoring@12
threading: excepthook@8 get_native_id@8 gettrace@10 getprofile@10
types: CodeType.replace@8 GenericAlias@9 NoneType@10 UnionType@10 EllipsisType@10 NotImplementedType@10 CellType@8 get_original_bases@12
inspect: get_annotations@10 getattr_static@2 getmembers_static@11
unittest: IsolatedAsyncioTestCase@8 addModuleCleanup@8 doModuleCleanups@8 enterModuleContext@11
unittest.mock: AsyncMock@8 ThreadingMock@13
asyncio: run@7 to_thread@9 TaskGroup@11 timeout@11 Runner@11
ast: get_source_segment@8 unparse@9 literal_eval@2 TypeIgnore@8 NamedExpr@8 Match@10
fractions: 
pickle: PickleBuffer@8 PROTOCOL_5@8
copy: replace@13
enum: StrEnum@11 EnumType@11 FlagBoundary@11 verify@11 property@11 member@11 nonmember@11 global_enum@11 ReprEnum@11 show_flag_values@11
dataclasses: KW_ONLY@10
graphlib: TopologicalSorter@9
secrets: 
string: 
textwrap: 
time: pthread_getcpuclockid@7 clock_gettime_ns@7
traceback: print_exception@2
uuid: 
importlib.metadata: version@8
importlib.resources: files@9 as_file@9
gc: freeze@7 is_finalized@9
logging: getLevelNamesMapping@11 getHandlerNames@12 getHandlerByName@12
heapq: 
abc: update_abstractmethods@10
weakref: 
warnings: 
hashlib: file_digest@11
''')
GONE = _table('''
collections: Mapping@10 MutableMapping@10 Sequence@10 MutableSequence@10 Iterable@10 Iterator@10 Callable@10 Set@10 MutableSet@10 Hashable@10 Sized@10 Container@10 Collection@10 Generator@10 Awaitable@10 Coroutine@10 AsyncIterable@10 AsyncIterator@10 Reversible@10 KeysView@10 ValuesView@10 ItemsView@10 MappingView@10 ByteString@10
inspect: getargspec@11 formatargspec@11 getmoduleinfo@6
asyncio: coroutine@11 async@7
fractions: gcd@9
math: 
time: clock@8
cgi: escape@8
platform: linux_distribution@8 dist@8 popen@8
base64: encodestring@9 decodestring@9
random.Random: jumpahead@3
sys: getcheckinterval@9 setcheckinterval@9 callstats@9 set_coroutine_wrapper@8
html.parser: HTMLParseError@5
gettext: lgettext@11
threading: 
array: 
locale: format@12
unittest: makeSuite@13 findTestCases@13 _TextTestResult@12
xml.etree.ElementTree: 
importlib: find_loader@12
pkgutil: ImpImporter@12 ImpLoader@12
configparser: SafeConfigParser@12
''')
# attribute names no older class in reach has, whatever the receiver
METHODS = {'removeprefix': 9, 'removesuffix': 9, 'bit_count': 10, 'randbytes': 9, 'fromisocalendar': 8, 'binomialvariate': 12, 'add_note': 11,
           'is_relative_to': 9, 'with_stem': 9, 'hardlink_to': 10, 'toreadonly': 8, 'addClassCleanup': 8, 'enterContext': 11,
           'cache_parameters': 9, 'shutdown_default_executor': 9}
# keyword arguments (by resolved callable, or by method name as '.name')
KWARGS = {('builtins.zip', 'strict'): 10, ('builtins.sum', 'start'): 8, ('builtins.pow', 'base'): 8, ('builtins.pow', 'exp'): 8, ('builtins.pow', 'mod'): 8,
          ('itertools.accumulate', 'initial'): 8, ('itertools.batched', 'strict'): 13, ('builtins.map', 'strict'): 14,
          ('bisect.bisect', 'key'): 10, ('bisect.bisect_left', 'key'): 10, ('bisect.bisect_right', 'key'): 10, ('bisect.insort', 'key'): 10,
          ('bisect.insort_left', 'key'): 10, ('bisect.insort_right', 'key'): 10, ('random.sample', 'counts'): 9, ('.sample', 'counts'): 9,
          ('inspect.signature', 'eval_str'): 10, ('inspect.signature', 'globals'): 10, ('inspect.signature', 'locals'): 10,
          ('dataclasses.dataclass', 'slots'): 10, ('dataclasses.dataclass', 'kw_only'): 10, ('dataclasses.dataclass', 'match_args'): 10,
          ('dataclasses.dataclass', 'weakref_slot'): 11, ('dataclasses.field', 'kw_only'): 10, ('warnings.warn', 'skip_file_prefixes'): 12,
          ('warnings.catch_warnings', 'action'): 11, ('warnings.catch_warnings', 'category'): 11, ('typing.TypeVar', 'default'): 13,
          ('typing.TypeVar', 'infer_variance'): 12, ('typing.get_type_hints', 'include_extras'): 9, ('statistics.fmean', 'weights'): 11,
          ('functools.lru_cache', 'typed'): 3, ('.index', 'key'): 99, ('tempfile.TemporaryDirectory', 'ignore_cleanup_errors'): 10,
          ('os.makedirs', 'parents'): 99, ('.isoformat', 'sep'): 0, ('shutil.copytree', 'dirs_exist_ok'): 8, ('.unlink', 'missing_ok'): 8,
          ('pathlib.Path.unlink', 'missing_ok'): 8, ('.to_bytes', 'strict'): 99, ('logging.basicConfig', 'encoding'): 9, ('logging.basicConfig', 'force'): 8,
          ('ast.parse', 'feature_version'): 8, ('ast.dump', 'indent'): 9, ('math.isqrt', 'n'): 99, ('textwrap.shorten', 'x'): 99}
KWARGS = {k: v for k, v in KWARGS.items() if v < 90}
KWARGS_GONE = {('random.shuffle', 'random'): 11, ('.shuffle', 'random'): 11, ('json.loads', 'encoding'): 9, ('asyncio.sleep', 'loop'): 10,
               ('asyncio.wait', 'loop'): 10, ('asyncio.Queue', 'loop'): 10, ('datetime.utcnow', 'x'): 99}
# (callable, fewest positional arguments, most) -> versions needed outside that range
ARITY = {'math.gcd': (2, 2, 9), 'math.hypot': (2, 2, 8), 'random.gauss': (2, 2, 11), '.gauss': (2, 2, 11), 'random.normalvariate': (2, 2, 11),
         '.normalvariate': (2, 2, 11), 'random.expovariate': (1, 1, 12), '.expovariate': (1, 1, 12), '.to_bytes': (2, 2, 11),
         'int.to_bytes': (3, 3, 11), 'int.from_bytes': (2, 2, 11), 'math.nextafter': (2, 2, 9), 'itertools.accumulate': (1, 2, 99)}
OLD_TYPING_EXTENSIONS = {'Protocol', 'ClassVar', 'Type', 'NewType', 'Text', 'overload', 'NoReturn', 'ContextManager', 'Counter', 'DefaultDict',
                         'Deque', 'TYPE_CHECKING', 'AsyncIterable', 'AsyncIterator', 'Awaitable', 'Coroutine', 'AsyncContextManager',
                         'AsyncGenerator', 'ChainMap', 'runtime', 'Generic'}
NO_GENERIC = {'builtins.' + n for n in ('list', 'dict', 'tuple', 'set', 'frozenset', 'type', 'enumerate', 'filter', 'map', 'zip', 'reversed')}
SUBSCRIPTABLE_MODULES = ('collections', 'collections.abc', 'contextlib', 're', 'os', 'queue', 'weakref', 'functools', 'itertools', 'types',
                         'concurrent.futures', 'asyncio', 'array')
NOT_SUBSCRIPTABLE_IN = {'itertools': {'chain': 9}}
CATCH = {'import': {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException', ''},
         'attr': {'AttributeError', 'ImportError', 'ModuleNotFoundError', 'NameError', 'Exception', 'BaseException', ''},
         'type': {'TypeError', 'Exception', 'BaseException', ''}, 'syntax': set()}


class Finding:
    def __init__(self, ok, rule, msg, line):
        self.ok, self.rule, self.msg, self.line = ok, rule, msg, line


def supported(pyproject):
    """The minor versions the project declares (and the one in use)."""
    out = set()
    try:
        with open(pyproject, encoding='utf-8') as f:
            for line in f:
                i = line.find('Programming Language :: Python :: 3.')
                if i >= 0:
                    d = ''.join(c for c in line[i + len('Programming Language :: Python :: 3.'):] if c.isdigit())
                    if d:
                        out.add(int(d))
    except OSError:
        pass
    return frozenset(out or {7, 8, 9, 10, 11}) | {12}


class Checker(ast.NodeVisitor):
    def __init__(self, program, module, versions, packaged):
        with open(DATA, encoding='utf-8') as f:
            self.data = json.load(f)
        self.p, self.m, self.all = program, module, versions
        self.live = versions
        self.catch = [set()]
        self.out = []
        self.ndict = packaged
        self.fn = []
        self.future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names)
                          for s in module.tree.body)
        self._binds = None

    # ---------------------------------------------------------------- reporting
    def need(self, node, kind, what, since=None, until=None, rule=None):
        bad = {v for v in self.live if (since is not None and v < since) or (until is not None and v >= until)}
        rule = rule or 'stdlib'
        if bad and not (self.catch[-1] & CATCH[kind]):
            self.out.append(Finding(False, rule, '%s needs Python %s, but the code can run on 3.%s' % (
                what, ('3.%d or newer' % since) if since is not None and min(bad) < since else 'older than 3.%d' % until,
                ', 3.'.join(str(v) for v in sorted(bad))), node.lineno))
        else:
            self.out.append(Finding(True, rule, what, node.lineno))

    def bad(self, node, rule, msg):
        self.out.append(Finding(False, rule, msg, node.lineno))

    def fine(self, node, rule, msg):
        self.out.append(Finding(True, rule, msg, node.lineno))

    # ---------------------------------------------------------------- version guards
    def const(self, e, v, depth=0):
        """The value of a version expression on Python 3.v, or raises KeyError."""
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Tuple):
            return tuple(self.const(x, v, depth) for x in e.elts)
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = self.dotted(e)
            if d == 'sys.version_info':
                return (3, v, 5, 'final', 0)
            if d in ('sys.version_info.minor',):
                return v
            if d in ('sys.version_info.major',):
                return 3
            if d == 'sys.hexversion':
                return (3 << 24) | (v << 16) | (5 << 8) | 0xf0
            if d == 'typing.TYPE_CHECKING':
                return False
            if depth < 4:
                r = self.p.resolve_expr(self.m, e)
                if r is not None and r[0] == 'expr':
                    return Checker._in(self, r[1]).const(r[2], v, depth + 1)
            raise KeyError
        if isinstance(e, ast.Subscript):
            b = self.const(e.value, v, depth)
            if isinstance(e.slice, ast.Slice):
                g = [None if x is None else self.const(x, v, depth) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                return b[slice(*g)]
            return b[self.const(e.slice, v, depth)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.const(e.operand, v, depth)
        if isinstance(e, ast.Compare):
            left = self.const(e.left, v, depth)
            for op, c in zip(e.ops, e.comparators):
                r = self.const(c, v, depth)
                ok = {'GtE': lambda: left >= r, 'Gt': lambda: left > r, 'Lt': lambda: left < r, 'LtE': lambda: left <= r,
                      'Eq': lambda: left == r, 'NotEq': lambda: left != r}.get(type(op).__name__)
                if ok is None:
                    raise KeyError
                if not ok():
                    return False
                left = r
            return True
        raise KeyError

    def _in(self, m):
        c = Checker.__new__(Checker)
        c.__dict__.update(self.__dict__)
        c.m = m
        c._binds = None
        c.fn = []
        return c

    def split(self, test):
        """(versions on which the test can be true, on which it can be false)."""
        if isinstance(test, ast.BoolOp):
            t, f = self.split(test.values[0])
            for x in test.values[1:]:
                a, b = self.split(x)
                if isinstance(test.op, ast.And):
                    t, f = t & a, f | b
                else:
                    t, f = t | a, f & b
            return t, f
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.split(test.operand)
            return f, t
        t, f = set(), set()
        for v in self.all:
            try:
                (t if self.const(test, v) else f).add(v)
            except (KeyError, TypeError, IndexError):
                t.add(v)
                f.add(v)
        return frozenset(t), frozenset(f)

    # ---------------------------------------------------------------- names
    def dotted(self, e):
        """The dotted name of a standard-library object an expression denotes, or None."""
        if isinstance(e, ast.Name):
            for fr in reversed(self.fn):
                if e.id in fr['bound'] and e.id not in fr['imports']:
                    return None
                if e.id in fr['imports']:
                    return fr['imports'][e.id]
            r = self.p.resolve_name(self.m, e.id)
            if r is None:
                import builtins
                return 'builtins.' + e.id if hasattr(builtins, e.id) or ('builtins', e.id) in NEW else None
            return r[1] if r[0] == 'ext' else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            if b is not None:
                return b + '.' + e.attr
            r = self.p.resolve_expr(self.m, e) if not self.shadowed(e) else None
            return r[1] if r is not None and r[0] == 'ext' else None
        return None

    def shadowed(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return not isinstance(e, ast.Name) or any(e.id in fr['bound'] for fr in self.fn)

    def exists(self, node, dotted, kind='attr'):
        """A dotted standard-library name must exist on every version."""
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod, name = '.'.join(parts[:i]), parts[i]
            if (mod, name) in NEW:
                self.need(node, kind, dotted, since=NEW[(mod, name)])
                return
            if (mod, name) in GONE:
                self.need(node, kind, dotted, until=GONE[(mod, name)])
                return
        for i in range(len(parts) - 1, 0, -1):
            mod, name = '.'.join(parts[:i]), parts[i]
            d = self.data.get(mod)
            if d is None:
                continue
            if i + 1 < len(parts):
                v = d['new_methods'].get('.'.join(parts[i:i + 2]))
                if v:
                    self.need(node, kind, dotted, since=v)
                    return
            if name in d['names']:
                v = d['names'][name]
                if v:
                    self.need(node, kind, dotted, since=v[0] or None, until=v[1] if v[1] < 99 else None)
                else:
                    self.fine(node, 'stdlib', dotted)
                return
            if mod + '.' + name in self.data or mod + '.' + name in NEW_MODULES:
                self.module(node, mod + '.' + name)
                return
            if name.startswith('__') or mod == 'builtins':
                return
            if not (self.catch[-1] & CATCH[kind]):
                self.bad(node, 'stdlib', 'the standard library has no %s' % dotted)
            return
        self.fine(node, 'stdlib', dotted)

    def module(self, node, name):
        top = name.split('.')[0]
        if top == self.p.package:
            return
        if top in ('typing_extensions', 'importlib_metadata'):
            want = self.ndict[top]
            left = set(self.live) - want
            if left and not (self.catch[-1] & CATCH['import']):
                self.bad(node, 'dependencies', '%s is imported on 3.%s, where it is not declared as a dependency' % (
                    name, ', 3.'.join(str(v) for v in sorted(left))))
            else:
                self.fine(node, 'dependencies', name)
            return
        if top not in sys.stdlib_module_names and top not in GONE_MODULES and top != '__future__':
            if not (self.catch[-1] & CATCH['import']):
                self.bad(node, 'dependencies', '%s is not part of the standard library' % name)
            return
        if name in NEW_MODULES:
            self.need(node, 'import', 'module ' + name, since=NEW_MODULES[name], rule='dependencies')
        elif top in NEW_MODULES:
            self.need(node, 'import', 'module ' + name, since=NEW_MODULES[top], rule='dependencies')
        elif top in GONE_MODULES:
            self.need(node, 'import', 'module ' + name, until=GONE_MODULES[top], rule='dependencies')
        else:
            self.fine(node, 'dependencies', name)

    # ---------------------------------------------------------------- what kind of object an expression is
    def kind(self, e, depth=0):
        if depth > 6 or e is None:
            return None
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(e, (ast.Tuple,)):
            return 'tuple'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, ast.JoinedStr) or (isinstance(e, ast.Constant) and isinstance(e.value, str)):
            return 'str'
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return 'int'
        if isinstance(e, ast.Call):
            d = self.dotted(e.func)
            if d in ('builtins.dict', 'collections.OrderedDict', 'collections.defaultdict', 'collections.ChainMap', 'builtins.vars',
                     'builtins.globals', 'builtins.locals'):
                return 'dict'
            if d in ('builtins.set', 'builtins.frozenset'):
                return 'set'
            if d in ('builtins.tuple', 'builtins.list', 'builtins.str', 'builtins.int'):
                return d.split('.')[1]
            if d in ('builtins.len', 'builtins.ord', 'builtins.id', 'builtins.hash'):
                return 'int'
            if d in ('builtins.repr', 'builtins.chr', 'builtins.format'):
                return 'str'
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
                return self.kind(e.func.value, depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'values', 'items') and not e.args:
                return 'dictview'
            r = None if self.shadowed(e.func) else self.p.resolve_expr(self.m, e.func)
            if r is not None and r[0] == 'class' and any(b in ('collections.OrderedDict', 'builtins.dict', 'collections.UserDict') for b in r[1].mro()):
                return 'dict'
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.kind(e.left, depth + 1) if self.kind(e.left, depth + 1) == self.kind(e.right, depth + 1) else None
        if isinstance(e, ast.IfExp):
            a, b = self.kind(e.body, depth + 1), self.kind(e.orelse, depth + 1)
            return a if a == b else None
        if isinstance(e, ast.Name):
            for fr in reversed(self.fn):
                if e.id in fr['kinds']:
                    return fr['kinds'][e.id]
                if e.id in fr['assigned']:
                    vals = fr['assigned'][e.id]
                    if None in vals:
                        return None
                    ks = {self.kind(x, depth + 1) for x in vals}
                    return ks.pop() if len(ks) == 1 else None
                if e.id in fr['bound']:
                    return None
            r = self.p.resolve_name(self.m, e.id)
            if r is not None and r[0] == 'expr':
                return self._in(r[1]).kind(r[2], depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            if e.attr == '__dict__':
                return 'dict'
            ks = {self.kind(v, depth + 1) if not isinstance(v, str) else v for v in attr_values(self.p).get(e.attr, ())}
            return ks.pop() if len(ks) == 1 else None
        return None

    # ---------------------------------------------------------------- statements
    def block(self, body):
        before = self.live
        for s in body:
            self.visit(s)
            if isinstance(s, ast.If):
                t, f = self.split(s.test)
                if stops(s.body):
                    self.live = self.live & f
                elif s.orelse and stops(s.orelse):
                    self.live = self.live & t
        self.live = before

    def visit_Module(self, n):
        self.block(n.body)

    def visit_If(self, n):
        self.visit(n.test)
        t, f = self.split(n.test)
        # a constant-false test such as TYPE_CHECKING leaves no version
        keep = self.live
        self.live = keep & t
        if self.live:
            self.block(n.body)
        self.live = keep & f
        if self.live:
            self.block(n.orelse)
        self.live = keep

    def visit_IfExp(self, n):
        self.visit(n.test)
        t, f = self.split(n.test)
        keep = self.live
        self.live = keep & t
        if self.live:
            self.visit(n.body)
        self.live = keep & f
        if self.live:
            self.visit(n.orelse)
        self.live = keep

    def visit_BoolOp(self, n):
        keep = self.live
        for v in n.values:
            if self.live:
                self.visit(v)
            t, f = self.split(v)
            self.live = self.live & (t if isinstance(n.op, ast.And) else f)
        self.live = keep

    def visit_Try(self, n):
        names = set()
        for h in n.handlers:
            if h.type is None:
                names.add('')
            for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []):
                names.add(e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else '?')
        self.catch.append(self.catch[-1] | names)
        self.block(n.body)
        self.catch.pop()
        for h in n.handlers:
            # what a handler does runs where the body failed: a fallback import is on the versions without the other
            if h.type is not None:
                self.visit(h.type)
            keep = self.live
            if names & CATCH['import'] and len(n.body) == 1 and isinstance(n.body[0], (ast.Import, ast.ImportFrom)):
                since = self.import_since(n.body[0])
                if since:
                    self.live = frozenset(v for v in self.live if v < since) or self.live
            self.block(h.body)
            self.live = keep
        self.block(n.orelse)
        self.block(n.finalbody)

    def import_since(self, s):
        out = 0
        if isinstance(s, ast.Import):
            for a in s.names:
                out = max(out, NEW_MODULES.get(a.name, 0))
        elif not s.level:
            for a in s.names:
                out = max(out, NEW_MODULES.get(s.module, 0), NEW_MODULES.get('%s.%s' % (s.module, a.name), 0), NEW.get((s.module, a.name), 0))
        return out

    def visit_Import(self, n):
        for a in n.names:
            self.module(n, a.name)

    def visit_ImportFrom(self, n):
        if n.level or not n.module or n.module.split('.')[0] == self.p.package:
            return
        self.module(n, n.module)
        top = n.module.split('.')[0]
        for a in n.names:
            if top == 'typing_extensions' and a.name not in OLD_TYPING_EXTENSIONS:
                self.bad(n, 'dependencies', 'typing_extensions.%s is newer than the declared typing_extensions 3.6.5' % a.name)
            elif top in sys.stdlib_module_names and a.name != '*' and top != '__future__':
                self.exists(n, n.module + '.' + a.name, 'import')
            elif top == '__future__' and a.name not in ('annotations', 'generator_stop', 'division', 'print_function', 'absolute_import',
                                                        'unicode_literals', 'with_statement', 'nested_scopes', 'generators'):
                self.bad(n, 'syntax', 'from __future__ import %s' % a.name)

    # ---------------------------------------------------------------- functions and annotations
    def frame(self, n):
        fr = {'bound': set(), 'imports': {}, 'assigned': {}, 'kinds': {}}
        args = n.args
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            fr['bound'].add(a.arg)
            d = ann_kind(a.annotation)
            if d:
                fr['kinds'][a.arg] = d
        if args.vararg:
            fr['bound'].add(args.vararg.arg)
            fr['kinds'][args.vararg.arg] = 'tuple'
        if args.kwarg:
            fr['bound'].add(args.kwarg.arg)
            fr['kinds'][args.kwarg.arg] = 'dict'
        body = n.body if isinstance(n.body, list) else [n.body]
        glob = set()
        stack = list(body)
        while stack:
            s = stack.pop()
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                glob.update(s.names)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                fr['bound'].add(s.name)
                fr['assigned'].setdefault(s.name, []).append(None)
                continue
            if isinstance(s, ast.Lambda):
                continue
            if isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    fr['bound'].add(nm)
                    if a.name.split('.')[0] != self.p.package:
                        fr['imports'][nm] = a.name if a.asname else nm
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    fr['bound'].add(a.asname or a.name)
                    if not s.level and s.module.split('.')[0] != self.p.package:
                        fr['imports'][a.asname or a.name] = s.module + '.' + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        fr['assigned'].setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                d = ann_kind(s.annotation)
                if d:
                    fr['kinds'][s.target.id] = d
                elif s.value is not None:
                    fr['assigned'].setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                fr['bound'].add(s.id)
            stack.extend(ast.iter_child_nodes(s))
        # a name also bound by a loop, with, except or comprehension has no single kind
        simple = {id(t) for s in ast.walk(n) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        simple |= {id(s.target) for s in ast.walk(n) if isinstance(s, (ast.AnnAssign, ast.AugAssign))}
        for s in ast.walk(n):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and id(s) not in simple:
                fr['assigned'].setdefault(s.id, []).append(None)
        fr['bound'] -= glob
        return fr

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.decorator(d)
            self.visit(d)
        for x in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
            self.visit(x)
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            self.annotation(a.annotation)
        self.annotation(n.returns)
        if n.args.posonlyargs:
            self.need(n, 'syntax', 'a positional-only parameter', since=8, rule='syntax')
        if getattr(n, 'type_params', None):
            self.need(n, 'syntax', 'a type parameter list', since=12, rule='syntax')
        self.enter(n, n.body)

    visit_AsyncFunctionDef = visit_FunctionDef

    def enter(self, n, body):
        self.fn.append(self.frame(n))
        self.catch.append(set())
        self.block(body)
        self.catch.pop()
        self.fn.pop()

    def visit_Lambda(self, n):
        for x in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
            self.visit(x)
        if n.args.posonlyargs:
            self.need(n, 'syntax', 'a positional-only parameter', since=8, rule='syntax')
        self.fn.append(self.frame(n))
        self.visit(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        for d in n.decorator_list:
            self.decorator(d)
            self.visit(d)
        for b in n.bases:
            self.visit(b)
        for k in n.keywords:
            self.visit(k.value)
        if getattr(n, 'type_params', None):
            self.need(n, 'syntax', 'a type parameter list', since=12, rule='syntax')
        self.block(n.body)

    def visit_TypeAlias(self, n):
        self.need(n, 'syntax', 'a type statement', since=12, rule='syntax')

    def decorator(self, d):
        e = d.func if isinstance(d, ast.Call) else d
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name):
            self.need(d, 'syntax', 'a decorator that is not a dotted name or a call of one', since=9, rule='syntax')
        if not isinstance(d, ast.Call) and self.dotted(d) == 'functools.lru_cache':
            self.need(d, 'type', 'lru_cache without parentheses', since=8)

    def annotation(self, e):
        if e is None or self.future:
            return
        self.visit(e)
        for s in ast.walk(e):
            if isinstance(s, ast.BinOp) and isinstance(s.op, ast.BitOr):
                self.need(s, 'type', 'a type written X | Y, evaluated when the function is defined,', since=10, rule='syntax')

    def visit_AnnAssign(self, n):
        if not self.fn:
            self.annotation(n.annotation)
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)

    # ---------------------------------------------------------------- expressions
    def visit_NamedExpr(self, n):
        self.need(n, 'syntax', 'an assignment expression', since=8, rule='syntax')
        self.generic_visit(n)

    def visit_Match(self, n):
        self.need(n, 'syntax', 'a match statement', since=10, rule='syntax')
        self.generic_visit(n)

    def visit_TryStar(self, n):
        self.need(n, 'syntax', 'except*', since=11, rule='syntax')
        self.generic_visit(n)

    def visit_Return(self, n):
        self.bare_star(n, n.value)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.bare_star(n, n.value)
        self.generic_visit(n)

    def bare_star(self, n, v):
        if isinstance(v, ast.Tuple) and any(isinstance(e, ast.Starred) for e in v.elts) and not self.parens(v):
            self.need(n, 'syntax', 'an unparenthesized starred tuple in return or yield', since=8, rule='syntax')

    def parens(self, v):
        first = v.elts[0]
        return (v.lineno, v.col_offset) != (first.lineno, first.col_offset)

    def visit_For(self, n):
        if isinstance(n.iter, ast.Tuple) and any(isinstance(e, ast.Starred) for e in n.iter.elts) and not self.parens(n.iter):
            self.need(n, 'syntax', 'an unparenthesized starred tuple in for', since=9, rule='syntax')
        self.visit(n.target)
        self.visit(n.iter)
        self.block(n.body)
        self.block(n.orelse)

    def visit_While(self, n):
        self.visit(n.test)
        self.block(n.body)
        self.block(n.orelse)

    def visit_With(self, n):
        for i in n.items:
            self.visit(i)
        first = n.items[0].context_expr
        if n.items[-1].optional_vars is not None and n.lineno == first.lineno:
            pass
        self.block(n.body)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in n.slice.elts) and not self.parens(n.slice):
            self.need(n, 'syntax', 'a starred expression in an index', since=11, rule='syntax')
        d = self.dotted(n.value)
        if d is not None and isinstance(n.ctx, ast.Load) and self.generic(d):
            keep = self.live
            self.live = keep & self.bound_on(n.value)
            self.need(n, 'type', 'subscripting %s' % d, since=9)
            self.live = keep
        self.generic_visit(n)

    def generic(self, d):
        if d in NO_GENERIC:
            return True
        mod, _, name = d.rpartition('.')
        return mod in ('collections', 'collections.abc') and name[:1].isupper() or d in (
            'collections.deque', 'collections.defaultdict', 'itertools.chain', 'queue.Queue', 're.Pattern', 're.Match', 'os.PathLike',
            'contextlib.AbstractContextManager', 'functools.partial', 'functools.cached_property', 'weakref.ref', 'types.MappingProxyType')

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.BitOr):
            ks = {self.kind(n.left), self.kind(n.right)}
            if 'dict' in ks and not ks & {'set', 'dictview', 'int'}:
                self.need(n, 'type', 'merging dictionaries with |', since=9)
            elif self.typeish(n.left) and self.typeish(n.right):
                self.need(n, 'type', 'a union of types written X | Y', since=10)
        self.generic_visit(n)

    def typeish(self, e):
        if isinstance(e, ast.Constant) and e.value is None:
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.typeish(e.left) and self.typeish(e.right)
        d = self.dotted(e)
        if d is not None:
            nm = d.split('.')[-1]
            return d in NO_GENERIC or d in ('builtins.int', 'builtins.str', 'builtins.float', 'builtins.bool', 'builtins.bytes', 'builtins.complex',
                                            'datetime.date', 'datetime.datetime', 'datetime.time', 'datetime.timedelta') or (
                d.split('.')[0] in ('collections', 'decimal', 'fractions', 'numbers', 'random') and nm[:1].isupper())
        if isinstance(e, (ast.Name, ast.Attribute)) and not self.shadowed(e):
            r = self.p.resolve_expr(self.m, e)
            return r is not None and r[0] == 'class'
        return False

    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.BitOr):
            ks = {self.kind(n.target), self.kind(n.value)}
            if self.kind(n.target) == 'dict' or (ks == {'dict', None} and not isinstance(n.target, ast.Name)) or ks == {'dict'}:
                self.need(n, 'type', 'updating a dictionary with |=', since=9)
        self.generic_visit(n)

    def bound_on(self, e):
        """The versions on which the name an expression starts from is the import it resolves to."""
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name) or any(e.id in fr['bound'] for fr in self.fn):
            return self.all
        return self.name_on(self.m, e.id)

    def name_on(self, m, name, depth=0):
        b = m.globals.get(name)
        if b is not None and b[0] == 'from' and b[1] in self.p.modules and depth < 6:
            return self.name_on(self.p.modules[b[1]], b[2], depth + 1)
        c = self if m is self.m else self._in(m)
        if c._binds is None:
            c._binds = {}
            c.collect(m.tree.body, self.all)
        sites = c._binds.get(name, ())
        r = self.p.resolve_name(m, name)
        if len(sites) < 2 or r is None or r[0] != 'ext':
            return self.all
        out = frozenset()
        for name, vs in sites:
            if name == r[1]:
                out |= vs
        return out or self.all

    def collect(self, body, vs):
        for s in body:
            if isinstance(s, ast.If):
                t, f = self.split(s.test)
                self.collect(s.body, vs & t)
                self.collect(s.orelse, vs & f)
            elif isinstance(s, ast.Try):
                since = max([self.import_since(x) for x in s.body if isinstance(x, (ast.Import, ast.ImportFrom))] or [0])
                self.collect(s.body + s.orelse, frozenset(v for v in vs if v >= since))
                for h in s.handlers:
                    self.collect(h.body, frozenset(v for v in vs if v < since) if since else vs)
                self.collect(s.finalbody, vs)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self._binds.setdefault(a.asname or a.name.split('.')[0], []).append((a.name if a.asname else a.name.split('.')[0], vs))
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self._binds.setdefault(a.asname or a.name, []).append(('%s.%s' % (s.module, a.name), vs))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self._binds.setdefault(t.id, []).append((self.dotted(s.value) or '', vs))
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self._binds.setdefault(s.name, []).append(('', vs))

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            d = self.dotted(n)
            if d is not None and (tuple(d.rsplit('.', 1)) in NEW):
                keep = self.live
                self.live = keep & self.bound_on(n)
                self.exists(n, d)
                self.live = keep

    def visit_Attribute(self, n):
        d = self.dotted(n)
        if d is not None:
            if d.split('.')[0] in sys.stdlib_module_names:
                keep = self.live
                self.live = keep & self.bound_on(n)
                self.exists(n, d)
                self.live = keep
            return
        if n.attr in METHODS and not self.defined(n.attr) and not self.hasattr_guard(n.attr):
            self.need(n, 'attr', 'the method %s' % n.attr, since=METHODS[n.attr])
        elif n.attr in ('args', 'kwargs') and isinstance(n.value, ast.Call) and self.dotted(n.value.func) == 'unittest.mock.call':
            self.need(n, 'attr', 'call(...).%s' % n.attr, since=8)
        elif n.attr in ('args', 'kwargs') and isinstance(n.value, ast.Name) and self.fn and any(
                isinstance(v, ast.Call) and self.dotted(v.func) == 'unittest.mock.call' for v in self.fn[-1]['assigned'].get(n.value.id, ()) if v):
            self.need(n, 'attr', 'call(...).%s' % n.attr, since=8)
        elif n.attr == 'as_integer_ratio' and self.kind(n.value) == 'int':
            self.need(n, 'attr', 'int.as_integer_ratio', since=8)
        elif n.attr in ('year', 'week', 'weekday') and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'isocalendar':
            self.need(n, 'attr', 'isocalendar() with named fields', since=9)
        self.visit(n.value)

    def defined(self, name):
        return any(name in c.members for c in self.p.classes.values()) or any(f.name == name for f in self.p.functions)

    def hasattr_guard(self, name):
        for s in ast.walk(self.m.tree):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ('hasattr', 'getattr') and len(s.args) >= 2 and isinstance(
                    s.args[1], ast.Constant) and s.args[1].value == name:
                return True
        return False

    def visit_Call(self, n):
        d = self.dotted(n.func)
        if d is None and isinstance(n.func, ast.Attribute) and not self.defined(n.func.attr):
            d = '.' + n.func.attr
        if d is not None:
            if d.startswith('builtins.int.'):
                d = d[len('builtins.'):]
            for k in n.keywords:
                if (d, k.arg) in KWARGS:
                    self.need(n, 'type', '%s(%s=...)' % (d.lstrip('.'), k.arg), since=KWARGS[(d, k.arg)])
                if (d, k.arg) in KWARGS_GONE:
                    self.need(n, 'type', '%s(%s=...)' % (d.lstrip('.'), k.arg), until=KWARGS_GONE[(d, k.arg)])
            if d in ARITY and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                lo, hi, since = ARITY[d]
                if not lo <= len(n.args) <= hi and since < 90:
                    self.need(n, 'type', '%s with %d arguments' % (d.lstrip('.'), len(n.args)), since=since)
            if d in ('random.shuffle', '.shuffle') and len(n.args) == 2:
                self.need(n, 'type', 'shuffle with a second argument', until=11)
            if d in ('random.sample', '.sample') and n.args and self.kind(n.args[0]) in ('set', 'dictview'):
                self.need(n, 'type', 'sampling from a set', until=11)
            if d in ('random.Random', 'random.seed', '.seed') and n.args and self.kind(n.args[0]) in ('tuple',):
                self.need(n, 'type', 'seeding a generator with a tuple', until=11)
            if d == 'builtins.reversed' and n.args and self.kind(n.args[0]) in ('dict', 'dictview') and not self.ordered(n.args[0]):
                self.need(n, 'type', 'reversing a dictionary', since=8)
        self.generic_visit(n)

    def ordered(self, e):
        """OrderedDict views have always been reversible."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'values', 'items'):
            e = e.func.value
        if isinstance(e, ast.Call):
            return self.dotted(e.func) == 'collections.OrderedDict'
        if isinstance(e, ast.Name):
            # a local name: every assignment to it in the innermost function around
            around = [f for f in ast.walk(self.m.tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.lineno <= e.lineno <= f.end_lineno]
            if not around:
                return True
            vals = [a.value for a in ast.walk(max(around, key=lambda f: f.lineno)) if isinstance(a, (ast.Assign, ast.AnnAssign)) and any(
                isinstance(t, ast.Name) and t.id == e.id for t in (a.targets if isinstance(a, ast.Assign) else [a.target]))]
            return not vals or not all(isinstance(v, (ast.Dict, ast.DictComp)) or isinstance(v, ast.Call) and self.dotted(v.func) in
                                       ('builtins.dict', 'collections.defaultdict') for v in vals)
        return not isinstance(e, (ast.Dict, ast.DictComp))


def stops(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def ann_kind(e):
    if e is None:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e = ast.parse(e.value, mode='eval').body
        except SyntaxError:
            return None
    if isinstance(e, ast.Subscript):
        e = e.value
    nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ''
    return {'Dict': 'dict', 'dict': 'dict', 'OrderedDict': 'dict', 'Mapping': 'dict', 'MutableMapping': 'dict', 'ObjectMap': 'dict', 'Set': 'set',
            'set': 'set', 'FrozenSet': 'set', 'AbstractSet': 'set'}.get(nm)


_attrs = {}


def attr_values(p):
    """Every value the package assigns to an attribute of that name (properties returning one count as its value)."""
    key = id(p)
    if key in _attrs:
        return _attrs[key]
    out = {}
    for m in p.modules.values():
        if not m.name.startswith(p.package):
            continue
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute):
                        out.setdefault(t.attr, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute):
                out.setdefault(s.target.attr, []).append(ann_kind(s.annotation) or s.value)
            elif isinstance(s, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == 'property' for d in s.decorator_list):
                k = ann_kind(s.returns)
                if k:
                    out.setdefault(s.name, []).append(k)
                else:
                    out.setdefault(s.name, []).append(None)
    _attrs[key] = out
    return out


def fstring_extras(path):
    """f-string forms newer than the first supported version: (line, what, since)."""
    with open(path, encoding='utf-8') as f:
        src = f.read()
    out = []
    if not hasattr(tokenize, 'FSTRING_START'):
        return out
    stack = []
    prev = None
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.FSTRING_START:
            quote = t.string.lstrip('fFrRbBuU')
            for q in stack:
                if quote == q['quote']:
                    out.append((t.start[0], 'reusing the quotes of an f-string inside it', 12))
            stack.append({'quote': quote, 'depth': 0, 'line': t.start[0]})
        elif t.type == tokenize.FSTRING_END:
            stack.pop()
        elif stack and t.type == tokenize.OP:
            if t.string in '([{':
                stack[-1]['depth'] += 1
            elif t.string in ')]}':
                stack[-1]['depth'] -= 1
                if t.string == '}' and stack[-1]['depth'] == 0 and prev is not None and prev.type == tokenize.OP and prev.string == '=':
                    out.append((t.start[0], 'the = form of an f-string', 8))
            elif t.string in '!:' and stack[-1]['depth'] == 1 and prev is not None and prev.type == tokenize.OP and prev.string == '=':
                out.append((t.start[0], 'the = form of an f-string', 8))
        elif stack and t.type == tokenize.STRING:
            q = t.string.lstrip('rRbBuU')[:1]
            if stack[-1]['quote'][:1] == q and len(stack[-1]['quote']) == 1:
                out.append((t.start[0], 'reusing the quotes of an f-string inside it', 12))
            if '\\' in t.string:
                out.append((t.start[0], 'a backslash inside an f-string expression', 12))
        elif stack and t.type == tokenize.COMMENT:
            out.append((t.start[0], 'a comment inside an f-string', 12))
        if t.type not in (tokenize.NL, tokenize.NEWLINE):
            prev = t
    return out


def other_syntax(tree, versions):
    """Constructs the grammar of the oldest version rejects and the tree still shows."""
    for s in ast.walk(tree):
        if isinstance(s, ast.Try):
            for x in s.finalbody:
                for y in loops_out(x):
                    if isinstance(y, ast.Continue):
                        yield y.lineno, 'continue in a finally block', 8


def loops_out(s):
    stack = [s]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        yield n
        stack.extend(ast.iter_child_nodes(n))


def check_module(program, module, versions, packaged):
    c = Checker(program, module, versions, packaged)
    c.visit(module.tree)
    low = min(versions)
    with open(module.path, encoding='utf-8') as f:
        src = f.read()
    for line, what, since in list(fstring_extras(module.path)) + list(other_syntax(module.tree, versions)):
        if low < since:
            c.out.append(Finding(False, 'syntax', '%s needs Python 3.%d or newer' % (what, since), line))
    try:
        ast.parse(src, module.path, feature_version=(3, low))
        c.out.append(Finding(True, 'syntax', 'parses as Python 3.%d' % low, 1))
    except SyntaxError as e:
        if not any(not f.ok and f.rule == 'syntax' for f in c.out):
            c.out.append(Finding(False, 'syntax', 'does not parse as Python 3.%d: %s' % (low, e.msg), e.lineno or 1))
    return c.out
