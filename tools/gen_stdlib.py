#!/usr/bin/env python3
"""Rebuilds data/stdlib_names.json from a typeshed checkout: which names the stdlib modules offer, and since when.

usage: gen_stdlib.py <typeshed>/stdlib      (the result is committed; no check runs this)
"""
import ast
import json
import os
import sys

MODULES = '''abc argparse array ast base64 bisect calendar cmath collections collections.abc concurrent.futures contextlib contextvars copy
csv ctypes dataclasses datetime decimal difflib dis enum fractions functools gc glob gzip hashlib heapq hmac html importlib importlib.abc
importlib.machinery importlib.metadata importlib.resources importlib.util inspect io itertools json keyword locale logging math numbers
operator os os.path pathlib pickle pkgutil platform pprint queue random re secrets shlex shutil signal statistics string struct subprocess
sys tempfile textwrap threading time timeit token tokenize traceback types typing unicodedata unittest unittest.mock uuid warnings weakref
zlib zoneinfo graphlib tomllib'''.split()
root = sys.argv[1]


def path(mod):
    p = os.path.join(root, *mod.split('.'))
    return p + '.pyi' if os.path.exists(p + '.pyi') else os.path.join(p, '__init__.pyi')


def version(test):
    """(since, until) minor versions the true branch covers, or None."""
    if isinstance(test, ast.Compare) and 'version_info' in ast.dump(test.left) and isinstance(test.comparators[0], ast.Tuple):
        v = test.comparators[0].elts[1].value
        if isinstance(test.ops[0], ast.GtE):
            return (v, 99)
        if isinstance(test.ops[0], ast.Lt):
            return (0, v)
    return None


def collect(body, lo, hi, out, members, mod):
    def put(n):
        a, b = out.get(n, (99, 0))
        out[n] = (min(a, lo), max(b, hi))
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            put(s.name)
        elif isinstance(s, ast.ClassDef):
            put(s.name)
            if members is not None:
                sub = {}
                collect(s.body, lo, hi, sub, None, mod)
                members.setdefault(s.name, {}).update(sub)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    put(t.id)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            put(s.target.id)
        elif isinstance(s, ast.ImportFrom):
            src = s.module or ''
            if s.level:
                src = (mod if path(mod).endswith('__init__.pyi') else mod.rpartition('.')[0]) + ('.' + src if src else '')
            for a in s.names:
                if a.name == '*':
                    sub = {}
                    try:
                        with open(path(src)) as f:
                            collect(ast.parse(f.read()).body, lo, hi, sub, members, src)
                    except OSError:
                        continue
                    for n, (x, y) in sub.items():
                        c, d = out.get(n, (99, 0))
                        out[n] = (min(c, x), max(d, y))
                else:
                    put(a.asname or a.name)
        elif isinstance(s, ast.Import):
            for a in s.names:
                put((a.asname or a.name).split('.')[0])
        elif isinstance(s, ast.If):
            v = version(s.test)
            if v is None:
                collect(s.body, lo, hi, out, members, mod)
                collect(s.orelse, lo, hi, out, members, mod)
            else:
                collect(s.body, max(lo, v[0]), min(hi, v[1]), out, members, mod)
                if v[1] == 99:
                    collect(s.orelse, lo, min(hi, v[0]), out, members, mod)
                else:
                    collect(s.orelse, max(lo, v[1]), hi, out, members, mod)


res = {}
for m in MODULES + ['builtins']:
    out, members = {}, {}
    with open(path(m)) as f:
        collect(ast.parse(f.read()).body, 0, 99, out, members, m)
    names = {}
    for n, (a, b) in out.items():
        if a >= 13:
            continue
        names[n] = 0 if (a, b) == (0, 99) else [a, b]
    new = {}
    for c, ms in members.items():
        for n, (a, b) in ms.items():
            if 11 <= a <= 12 and b == 99:
                new['%s.%s' % (c, n)] = a
    res[m] = {'names': names, 'new_methods': new}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'stdlib_names.json'), 'w') as f:
    json.dump(res, f, sort_keys=True, separators=(',', ':'))
    f.write('\n')
print({m: len(r['names']) for m, r in res.items()})
