"""Development regression: run the checks against small edits of the package (corpus/*.txt).

    python3 tools/mutate.py [--only TEXT] [--tests] [-j N]

An entry:
    === <name>: bad C17          (the C17 check must report it)   or   === <name>: good C05 C17 (these must stay quiet; '*' = all)
    --- src-relative file
    <<<
    old text
    >>>
    new text
    <<<  ...
"""
import argparse
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def entries():
    for f in sorted(glob.glob(os.path.join(ROOT, 'corpus', '*.txt'))):
        for block in re.split(r'^=== ', open(f).read(), flags=re.M)[1:]:
            head, body = block.split('\n', 1)
            name, spec = head.rsplit(': ', 1)
            kind, *pids = spec.split()
            edits = []
            for part in re.split(r'^--- ', body, flags=re.M)[1:]:
                path, rest = part.split('\n', 1)
                for m in re.finditer(r'^<<<\n(.*?)^>>>\n(.*?)(?=^<<<|\Z)', rest, flags=re.M | re.S):
                    edits.append((path.strip(), m.group(1), m.group(2)))
            yield name, kind, pids, edits


def all_pids():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(ROOT, 'specs', 'c[0-9][0-9].py')))


def run(entry, tests):
    name, kind, pids, edits = entry
    if pids == ['*']:
        pids = all_pids()
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', '.tox', '__pycache__'))
        for path, old, new in edits:
            p = os.path.join(d, 'r/src/fauxdoc', path)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'EDIT DOES NOT APPLY: %s' % old[:60], ''
            open(p, 'w').write(s.replace(old, new.rstrip('\n') + '\n' if new.strip() else '', 1))
        out = []
        for pid in pids:
            if not os.path.exists(os.path.join(ROOT, 'specs', pid.lower() + '.py')):
                out.append((pid, None, ''))
                continue
            try:
                r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), pid, '--only', ''] + [], cwd=ROOT, capture_output=True, text=True,
                                   timeout=900, env=dict(os.environ, FX_REPO=d + '/r', FX_NOEV='1'))
                out.append((pid, r.returncode, r.stdout + r.stderr))
            except subprocess.TimeoutExpired:
                out.append((pid, 'timeout', ''))
        t = ''
        if tests:
            r = subprocess.run([sys.executable, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d + '/r', capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=d + '/r/src', PYTHONDONTWRITEBYTECODE='1'))
            t = 'tests pass' if r.returncode == 0 else 'TESTS FAIL'
        want = 1 if kind == 'bad' else 0
        wrong = [(p, rc, o) for p, rc, o in out if rc != want]
        msg = ''
        for p, rc, o in out:
            und = len(re.findall(r'^UNDECIDED', o, flags=re.M))
            first = next((l for l in o.splitlines() if l.startswith('  ')), '')
            if rc != want:
                msg += '\n      %s rc=%s %s' % (p, rc, (first or o[-300:]).strip()[:300])
            if und:
                msg += '\n      %s %d undecided: %s' % (p, und, next(l for l in o.splitlines() if l.startswith('UNDECIDED'))[:260])
        return name, 'ok' if not wrong else 'WRONG', t + msg
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only', default='')
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    es = [e for e in entries() if re.search(a.only, e[0] + ' ' + e[1] + ' ' + ' '.join(e[2]))]
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        bad = 0
        for e, (name, res, msg) in zip(es, ex.map(lambda e: run(e, a.tests), es)):
            print('%-60s %-4s %-12s %s %s' % (name, e[1], ' '.join(e[2]), res, msg), flush=True)
            bad += res != 'ok'
    print('%d entries, %d wrong' % (len(es), bad))


main()
