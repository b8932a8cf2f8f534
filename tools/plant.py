"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.txt and confirms each planted bug in a scratch copy.

    python3 tools/plant.py [id ...]

    prop: C18
    needs: ...
    breaks: ...
    --- src-relative file
    <<< old text >>> new text     (as in corpus/)
    --- demo
    python code: exit status 0 without the bug, nonzero with it
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def plant(f):
    sid = os.path.basename(f)[:-4]
    text = open(f).read()
    head, body = re.split(r'^(?=--- )', text, maxsplit=1, flags=re.M)
    meta = dict(re.findall(r'^(\w+): (.*)$', head, flags=re.M))
    edits, demo = [], ''
    for part in re.split(r'^--- ', body, flags=re.M)[1:]:
        path, rest = part.split('\n', 1)
        if path.strip() == 'demo':
            demo = rest
            continue
        for m in re.finditer(r'^<<<\n(.*?)^>>>\n(.*?)(?=^<<<|\Z)', rest, flags=re.M | re.S):
            edits.append((path.strip(), m.group(1), m.group(2)))
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        r = d + '/r'
        sh('git clone -q /repo %s' % r, d)
        out = os.path.join(ROOT, 'seeded', sid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(out + '/demo.py', 'w') as g:
            g.write(demo)
        with open(out + '/demo.sh', 'w') as g:
            g.write('#!/bin/bash\n# run from the root of the repository\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        clean = sh('bash %s/demo.sh' % out, r)
        for path, old, new in edits:
            p = os.path.join(r, 'src/fauxdoc', path)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, 'EDIT DOES NOT APPLY (%d): %s' % (s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new.rstrip('\n') + '\n' if new.strip() else '', 1))
        patch = sh('git diff', r).stdout
        with open(out + '/patch.diff', 'w') as g:
            g.write(patch)
        broken = sh('bash %s/demo.sh' % out, r)
        tests = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/src %s -m pytest -q -p no:cacheprovider tests' % (r, PY), r)
        where = sh('PYTHONPATH=%s/src %s -c "import fauxdoc; print(fauxdoc.__file__)"' % (r, PY), r).stdout
        assert where.startswith(r), where
        # lines that repairs of ours added do not count
        mine = sh('git blame -s 62549fc..HEAD -- . ', r)
        with open(out + '/meta.json', 'w') as g:
            json.dump({'property': meta['prop'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, g, indent=1)
            g.write('\n')
        msg = []
        if clean.returncode:
            msg.append('demo fails without the bug: ' + clean.stderr[-300:])
        if not broken.returncode:
            msg.append('demo passes with the bug')
        if tests.returncode:
            msg.append('tests fail: ' + tests.stdout[-300:])
        env = dict(os.environ, FX_REPO=r, FX_NOEV='1')
        c = sh('python3 check.py %s' % meta['prop'], ROOT, env=env)
        caught = c.returncode == 1 and 'VIOLATION property=%s ' % meta['prop'] in c.stdout
        return sid, ('; '.join(msg) or 'confirmed') + (', caught by ' + meta['prop'] if caught else ', MISSED by %s: %s' % (meta['prop'], c.stdout[-300:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    fs = [os.path.join(ROOT, 'tools/seeds', a + '.txt') for a in sys.argv[1:]] or sorted(glob.glob(os.path.join(ROOT, 'tools/seeds/*.txt')))
    with ThreadPoolExecutor(6) as ex:
        for sid, msg in ex.map(plant, fs):
            print('%-28s %s' % (sid, msg))
