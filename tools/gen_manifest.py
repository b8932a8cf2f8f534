"""Writes MANIFEST.json from the specs present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('static analysis: path-sensitive abstract interpretation of the source (trace partitioning, symbolic sequence/loop summaries), '
        'obligations decided on the effect and value summaries of every path')
LINT = 'static analysis: syntax-tree queries over every module of the package'
TECHNIQUE = {'C33': TECH + '; numeric formulas compared in an algebraic normal form (products of powers), differences shown at a ground witness of the formulas'}
LINTS = {'C27', 'C28'}
NA = {
    'C30': 'quantifies over the limit distribution of pseudo-random draws; no static argument over the source bounds it, and the '
           'dataflow part is decided elsewhere (which weights reach the draw: C09; which weights the helpers give: C33)',
    'C32': 'termination and running time of the rejection loop in weighted_shuffle depend on the values drawn (it ends with '
           'probability one, with an expected time set by the weights): no ranking function exists on the source',
}
NOTE = ('decides the obligations listed in the evidence for inputs of any size and any call history covered by the scenarios; '
        'an obligation whose summary is imprecise is reported as undecided, never as proved')


def main():
    checks = []
    for i in range(1, 40):
        pid = 'C%02d' % i
        if not os.path.exists(os.path.join(ROOT, 'specs', pid.lower() + '.py')):
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'technique': LINT if pid in LINTS else TECHNIQUE.get(pid, TECH),
            'level': 'other',
            'level_note': NOTE,
        })
    have = {c['property'] for c in checks}
    na = []
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        pid = json.loads(line)['id']
        if pid not in have:
            na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
