#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only TEXT] [-v]"""
import argparse
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from fx.spec import report, AnalysisBroken
    try:
        rc = report(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.only, a.v)
    except (AnalysisBroken, SyntaxError) as e:
        print('ANALYSIS BROKEN: %s' % e)
        rc = 2
    sys.stdout.flush()
    box.append(rc)


if __name__ == '__main__':
    box = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(box[0] if box else 2)
