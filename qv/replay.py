"""python -m qv.replay FILE: re-executes a counterexample on the real code with concrete values; exit 1 if it reproduces"""
import faulthandler
import importlib
import json
import sys

import qv
from . import harness


def main():
    faulthandler.dump_traceback_later(80, file=sys.stdout)
    with open(sys.argv[1]) as f:
        d = json.load(f)
    mod = importlib.import_module(d['module'])
    for c in mod.cases(d['tier']):
        if c.id == d['case']:
            ok, text = harness.replay_case(c, d['model'], d['values'])
            print('case %s\nmodel %s\n%s' % (d['case'], d['model'], text))
            return 1 if ok else 0
    print('case not found')
    return 3


if __name__ == '__main__':
    sys.exit(main())
