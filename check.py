#!/usr/bin/env python3
"""Decide one property by static analysis of /repo.

usage: check.py ID [--tier quick|thorough] [--root DIR]

Exit 0: the property holds.  Exit 1: it is violated, and the line
"VIOLATION property=ID replay=FILE" is printed.  Any other exit: the analysis
itself could not be carried out.
"""
import argparse
import gc
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.engine import Broken, Budget, Program  # noqa: E402
from sa.report import Report, load_known  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--root', default='/repo/src')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 0)
    except ValueError:
        seed = 0
    rep = Report(a.property, tier, seed)
    gc.disable()
    try:
        mod = importlib.import_module('sa.rules.' + a.property.lower())
    except ImportError:
        print('no rules for property %s' % a.property)
        return 3
    try:
        prog = Program(a.root)
        mod.check(rep, prog, tier)
    except Broken as e:
        if not rep.found:
            print('ANALYSIS-BROKEN property=%s %s' % (a.property, e))
            return 2
        rep.floors = {}
    except Budget as e:
        if not rep.found:
            print('ANALYSIS-BUDGET property=%s %s' % (a.property, e))
            return 4
        rep.floors = {}
    except Exception:
        if not rep.found:
            traceback.print_exc()
            return 5
        rep.floors = {}
    return rep.finish(getattr(mod, 'LEVEL', 'other'), load_known(a.property))


if __name__ == '__main__':
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
