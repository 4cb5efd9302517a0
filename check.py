#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo (see DESIGN.md)"""
import importlib
import os
import pkgutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
from engine.check import Check
from engine.ir import AnalysisBroken


def table():
    out = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module("checks." + m.name)
        out.update(getattr(mod, "CHECKS", {}))
    return out


def main():
    t = table()
    if len(sys.argv) != 2 or sys.argv[1] not in t:
        print("usage: check.py <%s>" % "|".join(sorted(t)))
        return 3
    c = Check(sys.argv[1])
    try:
        t[c.pid](c)
    except AnalysisBroken as e:
        c.broken.append(str(e))
    except Exception:
        c.broken.append(traceback.format_exc())
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
