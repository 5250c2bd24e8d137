#!/usr/bin/env python3-vt
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
pid = sys.argv[1]
mods = {"U": "checks.u256", "F": "checks.field", "E": "checks.curve", "H": "checks.crypto", "M": "checks.crypto",
        "S": "checks.stark", "A": "checks.utils"}
m = importlib.import_module(mods[pid[0]])
sys.exit(m.CHECKS[pid]().run())
