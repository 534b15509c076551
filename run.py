#!/usr/bin/env python3
"""run.py <property> <quick|thorough>   |   run.py setup"""
import importlib, os, sys, traceback
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
from vf import core
from vf.registry import CHECKS


def main():
    if sys.argv[1] == "setup":
        for p in ("h_core", "h_lib"):
            print("build", p, round(core.build(p), 1), "s", flush=True)
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    mod, fn, pkg = CHECKS[prop]
    bt = core.build(pkg)
    c = core.Check(prop, tier)
    c.parts.append({"part": "build", "wall_s": round(bt, 1)})
    getattr(importlib.import_module("vf." + mod), fn)(c)
    return c.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.ToolError as e:
        print("TOOL-ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
