#!/usr/bin/env python3
"""Usage: check.py ID [--tier quick|thorough] | check.py --replay FILE"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    # hash order must not influence the exploration itself
    if os.environ.get("PYTHONHASHSEED") != "0":
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   LC_ALL="C.UTF-8")
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    from acamc import core, registry, sizes
    if "--selftest" in argv:
        from acamc import selftest
        return selftest.main()
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            v = json.load(f)
        if v["kind"] == "case":
            from acamc import cases
            return cases.replay(v)
        if v["kind"] == "sizes":
            return sizes.replay(v)
        mod = importlib.import_module("acamc.checks." + v["kind"])
        return mod.replay(v)
    ids = [a for a in argv if not a.startswith("-") and a[0] == "C"]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not ids or ids == ["ALL"]:
        ids = list(registry.CHECKS)
    rc = 0
    for id in ids:
        t0 = time.time()
        mod = importlib.import_module("acamc.checks." + registry.CHECKS[id])
        chk = core.Check(id, tier)
        getattr(mod, "check_" + id, getattr(mod, "check", None))(chk)
        sizes.extend(chk)
        rc |= core.finish(chk, t0)
    return rc


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.exit(code)
