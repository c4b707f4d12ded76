import importlib
import json
import os
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
# Hypothesis is pure Python and lives in the tooling venv; appended last, so nothing else there shadows ours.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import pbx.compat  # noqa: E402,F401  (before any code under test)
from pbx import core  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = importlib.import_module("checks.%s" % pid.lower())
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            r = json.load(f)
        part = {p.name: p for p in check.PARTS}[r["part"]]
        with tempfile.TemporaryDirectory(prefix="pbx_rp") as root:
            kind, msg = core.replay_case(part, r["case"], tier, seed, root)
        print(kind, msg)
        if kind in ("violation", "crash"):
            print("VIOLATION property=%s replay=%s" % (pid, args[1]))
        return 1 if kind in ("violation", "crash") else 2 if kind == "error" else 0
    return core.run_check(pid, check, tier, seed)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
