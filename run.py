#!/usr/bin/env python3
"""Runs one check: run.py C01 [--tier quick|thorough]."""
import argparse
import os
import sys
import traceback

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":   # sets are walked in the same order in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    from sa import checks, report
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    props = checks.CHECKS if a.property == ["all"] else a.property
    facts = {}
    code = 0
    for p in props:
        try:
            rc = checks.run(p, a.tier, facts)
        except report.Incomplete as e:
            rc = report.fail(p, str(e))
        except SyntaxError as e:
            rc = report.fail(p, f"source does not parse: {e}")
        except Exception:  # noqa: BLE001
            traceback.print_exc()
            rc = report.fail(p, "internal error")
        code = max(code, rc)
    return code


if __name__ == "__main__":
    sys.exit(main())
