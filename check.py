#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property on /repo's working tree. Exit 0: held on everything
explored; 1: violated; 2: no verdict."""
import argparse, json, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import Ctx, CheckError, LibraryCrash, finish          # noqa: E402


def module(prop):
    import contract
    if prop in contract.PROPS:
        return contract
    import importlib
    return importlib.import_module({"C11": "heap", "C12": "pair", "C13": "conc", "C14": "lockuse",
                                    "C15": "regen", "C16": "gen", "C17": "pair", "C19": "world", "C20": "foot", "C21": "cost"}[prop])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        m = module(a.prop)
        if a.replay:
            rec = json.load(open(a.replay))
            bad = m.replay(ctx, rec)
            print("reproduced" if bad else "not reproduced")
            return 1 if bad else 0
        m.check(ctx)
        return finish(ctx)
    except LibraryCrash as e:
        print(e.rec["stderr"][:1500])
        ctx.viols = [e.rec]
        return finish(ctx) if not a.replay else 1
    except CheckError as e:
        print(f"NO VERDICT: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
