#!/usr/bin/env python3
"""python3 tools/run.py <property id>: the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c_race, designs, vlib

MODULES = ["c_queue", "c_pool", "c_sched", "c_disp", "c_timer", "c_misc", "c_race", "c_release", "c_argparse", "c_data"]


def main():
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        vlib.TIER = sys.argv[2]
    prop = sys.argv[1]
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if prop in mod.CHECKS:
            try:
                c = vlib.Check(prop)
                mod.CHECKS[prop](c)
                if not c.violations:
                    c_race.own(c)
                if not c.violations:
                    designs.run(c)
                c.finish()
            except vlib.CheckError as e:
                print("CHECK ERROR:", e, flush=True)
                sys.exit(3)
            except SystemExit:
                raise
            except BaseException:
                traceback.print_exc()
                sys.exit(3)
    print("unknown property", prop)
    sys.exit(2)


main()
