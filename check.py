#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decides one property on the current tree of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, storechecks, numchecks, normchecks, weightchecks, filechecks, settingschecks, seedchecks, toolchecks, faultchecks, crashchecks

CHECKS = {}
for p in storechecks.STORE_SPECS: CHECKS[p] = storechecks.store_check
CHECKS["C04"] = CHECKS["C05"] = storechecks.sched_check
CHECKS.update(C09=numchecks.packing_check, C10=numchecks.quantizer_check, C11=numchecks.dither_check, C12=normchecks.flag_check, C13=normchecks.accuracy_check, C14=weightchecks.weight_check, C06=filechecks.file_check, C07=filechecks.refuse_check, C08=settingschecks.persist_check, C21=settingschecks.refuse_check, C19=seedchecks.seed_check, C15=toolchecks.compress_check, C16=toolchecks.decompress_check, C22=faultchecks.fault_check, C23=crashchecks.crash_check)


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or vf.TIER == "thorough" else "quick"
    ck = vf.Check(pid, tier)
    try:
        CHECKS[pid](ck)
    except vf.InfraError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
