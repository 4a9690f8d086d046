"""usage: check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib, checks_qis, checks_ipf, checks_qisi, checks_int, checks_sobol, checks_misc, checks_valid, checks_session, checks_view, checks_front, checks_stats, checks_total, checks_threads

CHECKS = {"C01": checks_qis.c01, "C02": checks_qis.c02, "C03": checks_qis.c03, "C04": checks_qis.c04, "C05": checks_ipf.c05, "C06": checks_ipf.c06, "C07": checks_qisi.c07, "C08": checks_qisi.c08,
          "C09": checks_int.c09, "C10": checks_int.c10, "C11": checks_sobol.c11, "C12": checks_sobol.c12,
          "C13": checks_misc.c13, "C14": checks_valid.c14,
          "C15": checks_session.c15, "C16": checks_view.c16,
          "C17": checks_front.c17, "C18": checks_stats.c18, "C19": checks_total.c19, "C20": checks_threads.c20}

if __name__ == "__main__":
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = lib.Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    try:
        rc = CHECKS[prop](ctx)
    except Exception as e:
        if isinstance(e, lib.Machinery):
            print(f"ERROR property={prop} {e}", file=sys.stderr)
        else:
            traceback.print_exc()
        # what had been established before still stands
        rc = ctx.finish() if ctx.violations else 2
    sys.exit(rc)
