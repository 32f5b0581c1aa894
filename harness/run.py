"""check entry point:  run.py C07 [--thorough] [--list]"""
import os
import sys
import traceback

import engine as E
import stages as S
import checks

FILES = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14",
         "C15", "C16", "C17", "C18", "C19", "C20", "C09", "C21", "C22"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = E.Ctx(prop, tier, seed)
    code = 2
    try:
        ctx.inline, ctx.dialect = 0, 0
        if prop in FILES:
            ctx.dialect = S.probe_inline(ctx)
            ctx.inline = 1 if ctx.dialect == 1 else 0
        try:
            checks.CHECKS[prop](ctx)
        except E.Enough:
            pass
        code = E.finish(ctx)
    except E.MachineryError as e:
        print("ERROR of the check (not a verdict): %s" % e)
        if ctx.violations:          # established before the error
            code = E.finish(ctx)
    except Exception:
        traceback.print_exc()
    finally:
        ctx.close()
    sys.exit(code)


main()
