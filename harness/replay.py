"""Re-run a recorded violation against the code:  bin/replay REPLAY.json
exit 1: the violation is still there, 0: it is gone."""
import json
import sys

import engine as E
import stages as S


def main():
    d = json.load(open(sys.argv[1]))
    ctx = E.Ctx(d["property"], "quick", 1)
    ctx.keep_going = True
    ctx.dialect = S.probe_inline(ctx)
    ctx.inline = 1 if ctx.dialect == 1 else 0
    job, cl = d["job"], set(d["clauses"])
    kind = job["job"]
    if kind == "read":
        S.reader(ctx, "replay", [job], cl)
    elif kind == "opm":
        S.opm(ctx, "replay", [job], cl)
    elif kind == "opmbatch":
        S.opm_batch(ctx, "replay", job["progs"], cl)
    elif kind == "multi":
        S.multi(ctx, "replay", [job], cl, cl)
    elif kind == "est":
        S.est(ctx, "replay", [job], cl)
    elif kind == "song":
        S.song(ctx, "replay", [job], cl)
    elif kind == "songs":
        S.songs_in_one_process(ctx, "replay", [job["list"]], cl)
    elif kind == "group":
        S.group(ctx, "replay", [job], cl)
    elif kind == "grow":
        S.grown(ctx, "replay", [job], cl)
    elif kind == "exports":
        S.exports(ctx, "replay", [job], cl)
    elif kind == "fault":
        S.fault(ctx, "replay", [job], cl)
    elif kind == "ends":
        S.ends(ctx, "replay", job["list"], cl)
    elif kind == "texports":
        S.texports(ctx, "replay", [job["list"]], cl)
    for what, p in ctx.violations:
        print("violated: " + what)
        c = p["case"]
        if "ev" in c and p["event"] <= len(c["ev"]):
            print("  observed: " + json.dumps(c["ev"][p["event"] - 1])[:2000])
    ctx.close()
    if not ctx.violations:
        print("not reproduced on the current tree")
    sys.exit(1 if ctx.violations else 0)


main()
