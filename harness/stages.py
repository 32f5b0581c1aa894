"""One function per kind of conformance stage: run jobs on the code, hand the
records to TLC, keep the clauses that belong to the property."""
import json

import engine as E

HANG = {"k": "hang"}


def failed(r):
    return "hang" in r or "fatal" in r


def gap(j):
    return list(j.get("gap") or (0, 0, 0))


def run_jobs(ctx, jobs):
    res = E.execute(ctx, jobs)
    ctx.hangs += sum(1 for r in res if "hang" in r)
    return drop_skipped(ctx, jobs, res)


def drop_skipped(ctx, jobs, res):
    keep = [(j, r) for j, r in zip(jobs, res) if "skipped" not in r]
    ctx.skipped += len(jobs) - len(keep)
    return [k[0] for k in keep], [k[1] for k in keep]


def judge(ctx, stage, spec, cases, jobs, clauses, detail=None):
    """TLC verdict for the cases; violations of the property's clauses."""
    weight = None
    if spec == "TraceSong":
        weight = lambda c: len(c["b"]) // 2 * (4 if c["raw"] else 1) + (0 if c["tpn"] else 3000) + 20
    elif spec == "TraceGroup":
        weight = lambda c: sum(1 if r["same"] else len(r["b"]) // 2 * (4 if r["raw"] else 1) for r in c["runs"]) + 10
    elif spec == "TraceFault":
        weight = lambda c: len(c["runs"]) * (len(c["b"]) // 2 * (4 if c["raw"] else 1) + 5)
    elif spec == "TraceEst":
        weight = lambda c: len(c["ev"]) + 3000 * sum(1 for e in c["ev"] if e["k"] == "e")
    bad = E.validate(ctx, spec, cases, weight)
    st = ctx.parts.setdefault(stage, {"spec": spec, "cases": 0, "events": 0})
    st["cases"] += len(cases)
    nev = sum(len(c.get("ev", c.get("runs", [1]))) for c in cases)
    st["events"] += nev
    ctx.events += nev
    if cases and len(ctx.samples) < 6:
        ctx.samples.append({"stage": stage, "case": trim(cases[len(cases) // 2])})
    worst = []
    for cid, evs in bad.items():
        for l, cl in sorted(evs.items()):
            if "GROUP" in cl:
                raise E.MachineryError("group %s of %s is not one the specification equates"
                                       % (cid, stage))
            mine = cl & clauses
            for c in cl - clauses:
                ctx.other[c] = ctx.other.get(c, 0) + 1
            if mine:
                worst.append((cid, l, mine))
                break
    for cid, l, mine in worst:
        what = "%s case %d event %d: %s" % (stage, cid, l, ",".join(sorted(mine)))
        E.report_violation(ctx, what, {"stage": stage, "spec": spec, "event": l,
                                       "clauses": sorted(mine), "job": jobs[cid - 1],
                                       "case": cases[cid - 1]})
    if ctx.violations and not ctx.keep_going:
        raise E.Enough()
    return bad


def trim(c):
    s = json.dumps(c, separators=(",", ":"))
    return json.loads(s) if len(s) < 1500 else s[:1500] + "..."


# ----------------------------------------------------------------- stages --
def reader(ctx, stage, jobs, clauses):
    for j in jobs:
        j["job"] = "read"
        j["b"] = list(j["b"])
    jobs, res = run_jobs(ctx, jobs)
    cases = [{"b": j["b"], "gap": gap(j), "inline": ctx.inline,
              "ev": [HANG] if failed(r) else r["ev"]} for j, r in zip(jobs, res)]
    return judge(ctx, stage, "TraceReader", cases, jobs, clauses | {"hang"})


def opm(ctx, stage, jobs, clauses):
    for j in jobs:
        j["job"] = "opm"
    jobs, res = run_jobs(ctx, jobs)
    cases = [{"ev": [HANG] if failed(r) else r["ev"]} for j, r in zip(jobs, res)]
    return judge(ctx, stage, "TraceOpm", cases, jobs, clauses | {"hang"})


def opm_batch(ctx, stage, progs, clauses, size=200):
    """Many short histories, several per process."""
    jobs = [{"job": "opmbatch", "progs": progs[i:i + size]} for i in range(0, len(progs), size)]
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        if failed(r):
            cases.append({"ev": [HANG]})
            cj.append(j)
            continue
        for p, ev in zip(j["progs"], r["evs"]):
            cases.append({"ev": ev})
            cj.append({"job": "opm", "prog": p})
    return judge(ctx, stage, "TraceOpm", cases, cj, clauses | {"hang"})


def multi(ctx, stage, jobs, copm, cread):
    for j in jobs:
        j.setdefault("job", "multi")
        for s in j["sess"]:
            if "b" in s:
                s["b"] = list(s["b"])
    jobs, res = run_jobs(ctx, jobs)
    oc, oj, rc, rj = [], [], [], []
    for j, r in zip(jobs, res):
        evs = r.get("evs") or [[HANG] for _ in j["sess"]]
        for k, (s, ev) in enumerate(zip(j["sess"], evs)):
            if not ev:
                continue
            meta = dict(j, focus=k)
            if s["kind"] == "opm":
                oc.append({"ev": ev})
                oj.append(meta)
            else:
                rc.append({"b": s["b"], "gap": gap(s), "inline": ctx.inline, "ev": ev})
                rj.append(meta)
    if oc:
        judge(ctx, stage + "/opm", "TraceOpm", oc, oj, copm | {"hang"})
    if rc:
        judge(ctx, stage + "/read", "TraceReader", rc, rj, cread | {"hang"})


def est(ctx, stage, jobs, clauses):
    for j in jobs:
        j["job"] = "est"
    jobs, res = run_jobs(ctx, jobs)
    cases = [{"ev": [HANG] if failed(r) else r["ev"]} for j, r in zip(jobs, res)]
    return judge(ctx, stage, "TraceEst", cases, jobs, clauses | {"hang"})


BADOBS = {"ok": 2, "other": 0, "inst": {"st": "bad", "data": []},
          "song": {"st": "bad"}, "table": {"st": "bad"}, "state": {"st": "bad"}}


def song_case(ctx, j, r):
    want = {"inst": 0, "song": 0, "table": 0, "state": 0}
    want.update({k: v for k, v in j["want"].items() if k in want})
    return {"b": j["b"], "gap": gap(j), "raw": j.get("raw", 0), "inline": ctx.inline, "tpn": j["tpn"],
            "readable": 0 if j.get("missing") else 1, "cutzip": j.get("cutzip", 0),
            "pre": j.get("pre", {"inst": "none", "song": "none"}), "want": want,
            "obs": BADOBS if failed(r) else r["obs"]}


def song(ctx, stage, jobs, clauses):
    for j in jobs:
        j.setdefault("job", "song")
        j["b"] = list(j["b"])
        j.setdefault("tpn", 1000)
        j.setdefault("want", {"inst": 1, "song": 1})
        for k in ("inst", "song"):
            j["want"].setdefault(k, 0)
    jobs, res = run_jobs(ctx, jobs)
    cases = [song_case(ctx, j, r) for j, r in zip(jobs, res)]
    return judge(ctx, stage, "TraceSong", cases, jobs, clauses)


def songs_in_one_process(ctx, stage, lists, clauses):
    """Each list of song jobs is executed in one process, one after another."""
    jobs = [{"job": "songs", "list": [dict(x, b=list(x["b"])) for x in xs]} for xs in lists]
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        rs = r.get("list") or [{"hang": 1}] * len(j["list"])
        for k, (x, y) in enumerate(zip(j["list"], rs)):
            cases.append(song_case(ctx, x, y))
            cj.append(dict(j, focus=k))
    return judge(ctx, stage, "TraceSong", cases, cj, clauses)


def grown(ctx, stage, jobs, clauses):
    """jobs: {head, pieces, at, order, tpn}: exports of a state that grows."""
    for j in jobs:
        j["job"] = "grow"
        j["pieces"] = [list(x) for x in j["pieces"]]
        j["head"] = list(j["head"])
        j["b"] = j["head"] + [y for x in j["pieces"] for y in x]
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        rs = r.get("list") or [BADOBS] * len(j["at"])
        want = {"inst": int("i" in j["order"]), "song": int("s" in j["order"]), "table": int("t" in j["order"]),
                "state": 1, "cli": 0}
        for k, (n, obs) in enumerate(zip(j["at"], rs)):
            x = {"b": j["head"] + [y for z in j["pieces"][:n] for y in z], "tpn": j["tpn"], "want": want}
            cases.append(song_case(ctx, x, {"obs": obs}))
            cj.append(dict(j, focus=k))
    return judge(ctx, stage, "TraceSong", cases, cj, clauses)


def group(ctx, stage, jobs, clauses):
    """jobs: {tpn, runs:[{b, form, stdin, sub, same, skip}]}"""
    for j in jobs:
        j["job"] = "group"
        for r in j["runs"]:
            r["b"] = list(r["b"])
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        rs = r.get("runs") or [{"ok": 2, "dig": ""} for _ in j["runs"]]
        runs = []
        for x, y in zip(j["runs"], rs):
            if x.get("skip"):
                continue
            runs.append({"b": [] if x.get("same") else x["b"], "gap": gap(x), "raw": x.get("raw", 0), "inline": ctx.inline,
                         "same": 1 if x.get("same") else 0, "ok": y["ok"], "dig": y["dig"]})
        cases.append({"runs": runs})
        cj.append(j)
    return judge(ctx, stage, "TraceGroup", cases, cj, clauses)


def exports(ctx, stage, jobs, clauses):
    for j in jobs:
        j["job"] = "exports"
        j["b"] = list(j["b"])
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        rs = r.get("runs") or [{"ok": 2, "dig": "", "tpn": t} for t in j["rounds"]]
        for t in sorted(set(j["rounds"])):
            mine = [x for x in rs if x["tpn"] == t]
            cases.append({"runs": [{"b": j["b"] if k == 0 else [], "gap": gap(j), "raw": 0, "inline": ctx.inline,
                                    "same": 1 if k else 0, "ok": x["ok"], "dig": x["dig"]}
                                   for k, x in enumerate(mine)]})
            cj.append(j)
    return judge(ctx, stage, "TraceGroup", cases, cj, clauses)


def texports(ctx, stage, lists, clauses, turns=2):
    """Extractions alone and then all at once in threads of one process."""
    jobs = [{"job": "texports", "turns": turns, "list": [dict(x, b=list(x["b"])) for x in xs]} for xs in lists]
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        rs = r.get("lists") or [[{"ok": 2, "dig": ""}] * (1 + turns) for _ in j["list"]]
        for k, (x, ys) in enumerate(zip(j["list"], rs)):
            cases.append({"runs": [{"b": [] if n else x["b"], "gap": gap(x), "raw": 0, "inline": ctx.inline,
                                    "same": 1 if n else 0, "ok": y["ok"], "dig": y["dig"]}
                                   for n, y in enumerate(ys)]})
            cj.append(dict(j, focus=k))
    return judge(ctx, stage, "TraceGroup", cases, cj, clauses)


def fault(ctx, stage, jobs, clauses):
    """jobs: {b, raw, tpn, faults: [{k, ...}]}"""
    for j in jobs:
        j["job"] = "fault"
        j["b"] = list(j["b"])
    jobs, res = run_jobs(ctx, jobs)
    cases = []
    for j, r in zip(jobs, res):
        rs = r.get("runs") or [{"k": x["k"], "at": x.get("at", 0), "ok": 2, "whole": 0} for x in j["faults"]]
        cases.append({"b": j["b"], "raw": j.get("raw", 0), "inline": ctx.inline, "runs": rs})
    return judge(ctx, stage, "TraceFault", cases, jobs, clauses)


def ends(ctx, stage, streams, clauses, size=2000):
    """Many short command streams, several per process."""
    import gen
    head = list(gen.vgm(b""))
    jobs = [{"job": "ends", "head": head, "list": [list(q) for q in streams[i:i + size]]}
            for i in range(0, len(streams), size)]
    jobs, res = run_jobs(ctx, jobs)
    cases, cj = [], []
    for j, r in zip(jobs, res):
        rs = r.get("list")
        if rs is None:              # one of them never came back: find it
            one = [{"job": "ends", "head": head, "list": [q]} for q in j["list"][:200]]
            _, rr = run_jobs(ctx, one)
            rs = [(x.get("list") or [[0, 0]])[0] for x in rr]
            rs += [[0, 0]] * (len(j["list"]) - len(rs)) if all(e for _, e in rs) else []
        for q, (n, end) in zip(j["list"], rs):
            cases.append({"b": q, "inline": ctx.inline, "n": n, "end": end})
            cj.append({"job": "ends", "head": head, "list": [q]})
    return judge(ctx, stage, "TraceEnd", cases, cj, clauses)


# ---------------------------------------------------- dialect of opcode 0x68 --
PROBE = None


def probe_inline(ctx):
    """Which dialect of the PCM RAM write the code follows: both candidates are
    put to TLC; returns 0 (standard), 1 (inline data) or None (neither)."""
    import gen
    body = (gen.pcmram(2, b"") + bytes((0x54, 0x30, 0x54, 0x31, 0x07, 0x71)) +
            gen.ym(0x20, 0xc7) + gen.EOS)
    job = {"job": "read", "b": list(gen.vgm(body))}
    r = E.execute(ctx, [job])[0]
    ev = [HANG] if failed(r) else r["ev"]
    ctx.inline = 0
    cases = [{"b": job["b"], "gap": gap(job), "inline": i, "ev": ev} for i in (0, 1)]
    bad = E.validate(ctx, "TraceReader", cases)
    ok = [i for i in (0, 1) if (i + 1) not in bad]
    ctx.probe = (job, cases[0])
    return ok[0] if ok else None
