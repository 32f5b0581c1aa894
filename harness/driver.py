"""Runs recorded jobs against /repo/src (public interface only).

usage: driver.py JOBS.json OUT.json
Every job runs in a child process forked after the modules under test were
imported: each case starts from the same fresh module state, has its own
scratch directory, a CPU/memory/wall limit, and cannot disturb another case.
"""
import gzip
import hashlib
import io
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time as clock

import project as P

SRC = os.environ.get("VERIF_SRC", "/repo/src")
MAIN = os.path.join(SRC, "main.py")


def data_of(job):
    """The bytes of a job: b, with an optional run of equal bytes inserted."""
    q = bytes(job["b"])
    at, n, v = job.get("gap") or (0, 0, 0)
    return q[:at] + bytes([v]) * n + q[at:] if n else q


LONG = 8000


def pay_of(pay):
    """Payload and the long run of equal bytes in it, if any (at, n, v)."""
    if pay is None:
        return [], [0, 0, 0]
    if not isinstance(pay, (bytes, bytearray)):
        return [P.BAD], [0, 0, 0]
    if len(pay) < LONG:
        return list(pay), [0, 0, 0]
    m = len(pay) // 2
    v = bytes(pay[m:m + 1])
    a, z = pay[:m].rstrip(v), pay[m:].lstrip(v)
    n = len(pay) - len(a) - len(z)
    if len(a) + len(z) >= LONG:
        return (list(pay) if len(pay) < 100000 else [P.BAD]), [0, 0, 0]
    return list(a + z), [len(a), n, v[0]]


# ------------------------------------------------------------- observation --
def type_name(c):
    t = P.get(c, "command_type")
    n = P.get(t, "name")
    return n if isinstance(n, str) else ""


def obs_cmd(c):
    ty = type_name(c)
    pay, pg = pay_of(P.get(c, "payload"))
    return {"k": "cmd", "op": P.num(P.get(c, "command_id")), "ty": ty,
            "n": P.num(P.get(c, "samples")) if ty == "WAIT" else 0,
            "reg": P.num(P.get(c, "reg")) if ty == "YM2151" else 0,
            "val": P.num(P.get(c, "value")) if ty == "YM2151" else 0,
            "pay": pay, "pg": pg}


class NonSeek(io.RawIOBase):
    pass


def open_source(data, how):
    """A binary file object over data, as users hand one to reader()."""
    if how == "mem":
        return io.BytesIO(data)
    with open("in.vgm", "wb") as f:
        f.write(data)
    return open("in.vgm", "rb")


def obs_open(v):
    def clk(n):
        try:
            return P.le4(v.clock(n))
        except Exception:
            return [P.BAD] * 4

    def sup(n):
        try:
            return P.num(v.supports(n))
        except Exception:
            return P.BAD
    try:
        size = P.le5(v.size())
    except Exception:
        size = P.le5(None)
    return {"k": "open", "ver": P.num(P.get(v, "version")), "size": size,
            "ds": P.le5(P.get(v, "data_start")), "c13": clk("ym2413"),
            "c51": clk("ym2151"), "s13": sup("ym2413"), "s51": sup("ym2151"),
            "sxx": sup("ym2612")}


def step_cmd(it):
    try:
        return obs_cmd(next(it))
    except StopIteration:
        return {"k": "stop"}
    except Exception:
        return {"k": "err"}


def collected(it, limit):
    got, end = [], {"k": "hang"}
    for _ in range(limit):
        try:
            got.append(next(it))
        except StopIteration:
            end = {"k": "stop"}
            break
        except Exception:
            end = {"k": "err"}
            break
    return [obs_cmd(c) for c in got] + [end]


def in_pieces(v, limit):
    """The commands as a user gets them who leaves a loop and starts another."""
    ev, n = [], 0
    while len(ev) < limit:
        n += 1
        try:
            if n % 3 == 0:
                ev.append(obs_cmd(next(v if hasattr(v, "__next__") else iter(v))))
                continue
            at = 0
            for c in v:
                ev.append(obs_cmd(c))
                at += 1
                if at == n % 5 + 1 or len(ev) >= limit:
                    break
            else:
                return ev + [{"k": "stop"}]
        except StopIteration:
            return ev + [{"k": "stop"}]
        except Exception:
            return ev + [{"k": "err"}]
    return ev + [{"k": "hang"}]


def job_read(job, limit=None):
    from vgm.core import reader
    data = data_of(job)
    size = len(data)
    if job.get("gz"):
        data = gzip.compress(data, job["gz"].get("level", 6))
    f = open_source(data, job.get("how", "mem"))
    try:
        v = reader(f)
    except Exception:
        return {"ev": [{"k": "err"}]}
    if v is None:
        return {"ev": [{"k": "none"}]}
    ev = [obs_open(v)]
    try:
        it = iter(v)
    except Exception:
        return {"ev": ev + [{"k": "err"}]}
    if job.get("collect") == 1:       # all commands are kept and looked at afterwards
        return {"ev": ev[:1] + collected(it, len(job["b"]) + 3)}
    if job.get("collect") == 2:       # in loops that stop and go on, mixed with single steps
        return {"ev": ev + in_pieces(v, len(job["b"]) + 3)}
    for _ in range(size + 3 if job.get("squeeze") else len(job["b"]) + 3):
        e = step_cmd(it)
        if job.get("squeeze") and {k: v for k, v in ev[-1].items() if k != "rep"} == e:
            ev[-1]["rep"] = ev[-1].get("rep", 1) + 1
            continue
        ev.append(e)
        if e["k"] != "cmd":
            return {"ev": ev}
    ev.append({"k": "hang"})
    return {"ev": ev}


def do_op(st, e, create):
    """One step of a history program."""
    if e["k"] == "w":
        st.apply(create(e["r"], e["v"]))
    elif e["k"] == "b":
        n = e["n"]
        # how: the wait is delivered as several calls that add up to n
        for part in e.get("parts", [n]):
            st.beat(part)
    elif e["k"] == "x":          # a read-only or exporting call
        w = e["what"]
        if w == "est":
            st.ticks_per_note(show_progress=bool(e.get("show", False)))
        elif w == "ticks":
            st.ticks()
        elif w == "inst":
            from extractors import extract_instruments
            extract_instruments("x.json", st)
        elif w == "song":
            from extractors import extract_tracks_to_xrns
            extract_tracks_to_xrns(st, "x.xrns", e.get("tpn", 1000))
        elif w == "table":
            from extractors import extract_tracks
            extract_tracks(st, "x.csv", e.get("tpn", 1000))
        elif w == "str":
            for c in range(8):
                for n in st.key_presses(c):
                    str(n)


def job_opm(job):
    from vgm.ym2151.state import State
    from vgm.ym2151.config import create
    st = State()
    ob = P.Observer(st)
    out = []
    if job.get("q0", 1):
        out.append({"k": "q", "o": ob.see()})
    every = job.get("every", 1)
    n = len(job["prog"])
    for i, e in enumerate(job["prog"]):
        err = 0
        try:
            do_op(st, e, create)
        except Exception:
            err = 1
        r = {"k": e["k"] if e["k"] in ("w", "b") else "q"}
        for f in ("r", "v", "n"):
            if f in e:
                r[f] = e[f]
        if err or e["k"] == "x" or e.get("see") or (i + 1) % every == 0 or i == n - 1:
            r["o"] = ob.see(err)
        out.append(r)
    return {"ev": out}


def job_opmbatch(job):
    return {"evs": [job_opm({"prog": p})["ev"] for p in job["progs"]]}


def job_songs(job):
    out, top = [], os.getcwd()
    for k, x in enumerate(job["list"]):
        os.mkdir("s%d" % k)
        os.chdir("s%d" % k)
        out.append(job_song(x))
        os.chdir(top)
    return {"list": out}


def job_multi(job):
    """Several State objects / readers, stepped by a schedule in one process.
    job: sess [{kind:"opm",prog}|{kind:"read",b}], sched [session index...]
    Each session's events are recorded as in job_opm / job_read."""
    from vgm.core import reader
    from vgm.ym2151.state import State
    from vgm.ym2151.config import create
    sess = []
    for s in job["sess"]:
        sess.append({"s": s, "ev": [], "i": 0, "st": None, "ob": None, "done": False})
    for k in job["sched"]:
        x = sess[k]
        s = x["s"]
        if x["done"]:
            continue
        if s["kind"] == "opm":
            if x["st"] is None:
                x["st"] = State()
                x["ob"] = P.Observer(x["st"])
                x["ev"].append({"k": "q", "o": x["ob"].see()})
                continue
            if x["i"] >= len(s["prog"]):
                x["ev"].append({"k": "q", "o": x["ob"].see()})
                continue
            e = s["prog"][x["i"]]
            x["i"] += 1
            err = 0
            try:
                do_op(x["st"], e, create)
            except Exception:
                err = 1
            r = {"k": e["k"] if e["k"] in ("w", "b") else "q"}
            for f in ("r", "v", "n"):
                if f in e:
                    r[f] = e[f]
            r["o"] = x["ob"].see(err)
            x["ev"].append(r)
        else:
            if x["st"] is None:
                data = data_of(s)
                if s.get("gz"):
                    data = gzip.compress(data)
                try:
                    v = reader(io.BytesIO(data))
                except Exception:
                    x["ev"].append({"k": "err"})
                    x["done"] = True
                    continue
                if v is None:
                    x["ev"].append({"k": "none"})
                    x["done"] = True
                    continue
                x["st"], x["it"] = v, iter(v)
                x["ev"].append(None)          # header observed when closed
                continue
            if x["ev"][-1] is not None and x["ev"][-1]["k"] in ("stop", "err"):
                x["done"] = True
                continue
            x["ev"].append(step_cmd(x["it"]))
    for x in sess:
        if x["s"]["kind"] == "read" and x["st"] is not None:
            x["ev"][0] = obs_open(x["st"])
        elif x["s"]["kind"] == "opm" and x["st"] is not None:
            x["ev"].append({"k": "q", "o": x["ob"].see()})
    return {"evs": [x["ev"] for x in sess]}


def job_threads(job):
    """Every session runs to its end in a thread of its own, all at once."""
    import threading
    sys.setswitchinterval(1e-6)
    out = [None] * len(job["sess"])
    gate = threading.Barrier(len(out))

    def work(k, s):
        gate.wait()
        if s["kind"] == "opm":
            out[k] = job_opm({"prog": s["prog"], "every": 7})["ev"]
        else:
            out[k] = job_read(dict(s, how="mem", **({"gz": {}} if s.get("gz") else {"gz": None})))["ev"]
    ts = [threading.Thread(target=work, args=x) for x in enumerate(job["sess"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if None in out:
        raise RuntimeError("a session failed")
    return {"evs": out}


def job_texports(job):
    """Whole extractions, each on its own, then all at once in threads; the
    results of every extraction as the runs of a group."""
    import threading
    from vgm.core import reader
    from extractors import extract_instruments, extract_tracks_to_xrns, extract_tracks

    def extract(k, x, turn):
        names = ["%s%d_%d" % (n, k, turn) for n in "itc"]
        try:
            st = pump(reader(io.BytesIO(data_of(x))))
            tpn = x["tpn"] or st.ticks_per_note(show_progress=False)
            extract_instruments(names[0], st)
            extract_tracks_to_xrns(st, names[1], tpn)
            extract_tracks(st, names[2], tpn)
        except Exception:
            return {"ok": 0, "dig": ""}
        i, s, c = (open(n, "rb").read() for n in names)
        return {"ok": 1, "dig": digest(full_digest(i, s, 1), c.decode())}
    out = [[extract(k, x, 0)] for k, x in enumerate(job["list"])]
    sys.setswitchinterval(1e-6)
    for turn in range(1, 1 + job.get("turns", 2)):
        gate = threading.Barrier(len(out))

        def work(k, x):
            gate.wait()
            out[k].append(extract(k, x, turn))
        ts = [threading.Thread(target=work, args=x) for x in enumerate(job["list"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    return {"lists": out}


def job_est(job):
    from vgm.ym2151.state import State
    from vgm.ym2151.config import create
    st = State()
    out = []
    for e in job["prog"]:
        if e["k"] == "e":
            try:
                v = st.ticks_per_note(show_progress=bool(e.get("show", 0)))
                v = P.num(v) if isinstance(v, int) else P.BAD
            except Exception:
                v = P.BAD
            out.append({"k": "e", "est": v})
        else:
            do_op(st, e, create)
            out.append({k: e[k] for k in ("k", "r", "v", "n") if k in e})
    return {"ev": out}


# --------------------------------------------------------------- whole runs --
OLD = b"OLD-CONTENT " * 40000         # longer than most outputs


def old_content(kind, what):
    """Earlier content of an output file: garbage, or another song's output."""
    if not kind:
        return OLD
    if what == "inst":
        e = {"id": 0, "base": {}, "operators": "MOD1", "channel": {}}
        return json.dumps([dict(e, id=i) for i in range(8000)]).encode()
    bio = io.BytesIO()
    import zipfile
    with zipfile.ZipFile(bio, "w") as z:
        z.writestr("Song.xml", "<RenoiseSong doc_version='65'>" + "<a></a>" * 40000 + "</RenoiseSong>")
    return bio.getvalue()


def near_contents(argv, stdin, outs, kind):
    """Earlier contents that are all but what this very run will write: of the
    same length with a byte changed, cut, or with a tail.  The run that makes
    them happens in another process."""
    os.mkdir("near")
    pid = os.fork()
    if not pid:
        ok = 0
        try:
            ok = run_main([a.replace("out/" + o, "near/" + o) if a.endswith("out/" + o) else a
                           for a in argv for o in [a.rsplit("/", 1)[-1]]], stdin)
        finally:
            os._exit(0 if ok else 1)
    os.waitpid(pid, 0)
    got = {}
    for k, o in outs.items():
        if os.path.exists("near/" + o):
            with open("near/" + o, "rb") as f:
                b = bytearray(f.read())
            os.unlink("near/" + o)
            if kind == 2 and b:
                at = len(b) // 2
                while k == "inst" and at < len(b) - 1 and not 48 <= b[at] < 57:
                    at += 1
                b[at] = b[at] + 1 & 0xff
            elif kind == 3:
                b += bytes(b[-40:])
            else:
                b = b[:-1]
            got[k] = bytes(b)
    os.rmdir("near")
    return got


def run_main(argv, stdin=None):
    """Run main.py as a script inside this (forked) process.
    1 success, 0 reported failure."""
    import runpy
    old = sys.argv, sys.stdin
    sys.argv = [MAIN] + argv
    if stdin is not None:
        with open("stdin.bin", "wb") as f:
            f.write(stdin)
        fd = os.open("stdin.bin", os.O_RDONLY)
        os.dup2(fd, 0)
        sys.stdin = open(0, "r", encoding="latin-1", closefd=False)
    try:
        runpy.run_path(MAIN, run_name="__main__")
        return 1
    except SystemExit as e:
        return 1 if e.code in (None, 0) else 0
    except BaseException:
        return 0
    finally:
        sys.argv, sys.stdin = old


def feed_slowly(f, data):
    try:
        for i in range(0, len(data), 5000):
            f.write(data[i:i + 5000])
            f.flush()
            if i < 50000:
                clock.sleep(0.01)
    except OSError:
        pass
    finally:
        try:
            f.close()
        except OSError:
            pass


def run_sub(argv, stdin=None, timeout=60, slow=0, surroundings=None):
    import subprocess
    env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1")
    cwd = None
    if surroundings:
        env.update((k, v) for k, v in surroundings.items() if k != "cwd")
        if "cwd" in surroundings:       # names are relative to another directory
            cwd = surroundings["cwd"]
            os.makedirs(cwd, exist_ok=True)
            argv = [os.path.join("..", a) if os.path.dirname(a) else a for a in argv]
    if slow:
        import threading
        p = subprocess.Popen([sys.executable, MAIN] + argv, env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        t = threading.Thread(target=feed_slowly, args=(p.stdin, stdin), daemon=True)
        t.start()
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            return 2
        return 1 if rc == 0 else (0 if rc > 0 else 2)
    try:
        r = subprocess.run([sys.executable, MAIN] + argv, env=env, timeout=timeout, cwd=cwd,
                           input=stdin if stdin is not None else b"",
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return 1 if r.returncode == 0 else (0 if r.returncode > 0 else 2)
    except subprocess.TimeoutExpired:
        return 2


def pack(data, form):
    """Encode VGM bytes as an input file."""
    k = form.get("k", "plain")
    if k == "plain":
        return data
    if k == "gzip":
        cuts = form.get("cuts", [])
        parts, a = [], 0
        for c in cuts + [len(data)]:
            parts.append(data[a:c])
            a = c
        out = b""
        for i, p in enumerate(parts):
            bio = io.BytesIO()
            name = form.get("name", "")
            with gzip.GzipFile(filename=name, mode="wb", fileobj=bio,
                               compresslevel=form.get("level", 9),
                               mtime=form.get("mtime", 0)) as g:
                g.write(p)
            m = bytearray(bio.getvalue())
            out += bytes(m)
        if form.get("extra"):       # FEXTRA + FCOMMENT on the first member
            out = gz_fields(parts[0], form) + out[len(gz_one(parts[0], form)):]
        if "flags" in form:         # any combination of the optional fields
            out = gz_flags(parts[0], form) + out[len(gz_one(parts[0], form)):]
        out = bytearray(out)
        if "cut" in form:
            del out[form["cut"] if form["cut"] >= 0 else len(out) + form["cut"]:]
        for pos, x in form.get("flip", []):
            out[pos if pos >= 0 else len(out) + pos] ^= x
        return bytes(out) + b"\0" * form.get("pad", 0)
    raise ValueError(k)


def gz_one(p, form):
    bio = io.BytesIO()
    with gzip.GzipFile(filename=form.get("name", ""), mode="wb", fileobj=bio,
                       compresslevel=form.get("level", 9), mtime=form.get("mtime", 0)) as g:
        g.write(p)
    return bio.getvalue()


def gz_flags(p, form):
    import zlib
    raw = gz_one(p, dict(form, name=""))
    fl = form["flags"]
    head = bytearray(raw[:10])
    head[3], head[8], head[9] = fl, form.get("xfl", 0), form.get("os", 255)
    if fl & 4:
        ex = b"AB\x03\x00xyz"
        head += len(ex).to_bytes(2, "little") + ex
    if fl & 8:
        head += b"song.vgm\0"
    if fl & 16:
        head += b"a comment\0"
    if fl & 2:
        head += (zlib.crc32(bytes(head)) & 0xffff).to_bytes(2, "little")
    return bytes(head) + raw[10:]


def gz_fields(p, form):
    raw = gz_one(p, dict(form, name=""))
    head = bytearray(raw[:10])
    head[3] = 4 | 16
    ex = b"AB\x03\x00xyz"
    return bytes(head) + len(ex).to_bytes(2, "little") + ex + b"a comment\0" + raw[10:]


def stamp(path):
    """Identity and times of a file that must be left alone (not the access time)."""
    st = os.stat(path)
    return st.st_ino, st.st_mode, st.st_mtime_ns


def file_state(path, parse, old, empty, was=None):
    """`old': the contents are the old ones and the file was not written either."""
    if not os.path.exists(path):
        return dict(empty, st="none")
    now = stamp(path)
    with open(path, "rb") as f:
        raw = f.read()
    if old is not None and raw == old and (was is None or was == now):
        return dict(empty, st="old")
    return parse(raw)


def pump(v):
    """The extraction as the entry point performs it."""
    try:
        import main as M
        f = getattr(M, "process_vgm_file", None)
    except Exception:
        f = None
    if f is not None:
        return f(v)
    from vgm.ym2151.state import State
    st = State()
    for c in v:
        n = type_name(c)
        if n == "YM2151":
            st.apply(c)
        elif n == "WAIT":
            st.beat(c.samples)
        elif n == "EOS":
            break
    return st


def job_song(job):
    data = data_of(job)
    form = job.get("form", {"k": "plain"})
    raw = pack(data, form)
    os.mkdir("out")
    name = job.get("name", "in.vgm")
    if not job.get("missing"):
        with open(name, "wb") as f:
            f.write(raw)
    want, pre, tpn = job["want"], job.get("pre", {"inst": "none", "song": "none"}), job["tpn"]
    obs = {"ok": 1, "other": 0,
           "inst": {"st": "none", "data": []}, "song": {"st": "none", "doc": P.NODOC},
           "table": {"st": "none", "rows": [], "head": 0},
           "state": {"st": "none", "base": {"lfo": 0, "amd": 0, "pmd": 0, "wf": 0},
                     "chan": [], "inst": [], "press": [], "ticks": []}}
    olds = {"inst": None, "song": None}
    outs = dict(zip(("inst", "song"), job.get("outs", ("i.json", "t.xrns"))))
    stamps, near, kind = {}, {}, job.get("oldkind", 0)
    if want.get("cli", 1):
        argv = ["-" if job.get("stdin") else name]
        if want["inst"]:
            argv += ["-i", (os.getcwd() + "/" if job.get("absolute") else "") + "out/" + outs["inst"]]
        if want["song"]:
            argv += ["-t", (os.getcwd() + "/" if job.get("absolute") else "") + "out/" + outs["song"]]
        if tpn > 0:
            argv += ["-tn", str(tpn)]
        if kind > 1:
            near = near_contents(argv, raw if job.get("stdin") else None, outs, kind)
    for k in ("inst", "song"):
        if pre[k] == "old":
            olds[k] = near[k] if k in near else old_content(kind % 2, k)
            with open("out/" + outs[k], "wb") as f:
                f.write(olds[k])
            # long before the input, or long after it
            t = 2000000000 if job.get("oldlate") else 1000000000
            os.utime("out/" + outs[k], (t, t))
            stamps[k] = stamp("out/" + outs[k])
    if want.get("cli", 1):
        run = run_sub if job.get("sub") else run_main
        obs["ok"] = run(argv, raw if job.get("stdin") else None)
    if want.get("state") or want.get("table"):
        try:
            from vgm.core import reader
            with open(name, "rb") as f:
                st = pump(reader(f))
            if want.get("state"):
                obs["state"] = {"st": "new", "base": P.base(st), "chan": P.chans(st),
                                "inst": P.insts(st), "press": P.presses(st),
                                "ticks": P.ticks(st)}
            if want.get("table"):
                from extractors import extract_tracks
                extract_tracks(st, "out/t.csv", tpn)
            ok = 1
        except Exception:
            ok = 0
        obs["ok"] = ok if not want.get("cli", 1) else min(ok, obs["ok"])
    obs["inst"] = file_state("out/" + outs["inst"], P.inst_file, olds["inst"],
                             {"data": []}, stamps.get("inst"))
    parse_song = lambda raw: P.song_file(raw, bool(job.get("schema")))
    obs["song"] = file_state("out/" + outs["song"], parse_song, olds["song"],
                             {"doc": P.NODOC}, stamps.get("song"))
    if want.get("table"):
        obs["table"] = file_state("out/t.csv", P.table_file, None, {"rows": [], "head": 0})
    obs["other"] = len([n for n in os.listdir("out") if n not in (outs["inst"], outs["song"], "t.csv")]) + \
        len([n for n in os.listdir(".") if n not in (name, "out", "stdin.bin", ".tmp")])
    if not job.get("missing"):
        with open(name, "rb") as f:
            obs["other"] += f.read() != raw
    return {"obs": obs}


def job_grow(job):
    """One state, exported and estimated again and again while it grows; each
    export is observed like the export of a song that ends there."""
    from vgm.core import reader
    from vgm.ym2151.state import State
    from extractors import extract_instruments, extract_tracks_to_xrns, extract_tracks
    st, out, n = State(), [], 0
    it = iter(reader(io.BytesIO(data_of(job))))
    for k, upto in enumerate(job["at"]):
        while n < upto:
            c = next(it)
            t = type_name(c)
            if t == "YM2151":
                st.apply(c)
            elif t == "WAIT":
                st.beat(c.samples)
            n += 1
        d = "out%d/" % (k if job.get("apart") else 0)
        os.makedirs(d, exist_ok=True)
        ok = 1
        try:
            tpn = job["tpn"] or st.ticks_per_note(show_progress=False)
            for w in job["order"]:
                if w == "i":
                    extract_instruments(d + "i.json", st)
                elif w == "s":
                    extract_tracks_to_xrns(st, d + "t.xrns", tpn)
                elif w == "t":
                    extract_tracks(st, d + "t.csv", tpn)
                elif w == "e":
                    st.ticks_per_note(show_progress=False)
        except Exception:
            ok = 0
        out.append({"ok": ok, "other": 0,
                    "inst": file_state(d + "i.json", P.inst_file, None, {"data": []}),
                    "song": file_state(d + "t.xrns", P.song_file, None, {"doc": P.NODOC}),
                    "table": file_state(d + "t.csv", P.table_file, None, {"rows": [], "head": 0}),
                    "state": {"st": "new", "base": P.base(st), "chan": P.chans(st), "inst": P.insts(st),
                              "press": P.presses(st), "ticks": P.ticks(st)}})
    return {"list": out}


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()


def tree(e):
    """An XML element as nested lists, layout excluded."""
    return [e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [tree(c) for c in e]]


def document(raw):
    """Everything the song file says (archive meta data excluded)."""
    import zipfile
    import xml.etree.ElementTree as ET
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        return [[n, tree(ET.fromstring(z.read(n)))] for n in sorted(z.namelist())]


def full_digest(inst_raw, song_raw, deep=0):
    """Canonical text of what a run wrote (file meta data excluded); deep: the
    whole documents, not only what the specification gives a meaning to."""
    if deep:
        try:
            return digest(None if inst_raw is None else json.dumps(json.loads(inst_raw), sort_keys=True),
                          None if song_raw is None else json.dumps(document(song_raw)))
        except Exception:
            pass
    i = P.inst_file(inst_raw) if inst_raw is not None else None
    s = P.song_file(song_raw) if song_raw is not None else None
    return digest(json.dumps(i, sort_keys=True), json.dumps(s, sort_keys=True))


def one_group_run(run, k, tpn, deep=0):
    os.makedirs("g%d" % k, exist_ok=True)
    ip, sp = "g%d/i.json" % k, "g%d/t.xrns" % k
    raw = pack(data_of(run), run.get("form", {"k": "plain"}))
    inp = "g%d/%s" % (k, run.get("name", "in.vgm"))
    with open(inp, "wb") as f:
        f.write(raw)
    argv = ["-" if run.get("stdin") else inp, "-i", ip, "-t", sp]
    if tpn > 0:
        argv += ["-tn", str(tpn)]
    if run.get("sub"):
        ok = run_sub(argv, raw if run.get("stdin") else None, slow=run.get("slow", 0),
                     surroundings=run.get("env"))
    else:
        ok = run_main(argv, raw if run.get("stdin") else None)
    rd = lambda p: open(p, "rb").read() if os.path.exists(p) else None
    i, s = rd(ip), rd(sp)
    return ok, full_digest(i, s, deep)


def job_group(job):
    """Whole runs one after another in this process (fresh = one process each)."""
    out = []
    for k, run in enumerate(job["runs"]):
        ok, dig = one_group_run(run, k, job["tpn"], job.get("deep", 0))
        out.append({"ok": ok, "dig": dig})
    return {"runs": out}


def job_exports(job):
    """Export one state several times; digest of every export round."""
    from vgm.core import reader
    from extractors import extract_instruments, extract_tracks_to_xrns, extract_tracks
    st = pump(reader(io.BytesIO(data_of(job))))
    out = []
    for k, tpn in enumerate(job["rounds"]):
        ok = 1
        try:
            extract_instruments("i%d" % k, st)
            extract_tracks_to_xrns(st, "t%d" % k, tpn)
            extract_tracks(st, "c%d" % k, tpn)
            if job.get("est"):
                st.ticks_per_note(show_progress=False)
            i, s, c = (open(n % k, "rb").read() for n in ("i%d", "t%d", "c%d"))
            dig = digest(full_digest(i, s, 1), c.decode())
        except Exception:
            ok, dig = 0, ""
        out.append({"ok": ok, "dig": dig, "tpn": tpn})
    return {"runs": out}

def job_ends(job):
    """How many commands each stream delivers, and how it ends."""
    from vgm.core import reader
    head = bytes(job["head"])
    out = []
    for q in job["list"]:
        n, end = 0, 0
        try:
            v = iter(reader(io.BytesIO(head + bytes(q))))
            for _ in range(len(q) + 2):
                try:
                    next(v)
                except StopIteration:
                    end = 1
                    break
                n += 1
        except Exception:
            end = 2
        out.append([n, end])
    return {"list": out}


# ------------------------------------------------------- failing environment --
ERRORS = (5, 110, 104, 116, 13, 121, 103, 9, 19)     # EIO, ETIMEDOUT, ECONNRESET, ESTALE, EACCES, ...


class FailingSource(io.RawIOBase):
    """Delivers the first `at' bytes, then every read fails, for one of many
    reasons."""

    def __init__(self, data, at):
        self.data, self.at, self.pos = data, at, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        if self.pos >= self.at:
            e = ERRORS[self.at % len(ERRORS)]
            raise OSError(e, os.strerror(e))
        n = min(len(b), self.at - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def outputs(d):
    """Contents of the two outputs in directory d, None if there is none."""
    def rd(n):
        p = os.path.join(d, n)
        if not os.path.isfile(p):
            return None
        with open(p, "rb") as f:
            return f.read()
    return rd("i.json"), rd("t.xrns")


def read_fault(raw, at, tpn, d):
    """An extraction from a file object that fails behind `at' bytes."""
    from vgm.core import reader
    from extractors import extract_instruments, extract_tracks_to_xrns
    try:
        v = reader(io.BufferedReader(FailingSource(raw, at)))
        if v is None:
            return 0
        st = pump(v)
        extract_instruments(d + "/i.json", st)
        extract_tracks_to_xrns(st, d + "/t.xrns", tpn)
        return 1
    except Exception:
        return 0


def run_pty(argv, raw, timeout=60):
    """The command with a terminal as standard input that delivers raw and
    then fails (its other side is gone)."""
    import subprocess
    import tty
    m, s = os.openpty()
    tty.setraw(s)
    os.write(s, raw)
    os.close(s)
    try:
        env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, MAIN] + argv, env=env, timeout=timeout, stdin=m,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return 1 if r.returncode == 0 else (0 if r.returncode > 0 else 2)
    except subprocess.TimeoutExpired:
        return 2
    finally:
        os.close(m)


def limited(n, f):
    """f() while no file can grow beyond n bytes."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        return f()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def blocked_path(d, name, how):
    """Make d/name something that cannot be written; nothing outside d is named
    except /dev/full, and that only as the target of a link."""
    p = os.path.join(d, name)
    if how == "full":
        os.symlink("/dev/full", p)
    elif how == "dir":
        os.mkdir(p)
        open(p + "/x", "w").close()
    elif how == "loop":
        os.symlink(name, p)
    elif how == "under":            # a file where a directory should be
        open(p, "w").close()
        return p + "/" + name
    elif how == "nodir":
        return os.path.join(d, "missing", name)
    elif how == "long":
        return os.path.join(d, "n" * 300)
    return p


def job_fault(job):
    data = bytes(job["b"])
    tpn = job["tpn"]
    with open("in.vgm", "wb") as f:
        f.write(data)

    def argv(d, want, ip=None, sp=None):
        a = ["in.vgm", "-tn", str(tpn)]
        if want[0]:
            a += ["-i", ip or d + "/i.json"]
        if want[1]:
            a += ["-t", sp or d + "/t.xrns"]
        return a
    os.mkdir("ref")
    ok = run_main(argv("ref", (1, 1)))
    ref = outputs("ref")
    dig = (full_digest(ref[0], None, 1), full_digest(None, ref[1], 1))
    sizes = [len(x or b"") for x in ref]
    runs = []
    for k, x in enumerate(job["faults"]):
        d = "d%d" % k
        os.mkdir(d)
        want = x.get("want", (1, 1))
        at = 0
        if x["k"] == "none":
            r = ok if k == 0 else run_main(argv(d, want))
            d = "ref" if k == 0 else d
        elif x["k"] == "read" and x.get("pty"):
            at = x["at"]
            r = run_pty(["-"] + argv(d, want)[1:], data[:at])
        elif x["k"] == "read":
            at = x["at"]
            r = read_fault(data, at, tpn, d)
        elif x["k"] == "write":
            if "part" in x:         # somewhere in the output of the run
                n = int(x["part"] * max(s for s, w in zip(sizes, want) if w))
            elif "back" in x:
                n = max(0, sizes[x["of"]] - x["back"])
            else:
                n = x["limit"]
            if x.get("old"):
                for n2, kind in (("i.json", "inst"), ("t.xrns", "song")):
                    with open(d + "/" + n2, "wb") as f:
                        f.write(old_content(x["old"] - 1, kind))
            if x.get("sub"):
                r = limited(n, lambda: run_sub(argv(d, want)))
            else:
                r = limited(n, lambda: run_main(argv(d, want)))
        else:
            ip = blocked_path(d, "i.json", x["how"]) if x["of"] == 0 else None
            sp = blocked_path(d, "t.xrns", x["how"]) if x["of"] == 1 else None
            r = (run_sub if x.get("sub") else run_main)(argv(d, want, ip, sp))
        got = outputs(d)
        whole = int((not want[0] or got[0] is not None and full_digest(got[0], None, 1) == dig[0]) and
                    (not want[1] or got[1] is not None and full_digest(None, got[1], 1) == dig[1]))
        runs.append({"k": x["k"], "at": at, "ok": r, "whole": whole})
        if d != "ref":
            shutil.rmtree(d, ignore_errors=True)
    return {"runs": runs}


JOBS = {"read": job_read, "opm": job_opm, "opmbatch": job_opmbatch, "songs": job_songs, "multi": job_multi, "threads": job_threads, "texports": job_texports, "est": job_est,
        "song": job_song, "group": job_group, "exports": job_exports, "fault": job_fault, "ends": job_ends, "grow": job_grow}


# ------------------------------------------------------------------- worker --
def child(job, wfd, cpu):
    os.mkdir(".tmp")
    os.environ["TMPDIR"] = os.path.join(os.getcwd(), ".tmp")
    tempfile.tempdir = None
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
    sys.setrecursionlimit(3000)
    res = JOBS[job["job"]](job)
    data = json.dumps(res).encode()
    mv = memoryview(data)
    while mv:
        n = os.write(wfd, mv)
        mv = mv[n:]


def run_job(job, cpu, root):
    d = tempfile.mkdtemp(dir=root)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.chdir(d)
            os.setpgid(0, 0)
            child(job, w, cpu)
            code = 0
        except BaseException as e:
            try:
                os.write(w, json.dumps({"fatal": repr(e)[:300]}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf, dead = [], clock.time() + cpu * 2 + 30
    status = "ok"
    while True:
        left = dead - clock.time()
        if left <= 0:
            status = "hang"
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            status = "hang"
            break
        x = os.read(r, 1 << 20)
        if not x:
            break
        buf.append(x)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if status == "ok" and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU,):
        status = "hang"
    if status == "hang":
        return {"hang": 1}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return {"fatal": "no result (status %d)" % st}


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    sys.path.insert(0, SRC)
    root = os.environ["VERIF_SCRATCH"]
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    try:
        import vgm.core, vgm.ym2151.state, vgm.ym2151.config, extractors, tools  # noqa
        import xrns.writer, runpy, zipfile, xml.etree.ElementTree  # noqa
        import main  # noqa
        from xsdata.formats.dataclass.serializers import XmlSerializer  # noqa
    except BaseException:
        pass
    # after a first hang elsewhere there is no need to wait long for more
    tired = int(os.environ.get("VERIF_HANGS", "0"))
    cpu, hangs = (8 if tired else 30), 0
    with open(sys.argv[2], "w") as f:
        for j in jobs:
            if hangs >= (1 if tired else 3):
                res = {"skipped": 1}
            else:
                res = run_job(j, cpu, root)
            if "hang" in res:
                hangs += 1
                cpu = 8
            f.write(json.dumps(res) + "\n")
            f.flush()


if __name__ == "__main__":
    # the module under test is also called `main'; keep ours out of its way
    main()
