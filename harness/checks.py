"""The checks.  Every check is a list of stages; each stage produces
inputs, runs the code, and lets TLC decide against a trace specification."""
import gzip
import itertools
import random
import struct

import engine as E
from driver import pack
import gen as G
import stages as S

DEEP = "thorough"


def rng(ctx, salt):
    return random.Random("%d/%s/%s" % (ctx.seed, ctx.prop, salt))


def pick(ctx, quick, thorough):
    return thorough if ctx.tier == DEEP else quick


# =========================================================== file reading ====
def sentinel(k):
    return G.ym(0x20 + k % 8, k % 256) + G.wait(1000 + k % 500) + G.ym(8, 0x78 | (k % 8))


def opcode_streams(ctx, rnd):
    """Every opcode with several operand patterns, framed by sentinels."""
    jobs = []
    fills = ["rand", "look"]
    for op in range(256):
        for k, fill in enumerate(fills + [0x00, 0xff, 0x54, 0x66, 0x61, 0x67]):
            n = G.operands(op)
            if op in (0x66,):
                continue
            if op == 0x67:
                body = G.block(rnd.randrange(256), G.rbytes(rnd, rnd.choice((0, 1, 7, 30))))
            elif op == 0x68:
                m = rnd.choice((0, 1, 5))
                body = G.pcmram(m, G.rbytes(rnd, m) if ctx.inline else b"", rnd)
            else:
                opd = G.rbytes(rnd, n, fill) if isinstance(fill, str) else bytes([fill]) * n
                body = bytes([op]) + opd
            if n == 0 and k > 0 and op not in (0x67, 0x68):
                continue
            jobs.append((sentinel(op), body, sentinel(op + 1)))
    rnd.shuffle(jobs)
    out, per = [], 24
    for i in range(0, len(jobs), per):
        body = b"".join(a + x + z for a, x, z in jobs[i:i + per])
        out.append({"b": G.vgm(body + (G.EOS if rnd.random() < .5 else b"")),
                    "how": rnd.choice(("mem", "file"))})
    return out


# the end-of-file field of the header decides nothing
EOFS = (None, None, 0, 1, 0x3c, 0x40, 0x50, 0x7fffffff, 0xffffffff)


def c01(ctx):
    rnd = rng(ctx, "c01")
    cl = {"framing", "lostcmd", "operands", "open", "cleanend", "wait16"}
    S.reader(ctx, "every opcode", opcode_streams(ctx, rnd), cl)
    jobs = []
    for size in (0, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097,
                 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537):
        for style in ("look", "rand"):
            body = (sentinel(size) + G.block(rnd.randrange(256), G.rbytes(rnd, size, style), second=style == "rand") +
                    sentinel(size + 1) + G.block(rnd.randrange(256), b"", second=size % 2) + sentinel(3) + G.EOS)
            if size > 5000 and style == "rand":
                continue
            jobs.append({"b": G.vgm(body), "how": rnd.choice(("mem", "file"))})
    for tt in range(256):
        for second in (False, True):
            jobs.append({"b": G.vgm(sentinel(1) + G.block(tt, G.rbytes(rnd, rnd.randrange(1, 40)), second=second) +
                                    sentinel(2))})
    for size in pick(ctx, ((1 << 20) + 3, (1 << 24) + 70000), ((1 << 20) + 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 70000,
                                                              (1 << 25) + 1, (1 << 26) + 5)):
        for v in (0x54, 0x66, 0x00):
            jobs.append({**G.big_block(sentinel(1), size, sentinel(2) + G.block(0x81, b"abc") + sentinel(3) + G.EOS, v,
                                       second=v == 0x66),
                         "how": rnd.choice(("mem", "file")), **({"gz": {"level": 1}} if v == 0 else {})})
    # every kind of block at sizes around the 16-bit boundary and its multiples
    sizes = (65535, 65536, 65537, 131071, 131072, 131073, 196608, 262144, 524288, 1048576)
    kinds = (0, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xfe, 0xff)
    for size in sizes:
        for tt in (kinds if size < 100000 else rnd.sample(kinds, pick(ctx, 5, len(kinds)))):
            jobs.append({**G.big_block(sentinel(1), size, sentinel(2) + G.block(tt, b"ab") + sentinel(3),
                                       rnd.choice((0x54, 0x66, 0x00, 0x61)), tt, second=rnd.random() < 0.3),
                         "how": rnd.choice(("mem", "file"))})
    S.reader(ctx, "data blocks", jobs, cl)
    # many commands, far from the start of the file
    jobs = []
    for k in range(pick(ctx, 4, 16)):
        body = b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(pick(ctx, 2500, 20000)))
        jobs.append({"b": G.vgm(body, eof=(None, len(body) // 2, len(body) - 9, len(body) // 3)[k % 4]),
                     "how": ("mem", "file")[k % 2], **({"gz": {}} if k % 4 > 1 else {})})
    S.reader(ctx, "long streams", jobs, cl)
    E.model(ctx, "RunMC", env={"GEN_FILE": E.make_params(ctx, {
        "alpha": [84, 8, 97, 112, 102, 103, 192], "len": pick(ctx, 2, 3), "run": 8, "together": 3})})
    jobs = []
    for op, num in ((0x70, pick(ctx, 1100000, 17000000)), (0x54, 140000), (0xc3, 70000), (0x61, 70000), (0x00, 270000),
                    (0xe0, 66000), (0x92, 66000), (0x4f, 70000)):
        jobs.append({**G.many(sentinel(op), op, num, sentinel(1) + G.ym(8, 0x78) + G.wait(9) + rnd.choice((G.EOS, b"")),
                              eof=(num // 2, num - 9, None)[op % 3]),
                     "squeeze": 1, "how": rnd.choice(("mem", "file")), **({"gz": {"level": 1}} if op & 2 else {})})
    S.reader(ctx, "a million commands", jobs, cl)
    # behaviours of the container specification itself
    alpha = [[0x54, 0x61, 0x66, 0x70, 0xa4], [0x54, 0x95, 0xc0, 0x30, 0x62],
             [0x67, 0x54, 0x00, 0x01, 0x66], [0x4f, 0x40, 0x90, 0x81, 0xe0]]
    bodies = []
    depth = pick(ctx, 4, 5)
    for a in alpha:
        bodies += E.generate(ctx, "GenFormat", params={"alpha": a, "depth": depth})
    ctx.parts["bodies enumerated by TLC (GenFormat)"] = {"count": len(bodies)}
    S.reader(ctx, "enumerated bodies", [{"b": G.vgm(bytes(x))} for x in bodies], cl)
    jobs = []
    for k in range(pick(ctx, 60, 500)):
        body = b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(rnd.choice((5, 40, 150))))
        jobs.append({"b": G.vgm(body, ver=rnd.choice((100, 101, 110, 150, 151, 161, 171)),
                                doff=rnd.choice((0x0c, 0x4c, 0xcc)), eof=rnd.choice(EOFS), rnd=rnd if k % 4 > 1 else None),
                     "how": rnd.choice(("mem", "file")), "collect": k % 3,
                     **({"gz": {"level": rnd.randrange(10)}} if k % 3 == 0 else {})})
    S.reader(ctx, "random streams", jobs, cl)
    jobs = []
    ops = [o for o in range(256) if o != 0x66]
    for o in ops:
        body = b"".join(one(rnd, o, ctx.inline) + one(rnd, p, ctx.inline) for p in ops)
        jobs.append({"b": G.vgm(body), "collect": 1})
    S.reader(ctx, "all ordered pairs of opcodes", jobs, cl)
    # YM2151 writes: every register with many values (thorough: every pair)
    jobs = []
    for r in range(0, 256, 8):
        vals = range(256) if ctx.tier == DEEP else [0, 255, 0x54, 0x66] + rnd.sample(range(256), 16)
        jobs.append({"b": G.vgm(b"".join(G.ym(x, v) for v in vals for x in range(r, r + 8)) + G.EOS)})
    S.reader(ctx, "every register", jobs, cl)
    listed = E.known_findings("C01")
    if ctx.dialect == 1 and "pcm-ram-inline" in listed:
        ctx.known.append(listed["pcm-ram-inline"])
    elif ctx.dialect != 0:
        E.report_violation(ctx, "opcode 0x68 is framed neither as the format says nor as recorded",
                           {"stage": "pcm ram probe", "spec": "TraceReader", "event": 0,
                            "clauses": ["framing"], "job": ctx.probe[0], "case": ctx.probe[1]})


def one(rnd, op, inline):
    if op == 0x67:
        return G.block(rnd.randrange(256), G.rbytes(rnd, rnd.randrange(4)), second=rnd.random() < 0.3)
    if op == 0x68:
        n = rnd.randrange(3)
        return G.pcmram(n, G.rbytes(rnd, n) if inline else b"", rnd)
    return bytes([op]) + G.rbytes(rnd, G.operands(op))


def c02(ctx):
    rnd = rng(ctx, "c02")
    cl = {"cuterror", "invented", "lostcmd", "framing", "cleanend", "open", "operands",
          "wait16", "wait"}
    jobs = []
    # every opcode cut after every byte
    for op in range(256):
        if op == 0x66:
            continue
        for fill in ("look", "rand"):
            if op == 0x67:
                c = G.block(rnd.randrange(256), G.rbytes(rnd, 5, fill), second=fill == "rand")
            elif op == 0x68:
                c = G.pcmram(3, G.rbytes(rnd, 3, fill) if ctx.inline else b"", rnd)
            else:
                c = bytes([op]) + G.rbytes(rnd, G.operands(op), fill)
            pre = sentinel(op)
            for n in range(1, len(c) + 1):
                jobs.append({"b": G.vgm(pre + c[:n]),
                             "how": rnd.choice(("mem", "file")),
                             **({"gz": {}} if (op + n) % 4 == 0 else {})})
    S.reader(ctx, "every command cut everywhere", jobs, cl)
    jobs = []
    for size in (1, 255, 256, 65536):
        for have in (0, 1, 2, 3, size // 2, size - 1):
            if have < size:
                body = sentinel(1) + bytes((0x67, 0x66, 0)) + struct.pack("<I", size) + \
                    G.rbytes(rnd, have, "look")
                jobs.append({"b": G.vgm(body)})
    for size, have in ((1 << 20, (1 << 20) - 1), (1 << 24, 1 << 23), ((1 << 24) + 9, (1 << 24) + 8)):
        j = G.big_block(sentinel(1), size, b"", rnd.choice((0x54, 0x61)))
        j["gap"][1] -= size - have
        jobs.append(dict(j, **({"gz": {"level": 1}} if have % 2 else {})))
    S.reader(ctx, "blocks larger than the file", jobs, cl)
    # cut far from the start of the file
    jobs = []
    for size in (70000, (1 << 20) + 9, (1 << 24) + 9):
        for tail in (G.ym(8, 0x78)[:1], G.ym(8, 0x78)[:2], b"\x61", b"\x61\x10", b"\xc5\x01", b""):
            jobs.append({**G.big_block(sentinel(1), size, sentinel(2) + tail, rnd.choice((0x54, 0x61, 0))),
                         **({"gz": {"level": 1}} if len(jobs) % 3 == 0 else {"how": rnd.choice(("mem", "file"))})})
    for k in range(pick(ctx, 2, 6)):
        full = G.vgm(b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(pick(ctx, 4000, 20000))) + G.ym(8, 0x78))
        jobs += [{"b": full[:len(full) - n], **({"gz": {"level": 1}} if n % 2 else {})} for n in range(8)]
    S.reader(ctx, "cut far from the start", jobs, cl)
    for k in range(pick(ctx, 4, 20)):
        body = b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(pick(ctx, 40, 60)))
        full = G.vgm(body, ver=rnd.choice((101, 150, 151)), doff=0x0c)
        gz = {"gz": {"level": 1}} if k % 2 else {}
        jobs = [{"b": full[:n], **gz} for n in range(64, len(full) + 1)]
        S.reader(ctx, "songs cut at every byte", jobs, cl)


def c03(ctx):
    rnd = rng(ctx, "c03")
    cl = {"version", "size", "start", "clock", "supports", "shortheader", "open",
          "lostcmd", "framing"}
    vers = [100, 101, 102, 105, 108, 109, 110, 111, 119, 120, 140, 148, 149, 150, 151, 152,
            159, 160, 161, 169, 170, 171, 172, 180, 199, 200, 210, 999, 1000, 1009, 1010, 12345678]
    clocks = [0, 1, 255, 256, 3579545, 4000000, 0x00010000, 0x01000000, 0x40000000,
              0x80000000, 0xc0000000 | 3579545, 0xffffffff, 0x7fffffff]
    jobs = []
    body = sentinel(3) + G.wait(7) + G.EOS
    for v in vers:
        for k in range(pick(ctx, 6, 40)):
            jobs.append({"b": G.vgm(
                body, ver=v, c13=rnd.choice(clocks), c51=rnd.choice(clocks),
                eof=rnd.choice((0, 1, 60, 0x7fffffff, 0x80000000, 0xfffffffb, 0xfffffffc,
                                0xfffffffd, 0xffffffff, rnd.randrange(1 << 32))),
                doff=rnd.choice((0x04, 0x08, 0x0c, 0x0d, 0x13, 0x4c, 0x8c, 0xcc, 0x14c, 0x3cc)),
                rnd=rnd if k % 2 else None), "how": rnd.choice(("mem", "file")),
                **({"gz": {}} if k % 3 == 0 else {})})
    for a in clocks:
        for c in clocks:
            for v in (101, 109, 110, 151):
                jobs.append({"b": G.vgm(G.EOS, ver=v, c13=a, c51=c)})
    S.reader(ctx, "header fields", jobs, cl)
    jobs = []
    for v in (100, 109, 110, 150, 151, 171):
        for n in range(4, 56 if v >= 150 else 52):
            full = G.vgm(body, ver=v, c13=123, c51=456, doff=0x0c, rnd=rnd)
            jobs.append({"b": full[:n], **({"gz": {}} if n % 2 else {})})
    S.reader(ctx, "headers cut short", jobs, cl)
    # data starts far behind the header
    jobs = []
    for off in (0x100, 0x3ff, 0x400, 0xffcc, 0xffff, 0x10000, 0x12345, 0xffffff, 0x1000000):
        h = bytearray(G.vgm(b"", ver=rnd.choice((150, 151, 171)), doff=0x0c, rnd=rnd))
        struct.pack_into("<I", h, 0x34, off)
        jobs.append({"b": bytes(h) + body, "gap": [0x40, off + 0x34 - 0x40, rnd.choice((0x54, 0, 0x66))],
                     "how": rnd.choice(("mem", "file"))})
    S.reader(ctx, "data start far behind the header", jobs, cl)
    jobs = []
    for off in (0x10, 0x1000, 0xffff, 0x10000, 0xfffff0, 0x7fffffff, 0x80000000, 0xffffff00):
        full = bytearray(G.vgm(body, doff=0x0c))
        struct.pack_into("<I", full, 0x34, off)
        jobs.append({"b": bytes(full)})
    S.reader(ctx, "data start beyond the file", jobs, cl | {"cleanend"})
    progs = [G.prog_bytes(G.music(rnd, 30)) for _ in range(6)]
    jobs = [{"b": G.vgm(p + G.EOS, ver=v, doff=d, rnd=rnd), "want": {"state": 1, "cli": 0}}
            for p in progs for v, d in ((101, None), (150, 0x0c), (151, 0x4c), (171, 0xcc))]
    S.song(ctx, "commands from the data start", jobs, {"outcome", "events", "chan"})


def simple_song(rnd, n=40, **kw):
    return G.prog_bytes(G.music(rnd, n, **kw))


def growing_jobs(rnd, num, orders, n=60, tpns=(300, 735, 1000)):
    """Songs that are exported several times while they grow."""
    jobs = []
    for _ in range(num):
        pieces = []
        for e in G.music(rnd, n, settings=0.6, maxwait=rnd.choice((20, 700, 3000))):
            if e["k"] == "w":
                pieces.append(G.ym(e["r"], e["v"]))
            else:
                left = e["n"]
                while left > 65535:
                    pieces.append(G.wait(65535))
                    left -= 65535
                pieces.append(G.wait(left))
        k = min(len(pieces), rnd.choice((2, 3, 5, 8)))
        order = rnd.choice(orders)
        jobs.append({"head": G.vgm(b""), "pieces": pieces, "order": order, "apart": rnd.randrange(2),
                     "at": sorted(rnd.choice(range(len(pieces) + 1)) for _ in range(k)) + [len(pieces)],
                     "tpn": rnd.choice(tpns) if "t" in order or rnd.random() < 0.8 else 0})
    return jobs


def nudged(rnd, prog):
    """The song with one detail changed throughout: what a cache that looks at
    too little would take for the same."""
    x = rnd.random()
    group = rnd.choice((0x20, 0x20, 0x28, 0x30, 0x38, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0x18, 0x1b, 0x0f, 0x08, 0x19))
    bit = rnd.choice((0x40, 0x80)) if group == 0x20 and rnd.random() < 0.6 else 1 << rnd.randrange(8)
    every = rnd.random() < 0.6
    mine = [i for i, e in enumerate(prog) if e["k"] == "w" and (
        e["r"] == group or (group >= 0x20 and e["r"] & (0xf8 if group < 0x40 else 0xe0) == group))]
    if not mine:
        return prog + [G.w(group, bit)] + [G.on(c) for c in range(8)]
    hit = set(mine if every else [rnd.choice(mine)])
    return [G.w(e["r"], e["v"] ^ bit) if i in hit else e for i, e in enumerate(prog)]


def c04(ctx):
    rnd = rng(ctx, "c04")
    jobs = []
    for k in range(pick(ctx, 5, 30)):
        v = G.vgm(simple_song(rnd, rnd.choice((5, 60, 200))) + G.EOS,
                  ver=rnd.choice((101, 150, 151, 171)), doff=rnd.choice((0x0c, 0xcc)), rnd=rnd)
        runs = [{"b": v}]
        add = lambda **x: runs.append(dict({"b": v, "same": 1}, **x))
        for lv in range(0, 10):
            add(form={"k": "gzip", "level": lv}, name=rnd.choice(("in.vgm", "in.vgz", "x.bin", "a b.gz")))
        add(form={"k": "gzip", "name": "song.vgm", "mtime": 1234567890})
        for fl in (1, 2, 4, 8, 16, 3, 8 | 16, 31):
            add(form={"k": "gzip", "flags": fl, "xfl": rnd.choice((0, 2, 4)), "os": rnd.choice((0, 3, 255))},
                stdin=1 if fl == 2 else 0)
        add(form={"k": "gzip", "extra": 1})
        add(form={"k": "gzip", "extra": 1, "cuts": [len(v) // 2]})
        for cut in ([1], [2], [4], [len(v) // 2], [3, 64, len(v) - 1], [56, 57], [len(v)], [0]):
            add(form={"k": "gzip", "cuts": cut})
        add(form={"k": "gzip", "pad": 512})
        add(name="x.vgz")
        for name in ("take-", "noname", ".hidden", "a.b.vgm.gz", "X.VGZ", "-", "caf\u00e9 1.vgm", "%s$HOME~", "in.zip"):
            add(name=name, form=rnd.choice(({"k": "plain"}, {"k": "gzip"})))
        add(stdin=1)
        add(stdin=1, form={"k": "gzip"})
        add(stdin=1, form={"k": "gzip", "cuts": [5, 70]})
        if k < pick(ctx, 1, 3):
            add(sub=1)
            add(sub=1, stdin=1)
            add(sub=1, stdin=1, form={"k": "gzip"})
        if k < pick(ctx, 3, 12):
            # as stored: the specification (Gzip) decompresses these itself
            for r in runs[1:]:
                if "form" in r:
                    r["b"], r["raw"], r["same"] = pack(v, r.pop("form")), 1, 0
        jobs.append({"tpn": rnd.choice((500, 1000)), "runs": runs})
    big = G.vgm(simple_song(rnd, 40) + G.block(0, G.rbytes(rnd, 40000, "rand")) +
                simple_song(rnd, 40) + G.EOS)
    runs = [{"b": big}] + [{"b": big, "same": 1, "form": {"k": "gzip", "level": lv}} for lv in (0, 1, 9)]
    runs += [{"b": big, "same": 1, "form": {"k": "gzip", "cuts": [8192, 16384]}},
             {"b": big, "same": 1, "stdin": 1}, {"b": big, "same": 1, "stdin": 1, "form": {"k": "gzip"}},
             {"b": big, "same": 1, "stdin": 1, "sub": 1, "slow": 1},
             {"b": big, "same": 1, "stdin": 1, "sub": 1, "slow": 1, "form": {"k": "gzip", "level": 0}}]
    jobs.append({"tpn": 1000, "runs": runs})
    # hundreds of members, empty ones among them
    v = G.vgm(simple_song(rnd, 60) + G.EOS)
    runs = [{"b": v}]
    for n in pick(ctx, (40, 300), (40, 300, 300, 1100)):
        cuts = sorted(rnd.randrange(len(v) + 1) for _ in range(n))
        runs.append({"b": v, "same": 1, "form": {"k": "gzip", "cuts": cuts, "level": rnd.randrange(10)}, "stdin": n % 3 == 0})
        runs.append({"b": pack(v, {"k": "gzip", "cuts": cuts, "level": 0}), "raw": 1, "same": 0})
    jobs.append({"tpn": 1000, "runs": runs})
    # bytes that text modes, terminals and line endings would touch; more than
    # any buffer holds
    odd = [0x0d, 0x0a, 0x1a, 0x00, 0x04, 0x03, 0x7f, 0x80, 0xc3, 0xff, 0xfe, 0xef, 0xbb, 0xbf, 0x1b]
    body = G.ym(8, 0x78) + b"".join(G.ym(x, y) + G.wait(x | y << 8) + G.ym(0x28, y) + G.ym(8, 0x78 if x & 1 else 0)
                                    for x in odd for y in odd) + b"".join(G.block(0, bytes((x, y))) for x in odd for y in odd)
    big2 = dict(G.big_block(body, pick(ctx, 17000000, 40000000), body + G.EOS, 0x0d))
    for base in ({"b": G.vgm(body + G.EOS)}, big2):
        runs = [dict(base)] + [dict(base, same=1, **x) for x in
                               ({"stdin": 1}, {"stdin": 1, "sub": 1}, {"form": {"k": "gzip"}},
                                {"stdin": 1, "sub": 1, "form": {"k": "gzip", "level": 0}},
                                {"stdin": 1, "form": {"k": "gzip", "level": 9}})]
        jobs.append({"tpn": 100000, "runs": runs})
    S.group(ctx, "same data, every container", jobs, {"same", "outcome"})
    good = G.vgm(simple_song(rnd, 20) + G.EOS)
    bads = [b"", b"V", b"Vg", b"Vgm", b"Vgm", b"\x1f", b"\x1f\x8b", b"\x1f\x8b\x08", b"PK\x03\x04" + good]
    for i in range(4):
        for x in (0x01, 0x20, 0x80, 0xff):
            m = bytearray(good)
            m[i] ^= x
            bads.append(bytes(m))
    bads += [b"vgm " + good[4:], b"VGM " + good[4:], b"Vgm\0" + good[4:], b"Vgm" + good[3:].replace(b" ", b"_", 1),
             b"\0" + good, good[1:], b" " + good, b"Gd3 " + good[4:], b" mgV" + good[4:],
             b"\x1f\x8b" + good[2:], b"\0" * 300, b"Vgm" * 100]
    S.reader(ctx, "not a VGM", [{"b": x, **({"gz": {}} if g else {})} for x in bads for g in (0, 1)],
             {"refuse", "shortheader"})
    twice = gz(gz(good))
    S.song(ctx, "compressed twice", [{"b": gz(good), "form": {"k": "gzip"}, "stdin": si} for si in (0, 1)] +
           [{"b": twice, "form": {"k": "gzip"}}], {"outcome", "touched"})
    S.song(ctx, "not a VGM is never extracted",
           [{"b": x, "form": f, "stdin": si, "name": "x.vgm"} for x in bads
            for f, si in (({"k": "plain"}, 0), ({"k": "gzip"}, 0), ({"k": "plain"}, 1))],
           {"outcome", "touched"})


# everything the song says
WHOLE = {"place", "patterns", "sequence", "instruments", "celltext", "cellinst", "cellpan", "tempo"}


# ================================================================ the chip ====
OPMX = {"raised"}


def as_prog(h):
    out = []
    for e in h:
        out.append({"k": "b", "n": e[1]} if e[0] == 256 else {"k": "w", "r": e[0], "v": e[1]})
    return out


def enumerated(ctx, stage, alphabet, depth, clauses):
    """All histories of length `depth' over the alphabet, from TLC."""
    hs = E.generate(ctx, "GenOpm", params={"alpha": [list(a) for a in alphabet], "depth": depth, "sample": 0})
    progs = [as_prog(h) for h in hs]
    ctx.parts[stage + ": histories enumerated by TLC (GenOpm)"] = {"count": len(progs)}
    S.opm_batch(ctx, stage, progs, clauses | OPMX)


def simulated(ctx, stage, alphabet, num, depth, clauses, salt=0):
    alphabet = [list(a) for a in alphabet]
    rng(ctx, stage).shuffle(alphabet)      # TLC's RandomElement ignores -seed
    hs = E.generate(ctx, "GenOpm", params={"alpha": alphabet, "depth": depth, "sample": 1},
                    num=num, depth=depth + 2, seed=ctx.seed + salt)
    progs = [as_prog(h) for h in hs]
    ctx.parts[stage + ": histories simulated by TLC (GenOpm)"] = {"count": len(progs)}
    S.opm_batch(ctx, stage, progs, clauses | OPMX, size=max(1, len(progs) // 16))


W = 256     # pseudo register: wait


def history_model(ctx, alphabet, depth, num=None):
    """HistoryMC: the chip as an automaton and as a function of its history agree."""
    args = [] if not num else ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(ctx.seed)]
    E.model(ctx, "HistoryMC", args=args, env={"GEN_FILE": E.make_params(
        ctx, {"alpha": [list(a) for a in alphabet], "depth": depth, "sample": 1 if num else 0})})


def all_registers(rnd):
    """An alphabet that reaches every register, with many keys and waits."""
    al = [(r, rnd.randrange(256)) for r in range(256) for _ in range(3)]
    al += [(8, rnd.randrange(256)) for _ in range(250)] + [(W, rnd.randrange(65536)) for _ in range(80)]
    rnd.shuffle(al)
    return al


def tracked(ctx, stage, depth, want, clauses, limit, t=10):
    """Histories enumerated by TrackerMC (which proves the declarative outputs
    equal to the constructive ones on each of them), replayed through the
    exporters at several row lengths."""
    rnd = rng(ctx, stage)
    alpha = [G.on(0), G.off(0), G.on(1, 3), G.off(1), G.w(0x28, 0x4a), G.b(1), G.b(t - 1), G.b(63 * t)]
    raw = [[W, e["n"]] if e["k"] == "b" else [e["r"], e["v"]] for e in alpha]
    hs = E.generate(ctx, "TrackerMC", params={"alpha": raw, "depth": depth, "sample": 0, "rowlen": [1, t - 1, t]})
    ctx.parts[stage + ": histories enumerated by TLC (TrackerMC)"] = {"count": len(hs)}
    hs = [h for h in hs if sum(1 for e in h if e[0] == 8) >= min(2, len(h))]
    rnd.shuffle(hs)
    jobs = [{"b": G.vgm(G.prog_bytes(as_prog(h)) + G.EOS), "want": dict(want), "tpn": (t, t, t - 1, 1)[i % 4]}
            for i, h in enumerate(hs[:limit])]
    S.song(ctx, stage, jobs, clauses)


COMBOS = [[1, 1, 1, 1], [1, 1, 0, 0], [1, 0, 1, 1], [0, 1, 0, 1], [0, 0, 1, 0]]


def fed(ctx, stage, depth, clauses, limit, pieces=None):
    """Whole runs enumerated by PipelineMC, replayed through main.py."""
    rnd = rng(ctx, stage)
    pieces = pieces or [G.ym(8, 0x78), G.ym(8, 0x79), G.ym(8, 0), G.wait(700), b"\x70", G.EOS, b"\x54", b"\x61\x08",
                        b"\x54\x08", b"\x55\x08\x78", b"\x67\x66\x00\x03\x00\x00\x00\x54\x08\x78"]
    runs = E.generate(ctx, "PipelineMC", params={"alpha": [list(x) for x in pieces], "depth": depth, "combos": COMBOS})
    ctx.parts[stage + ": runs enumerated by TLC (PipelineMC)"] = {"count": len(runs)}
    rnd.shuffle(runs)
    jobs = []
    for i, (h, k, ok) in enumerate(runs[:limit]):
        c = COMBOS[k - 1]
        jobs.append({"b": G.vgm(b"".join(pieces[x - 1] for x in h)), "want": {"inst": c[0], "song": c[1]},
                     "pre": {"inst": ("none", "old")[c[2]], "song": ("none", "old")[c[3]]},
                     "tpn": (700, 0)[i % 16 == 0], "oldkind": i % 2})
    S.song(ctx, stage, jobs, clauses)


def c05(ctx):
    rnd = rng(ctx, "c05")
    vals = sorted({0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 735, 882, 4096, 32767, 32768,
                   32769, 65279, 65280, 65534, 65535} | {1 << i for i in range(16)} |
                  {rnd.randrange(65536) for _ in range(pick(ctx, 60, 2000))})
    body = b"".join(G.wait(n) for n in vals) + b"\x62\x63" + bytes(range(0x70, 0x90))
    jobs = [{"b": G.vgm(body), "how": h, **g} for h in ("mem", "file") for g in ({}, {"gz": {}})]
    for op in [0x62, 0x63] + list(range(0x70, 0x90)):
        jobs.append({"b": G.vgm(G.ym(8, 0x78) + bytes([op]) * 3 + G.ym(8, 0x79))})
    for x in range(0, 65536, 4096):
        jobs.append({"b": G.vgm(b"".join(G.wait(n) for n in range(x, x + 4096)))})
    S.reader(ctx, "wait commands", jobs, {"wait", "wait16", "open", "framing", "lostcmd"})
    tc = {"times", "ticks", "events"}
    alpha = [(8, 0x78), (8, 0x00), (8, 0x7f), (W, 0), (W, 1), (W, 735), (W, 65535), (0x28, 0x4a),
             (0x18, 7)]
    enumerated(ctx, "short histories", alpha, pick(ctx, 4, 5), tc)
    simulated(ctx, "long histories", alpha + [(W, 32768), (W, 882), (W, 16), (8, 0x3b), (8, 3)],
              pick(ctx, 40, 400), pick(ctx, 60, 200), tc)
    # songs far longer than 2^31 and 2^32 samples
    progs = []
    for big in (1 << 20, (1 << 24) - 1, (1 << 31) - 5, (1 << 30), 2000000000):
        p = [G.on(0), G.b(1)]
        for i in range(9):
            p += [G.b(big if big < (1 << 31) - 2 else big), G.b(rnd.randrange(9)), G.on(rnd.randrange(8), 15),
                  G.off(rnd.randrange(8))]
        progs.append(p)
    S.opm(ctx, "very long songs", [{"prog": p} for p in progs], tc | OPMX)
    mix = []
    for k in range(pick(ctx, 30, 200)):
        body = b""
        for _ in range(rnd.choice((30, 120))):
            x = rnd.random()
            body += (G.rwait(rnd) if x < 0.4 else
                     G.ym(8, rnd.choice((0, 0x78, 0x40)) | rnd.randrange(8)) if x < 0.8 else
                     G.any_cmd(rnd, ctx.inline))
        mix.append({"b": G.vgm(body + G.EOS), "want": {"state": 1, "cli": 0}})
    for n in pick(ctx, (3000, 33000), (3000, 33000, 66000, 140000)):
        body = G.ym(8, 0x78) + G.wait(65535) * n + b"\x70\x8f\x62\x63" + G.ym(8, 0x79) + G.ym(8, 1)
        mix.append({"b": G.vgm(body + G.EOS, eof=rnd.choice((None, n, 2 * n))), "want": {"state": 1, "cli": 0}})
    body = G.ym(8, 0x78) + (b"\x70" * 3 + G.ym(8, 0) + b"\x8f" * 3) * 300 + G.ym(8, 0x78)
    mix.append({"b": G.vgm(body + G.EOS), "want": {"state": 1, "cli": 0}})
    for op, num in ((0x70, pick(ctx, 1100000, 5000000)), (0x8f, 300000), (0x61, 140000), (0x62, 150000), (0x54, 70000), (0xc3, 70000)):
        mix.append({**G.many(G.ym(8, 0x78), op, num, b"\x70\x8f\x62" + G.ym(8, 0x79) + G.wait(321) + G.ym(8, 1) + G.EOS,
                             eof=(num // 2, num - 9, None)[op % 3]),
                    "want": {"state": 1, "cli": 0}})
    S.song(ctx, "times of events read from files", mix, tc | {"outcome"})


PARAM_CLAUSES = {"base", "chan"}


def c06(ctx):
    rnd = rng(ctx, "c06")
    jobs = []
    vals = [0, 0xff, 0x55, 0xaa] + [1 << i for i in range(8)] + [0xff ^ (1 << i) for i in range(8)]
    if ctx.tier == DEEP:
        vals = list(range(256))
    for ctxno in range(pick(ctx, 2, 3)):
        regs = list(range(256))
        rnd.shuffle(regs)
        for part in range(16):
            p = []
            # context: everything set, everything clear, or arbitrary
            for r in G.SETTING:
                p.append(G.w(r, (0xff, 0, rnd.randrange(256))[ctxno % 3]))
            p.append(G.w(0x19, 0xff))
            p.append(G.w(0x19, 0x7f))
            busy = (part + ctxno) % 2
            if busy:                # keyed, released and running channels
                p += [G.on(c, rnd.randrange(1, 16)) for c in range(8)] + [G.b(rnd.choice((0, 1, 70000)))]
                p += [G.off(c) for c in range(8) if rnd.random() < 0.4]
            for r in regs[part * 16:part * 16 + 16]:
                vs = vals[:]
                rnd.shuffle(vs)
                for v in vs:
                    p.append(G.w(r, v))
                    if busy and rnd.random() < 0.05:
                        p.append(rnd.choice((G.b(3), G.on(rnd.randrange(8)), G.off(rnd.randrange(8)), G.off(r & 7))))
            jobs.append({"prog": p})
    S.opm(ctx, "every register, every bit", jobs, PARAM_CLAUSES | OPMX)
    # note-level parameters become visible in the events
    jobs = []
    for c in range(8):
        p = [G.on((c + 1) % 8)]
        seq = [(g, v) for g in (0x20, 0x28, 0x30) for v in vals]
        rnd.shuffle(seq)
        for g, v in seq:
            p += [G.w(g + c, v), G.on(c, rnd.randrange(1, 16)) if rnd.random() < .5 else G.off(c)]
            if rnd.random() < 0.2:
                p += [G.w(g + rnd.randrange(8), rnd.randrange(256)), G.off(c)]
        jobs.append({"prog": p, "every": 3})
    # no other register touches the notes; key-offs tell what a channel's note is
    for part in range(8):
        p = []
        for c in range(8):
            p += [G.w(0x20 + c, rnd.choice((0x40, 0x80, 0xc0))), G.w(0x28 + c, rnd.randrange(256)), G.w(0x30 + c, 0xff)]
        p += [G.on(c) for c in range(8)]
        todo = [(r, v) for r in range(part, 256, 8) for v in ([0xff, 0x80, 0x81] + rnd.sample(vals, pick(ctx, 3, len(vals))))]
        rnd.shuffle(todo)
        for r, v in todo:
            p += [G.w(r, v)] + [G.off(c) for c in (range(8) if rnd.random() < 0.3 else rnd.sample(range(8), 3))]
        jobs.append({"prog": p, "every": 60})
    S.opm(ctx, "note parameters", jobs, PARAM_CLAUSES | {"note"} | OPMX)
    # order of writes: each pair of register groups in both orders
    history_model(ctx, all_registers(rnd), pick(ctx, 60, 150), pick(ctx, 2, 12))
    alpha = [(0x0f, 0x9f), (0x18, 0x5a), (0x19, 0x7f), (0x19, 0xff), (0x1b, 0xc2), (0x27, 0xff),
             (0x3f, 0x73), (0x47, 0x7f), (0x67, 0xff), (0x87, 0xdf), (0xa7, 0x9f), (0xc7, 0xdf),
             (0xe7, 0xff), (0xff, 0x0f), (0x08, 0x7f), (0x14, 0xff)]
    enumerated(ctx, "orders of writes", alpha, pick(ctx, 3, 3), PARAM_CLAUSES)
    simulated(ctx, "long histories",
              [(r, v) for r in rnd.sample(G.SETTING, 40) for v in (0, 0xff, rnd.randrange(256))] +
              [(8, 0x78), (8, 0)], pick(ctx, 24, 200), pick(ctx, 80, 250), PARAM_CLAUSES)
    mix = [{"b": G.vgm(b"".join(G.ym(rnd.randrange(256), rnd.randrange(256)) for _ in range(150)) + G.EOS),
            "want": {"state": 1, "cli": 0}} for _ in range(pick(ctx, 10, 100))]
    S.song(ctx, "registers written from files", mix, PARAM_CLAUSES | {"outcome"})


def c07(ctx):
    rnd = rng(ctx, "c07")
    kc = {"events", "note", "times"}
    alpha = [(8, 0x78), (8, 0x00), (8, 0x47), (8, 0x07), (W, 0), (W, 5), (0x28, 0x4a), (0x2f, 0x31),
             (0x20, 0x80)]
    enumerated(ctx, "short histories", alpha, pick(ctx, 4, 5), kc)
    alpha = [(8, 0x80), (8, 0xf9), (8, 0x09), (8, 0x08), (8, 0x00), (8, 0x81), (W, 3)]
    enumerated(ctx, "key values with bit 7", alpha, pick(ctx, 4, 5), kc)
    jobs = []
    for first in (0, 1, 735, 65535, 70000):
        for pre in ((), (0,), (0, 3, 7)):
            p = [G.off(c) for c in pre]
            if first:
                p.append(G.b(first))
            p += [G.off(c) for c in pre]
            p += [G.on(2), G.off(2), G.off(5), G.b(0), G.on(5), G.b(3), G.off(5)]
            jobs.append({"prog": p})
    for v in range(256):
        jobs.append({"prog": [G.w(8, v ^ 0x55), G.w(8, v), G.b(2), G.w(8, v), G.w(8, v ^ 7)]})
    # short histories in all kinds of settings
    for k in range(pick(ctx, 160, 1200)):
        p = [G.w(r, rnd.choice((0xff, 0, rnd.randrange(256)))) for r in rnd.sample(G.SETTING, rnd.choice((20, 120, len(G.SETTING))))]
        cs = rnd.sample(range(8), 2)
        if k % 2:
            p.append(G.w(0x0f, 0x80 | rnd.randrange(128)))
            cs[0] = 7
        for _ in range(rnd.randrange(3, 9)):
            c = rnd.choice(cs)
            p.append(rnd.choice((G.on(c, rnd.randrange(1, 16)), G.off(c), G.off(c), G.b(rnd.choice((0, 1, 9))),
                                 G.w(0x28 + c, rnd.randrange(256)))))
        jobs.append({"prog": p + [G.off(cs[0]), G.off(cs[1])], "every": 12})
    # repeated key-offs and key-ons with silences of seconds to days between
    for k in range(pick(ctx, 12, 60)):
        p = [G.on(c, 3 + c) for c in range(0, 8, 2)]
        for _ in range(60):
            c = rnd.randrange(8)
            p.append(rnd.choice((G.on(c, rnd.choice((15, 3 + c))), G.off(c), G.off(c), G.off(c))))
            if rnd.random() < 0.6:
                p.append(G.b(rnd.choice((1, 32000, 65535, 441000, 2646001, 1 << 24))))
        jobs.append({"prog": p, "every": 12})
    S.opm(ctx, "first key-on and every key value", jobs, kc | OPMX)
    jobs = []
    for k in range(pick(ctx, 24, 200)):
        jobs.append({"prog": G.music(rnd, pick(ctx, 300, 1000), settings=0.2, kcgood=False), "every": 5})
    S.opm(ctx, "random histories", jobs, kc | OPMX)
    simulated(ctx, "long histories",
              [(8, m << 3 | c) for c in range(8) for m in (0, 0, 15, rnd.randrange(1, 16))] +
              [(W, 1), (W, 700), (0x28, 0x11), (0x2b, 0x5e), (0x33, 0xfc), (0x21, 0x40), (0x26, 0xc7),
               (0x30, 0x04), (0x2d, 0x7f)], pick(ctx, 40, 300), pick(ctx, 80, 250), kc)
    mix = [{"b": G.vgm(simple_song(rnd, 80, kcgood=False) + G.EOS), "want": {"state": 1, "cli": 0}}
           for _ in range(pick(ctx, 20, 150))]
    # one channel with very many events, and all eight with many
    for n, chans in pick(ctx, ((17000, 1), (2500, 8)), ((17000, 1), (67000, 1), (10000, 8))):
        body = b"".join(G.ym(8, (0, 0x78, 0x40)[i % 3] | (i * 3 % chans if chans > 1 else 5)) + bytes([0x70 + i % 5])
                        for i in range(1, n + 1))
        mix.append({"b": G.vgm(body + G.EOS), "want": {"state": 1, "cli": 0}})
    S.song(ctx, "events read from files", mix, {"events", "note", "outcome"})


def params(rnd):
    """(register, base value, changed value) for one parameter of one channel,
    differing in exactly one bit of one documented field."""
    fields = {0x38: [4, 5, 6, 0, 1], 0x20: [0, 1, 2, 3, 4, 5]}
    out = []
    for g, bits in fields.items():
        for c in range(8):
            for bit in bits:
                out.append((g + c, bit, c))
    opf = {0x40: range(7), 0x60: range(7), 0x80: [0, 1, 2, 3, 4, 6, 7], 0xa0: [0, 1, 2, 3, 4, 7],
           0xc0: [0, 1, 2, 3, 4, 6, 7], 0xe0: range(8)}
    for g, bits in opf.items():
        for s in range(32):
            for bit in bits:
                out.append((g + s, bit, s % 8))
    for bit in range(8):
        out.append((0x18, bit, rnd.randrange(8)))
    for bit in range(7):
        out.append((0x19, bit, rnd.randrange(8)))
        out.append((0x119, bit, rnd.randrange(8)))       # 0x100 flag: PMD
    for bit in range(2):
        out.append((0x1b, bit, rnd.randrange(8)))
    for bit in (0, 1, 2, 3, 4, 7):
        out.append((0x0f, bit, 7))
    return out


def c08(ctx):
    rnd = rng(ctx, "c08")
    ic = {"ids", "inst"}
    jobs, p, n = [], None, 0
    todo = params(rnd)
    rnd.shuffle(todo)
    for r, bit, c in todo:
        if p is None:
            p = [G.w(x, rnd.randrange(256)) for x in rnd.sample(G.SETTING, 60)]
        flag = 0x80 if r & 0x100 else 0
        r &= 0xff
        v = rnd.randrange(256)
        if r == 0x19:
            v = v & 0x7f | flag
        m = rnd.randrange(1, 16)
        p += [G.w(r, v), G.on(c, m), G.w(r, v ^ (1 << bit)), G.on(c, m), G.off(c), G.w(r, v), G.on(c, m)]
        n += 1
        if n % 24 == 0:
            jobs.append({"prog": p, "every": 7})
            p = None
    if p:
        jobs.append({"prog": p, "every": 7})
    S.opm(ctx, "one bit apart", jobs, ic | OPMX)
    jobs = []
    # undocumented bits and note parameters must NOT split instruments
    for c in range(8):
        p = [G.on(c)]
        for r, bits in ((0x1b, [2, 3, 4, 5, 6, 7]), (0x0f, [5, 6]), (0x20 + c, [6, 7]), (0x28 + c, range(8)),
                        (0x30 + c, range(8)), (0x38 + c, [2, 3, 7]), (0x40 + c, [7]), (0x60 + c, [7]),
                        (0x80 + c, [5]), (0xa8 + c, [5, 6]), (0xd0 + c, [5]), (8, [7]), (0x14, range(8)),
                        (0x01, range(8)), (0x10, range(8))):
            for bit in bits:
                p += [G.w(r, 1 << bit) if r != 8 else G.w(8, 0x80 | 0x78 | c), G.on(c)]
        jobs.append({"prog": p, "every": 4})
    # same settings on different channels are one instrument; channel 8 noise
    for a in range(8):
        q = (a + 1 + rnd.randrange(7)) % 8
        p = []
        for g in (0x38, 0x40, 0x48, 0x50, 0x58, 0x60, 0x80, 0x98, 0xb0, 0xc8, 0xf8):
            v = rnd.randrange(256)
            p += [G.w(g + a, v), G.w(g + q, v)]
        p += [G.w(0x20 + a, 0xc5), G.w(0x20 + q, 0x05)]
        p += [G.on(a), G.on(q), G.w(0x0f, 0x9f), G.on(a), G.on(q), G.on(7), G.w(0x0f, 0), G.on(7), G.on(a)]
        jobs.append({"prog": p})
    for m in range(1, 16):
        jobs.append({"prog": [G.on(0, x) for x in range(1, 16)] + [G.on(3, m), G.on(0, m), G.off(0), G.on(0, m)]})
    # every value of every parameter, everything else zero: all of them differ,
    # so no two parameters may make up for each other
    opf = {0x40: ((0, 4), (4, 3)), 0x60: ((0, 7),), 0x80: ((0, 5), (6, 2)), 0xa0: ((0, 5), (7, 1)),
           0xc0: ((0, 5), (6, 2)), 0xe0: ((0, 4), (4, 4))}
    single = [(g + 8 * sl, lo, v) for g, fs in opf.items() for lo, n in fs for sl in range(4)
              for v in range(1, 1 << n)]
    other = [(g, lo, v) for g, lo, n in ((0x20, 0, 3), (0x20, 3, 3), (0x38, 0, 2), (0x38, 4, 3), (0x18, 0, 8),
                                         (0x19, 0, 7), (0x119, 0, 7), (0x1b, 0, 2), (0x0f, 0, 5), (0x0f, 7, 1))
             for v in range(1, 1 << n)]
    for k, todo in enumerate((single, other, single + other)):
        if ctx.tier != DEEP:
            todo = [x for x in todo if (x[2] & (x[2] - 1) == 0 or rnd.random() < 0.3) and (k < 2 or x[2] < 16)]
        rnd.shuffle(todo)
        if k != 0:                      # one value wandering through all parameters
            todo.sort(key=lambda x: x[2])
        c = 7 if k else rnd.randrange(8)
        p = [G.on(c, 15)]
        for r, lo, v in todo:
            at = r + c if 0x20 <= r < 0x100 else r & 0xff
            flag = 0x80 if r == 0x119 else 0
            p += [G.w(at, v << lo | flag), G.on(c, 15), G.w(at, flag)]
        p += [G.on(c, m) for m in range(1, 16)]
        jobs.append({"prog": p, "every": 300})
    # every parameter 1 but one that is 11 (or 17): alike as strings of digits
    for big in (11, 17):
        c, p = 7, []
        every = [(g + 8 * sl + c, lo, n) for g, fs in opf.items() for lo, n in fs for sl in range(4)] + \
            [(0x20 + c, 0, 3), (0x20 + c, 3, 3), (0x38 + c, 0, 2), (0x38 + c, 4, 3), (0x18, 0, 8), (0x19, 0, 7),
             (0x119, 0, 7), (0x1b, 0, 2), (0x0f, 0, 5), (0x0f, 7, 1)]
        ones = {}
        for r, lo, n in every:
            ones[r] = ones.get(r, 0) | 1 << lo
        at = lambda r, v: G.w(r & 0xff, v | (0x80 if r == 0x119 else 0))
        p = [at(r, v) for r, v in ones.items()] + [G.on(c, 15)]
        rnd.shuffle(every)
        for r, lo, n in every:
            if n >= 5 or n == 4 and big == 11:
                p += [at(r, ones[r] & ~(1 << lo) | big << lo), G.on(c, 15), at(r, ones[r])]
        jobs.append({"prog": p + [G.on(c, 15)], "every": 60})
    # parameters at their limits, where a change of one of them may make no sound
    wide = [(g + 8 * sl, lo, n) for g, fs in opf.items() for lo, n in fs for sl in range(4)] + \
        [(0x20, 0, 3), (0x20, 3, 3), (0x38, 0, 2), (0x38, 4, 3), (0x18, 0, 8), (0x19, 0, 7), (0x119, 0, 7), (0x1b, 0, 2)]
    for _ in range(pick(ctx, 48, 300)):
        c, p = rnd.randrange(8), []
        for _ in range(4):
            share = rnd.choice((0, 0.1, 0.5, 0.9, 1))
            val = {(r, lo): ((1 << n) - 1) * (rnd.random() < share) for r, lo, n in wide}
            val[0x20, 0] = rnd.randrange(8)

            def put(r):
                v = sum(x << lo for (q, lo), x in val.items() if q == r)
                return G.w((r & 0xff) + (c if 0x20 <= r < 0x100 else 0), v | (0x80 if r == 0x119 else 0))
            p += [put(r) for r in {r for r, _, _ in wide}]
            m = rnd.choice((1, 2, 4, 8, 15, rnd.randrange(1, 16)))
            p.append(G.on(c, m))
            for r, lo, n in rnd.sample(wide, 18):
                old = val[r, lo]
                val[r, lo] = rnd.choice((old ^ 1, old ^ 1 << (n - 1), (1 << n) - 1 - old))
                p += [put(r), G.on(c, m)]
                val[r, lo] = old
                p.append(put(r))
        jobs.append({"prog": p, "every": 80})
    # the same values, dealt to the operators in every order
    c, p = rnd.randrange(8), []
    for g, fs in opf.items():
        for lo, n in fs:
            for q in rnd.sample(list(itertools.permutations((0, 1, 1 if n == 1 else 2, 0 if n == 1 else 3))),
                                pick(ctx, 10, 24)):
                p += [G.w(g + 8 * sl + c, v << lo) for sl, v in enumerate(q)] + [G.on(c, 15)]
            p += [G.w(g + 8 * sl + c, 0) for sl in range(4)]
    jobs.append({"prog": p, "every": 300})
    # operator slots must not be confused with each other
    for c in range(8):
        p = []
        for g in (0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0):
            for s in range(4):
                p += [G.w(g + 8 * s + c, 0x11), G.on(c), G.w(g + 8 * s + c, 0)]
        jobs.append({"prog": p + p, "every": 3})
    S.opm(ctx, "alike and not alike", jobs, ic | OPMX)
    # hundreds of instruments, then all of them again
    jobs = []
    for total in pick(ctx, (130, 300, 1100), (130, 300, 700, 1100, 2100)):
        keys = [(i & 127, 1 + (i >> 7) % 15, rnd.randrange(8)) for i in range(total)]
        p = []
        for i, m, c in keys:
            p += [G.w(0x60 + c, i), G.on(c, m), G.w(0x60 + c, 0)]
        again = keys[:]
        rnd.shuffle(again)
        again = again[:pick(ctx, 150, 700)]
        for i, m, c in again:
            p += [G.w(0x60 + c, i), G.on(c, m), G.off(c), G.w(0x60 + c, 0), G.b(1)]
        jobs.append({"prog": p, "every": max(60, total // 2)})
    # thousands, told apart by the chip-wide settings
    for total in pick(ctx, (4200,), (4200, 8300)):
        p = []
        for i in range(total):
            if i % 15 == 0:
                p += [G.w(0x18, i // 15 & 255), G.w(0x19, i // 3840)]
            p.append(G.on(i & 7, 1 + i % 15))
        jobs.append({"prog": p + [G.w(0x18, 0), G.w(0x19, 0), G.on(3, 1), G.on(4, 15)], "every": total})
    S.opm(ctx, "many instruments and back", jobs, ic | OPMX)
    alpha = [(8, 0x78), (8, 0x79), (8, 0x08), (8, 0), (0x60, 1), (0x60, 0), (0x61, 1), (0x18, 1), (0x18, 0), (0x0f, 0x80)]
    enumerated(ctx, "short histories", alpha, pick(ctx, 4, 5), ic)
    history_model(ctx, alpha[:pick(ctx, 8, 10)] + [(W, 3)], 4)
    simulated(ctx, "long histories",
              [(8, m << 3 | c) for c in (0, 6, 7) for m in (15, 15, 1, 8, 0)] +
              [(r + c, v) for r in (0x20, 0x38, 0x48, 0x78, 0xa0, 0xf8) for c in (0, 6, 7) for v in (0, 0x11)] +
              [(0x18, 0), (0x18, 3), (0x1b, 0), (0x1b, 1), (0x19, 0), (0x19, 1), (0x19, 0x80), (0x19, 0x81),
               (0x0f, 0), (0x0f, 0x80)], pick(ctx, 40, 300), pick(ctx, 90, 250), ic)
    S.opm(ctx, "random histories",
          [{"prog": G.music(rnd, pick(ctx, 300, 800), settings=0.9), "every": 25} for _ in range(pick(ctx, 16, 100))],
          ic | OPMX)


def c09(ctx):
    rnd = rng(ctx, "c09")
    cl = {"append", "inst", "events", "ids", "times", "ticks"}
    jobs = []
    calls = ["est", "ticks", "inst", "song", "table", "str"]
    for k in range(pick(ctx, 32, 200)):
        p, out = G.music(rnd, pick(ctx, 120, 300), maxwait=(3000, 12000)[k % 2], settings=0.8), []
        for e in p:
            out.append(e)
            if rnd.random() < 0.06:
                wh = rnd.choice(calls)
                out.append({"k": "x", "what": wh, "tpn": rnd.choice((1000, 700, 5000))})
        jobs.append({"prog": out})
    S.opm(ctx, "exports and estimates in mid-history", jobs, cl)
    S.grown(ctx, "exports of a growing song", growing_jobs(rnd, pick(ctx, 24, 200), ("ist", "tsei", "sis", "ees", "tit")),
            {"outcome", "instfile", "instdata", "songfile", "place", "patterns", "sequence", "instruments", "celltext",
             "cellinst", "cellpan", "events", "ids", "times", "ticks", "inst", "tablerows", "tablecells"})
    # every register after a recorded event
    jobs = []
    for c in range(8):
        p = [G.w(x, rnd.randrange(256)) for x in rnd.sample(G.SETTING, 40)]
        p += [G.on(c), G.b(5), G.off(c), G.b(3), G.on(c, 3)]
        for r in range(256):
            for v in (0, 0xff, rnd.randrange(256)):
                if r != 8:
                    p.append(G.w(r, v))
        jobs.append({"prog": p})
    S.opm(ctx, "every register after an event", jobs, cl)
    # hundreds of instruments and events on all channels, the settings
    # changing under each of them and all rewritten in the end
    jobs = []
    for total, every in pick(ctx, ((140, 35), (300, 100), (1100, 560)), ((140, 10), (300, 30), (1100, 200), (2100, 700))):
        p = [G.w(r, rnd.randrange(256)) for r in G.SETTING]
        for i in range(total):
            c = rnd.randrange(8)
            p += [G.w(0x60 + c + 8 * rnd.randrange(4), i & 127), G.w(rnd.choice((0x40, 0x80, 0xa0, 0xc0, 0xe0)) + c + 8 * rnd.randrange(4), rnd.randrange(256)),
                  G.w(rnd.choice((0x20, 0x38)) + c, rnd.randrange(256)), G.on(c, rnd.randrange(1, 16)), G.b(rnd.randrange(1, 30))]
            if i % 3 == 0:
                p += [G.off(c), G.b(1)]
        for r in G.SETTING:
            p.append(G.w(r, rnd.randrange(256)))
        jobs.append({"prog": p, "every": every})
    S.opm(ctx, "hundreds of instruments, then every register", jobs, cl)
    alpha = [(8, 0x78), (8, 0), (8, 0x79), (0x60, 5), (0x18, 9), (0x28, 0x31), (0x20, 0xc7), (W, 9)]
    enumerated(ctx, "short histories", alpha, pick(ctx, 4, 5), cl)
    simulated(ctx, "long histories",
              [(8, 0x78), (8, 0), (8, 0x7b), (8, 3), (8, 0x7f), (8, 0x0f)] +
              [(r + c, v) for r in (0x20, 0x28, 0x30, 0x38, 0x40, 0x70, 0x98, 0xa0, 0xd8, 0xe0)
               for c in (0, 3, 7) for v in (1, 0xff)] + [(0x18, 1), (0x19, 0x81), (0x1b, 2), (0x0f, 0x9f), (W, 40)],
              pick(ctx, 40, 300), pick(ctx, 80, 250), cl)
    jobs = []
    for k in range(pick(ctx, 16, 120)):
        v = G.vgm(simple_song(rnd, rnd.choice((40, 150)), maxwait=2500) + G.EOS)
        a, z = rnd.choice((1000, 500)), rnd.choice((1000, 3000, 777))
        jobs.append({"b": v, "rounds": [a, a, z, a, z], "est": k % 2})
    S.exports(ctx, "exporting twice", jobs, {"same", "outcome"})


# ============================================================= the outputs ====
def rich_settings(rnd, n):
    return [G.w(rnd.choice(G.SETTING), rnd.randrange(256)) for _ in range(n)]


def c10(ctx):
    rnd = rng(ctx, "c10")
    cl = {"outcome", "instfile", "instdata"}
    want = {"inst": 1}
    jobs = []
    for k in range(pick(ctx, 60, 500)):
        p = rich_settings(rnd, 120)
        for _ in range(rnd.choice((1, 5, 20))):
            p += rich_settings(rnd, rnd.choice((0, 1, 3))) + [G.on(rnd.randrange(8), rnd.randrange(1, 16)), G.b(10)]
            p += rich_settings(rnd, 1)
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": dict(want)})
    S.song(ctx, "random instruments", jobs, cl)
    jobs = []
    # each parameter alone at its extreme values; each mask; each waveform
    cells = [(r, bit, c) for r, bit, c in params(rnd)]
    rnd.shuffle(cells)
    for i in range(0, len(cells), 24):
        p = []
        for r, bit, c in cells[i:i + 24]:
            v = (1 << bit) | (0x80 if r & 0x100 else 0)
            p += [G.w(r & 0xff, v), G.on(c, rnd.randrange(1, 16)), G.w(r & 0xff, v & 0x80 if r & 0x100 else 0)]
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": dict(want)})
    p = [G.on(0, m) for m in range(1, 16)]
    for wv in range(4):
        p += [G.w(0x1b, wv), G.on(1)]
    jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": dict(want)})
    jobs.append({"b": G.vgm(G.EOS), "want": dict(want)})
    jobs.append({"b": G.vgm(G.prog_bytes([G.off(0), G.w(0x18, 3)]) + G.EOS), "want": dict(want)})
    for total in pick(ctx, (300, 4100), (300, 1500, 8300)):
        p = []
        for i in range(total):
            p += [G.w(0x60, i & 127), G.w(0x18, i >> 7), G.on(0)]
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": dict(want), "pre": {"inst": "old", "song": "none"}})
    S.song(ctx, "single parameters, masks, many instruments", jobs, cl)
    # settings changed after the key-on; the song also exported
    jobs = [{"b": G.vgm(simple_song(rnd, 100, settings=0.9) + G.EOS), "want": {"inst": 1, "song": k % 2},
             "tpn": 1000} for k in range(pick(ctx, 30, 300))]
    S.song(ctx, "music", jobs, cl)
    S.grown(ctx, "exports of a growing song", growing_jobs(rnd, pick(ctx, 8, 60), ("i", "sit")), cl | {"outcome"})


SONGX = {"outcome", "songfile", "archive"}
TPNS = (1, 2, 7, 100, 441, 735, 882, 999, 1000, 1001, 1024, 4096, 7999, 11025, 65535)


def song_jobs(ctx, rnd, n, tpns, rows=(10, 40, 130), **kw):
    jobs = []
    for k in range(n):
        t = rnd.choice(tpns)
        p = G.steady(rnd, rnd.choice(rows), t, chans=rnd.choice((1, 3, 8)), jitter=k % 2,
                     density=rnd.choice((0.1, 0.5)), **kw)
        if rnd.random() < 0.4:
            p = [G.b(rnd.choice((1, t - 1, t, t * 64 - 1, t * 64, t * 70)))] + p
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": {"song": 1}, "tpn": t})
    return jobs


def at_rows(spec, tpn, rnd=None):
    """Program with events at exact sample positions: [(sample, [events])]."""
    p, now = [], 0
    for t, evs in sorted(spec, key=lambda x: x[0]):
        if t > now:
            p.append(G.b(t - now))
            now = t
        p += evs
    return p


def boundary_jobs(ctx, rnd):
    jobs = []
    for tpn in pick(ctx, (1, 3, 735, 1000, 7999), TPNS):
        rows = [0, 1, 62, 63, 64, 65, 127, 128, 129, 191, 192]
        sp = []
        for r in rows:
            for d in sorted({0, tpn - 1, tpn // 2}):
                c = rnd.randrange(8)
                sp.append((r * tpn + d, [rnd.choice((G.on(c), G.off(c), G.on(c, 3)))]))
                sp.append((r * tpn + d, [G.on((c + 3) % 8)]))
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, tpn)) + G.EOS), "want": {"song": 1}, "tpn": tpn})
        # only one channel reaches far; patterns in between are empty
        sp = [(0, [G.on(0)]), (64 * 5 * tpn, [G.on(3)]), (64 * 9 * tpn - 1, [G.off(3)]), (64 * 9 * tpn, [G.off(7)])]
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, tpn)) + G.EOS), "want": {"song": 1}, "tpn": tpn})
    return jobs


def far_jobs(ctx, rnd):
    """More than 64 and more than 256 patterns."""
    jobs = []
    for tpn, rows in ((10, 70 * 64), (5, 300 * 64), (3, 1100 * 64)) + pick(ctx, (), ((2, 4200 * 64),)):
        sp = [(r * tpn, [rnd.choice((G.on, G.off))(rnd.randrange(8))]) for r in
              sorted(rnd.sample(range(rows), 150)) + [rows - 1]]
        sp[0][1].insert(0, G.on(0))
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, tpn)) + G.EOS), "want": {"song": 1, "inst": 1}, "tpn": tpn})
    return jobs


def crowded_jobs(ctx, rnd, want):
    """Several events of one channel at the very same sample, at the start, in
    the middle and at the end of a row, in every order."""
    jobs = []
    for tpn in pick(ctx, (1, 100), (1, 2, 100, 735, 1000)):
        sp, row = [], 0
        for n in (2, 3):
            for what in itertools.product((0, 1, 2, 3), repeat=n):
                for d in sorted({0, tpn // 2, tpn - 1}):
                    c, evs = rnd.randrange(8), []
                    for x in what:
                        evs += [G.w(0x28 + c, rnd.randrange(8) << 4 | rnd.choice(G.GOODKC))] if x > 1 else []
                        evs += [G.w(0x20 + c, rnd.choice((0x40, 0x80, 0xc0)))] if x == 3 else []
                        evs.append(G.on(c, 1 + x) if x else G.off(c))
                    sp.append((row * tpn + d, evs))
                    row += rnd.choice((1, 1, 1, 2))
        jobs.append({"b": G.vgm(G.prog_bytes([G.on(0)] + at_rows(sp, tpn)) + G.EOS), "want": dict(want), "tpn": tpn})
    return jobs


def edge_jobs(ctx, rnd, want):
    """Events on both sides of row boundaries at ever later times (where
    rounded quotients give the wrong row)."""
    jobs = []
    for k, tpn in enumerate((7999, 65535, 100003, 999983, 1000000)):
        rows = sorted({(1 << j) // tpn for j in range(17, pick(ctx, (26, 29, 30, 31, 31), (27, 30, 31, 32, 32))[k])} - {0})
        sp = []
        for r in rows:
            sp += [(r * tpn - 1, [G.on(k)]), (r * tpn, [G.off(k + 1), G.on(k + 2)]), (r * tpn + 1, [G.on(k, 3)]),
                   ((r + 1) * tpn - 1, [G.on(k + 1)])]
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, tpn)) + G.EOS), "want": dict(want), "tpn": tpn})
    return jobs


def late_jobs(ctx, rnd, want, tpns=(900000, 65535)):
    """Events beyond 2^31 and 2^32 samples."""
    jobs = []
    for tpn in tpns:
        body = G.prog_bytes([G.on(0), G.b(tpn - 1), G.on(1)])
        mid = G.wait(65535) * 32768
        for k in range(2):
            body += mid + G.prog_bytes([G.on(rnd.randrange(8)), G.b(rnd.randrange(3 * tpn)), G.off(rnd.randrange(8)),
                                        G.b(tpn - 1), G.on(2, 1 + k), G.b(1), G.off(2)])
        jobs.append({"b": G.vgm(body + G.EOS), "want": dict(want), "tpn": tpn})
    return jobs


def c11(ctx):
    rnd = rng(ctx, "c11")
    cl = {"place", "celltext", "cellinst", "cellpan"} | SONGX      # the entry is the last event, not just any
    E.model(ctx, "ArithMC", pick(ctx, "ArithMC", "ArithMC_deep"))
    S.song(ctx, "row and pattern boundaries", boundary_jobs(ctx, rnd), cl)
    tracked(ctx, "enumerated histories", pick(ctx, 4, 5), {"song": 1}, cl | {"patterns"}, pick(ctx, 300, 8000))
    S.song(ctx, "songs on a grid", song_jobs(ctx, rnd, pick(ctx, 50, 500), TPNS), cl)
    S.song(ctx, "row boundaries at late times", edge_jobs(ctx, rnd, {"song": 1}), cl)
    S.song(ctx, "long songs", far_jobs(ctx, rnd) + late_jobs(ctx, rnd, {"song": 1}, pick(ctx, (900000,), (900000, 65535))),
           cl | {"patterns"})
    # several events in one row; the last one must win, whatever it is
    jobs = []
    for k in range(pick(ctx, 30, 200)):
        tpn = rnd.choice((100, 1000))
        sp = []
        for row in rnd.sample(range(200), 30):
            c = rnd.randrange(8)
            for d in sorted(rnd.sample(range(tpn), rnd.choice((2, 3, 5)))):
                kc = rnd.randrange(8) << 4 | rnd.choice(G.GOODKC)
                sp.append((row * tpn + d, [G.w(0x28 + c, kc), rnd.choice((G.on(c), G.off(c), G.on(c, 1)))]))
            sp.append((row * tpn + tpn - 1, [G.on(c, rnd.randrange(1, 16)), G.off(c)] if rnd.random() < .3 else []))
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, tpn)) + G.EOS), "want": {"song": 1}, "tpn": tpn})
    S.song(ctx, "crowded rows", jobs + crowded_jobs(ctx, rnd, {"song": 1}), cl)
    jobs = [{"b": G.vgm(simple_song(rnd, 150, maxwait=rnd.choice((50, 3000))) + G.EOS), "want": {"song": 1},
             "tpn": rnd.choice((200, 735, 2000)) if k % 3 else 0} for k in range(pick(ctx, 24, 200))]
    S.song(ctx, "music", jobs, cl)
    S.grown(ctx, "exports of a growing song", growing_jobs(rnd, pick(ctx, 8, 60), ("s", "ise")), cl | {"patterns", "outcome"})


def c12(ctx):
    rnd = rng(ctx, "c12")
    cl = {"celltext", "cellinst", "cellpan"} | SONGX
    E.model(ctx, "ArithMC", "ArithMC_texts")
    jobs = []
    for c in range(8):
        # every note code x octave x panning on this channel
        combos = [(o, n, pn) for o in range(8) for n in G.GOODKC for pn in (0x40, 0x80, 0xc0)]
        rnd.shuffle(combos)
        sp = []
        for i, (o, n, pn) in enumerate(combos):
            evs = [G.w(0x28 + c, o << 4 | n), G.w(0x20 + c, pn | rnd.randrange(64) if i % 5 == 0 else pn),
                   G.w(0x30 + c, rnd.randrange(256)), G.on(c, rnd.choice((15, 15, 5)))]
            if i % 3 == 0:          # whatever else is set, and keys of some operators
                evs = [G.w(0x0f, rnd.choice((0x80, 0x9f, 0x1f, 0))), G.w(rnd.choice(G.SETTING), rnd.randrange(256))] + \
                    evs[:-1] + [G.on(c, 1 + i // 3 % 15)]
            sp.append((i * 100, evs))
            if i % 6 == 0:
                sp.append((i * 100 + 1, [G.off(c)]))
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, 100)) + G.EOS), "want": {"song": 1}, "tpn": 100})
    S.song(ctx, "every note and panning", jobs, cl)
    jobs = []
    for total in pick(ctx, (20, 270), (20, 270, 600)):
        sp = []
        for i in range(total):
            c = rnd.randrange(8)
            sp.append((i * 10, [G.w(0x60 + c, i & 127), G.w(0x20 + c, 0xc0), G.w(0x18, i >> 7), G.on(c)]))
        for i in range(40):
            c = rnd.randrange(8)
            j = rnd.randrange(total)
            sp.append(((total + i) * 10, [G.w(0x60 + c, j & 127), G.w(0x18, j >> 7), G.on(c), ]))
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, 10)) + G.EOS), "want": {"song": 1}, "tpn": 10})
    S.song(ctx, "instrument numbers beyond one byte", jobs, cl | {"instruments"})
    S.song(ctx, "songs on a grid", song_jobs(ctx, rnd, pick(ctx, 40, 400), (100, 882, 1000)), cl)
    jobs = [{"b": G.vgm(simple_song(rnd, 150, maxwait=rnd.choice((50, 3000)), kcgood=bool(k % 2)) + G.EOS),
             "want": {"song": 1}, "tpn": rnd.choice((200, 735))} for k in range(pick(ctx, 30, 300))]
    S.song(ctx, "music", jobs, cl)


def c13(ctx):
    rnd = rng(ctx, "c13")
    cl = {"tracks", "patterns", "sequence", "instruments", "schema"} | SONGX
    jobs = [{"b": G.vgm(body + G.EOS), "want": {"song": 1}, "tpn": t, "schema": 1} for t in (1, 1000, 7999)
            for body in (b"", G.wait(60000), G.prog_bytes([G.off(3), G.b(9), G.w(0x28, 3)]),
                         G.prog_bytes([G.on(0)]), G.prog_bytes([G.b(64 * t), G.on(7)]),
                         G.prog_bytes([G.on(7), G.b(64 * t), G.off(7)]), G.prog_bytes([G.on(0), G.b(64 * t - 1), G.off(2)]),
                         G.prog_bytes([G.on(0), G.b(65000)]))]
    S.song(ctx, "smallest songs", jobs, cl)
    tracked(ctx, "enumerated histories", pick(ctx, 4, 5), {"song": 1}, cl, pick(ctx, 300, 8000), 3)
    S.song(ctx, "row and pattern boundaries", boundary_jobs(ctx, rnd), cl)
    S.song(ctx, "long songs", far_jobs(ctx, rnd), cl)
    S.song(ctx, "songs on a grid", [dict(j, schema=1) for j in song_jobs(ctx, rnd, pick(ctx, 40, 400), TPNS)], cl)
    jobs = []
    for total in pick(ctx, (1, 16, 17, 255, 256, 257, 4200), (1, 15, 16, 17, 255, 256, 257, 1000, 2100, 4200, 8300)):
        p = []
        for i in range(total):
            p += [G.w(0x60, i & 127), G.w(0x18, i >> 7), G.on(0), G.b(10)]
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": {"song": 1}, "tpn": 10 if total < 3000 else 9000, "schema": int(total < 3000),
                     "pre": {"inst": "none", "song": "old"}})
    S.song(ctx, "many instruments", jobs, cl)


def c14(ctx):
    rnd = rng(ctx, "c14")
    cl = {"tempo", "outcome", "songfile", "place"}      # the row length is the one the rows have
    vals = set(range(1, 40)) | {735, 882, 999, 1000, 1023, 1024, 7999, 8000, 44100, 65535, 165375, 330750,
                                661499, 661500, 661501, 1323000, 2646000, 2646001, 10 ** 7}
    # both sides of every tempo step that whole numbers of beats make
    for bpm in list(range(1, 40)) + [60, 75, 83, 100, 120, 125, 150, 180, 200, 240, 250, 300, 441, 500, 661, 749, 750, 999]:
        x = 661500 // bpm
        vals |= {x - 1, x, x + 1}
    # row lengths that fit a whole number of beats exactly, where rounded
    # arithmetic falls just short
    vals |= {t for t in range(1, 661501) if 661500 % t == 0}
    vals = sorted(v for v in vals if v > 0)
    extra = pick(ctx, 100, 3000)
    vals += [rnd.randrange(1, 9000) for _ in range(extra)]
    body = lambda t: G.prog_bytes([G.on(0), G.b(900), G.off(0), G.b(3 * t - 1), G.on(1), G.b(1), G.off(1),
                                   *((G.b(40 * t), G.on(2)) if t < 100000 else ())])
    per = 12
    lists = [[{"b": G.vgm(body(t) + G.EOS), "want": {"song": 1, "inst": 0}, "tpn": t} for t in vals[i:i + per]]
             for i in range(0, len(vals), per)]
    S.songs_in_one_process(ctx, "tempo of a given row length", lists, cl)
    jobs = []
    for k in range(pick(ctx, 16, 120)):
        t = rnd.choice((1000, 1050, 1470, 882 * 2, 3000, 5000, 7350, 7999))
        p = G.steady(rnd, 40, t, chans=2, density=0.7)
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": {"song": 1}, "tpn": 0})
    jobs.append({"b": G.vgm(G.EOS), "want": {"song": 1}, "tpn": 0})
    S.song(ctx, "tempo of an estimated row length", jobs, cl)


def est_prog(times, offs=None):
    """Key-ons at the given times; offs: a source of key-offs that are no ticks."""
    p, now = [], 0
    for i, t in enumerate(times):
        if t > now:
            if offs and t > now + 9 and offs.random() < 0.2:
                n = offs.randrange(t - now)
                p += [G.b(n), G.w(8, offs.choice((0, 0x80)) | offs.randrange(8))]
                now += n
            p.append(G.b(t - now))
            now = t
        p.append(G.on(i % 8) if not offs or i % 9 else G.w(8, offs.choice((0x88, 0x90, 0xc0, 0x08, 0x20)) | i % 8))
    return p + [{"k": "e"}]


def close_call(rnd, bars):
    """A dense rhythm whose best shift is better by one than a shorter one."""
    def cost(t, d):
        top = max(t)
        return sum(x - d not in t for x in t) + sum(x + d not in t and x + d < top for x in t)
    for _ in range(40):
        a, b = sorted(rnd.sample(range(1500, 4000), 2))
        n, t = bars, set()
        cut = rnd.randrange(12000, 20000)
        for lo, hi, per in ((0, cut, a), (cut, 32000, b)):
            bar = rnd.sample(range(per), n)
            t |= {lo + i * per + x for i in range(1 + (hi - lo) // per) for x in bar if lo + i * per + x < hi}
        for _ in range(300):
            x = cost(t, b) - cost(t, a)
            if x == -1:
                break
            # x too large: the first half is too regular
            part = [v for v in t if (v < cut) == (x > -1)]
            t.discard(rnd.choice(part))
        if cost(t, b) - cost(t, a) == -1 and len(t) > 520:
            return sorted(t)
    return sorted(t)


def c15(ctx):
    rnd = rng(ctx, "c15")
    cl = {"estrange", "estimate"}
    E.model(ctx, "EstimatorMC", pick(ctx, "EstimatorMC", "EstimatorMC_deep"))
    sets = [[], [0], [5], [0, 999], [0, 1000], [0, 1001], [0, 7998], [0, 7999], [0, 8000], [0, 8001],
            [0, 999, 1998], [0, 1000, 2000], [0, 1000, 2001], [31999], [32000], [0, 31999], [0, 32000],
            [31000, 31999, 32000], [24000, 31999], [24001, 32000], [40000, 50000], [0, 1500, 3000, 4500],
            [0, 7999, 15998, 23997, 31996], [0, 1000, 32000, 33000], [1000, 2000, 2000, 3000],
            [1, 1001, 3, 1003], [0, 2000, 4000, 6000, 7000], [0, 500, 1000, 1500, 2000, 2500]]
    for k in range(24):             # nothing before the window's end
        at = 32000 + rnd.randrange((3, 100, 10000, 1 << 24)[k % 4])
        sets.append([at + i * rnd.randrange(1, 9000) for i in range(k % 3 + 1)])
        sets.append([rnd.randrange(32000)] + sets[-1])
    sets = [sorted(s) for s in sets]
    for d in (1000, 1001, 1470, 2500, 4000, 7998, 7999):
        sets.append([i * d for i in range(1 + 31999 // d)])
        sets.append([i * d for i in range(2 + 31999 // d)])
    for k in range(pick(ctx, 40, 400)):
        d = rnd.choice((rnd.randrange(1000, 8000), rnd.randrange(300, 1000), rnd.randrange(1000, 3000)))
        s = [i * d + rnd.choice((0, 0, 0, 1, -1, rnd.randrange(60))) for i in range(1, 1 + 34000 // d)
             if rnd.random() < 0.8]
        s = [x for x in s if x >= 0]
        if k % 3 == 0:
            s += rnd.sample(range(34000), rnd.choice((1, 3, 6)))
        if k % 5 == 0:
            s = rnd.sample(range(32500), rnd.choice((2, 3, 4, 8)))
        sets.append(sorted(s))
    jobs = []
    for i, s in enumerate(sets):
        p = est_prog(s, rnd if i % 3 else None)
        if i % 4 == 0:
            p = p[:-1] + [G.off(0), G.b(3), G.w(0x28, 1), {"k": "e", "show": 1}]
        jobs.append({"prog": p})
    # many ticks
    for d in pick(ctx, (97, 31, 19), (97, 41, 31, 29, 19, 13, 5)):
        jobs.append({"prog": est_prog([i * d + (rnd.randrange(3) if i % 3 else 0) for i in range(32000 // d)])})
    # dense irregular rhythms that change their period on the way
    for dens, at in pick(ctx, ((16, 0.4), (60, 0.5)), ((12, 0.3), (16, 0.4), (16, 0.6), (25, 0.5), (60, 0.5), (60, 0.2))):
        s, cut = set(), int(32000 * at)
        for lo, hi in ((0, cut), (cut, 32000)):
            per = rnd.randrange(1000, 4000)
            bar = rnd.sample(range(per), per // dens)
            s |= {lo + i * per + x for i in range(1 + (hi - lo) // per) for x in bar if lo + i * per + x < hi}
        jobs.append({"prog": est_prog(sorted(s))})
    # thousands of ticks with few gaps; the gaps of the early part repeat with one
    # period, those of the rest with another
    for top, cut in pick(ctx, ((6600, 4200),), ((6600, 4200), (9000, 6400), (5200, 3300))):
        gaps = set()
        for lo, hi, per in ((0, cut, rnd.randrange(1600, 1800)), (cut, top, rnd.randrange(1010, 1060))):
            bar = rnd.sample(range(per), 60)
            gaps |= {lo + i * per + x for i in range(1 + (hi - lo) // per) for x in bar if lo + i * per + x < hi}
        jobs.append({"prog": est_prog([t for t in range(top) if t not in gaps])})
    for n in pick(ctx, (60, 90), (45, 60, 75, 90, 120)):
        jobs.append({"prog": est_prog(close_call(rnd, n))})
    # an estimate in mid-song and again later
    for _ in range(pick(ctx, 6, 30)):
        d = rnd.randrange(1000, 4000)
        s = [i * d for i in range(1 + 31000 // d)]
        half = est_prog(s[:len(s) // 2])
        rest = [x for x in est_prog(s)[len(half) - 1:] if x["k"] != "e"]
        jobs.append({"prog": half + rest + [{"k": "e"}, G.b(100), G.on(0), {"k": "e"}]})
    S.est(ctx, "estimates", jobs, cl)
    jobs = []
    for k in range(pick(ctx, 10, 60)):
        t = rnd.randrange(1000, 7000)
        p = G.steady(rnd, 1 + 34000 // t, t, chans=3, density=0.6, extra=0.05)
        jobs.append({"b": G.vgm(G.prog_bytes(p) + G.EOS), "want": {"song": 1}, "tpn": 0})
    for body in (b"", G.wait(5) + G.ym(8, 0x78), G.ym(8, 0)):
        jobs.append({"b": G.vgm(body + G.EOS), "want": {"song": 1, "inst": 1}, "tpn": 0})
    S.song(ctx, "row length of whole songs", jobs, {"tempo", "place", "outcome", "patterns"})


def c16(ctx):
    rnd = rng(ctx, "c16")
    cl = {"outcome", "tablefile", "tablehead", "tablerows", "tablecells"}
    wt = {"table": 1, "cli": 0}
    jobs = [dict(j, want=dict(wt)) for j in boundary_jobs(ctx, rnd) if j["tpn"] > 1 or True]
    S.song(ctx, "row and pattern boundaries", jobs, cl)
    tracked(ctx, "enumerated histories", pick(ctx, 4, 5), wt, cl, pick(ctx, 300, 8000), 7)
    jobs = [dict(j, want=dict(wt)) for j in song_jobs(ctx, rnd, pick(ctx, 50, 500), TPNS)]
    if ctx.tier == DEEP:
        jobs += late_jobs(ctx, rnd, wt, (900000,))
    S.song(ctx, "songs on a grid", jobs, cl)
    S.song(ctx, "row boundaries at late times", edge_jobs(ctx, rnd, wt), cl)
    S.song(ctx, "simultaneous events", crowded_jobs(ctx, rnd, wt), cl)
    # more than a thousand instruments
    sp = [(i * 10, [G.w(0x60 + i % 8, i & 127), G.w(0x18, i >> 7), G.on(i % 8)]) for i in range(1050)]
    jobs = [{"b": G.vgm(G.prog_bytes(at_rows(sp, 10)) + G.EOS), "want": dict(wt), "tpn": 10}]
    # a long silence: very many empty rows
    for tpn, n in pick(ctx, ((1, 101000), (7, 80 * 64 * 7)), ((1, 140000), (1, 20000), (7, 80 * 64 * 7))):
        jobs.append({"b": G.vgm(G.prog_bytes([G.on(0), G.b(n), G.on(4), G.b(3), G.off(0)]) + G.EOS), "want": dict(wt), "tpn": tpn})
    for body in (b"", G.prog_bytes([G.off(0), G.b(9)]), G.prog_bytes([G.on(0)]), G.prog_bytes([G.b(5000), G.on(7)]),
                 G.prog_bytes([G.on(7), G.b(64000), G.off(7)]), G.prog_bytes([G.b(999), G.on(1), G.b(1), G.off(1)])):
        jobs.append({"b": G.vgm(body + G.EOS), "want": dict(wt), "tpn": 1000})
    for c in range(8):
        combos = [(o, n, pn) for o in range(8) for n in G.GOODKC for pn in (0x40, 0x80, 0xc0)]
        rnd.shuffle(combos)
        sp = []
        for i, (o, n, pn) in enumerate(combos[:pick(ctx, 100, 288)]):
            kf = i % 64
            sp.append((i * 100, [G.w(0x28 + c, o << 4 | n), G.w(0x20 + c, pn), G.w(0x30 + c, kf << 2 | i % 4), G.on(c)]))
        jobs.append({"b": G.vgm(G.prog_bytes(at_rows(sp, 100)) + G.EOS), "want": dict(wt), "tpn": 100})
    for k in range(pick(ctx, 40, 400)):
        tpn = rnd.choice((100, 735, 1000))
        jobs.append({"b": G.vgm(simple_song(rnd, 150, maxwait=rnd.choice((40, 900, 4000)), kcgood=k % 4 > 0) + G.EOS),
                     "want": dict(wt), "tpn": tpn})
    S.song(ctx, "cells and music", jobs, cl)
    S.grown(ctx, "exports of a growing song", growing_jobs(rnd, pick(ctx, 8, 60), ("t", "te", "st")), cl | {"outcome"})


# ========================================================== whole pipeline ====
def gd3(rnd):
    txt = "".join(rnd.choice(("T", "f", "g", "a", "x", " ", "\0")) for _ in range(60)).encode("utf-16-le")
    return b"Gd3 \x00\x01\x00\x00" + struct.pack("<I", len(txt)) + txt


def c17(ctx):
    rnd = rng(ctx, "c17")
    jobs = []
    for k in range(pick(ctx, 12, 80)):
        body = simple_song(rnd, rnd.choice((0, 10, 80)))
        body = b"".join([body[:3 * 0], body])
        base = G.vgm(body + G.EOS)
        tails = [b"", gd3(rnd), G.ym(8, 0x78), G.ym(8, 0x78)[:1], G.ym(8, 0x78)[:2], b"\x61", b"\x61\x10",
                 G.wait(60000) + G.ym(8, 0x7b), G.EOS, G.EOS + G.ym(8, 0x7d), b"\x67", b"\x67\x66\x00\xff\xff\xff\x7f",
                 b"\x68\x66", G.rbytes(rnd, 200, "look"), G.rbytes(rnd, 200, "rand"),
                 simple_song(rnd, 60) + G.EOS, b"\x54" * 7, G.ym(0x18, 5) + G.ym(8, 0x78) + b"\x54", b"\x7f" * 9 + G.ym(8, 0)]
        runs = [{"b": base}] + [{"b": base + t} for t in tails]
        for t in (tails[1], tails[7]):
            runs.append({"b": base + t, "form": {"k": "gzip"}})
            runs.append({"b": base + t, "form": {"k": "gzip", "cuts": [len(base)]}})
        # header fields that describe the file's end and its tag
        for eof in EOFS[2:]:
            h = bytearray(base + gd3(rnd))
            struct.pack_into("<I", h, 4, eof)
            struct.pack_into("<I", h, 0x14, rnd.choice((0, 1, len(base) - 0x14, 0xffffffff)))
            struct.pack_into("<I", h, 0x1c, rnd.choice((0, 0x24, 0x30, 0xffffffff)))
            runs.append({"b": bytes(h)})
        # tails of every shape that the header counts as part of the file
        for t in tails + [bytes([o]) + G.rbytes(rnd, 9, "look") for o in rnd.sample(range(256), pick(ctx, 6, 40))]:
            h = bytearray(base + t)
            struct.pack_into("<I", h, 4, len(h) - 4)
            runs.append({"b": bytes(h)})
        # a song that just ends is the same song
        runs.append({"b": G.vgm(body)})
        # far more behind the end than any buffer holds
        if k < 2:
            for v in (0, 0x54, 0xff):
                runs.append({"b": base + b"\x01\x02", "gap": [len(base) + 1, pick(ctx, 3000000, 40000000), v]})
        jobs.append({"tpn": rnd.choice((300, 1000)), "runs": runs})
    S.group(ctx, "tails", jobs, {"same", "outcome"})
    jobs = []
    for k in range(pick(ctx, 10, 60)):
        body, tail = simple_song(rnd, 40), rnd.choice((gd3(rnd), simple_song(rnd, 30), b"\x54\x08", b"\x61"))
        jobs.append({"b": G.vgm(body + G.EOS + tail), "want": {"inst": 1, "song": 1, "state": 1}, "tpn": 500})
    fed(ctx, "enumerated runs", pick(ctx, 3, 4), {"outcome", "inst", "instdata", "touched"} | WHOLE,
        pick(ctx, 300, 6000))
    S.song(ctx, "tails against the specification", jobs,
           {"outcome", "events", "ids", "times", "ticks", "inst", "instdata", "base", "chan"} | WHOLE)


def c18(ctx):
    rnd = rng(ctx, "c18")
    fail = {"outcome", "touched", "extra", "unrequested"}
    okc = fail | {"instfile", "instdata", "songfile", "archive"} | WHOLE
    pres = [{"inst": a, "song": z} for a in ("none", "old") for z in ("none", "old")]
    wants = [{"inst": a, "song": z} for a, z in ((1, 1), (1, 0), (0, 1), (0, 0))]
    body = simple_song(rnd, 30)
    full = G.vgm(body + G.ym(8, 0x78) + G.wait(500))
    jobs = []
    for n in range(0, len(full) + 1):
        # between commands the data just ends and the run succeeds; the
        # specification decides which of the two each cut is
        if 56 <= n < 64:        # fields complete, rest of the header missing
            continue
        jobs.append({"b": full[:n], "pre": rnd.choice(pres), "want": dict(rnd.choice(wants[:3])), "tpn": 1000,
                     **({"form": {"k": "gzip"}} if rnd.random() < 0.4 else {})})
    S.song(ctx, "inputs cut at every byte", jobs, okc)
    fed(ctx, "enumerated runs", pick(ctx, 3, 4), okc, pick(ctx, 400, 8000))
    jobs = []
    good = G.vgm(body + G.EOS)
    noeos = G.vgm(body)
    # every cut and every flipped bit of compressed files; GzipMC shows that
    # damage is never silent, TraceSong decompresses each one by Gzip
    short = G.ym(8, 0x78) + G.wait(700) + G.ym(0x60, 5) + G.ym(8, 0x79) + G.wait(0x1234)
    files = []
    for lv in (9, 0):
        for b in (G.vgm(short), G.vgm(short + G.EOS), G.vgm(short + G.EOS + G.rbytes(rnd, 30, "rand")))[:pick(ctx, 2, 3)]:
            files.append((b, [b], lv))
    b = G.vgm(short)
    files.append((b, [b[:70], b[70:]], 6))
    packed = []
    for b, parts, lv in files:
        zs = [gzip.compress(x, lv, mtime=0) for x in parts]
        at = [sum(map(len, zs[:i])) for i in range(1, len(zs))]
        packed.append((b, b"".join(zs), at))
    E.model(ctx, "GzipMC", env={"GEN_FILE": E.make_params(ctx, {"files": [
        {"r": list(z), "d": list(b), "ends": [[x] for x in at]} for b, z, at in packed[:pick(ctx, 3, 9)]]})})
    for b, z, at in packed:
        harmed = [z] + [z[:n] for n in range(len(z))]
        for k in range(8 * len(z)):
            if ctx.tier == DEEP or k < 80 or rnd.random() < 0.3:
                m = bytearray(z)
                m[k // 8] ^= 1 << k % 8
                harmed.append(bytes(m))
        harmed += [z + b"\0", z + b"\0" * 40, z + b"x", z + b"\x1f", z + b"\x1f\x8b", z + z[:9], z + z[:30]]
        for h in harmed:
            jobs.append({"b": h, "raw": 1, "stdin": 1 if rnd.random() < 0.1 else 0, "tpn": 1000,
                         "pre": rnd.choice(pres), "want": dict(rnd.choice(wants[:3]))})
    S.song(ctx, "every damaged bit of compressed files", jobs, okc | {"instdata", "place"})
    jobs = []
    # bigger files, cut
    z = gz(noeos)
    for n in sorted(set(range(2, len(z) - 8, pick(ctx, 9, 1))) | set(range(len(z) - 8, len(z)))):
        jobs.append({"b": z[:n], "raw": 1, "pre": rnd.choice(pres), "want": dict(rnd.choice(wants[:3]))})
    # a flipped byte inside a stored (level 0) data block: only the checksum
    # at the end tells
    blk = G.vgm(body + G.block(0, bytes(range(200))) + G.ym(8, 0x78) + G.wait(9))
    z0 = z_level0(blk)
    at = z0.index(bytes(range(100, 140)))
    for d in (0, 7, 39):
        jobs.append({"b": blk, "cutzip": 1, "form": {"k": "gzip", "level": 0, "flip": [(at + d, 0x10)]},
                     "pre": rnd.choice(pres), "want": dict(rnd.choice(wants[:3]))})
    # the second member damaged
    for pos in (-1, -6):
        jobs.append({"b": noeos, "cutzip": 1, "form": {"k": "gzip", "cuts": [len(noeos) // 2], "flip": [(pos, 0x55)]},
                     "pre": rnd.choice(pres), "want": dict(rnd.choice(wants[:3]))})
    # checksum / length trailer damage
    for pos in (-1, -4, -5, -8):
        jobs.append({"b": noeos, "cutzip": 1, "form": {"k": "gzip", "flip": [(pos, 0x55)]},
                     "pre": rnd.choice(pres), "want": dict(rnd.choice(wants[:3]))})
    S.song(ctx, "damaged compression", jobs, fail)
    jobs = []
    for w in wants:
        for p in pres:
            jobs.append({"b": good, "missing": 1, "pre": p, "want": dict(w)})
            jobs.append({"b": b"not a vgm", "pre": p, "want": dict(w)})
            jobs.append({"b": good[:20], "pre": p, "want": dict(w)})
            jobs.append({"b": G.vgm(body + b"\x54\x08"), "pre": p, "want": dict(w)})
            jobs.append({"b": G.vgm(body + b"\x61\x08"), "pre": p, "want": dict(w)})
            jobs.append({"b": G.vgm(body + b"\x54"), "pre": p, "want": dict(w), "tpn": 0})
            jobs.append({"b": G.vgm(b"\x61"), "pre": p, "want": dict(w)})
            jobs.append({"b": good, "pre": p, "want": dict(w)})
            jobs.append({"b": G.vgm(b""), "pre": p, "want": dict(w)})
    for outs in (("in.json", "in.xrns"), ("x y.json", "x y.xrns"), ("i", "s"), ("i.json.gz", "t.zip"), ("in.vgz", "s.vgm"),
                 ("\u00e4.json", "\u00e4.xrns"), ("t.xrns", "i.json"), (".i", ".t"), ("i.json.tmp", "t.xrns.bak")):
        for p in (pres[0], pres[3]):
            for b in (good, G.vgm(body + b"\x54")):
                jobs.append({"b": b, "pre": p, "want": {"inst": 1, "song": 1}, "outs": list(outs), "absolute": len(jobs) % 2})
    for k, j in enumerate(jobs):
        j["oldkind"] = k // 3 % 2
        j["oldlate"] = k // 5 % 2
    # an earlier output that is all but the right one
    for kind in (2, 3, 4):
        for late in (0, 1):
            for b in (good, noeos, G.vgm(b"")):
                jobs.append({"b": b, "pre": pres[3], "want": {"inst": 1, "song": 1}, "oldkind": kind, "oldlate": late,
                             "tpn": rnd.choice((300, 1000))})
    S.song(ctx, "outcomes and existing files", jobs, okc)
    jobs = []
    for b, si in ((good, 0), (good[:30], 0), (b"junk", 0), (G.vgm(body + b"\x61"), 0), (good, 1), (G.vgm(b"\x54"), 1)):
        jobs.append({"b": b, "sub": 1, "stdin": si, "pre": {"inst": "old", "song": "old"},
                     "want": {"inst": 1, "song": 1}})
    jobs.append({"b": good, "sub": 1, "missing": 1, "pre": {"inst": "old", "song": "old"}, "want": {"inst": 1, "song": 1}})
    S.song(ctx, "exit status of the command", jobs, okc)


def gz(x):
    import io
    bio = io.BytesIO()
    with gzip.GzipFile(filename="", mode="wb", fileobj=bio, compresslevel=9, mtime=0) as g:
        g.write(x)
    return bio.getvalue()


def z_level0(x):
    return gzip.compress(x, 0, mtime=0)


def c19(ctx):
    rnd = rng(ctx, "c19")
    jobs = []
    for k in range(pick(ctx, 24, 200)):
        p = G.music(rnd, rnd.choice((10, 60)), maxwait=2000)
        cmds = []
        for e in p:
            cmds.append(G.ym(e["r"], e["v"]) if e["k"] == "w" else G.waits(e["n"]))
        runs = [{"b": G.vgm(b"".join(cmds) + G.EOS)}]
        for v in range(6):
            out = b""
            for c in cmds:
                while rnd.random() < (0.3, 0.7, 0.1)[v % 3]:
                    out += junk(ctx, rnd)
                out += c
            while rnd.random() < 0.6:
                out += junk(ctx, rnd)
            runs.append({"b": G.vgm(out + G.EOS)})
        jobs.append({"tpn": rnd.choice((300, 1000)), "runs": runs})
    S.group(ctx, "foreign commands inserted at random", jobs, {"same", "outcome"})
    # every foreign opcode, between every kind of neighbour
    jobs = []
    cmds = [G.ym(0x18, 0x33), G.ym(8, 0x01), b"\x72", G.ym(0x28, 0x4a), G.ym(0x20, 0xc7), G.ym(8, 0x00), G.ym(8, 0x78), G.wait(700), G.ym(8, 0x00),
            b"\x71", G.ym(0x60, 0x11), G.ym(8, 0x7f), b"\x62", G.ym(8, 0x07)]
    base = {"b": G.vgm(b"".join(cmds) + G.EOS)}
    ops = G.FOREIGN + [0x67, 0x68, 0x80]
    for i in range(0, len(ops), 8):
        runs = [dict(base)]
        for op in ops[i:i + 8]:
            for style in ("look", "rand"):
                out = b""
                for c in cmds:
                    out += c
                    out += (G.block(rnd.randrange(256), G.rbytes(rnd, 20, style), second=style == "rand") if op == 0x67 else
                            pcm(ctx, rnd) if op == 0x68 else b"\x80" if op == 0x80 else
                            bytes([op]) + G.rbytes(rnd, G.operands(op), style))
                runs.append({"b": G.vgm(out + G.EOS)})
        jobs.append({"tpn": (1, 500)[i // 8 % 2], "runs": runs})
    S.group(ctx, "every foreign opcode everywhere", jobs, {"same", "outcome"})
    # every foreign opcode with every value of every operand byte (the others
    # zero, all ones, or random), between notes one sample apart
    jobs = []
    tune = [c for c in cmds[:7]] + [b"\x70", G.ym(8, 0x00), G.ym(0x60, 0x11), b"\x71", G.ym(8, 0x7f), G.ym(8, 0x07)]
    base1 = {"b": G.vgm(b"".join(tune) + G.EOS)}
    wide = [o for o in G.FOREIGN if G.operands(o)]
    flat = [bytes([o]) for o in G.FOREIGN if not G.operands(o)]
    items = []
    for op in wide:
        n = G.operands(op)
        for pos in range(n):
            for v in (range(256) if ctx.tier == DEEP or pos == 0 else
                      sorted({0, 1, 0x54, 0x7f, 0x80, 0xff, *(rnd.randrange(256) for _ in range(10))})):
                x = bytearray(rnd.choice((bytes(n), b"\xff" * n, G.rbytes(rnd, n, "rand"))))
                x[pos] = v
                items.append(bytes([op]) + bytes(x))
        items.append(bytes([op]) + bytes(n))
    items += flat * 20
    rnd.shuffle(items)
    size = 600
    for i in range(0, len(items), size):
        part, out = items[i:i + size], [b""] * len(tune)
        for x in part:
            out[rnd.randrange(len(tune))] += x
        jobs.append({"tpn": 1, "runs": [dict(base1), {"b": G.vgm(b"".join(c + o for c, o in zip(tune, out)) + G.EOS)}]})
    S.group(ctx, "every operand value of every foreign opcode", jobs, {"same", "outcome"})
    # every pair of operand bytes of the two-operand opcodes
    two = [o for o in G.FOREIGN if G.operands(o) == 2]
    jobs = []
    for op in (two if ctx.tier == DEEP else rnd.sample([o for o in two if o > 0x50], 1)):
        pairs = [bytes((op, x, y)) for x in range(256) for y in range(256)]
        rnd.shuffle(pairs)
        for i in range(0, len(pairs), 8192):
            out = [b""] * len(tune)
            for x in pairs[i:i + 8192]:
                out[rnd.randrange(len(tune))] += x
            jobs.append({"tpn": 1, "runs": [dict(base1), {"b": G.vgm(b"".join(c + o for c, o in zip(tune, out)) + G.EOS)}]})
    S.group(ctx, "every pair of operands", jobs, {"same", "outcome"})
    # second chips look like the first one's writes
    jobs = []
    for _ in range(pick(ctx, 6, 40)):
        runs = [dict(base)]
        for op in (0xa4, 0x55, 0x53, 0x52, 0xa5, 0x51, 0x5e):
            out = b""
            for c in cmds:
                out += c + b"".join(bytes((op, r, v)) for r, v in
                                    ((8, 0x78), (8, 0), (0x18, 9), (0x28, 1), (0x20, 0), (rnd.randrange(256), rnd.randrange(256))))
            runs.append({"b": G.vgm(out + G.EOS)})
        jobs.append({"tpn": 500, "runs": runs})
    seem = [(8, v) for v in (0, 1, 2, 7, 0x08, 0x78, 0x7f, 0x80, 0xff)] + \
        [(r, rnd.randrange(256)) for r in (1, 0x0f, 0x10, 0x14, 0x18, 0x19, 0x1b, 0x20, 0x27, 0x28, 0x30, 0x38, 0x40, 0x60,
                                           0x80, 0xa0, 0xc0, 0xe0)]
    for i in range(0, len(two), 8):
        runs = [dict(base)]
        for op in two[i:i + 8]:
            out = [b""] * len(cmds)
            for r, v in seem * pick(ctx, 2, 6):
                out[rnd.randrange(len(cmds))] += bytes((op, r, v))
            runs.append({"b": G.vgm(b"".join(c + o for c, o in zip(cmds, out)) + G.EOS)})
        jobs.append({"tpn": 1, "runs": runs})
    for size in (70000, (1 << 24) + 5):
        head = b"".join(cmds[:6])
        runs = [dict(base)]
        for v in (0x54, 0x66, 0x61):
            j = G.big_block(head, size, b"".join(cmds[6:]) + G.EOS, v, tt=rnd.randrange(256), second=v == 0x54)
            runs.append(j)
        jobs.append({"tpn": 500, "runs": runs})
    # tens of thousands of foreign commands in a row
    for part in (((0x30, 70000), (0x00, 1100000), (0xe0, 70000)), ((0x80, 140000), (0x51, 66000), (0xc3, 66000), (0xa4, 66000))):
        runs, at = [dict(base)], rnd.randrange(len(cmds))
        for op, num in part:
            runs.append(G.many(b"".join(cmds[:at]), op, num, b"".join(cmds[at:]) + G.EOS))
        jobs.append({"tpn": 500, "runs": runs})
    S.group(ctx, "look-alike writes and large blocks", jobs, {"same", "outcome"})
    fed(ctx, "enumerated runs", 3, {"outcome", "inst", "instdata"} | WHOLE, pick(ctx, 250, 6000),
        [G.ym(8, 0x78), G.ym(8, 1), G.wait(700), b"\x8f", b"\x80", b"\x4f\x54", b"\x55\x08\x78", b"\x95\x54\x08\x78\x61",
         b"\xe0\x61\x10\x66\x54", b"\xc0\x54\x08\x78", b"\x67\x66\x54\x03\x00\x00\x00\x54\x08\x78",
         b"\x67\x66\x86\x03\x00\x00\x80\x54\x08\x78",
         b"\x90\x54\x66\x08\x78"])
    # with their documented waits (0x8n), against the specification
    jobs = [{"b": G.vgm(b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(120)) + G.EOS),
             "want": {"inst": 1, "song": 1, "state": 1}, "tpn": 1000} for _ in range(pick(ctx, 20, 150))]
    S.song(ctx, "mixed streams against the specification", jobs,
           {"outcome", "events", "ids", "times", "ticks", "inst", "base", "chan", "note"})


def pcm(ctx, rnd):
    n = rnd.choice((0, 1, 4, 19))
    return G.pcmram(n, G.rbytes(rnd, n) if ctx.inline else b"", rnd)


def junk(ctx, rnd):
    x = rnd.random()
    if x < 0.1:
        return pcm(ctx, rnd)
    if x < 0.2:
        return b"\x80"
    return G.foreign(rnd)


SESSIONS = [[[0x60, 3], [8, 0x78], [257, 0], [0x60, 4], [8, 0x79]],
            [[0x60, 9], [8, 0x78], [W, 7], [8, 0]]]
THREE = [[[0x60, 3], [8, 0x78], [257, 0]], [[0x18, 9], [8, 0x78], [8, 0]], [[8, 0x79], [W, 7], [257, 0]]]


def session_prog(prog):
    return [{"k": "x", "what": w, "tpn": 10} if r == 257 else G.b(v) if r == W else G.w(r, v)
            for r, v in prog for w in (("inst",) if r == 257 else (None,))]


def c20(ctx):
    rnd = rng(ctx, "c20")
    allopm = {"raised", "base", "chan", "append", "events", "note", "ids", "times", "inst", "ticks"}
    allrd = {"open", "version", "size", "start", "clock", "supports", "framing", "lostcmd", "operands", "wait",
             "wait16", "cleanend", "cuterror", "refuse", "shortheader", "invented"}
    jobs = []
    for k in range(pick(ctx, 40, 300)):
        sess = []
        for _ in range(rnd.choice((2, 3, 4))):
            if rnd.random() < 0.5:
                sess.append({"kind": "opm", "prog": G.music(rnd, rnd.choice((10, 40)), settings=0.8)})
            else:
                body = b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(rnd.choice((3, 25))))
                sess.append({"kind": "read", "gz": rnd.random() < 0.3,
                             "b": G.vgm(body, ver=rnd.choice((101, 109, 110, 150, 151, 171)),
                                        doff=rnd.choice((0x0c, 0x4c, 0xcc)),
                                        c13=rnd.choice((0, 1, 3579545, rnd.randrange(1 << 32))),
                                        c51=rnd.choice((0, 2, 4000000, rnd.randrange(1 << 32))),
                                        eof=rnd.randrange(1 << 32))})
        lens = [(len(s["prog"]) if s["kind"] == "opm" else 32) + 3 for s in sess]
        sched = [i for i, n in enumerate(lens) for _ in range(n)]
        if k % 4:
            rnd.shuffle(sched)
        elif k % 8:
            sched = [i for t in range(max(lens)) for i, n in enumerate(lens) if t < n]
        jobs.append({"sess": sess, "sched": sched})
    # all interleavings of two short sessions (schedules from the session model)
    scheds = E.generate(ctx, "SessionMC", "SessionMC", params={"prog": SESSIONS})
    ctx.parts["schedules enumerated by TLC (SessionMC)"] = {"count": len(scheds)}
    for sc in scheds:
        jobs.append({"sess": [
            {"kind": "read", "b": G.vgm(G.ym(8, 0x78) + G.wait(5), ver=101, c13=rnd.randrange(1, 9), c51=0)},
            {"kind": "read", "b": G.vgm(b"\x62" + G.EOS, ver=151, c13=0, c51=rnd.randrange(1, 9), doff=0x1c)}],
            "sched": sc + [0, 1] * 3})
        jobs.append({"sess": [
            {"kind": "opm", "prog": session_prog(q)} for q in SESSIONS], "sched": [0, 1] + sc + [0, 1]})
    if ctx.tier == DEEP:
        for sc in E.generate(ctx, "SessionMC", "SessionMC", params={"prog": THREE}):
            jobs.append({"sess": [{"kind": "opm", "prog": session_prog(q)} for q in THREE],
                         "sched": [0, 1, 2] + sc + [0, 1, 2]})
    S.multi(ctx, "interleaved sessions", jobs, allopm, allrd)
    jobs = []
    for k in range(pick(ctx, 8, 60)):
        sess = []
        for _ in range(4):
            if rnd.random() < 0.5:
                sess.append({"kind": "opm", "prog": G.music(rnd, 150, settings=0.8)})
            else:
                sess.append({"kind": "read", "gz": rnd.random() < 0.5,
                             "b": G.vgm(b"".join(G.any_cmd(rnd, ctx.inline) for _ in range(300)),
                                        ver=rnd.choice((101, 110, 151)), c13=rnd.randrange(1 << 32), c51=rnd.randrange(1 << 32))})
        jobs.append({"job": "threads", "sess": sess})
    S.multi(ctx, "sessions in threads", jobs, allopm, allrd)
    lists = []
    for _ in range(pick(ctx, 20, 120)):
        xs, prog = [], None
        for _ in range(5):
            if prog is None or rnd.random() < 0.4:
                prog = G.music(rnd, rnd.choice((5, 40, 40)), settings=0.8)
                if rnd.random() < 0.5:
                    prog = [G.w(0x20 + c, rnd.randrange(256)) for c in range(8)] + prog
            else:
                prog = nudged(rnd, prog)
            x = rnd.random()
            tail = G.EOS if x < 0.7 else b"\x54" if x < 0.85 else b""
            xs.append({"b": G.vgm(G.prog_bytes(prog) + tail),
                       "want": {"inst": 1, "song": 1, "table": 1 if x < 0.7 else 0, "state": rnd.randrange(2)},
                       "tpn": rnd.choice((500, 1000))})
        lists.append(xs)
    S.songs_in_one_process(ctx, "one process, many songs", lists,
                           {"outcome", "touched", "instfile", "instdata", "songfile", "place", "patterns", "sequence",
                            "instruments", "celltext", "cellinst", "cellpan", "tempo", "events", "note", "ids", "times",
                            "ticks", "inst", "base", "chan", "tracks", "tablerows", "tablecells"})
    jobs = []
    for _ in range(pick(ctx, 12, 80)):
        a = G.vgm(simple_song(rnd, 50, settings=0.8) + G.EOS)
        o = [G.vgm(simple_song(rnd, 50, settings=0.8) + rnd.choice((G.EOS, b"\x54"))) for _ in range(3)]
        jobs.append({"tpn": rnd.choice((0, 700)), "deep": 1, "runs": [
            {"b": a}, {"b": a, "same": 1}, {"b": o[0], "skip": 1}, {"b": a, "same": 1}, {"b": o[1], "skip": 1},
            {"b": o[2], "skip": 1}, {"b": a, "same": 1}]})
    S.group(ctx, "again after other songs", jobs, {"same", "outcome"})
    jobs = []
    for _ in range(pick(ctx, 6, 30)):
        a = G.vgm(simple_song(rnd, 120, settings=0.8) + G.EOS)
        jobs.append({"tpn": rnd.choice((700, 1000, 0)), "deep": 1, "runs": [{"b": a}] + [
            {"b": a, "same": 1, "sub": 1, "env": e} for e in (
                {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": str(rnd.randrange(1 << 31)), "TZ": "Asia/Tokyo"},
                {"PYTHONHASHSEED": "random", "HOME": "/nonexistent", "COLUMNS": "20"},
                {"cwd": "elsewhere", "PYTHONHASHSEED": str(rnd.randrange(1 << 31))})]})
    S.group(ctx, "again in other surroundings", jobs, {"same", "outcome"})
    lists = []
    for k in range(pick(ctx, 8, 60)):
        lists.append([{"b": G.vgm(simple_song(rnd, rnd.choice((20, 120)), settings=0.8) + G.EOS),
                       "tpn": rnd.choice((500, 735, 1000)) if k % 8 else 0} for _ in range(2 if not k % 8 else 4)])
    S.texports(ctx, "extractions in threads", lists, {"same", "outcome"})


def c21(ctx):
    rnd = rng(ctx, "c21")
    cl = {"outcome", "swallowed", "incomplete"}
    for eos in (1, 0):
        E.model(ctx, "FaultMC", env={"GEN_FILE": E.make_params(ctx, {
            "cmds": 3, "eos": eos, "need": [2, 3] if ctx.tier != DEEP else [4, 5],
            "room": 4 if ctx.tier != DEEP else 6, "ahead": 2})})
    # the input fails at every byte
    jobs = []
    for k in range(pick(ctx, 3, 12)):
        b = G.vgm(simple_song(rnd, rnd.choice((6, 12, 25))) + G.ym(8, 0x78) + G.wait(700) +
                  (G.EOS + G.rbytes(rnd, 30, "rand"), b"", G.EOS)[k % 3])
        for raw, q in ((0, b), (1, gzip.compress(b, rnd.choice((0, 6, 9)), mtime=0))):
            ats = list(range(len(q)))
            for i in range(0, len(ats), 60):
                jobs.append({"b": q, "raw": raw, "tpn": 1000, "faults":
                             [{"k": "none"}] + [{"k": "read", "at": a} for a in ats[i:i + 60]]})
    for k in range(pick(ctx, 6, 30)):
        b = G.vgm(simple_song(rnd, 40) + rnd.choice((G.EOS, b"")))
        q = rnd.choice((b, gzip.compress(b)))
        if len(q) < 3000:
            jobs.append({"b": q, "raw": 1, "tpn": 1000, "faults": [{"k": "none"}] + [
                {"k": "read", "at": rnd.randrange(len(q)), "pty": 1} for _ in range(4)]})
    rnd.shuffle(jobs)
    S.fault(ctx, "input failing at every byte", jobs, cl)
    # outputs that cannot grow beyond some size
    jobs = []
    wants = ((1, 1), (1, 0), (0, 1))
    for k in range(pick(ctx, 3, 12)):
        b = G.vgm(simple_song(rnd, rnd.choice((8, 60, 400)), settings=0.9) + G.ym(8, 0x78) + G.wait(700) + G.EOS)
        fs = [{"k": "write", "limit": n} for n in (0, 1, 2, 3, 10, 100, 4095, 4096, 4097, 8191, 8192, 8193)]
        fs += [{"k": "write", "back": n, "of": o} for o in (0, 1) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 21, 22, 23, 30, 60)]
        fs += [{"k": "write", "part": rnd.random()} for _ in range(pick(ctx, 40, 200))]
        for f in fs:
            f["want"] = rnd.choice(wants) if "of" not in f else ((1, 0), (0, 1))[f["of"]] if rnd.random() < 0.5 else (1, 1)
            f["old"] = rnd.choice((0, 0, 1, 2))
        rnd.shuffle(fs)
        for i in range(0, len(fs), 12):
            jobs.append({"b": b, "tpn": rnd.choice((400, 1000, 5000)), "faults": [{"k": "none"}] + fs[i:i + 12]})
    # an output of more than a megabyte
    b = G.vgm(simple_song(rnd, pick(ctx, 14000, 24000), maxwait=3000) + G.EOS)
    fs = [{"back": n, "of": 1} for n in (1, 5, 21, 22, 23, 60, 90, 120)] + [{"part": rnd.random()} for _ in range(8)] + \
        [{"limit": n} for n in (8192, 65536, 1 << 20)]
    for i in range(0, len(fs), 5):
        jobs.append({"b": b, "tpn": 100, "faults": [{"k": "none"}] + [dict(f, k="write", want=(0, 1)) for f in fs[i:i + 5]]})
    b = G.vgm(simple_song(rnd, 60, settings=0.9) + G.ym(8, 0x78) + G.wait(700) + G.EOS)
    for w in wants:
        for f in ({"limit": 0}, {"limit": 10}, {"back": 1, "of": 0 if w[0] else 1}, {"back": 20, "of": 1 if w[1] else 0},
                  {"part": 0.5}, {"part": 0.95}):
            jobs.append({"b": b, "tpn": 1000, "faults": [{"k": "none"}, dict(f, k="write", sub=1, want=w)]})
    S.fault(ctx, "outputs that stop growing", jobs, cl)
    jobs = []
    for how in ("full", "dir", "loop", "under", "nodir", "long"):
        for of in (0, 1):
            for w in ((1, 1), ((1, 0), (0, 1))[of]):
                for sub in (0, 1) if how in ("full", "nodir") else (0,):
                    jobs.append({"b": b, "tpn": 1000, "faults": [
                        {"k": "none"}, {"k": "path", "how": how, "of": of, "want": w, "sub": sub}]})
    S.fault(ctx, "outputs that cannot be written", jobs, cl)


def mutated(rnd, b):
    """A file with some of its bytes changed, removed, repeated or inserted."""
    m = bytearray(b)
    for _ in range(rnd.choice((1, 1, 1, 2, 4, 16))):
        i = rnd.randrange(len(m) + 1)
        j = min(len(m), i + rnd.choice((1, 1, 2, 3, 9, 40)))
        x = rnd.random()
        if x < 0.3 and i < len(m):
            m[i] ^= 1 << rnd.randrange(8)
        elif x < 0.5 and i < len(m):
            m[i] = rnd.choice((0, 1, 0x54, 0x61, 0x66, 0x67, 0x68, 0x70, 0x80, 0xff, rnd.randrange(256)))
        elif x < 0.65:
            del m[i:j]
        elif x < 0.8:
            m[i:i] = m[i:j]
        elif x < 0.95:
            m[i:i] = bytes(rnd.randrange(256) for _ in range(j - i))
        else:
            del m[i:]
    return bytes(m)


def settled(b):
    """The format settles where the commands of this file begin."""
    if b[:4] != b"Vgm " or len(b) < 52:
        return True
    if any(x >> 4 > 9 or x & 15 > 9 for x in b[8:12]):
        return False
    ver = int(b[8:12][::-1].hex())
    return len(b) >= 64 and not (ver >= 150 and b[0x34:0x38] == bytes(4))


def live_params(ctx):
    pieces = [G.ym(8, 0x78), G.ym(8, 0), G.wait(700), G.EOS, b"\x61", b"\x55\x08\x78", b"\x67\x66\x00\x03\x00\x00\x00\x54"]
    return {"alpha": [list(x) for x in pieces], "depth": pick(ctx, 2, 3), "combos": COMBOS}


def c22(ctx):
    rnd = rng(ctx, "c22")
    everything = {"outcome", "touched", "extra", "unrequested", "instfile", "instdata", "songfile", "archive", "place",
                  "patterns", "celltext", "cellinst", "cellpan", "tempo", "sequence", "instruments"}
    for inline in (0, 1):
        E.model(ctx, "ReaderMC", env={"GEN_FILE": E.make_params(ctx, {
            "alpha": [0, 1, 0x30, 0x54, 0x61, 0x66, 0x67, 0x72] if inline == 0 else [0, 1, 0x68, 0x54],
            "len": pick(ctx, 4, 5) if inline == 0 else pick(ctx, 4, 6), "inline": inline})})
    E.model(ctx, "PipelineMC", "PipelineMC_live", env={"GEN_FILE": E.make_params(ctx, live_params(ctx))})
    streams = [b""] + [bytes((a,)) for a in range(256)]
    streams += [bytes((a, z)) for a in range(256) for z in range(256)
                if ctx.tier == DEEP or rnd.random() < 0.15 or a in (0x54, 0x61, 0x67, 0x68) or z in (0x54, 0x61, 0x66, 0x67, 0x68)]
    look = (0, 1, 2, 0x30, 0x40, 0x4f, 0x54, 0x5f, 0x61, 0x62, 0x66, 0x67, 0x68, 0x70, 0x80, 0x90, 0x92, 0x93, 0x95, 0xa0,
            0xc0, 0xe0, 0xff)
    for _ in range(pick(ctx, 8000, 120000)):
        n = rnd.choice((3, 3, 4, 5, 8, 13, 20))
        streams.append(bytes(rnd.choice(look) if rnd.random() < 0.6 else rnd.randrange(256) for _ in range(n)))
    S.ends(ctx, "short command streams", streams, {"hang", "cleanend", "cuterror", "framing"})
    jobs = []
    wants = ({"inst": 1, "song": 1}, {"inst": 1, "song": 0}, {"inst": 0, "song": 1})

    def add(b, **kw):
        if not settled(b):
            return
        jobs.append(dict({"b": b, "raw": 1, "tpn": 65535, "want": dict(rnd.choice(wants)), "stdin": int(rnd.random() < 0.15)}, **kw))
    base = G.vgm(simple_song(rnd, 12, settings=0.6) + G.ym(8, 0x78) + G.wait(7000) + G.EOS)
    for i in range(64):
        for v in {base[i] ^ 1, base[i] ^ 0x80, 0, 0xff, rnd.randrange(256)} - {base[i]}:
            add(base[:i] + bytes([v]) + base[i + 1:])
    for k in range(pick(ctx, 500, 6000)):
        b = G.vgm(simple_song(rnd, rnd.choice((3, 12, 40)), settings=0.6) + rnd.choice((G.EOS, b"")),
                  ver=rnd.choice((101, 110, 150, 151, 161, 171)))
        m = mutated(rnd, b)
        if not settled(m):
            continue
        x = rnd.random()
        if x < 0.15:
            m = gzip.compress(m, rnd.choice((0, 1, 9)), mtime=0)
        elif x < 0.25:
            m = mutated(rnd, gzip.compress(b, rnd.choice((0, 1, 9)), mtime=0))
        add(m)
    for k in range(pick(ctx, 60, 600)):
        add(rnd.choice((b"", b"Vgm ", b"\x1f\x8b", b"\x1f\x8b\x08\x00", base[:64])) +
            bytes(rnd.randrange(256) for _ in range(rnd.choice((0, 1, 2, 3, 40, 300)))))
    S.song(ctx, "damaged and arbitrary files", jobs, everything)
    jobs = []
    # lengths that promise more than there is
    for n in (1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x3fffffff, 0x7ffffff0, 0x7fffffff, 0x80000000,
              0x80000001, 0xfffffffe, 0xffffffff):
        for tail in (b"", b"\x54", G.ym(8, 0x79) + G.EOS):
            b = G.vgm(G.ym(8, 0x78) + G.wait(500) + b"\x67\x66\x00" + n.to_bytes(4, "little") + tail)
            add(rnd.choice((b, b, gzip.compress(b, mtime=0))))
    for n in (0xffffff, 0x800000, 0x100):
        b = G.vgm(G.ym(8, 0x78) + G.wait(500) + b"\x68\x66\x00" + bytes(6) + n.to_bytes(3, "little") + G.ym(8, 0x79) + G.EOS)
        add(b)
    S.song(ctx, "promised lengths", jobs, everything - {"touched"})
    # songs at the edges of the exporters: no events, one, all at once, far away
    jobs = []
    for body in (b"", G.ym(8, 0x08), G.ym(8, 0x78), G.ym(8, 0x78) * 300, G.wait(65535) * 50 + G.ym(8, 0x78),
                 G.ym(8, 0x78) + G.wait(65535) * 200 + G.ym(8, 0x08), b"\x80" * 500 + G.ym(8, 0x79),
                 b"".join(G.ym(8, 0x78 | c) + G.ym(8, c) for c in range(8))):
        for t in (0, 1000, 65535, 1 << 20):
            for e in (G.EOS, b""):
                add(G.vgm(body + e), tpn=t, want={"inst": 1, "song": 1})
    for op, num in ((0x70, pick(ctx, 1100000, 5000000)), (0x54, 140000), (0x61, 9000), (0x30, 140000), (0x00, 300000), (0xe0, 70000)):
        for e in (G.EOS, b"\x54\x08"):
            j = G.many(G.ym(8, 0x78) + G.wait(99), op, num, G.wait(9) + G.ym(8, 0x08) + G.wait(300) + G.ym(8, 0x79) + e)
            jobs.append(dict(j, tpn=65535, want={"inst": 1, "song": 1}))
    S.song(ctx, "songs at the edges", jobs, everything)


CHECKS = {"C%02d" % i: f for i, f in enumerate(
    (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22), 1)}
