"""Builders and seeded generators of inputs."""
import random
import struct
import zlib

# operand counts of the VGM command set (used only to BUILD inputs; the
# specification decodes every input itself)
def operands(op):
    if op <= 0x2f: return 0
    if op <= 0x3f: return 1
    if op <= 0x4e: return 2
    if op <= 0x50: return 1
    if op <= 0x5f: return 2
    if op == 0x61: return 2
    if op in (0x60, 0x62, 0x63, 0x64, 0x65, 0x66): return 0
    if 0x69 <= op <= 0x8f: return 0
    if op in (0x90, 0x91): return 4
    if op == 0x92: return 5
    if op == 0x93: return 10
    if op == 0x94: return 1
    if op == 0x95: return 4
    if op <= 0x9f: return 0
    if op <= 0xbf: return 2
    if op <= 0xdf: return 3
    return 4


LOOK = [0x54, 0x61, 0x62, 0x63, 0x66, 0x67, 0x68, 0x70, 0x7f, 0x80, 0x8f, 0xa4, 0x00, 0xff, 0x08, 0x78]


def ym(r, v): return bytes((0x54, r, v))
def wait(n): return struct.pack("<BH", 0x61, n)


def waits(n):
    out = b""
    while n > 65535:
        out += wait(65535)
        n -= 65535
    return out + wait(n)


EOS = b"\x66"


def block(tt, data, marker=0x66, second=False):
    """second: for the second chip of its kind (bit 31 of the size)."""
    return bytes((0x67, marker, tt)) + struct.pack("<I", len(data) | second << 31) + data


def many(pre, op, num, post, **kw):
    """num commands of the opcode in a row, all their operands the opcode
    itself: a run of equal bytes (fields b and gap)."""
    h = vgm(pre, **kw)
    return {"b": h + post, "gap": [len(h), (1 + operands(op)) * num, op]}


def big_block(pre, size, post, v=0x54, tt=0, rnd=None, second=False, **kw):
    """A file with a data block of `size' bytes, nearly all of them v: job
    fields b and gap.  The block's own first and last byte differ from v."""
    e = (v + 1) % 256
    h = vgm(pre + bytes((0x67, 0x66, tt)) + struct.pack("<I", size | second << 31) + bytes((e,)), **kw)
    return {"b": h + bytes((e,)) + post, "gap": [len(h), size - 2, v]}


def pcmram(ss, data, rnd=None):
    """0x68; data follows only in the dialect that reads it inline."""
    o = (rnd.randrange(1 << 24) if rnd else 0)
    d = (rnd.randrange(1 << 24) if rnd else 0)
    return bytes((0x68, 0x66, 1)) + struct.pack("<I", o)[:3] + struct.pack("<I", d)[:3] + \
        struct.pack("<I", ss)[:3] + data


def header(ver=151, c13=0, c51=3579545, doff=None, size=None, eof=None, total=None, fill=0, rnd=None):
    """Header bytes up to the data start.  ver is decimal (151 = 1.51)."""
    start = 0x40 if ver < 150 else 0x34 + (0x0c if doff is None else doff)
    n = max(start, 0x38 if ver >= 150 else 0x40)
    h = bytearray([fill]) * n
    if rnd:
        h = bytearray(rnd.randrange(256) for _ in range(n))
    h[0:4] = b"Vgm "
    bcd = int(str(ver), 16)
    struct.pack_into("<I", h, 8, bcd)
    struct.pack_into("<I", h, 0x10, c13)
    struct.pack_into("<I", h, 0x30, c51)
    if ver >= 150:
        struct.pack_into("<I", h, 0x34, start - 0x34)
    struct.pack_into("<I", h, 4, 0 if eof is None else eof)
    return bytes(h)


def claims(h, body, clock):
    """Fills in what a header only tells players - length, loop, rate, tags,
    other chips - differently for every body, and often wrongly."""
    x = zlib.crc32(body)
    pick = lambda k, *vs: vs[(x >> k) % len(vs)]
    n = len(h)
    fields = {0x14: pick(0, 0, 0, n + len(body) - 0x14, n - 0x14 + len(body) // 2, 1),
              0x18: pick(3, 0, 1, 100, 5000, 44100, 1 << 31, 0xffffffff),
              0x1c: pick(6, 0, n - 0x1c, n - 0x1c + len(body) // 2, n - 0x1c + len(body), n),
              0x20: pick(9, 0, 1, 700, 44100, 0xffffffff),
              0x24: pick(12, 0, 50, 60, 44100),
              0x28: pick(15, 0, 0x00100009, 0xffffffff),
              0x2c: pick(18, 0, 7670453, 0xc0000001)}
    if clock:
        fields[0x30] = pick(21, 3579545, 3579545, 4000000, 3579545 | 1 << 30, 1, 0)
    for o, v in fields.items():
        struct.pack_into("<I", h, o, v)


def vgm(body, **kw):
    if "ver" not in kw and "doff" not in kw:
        x = zlib.crc32(body) >> 5
        kw["ver"] = (151, 151, 151, 150, 171, 161, 110, 101, 100)[x % 9]
        if kw["ver"] < 110:
            kw.setdefault("c13", 3579545)
    b = bytearray(header(**kw))
    if not kw.get("rnd") and not kw.get("fill") and zlib.crc32(body) & 3:
        claims(b, body, "c51" not in kw)
    b += body
    if kw.get("eof") is None:
        struct.pack_into("<I", b, 4, len(b) - 4)
    return bytes(b)


def rbytes(rnd, n, style=None):
    style = style or rnd.choice(("rand", "look", "look", "same"))
    if style == "rand":
        return bytes(rnd.randrange(256) for _ in range(n))
    if style == "same":
        return bytes([rnd.choice(LOOK)]) * n
    return bytes(rnd.choice(LOOK) for _ in range(n))


def foreign_ops():
    return [op for op in range(256)
            if op not in (0x54, 0x61, 0x62, 0x63, 0x66, 0x67, 0x68)
            and not 0x70 <= op <= 0x8f]


FOREIGN = foreign_ops()


def foreign(rnd, op=None):
    """A complete command that is none of: YM2151, wait, end of data."""
    r = rnd.random()
    if op is None and r < 0.12:
        return block(rnd.choice((0, 1, 0x40, 0x7f, 0x80, 0x9f, 0xc0, 0xc2, 0xe0, 0xff, 0x66, 0x54)),
                     rbytes(rnd, rnd.choice((0, 1, 2, 3, 5, 17, 64, 255, 256, 257))), second=rnd.random() < 0.3)
    if op is None and r < 0.2:
        return b"\xa4" + rbytes(rnd, 2)
    op = rnd.choice(FOREIGN) if op is None else op
    return bytes([op]) + rbytes(rnd, operands(op))


def any_cmd(rnd, inline):
    """Any complete command except the end of data."""
    r = rnd.random()
    if r < 0.25:
        return ym(rnd.choice((rnd.randrange(256), 8, 8)), rnd.randrange(256))
    if r < 0.5:
        return rwait(rnd)
    if r < 0.55:
        n = rnd.choice((0, 0, 1, 2, 3, 9, 300))
        return pcmram(n, rbytes(rnd, n) if inline else b"", rnd)
    return foreign(rnd)


def rwait(rnd):
    return rnd.choice((
        lambda: wait(rnd.choice((0, 1, 2, 255, 256, 257, 735, 32767, 32768, 65535, rnd.randrange(65536)))),
        lambda: b"\x62", lambda: b"\x63",
        lambda: bytes([rnd.randrange(0x70, 0x80)]),
        lambda: bytes([rnd.randrange(0x80, 0x90)])))()


# -------------------------------------------------------------- programs --
GROUPS = {"lfo": [0x18], "depth": [0x19], "wave": [0x1b], "noise": [0x0f], "key": [0x08],
          "rlfbcon": range(0x20, 0x28), "kc": range(0x28, 0x30), "kf": range(0x30, 0x38),
          "pmsams": range(0x38, 0x40), "dt1mul": range(0x40, 0x60), "tl": range(0x60, 0x80),
          "ksar": range(0x80, 0xa0), "ased1r": range(0xa0, 0xc0),
          "dt2d2r": range(0xc0, 0xe0), "d1lrr": range(0xe0, 0x100)}
SETTING = [r for g, rs in GROUPS.items() if g != "key" for r in rs]
GOODKC = [0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14]


def w(r, v): return {"k": "w", "r": r, "v": v}
def b(n): return {"k": "b", "n": n}
def on(c, mask=15): return w(8, (mask << 3) | c)
def off(c): return w(8, c)


def prog_bytes(prog):
    out = b""
    for e in prog:
        if e["k"] == "w":
            out += ym(e["r"], e["v"])
        elif e["k"] == "b":
            out += waits(e["n"])
    return out


def music(rnd, n, chans=8, maxwait=4000, settings=0.5, junk=0.05, kcgood=True):
    """A random but music-like program: settings, notes, waits, keys."""
    p = []
    cs = rnd.sample(range(8), chans)
    for _ in range(n):
        c = rnd.choice(cs)
        x = rnd.random()
        if x < 0.22:
            p.append(on(c, rnd.choice((15, 15, 15, rnd.randrange(1, 16)))))
        elif x < 0.34:
            p.append(off(c))
        elif x < 0.54:
            p.append(b(rnd.choice((0, 1, rnd.randrange(maxwait), rnd.randrange(maxwait)))))
        elif x < 0.54 + junk:
            p.append(w(rnd.choice((0, 1, 2, 7, 9, 0x10, 0x11, 0x12, 0x14, 0x1a, 0x1c, 0x1f)), rnd.randrange(256)))
        elif rnd.random() < settings:
            r = rnd.choice(SETTING)
            v = rnd.randrange(256)
            if 0x28 <= r < 0x30 and kcgood:
                v = (rnd.randrange(16) << 4 | rnd.choice(GOODKC))
            p.append(w(r, v))
        else:
            k = rnd.randrange(3)
            if k == 0:
                p.append(w(0x28 + c, rnd.randrange(8) << 4 |
                           (rnd.choice(GOODKC) if kcgood else rnd.randrange(16))))
            elif k == 1:
                p.append(w(0x30 + c, rnd.randrange(256)))
            else:
                p.append(w(0x20 + c, rnd.choice((0x00, 0x40, 0x80, 0xc0)) | rnd.randrange(64)))
    return p


def steady(rnd, rows, tpn, chans=8, jitter=0, density=0.5, extra=0.2):
    """A program whose events fall into known rows (row length tpn)."""
    p, now = [], 0
    for row in range(rows):
        evs = []
        for c in range(chans):
            if rnd.random() < density:
                evs.append((row * tpn + (rnd.randrange(tpn) if jitter and tpn > 1 else 0), c))
            if rnd.random() < extra:
                evs.append((row * tpn + rnd.choice((0, tpn - 1, rnd.randrange(tpn))), c))
        evs.sort(key=lambda e: e[0])
        for t, c in evs:
            if t > now:
                p.append(b(t - now))
                now = t
            x = rnd.random()
            if x < 0.4:
                p.append(w(0x28 + c, rnd.randrange(8) << 4 | rnd.choice(GOODKC)))
            if x < 0.2:
                p.append(w(0x20 + c, rnd.choice((0x40, 0x80, 0xc0)) | rnd.randrange(64)))
            if x < 0.1:
                p.append(w(rnd.choice(SETTING[3:]), rnd.choice((0, 1, 2))))
            p.append(off(c) if rnd.random() < 0.3 else on(c, rnd.choice((15, 15, 7, 8, 1))))
    return p
