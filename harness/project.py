"""Projections of what the implementation shows (public interface only) onto
the value domain of the TLA+ specifications.  Everything is total: a value of
an unexpected type becomes a sentinel no specification value equals, so that
TLC's comparisons are always between values of one type."""
import csv
import io
import json
import re
import xml.etree.ElementTree as ET
import zipfile

BASE = 1 << 20
BAD = -999
LIM = (1 << 31) - 2


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v if -LIM < v < LIM else BAD
    w = getattr(v, "value", None)
    if isinstance(w, int):
        return num(w)
    return BAD


def time(v):
    if not isinstance(v, int) or isinstance(v, bool) or v < 0:
        return [BAD, BAD]
    return [num(v // BASE), v % BASE]


def get(o, *names):
    try:
        for n in names:
            o = getattr(o, n)
        return o
    except Exception:
        return None


def op(o):
    return {
        "tl": num(get(o, "total_level")), "ar": num(get(o, "attack_rate")),
        "d1r": num(get(o, "first_decay_rate")), "d1l": num(get(o, "first_decay_level")),
        "d2r": num(get(o, "second_decay_rate")), "rr": num(get(o, "release_rate")),
        "ks": num(get(o, "key_scale")), "mul": num(get(o, "multiply")),
        "dt1": num(get(o, "first_detune")), "dt2": num(get(o, "second_detune")),
        "ase": num(get(o, "ase")),
    }


def chan(c):
    try:
        ops = [op(x) for x in get(c, "operators")]
    except Exception:
        ops = []
    return {"fb": num(get(c, "fb")), "con": num(get(c, "connection")),
            "ams": num(get(c, "ams")), "pms": num(get(c, "pms")),
            "ne": num(get(c, "noise")), "nfrq": num(get(c, "noise_freq")), "op": ops}


def base(s):
    return {"lfo": num(get(s, "lfo")), "amd": num(get(s, "amp_md")),
            "pmd": num(get(s, "phs_md")), "wf": num(get(s, "waveform"))}


def inst(c):
    return {"base": base(c), "chan": chan(c), "mask": num(get(c, "enabled_operators"))}


def event(n):
    cid = num(get(n, "config_id"))
    return {"id": -1 if cid != BAD and cid < 0 else cid,
            "r": num(get(n, "right")), "l": num(get(n, "left")),
            "oct": num(get(n, "octave")), "nt": num(get(n, "note")),
            "kf": num(get(n, "key_fraction")), "t": time(get(n, "sample"))}


def ticks(s):
    try:
        return [time(t) for t in s.ticks()]
    except Exception:
        return [[BAD, BAD]]


def presses(s):
    out = []
    for c in range(8):
        try:
            out.append([event(n) for n in s.key_presses(c)])
        except Exception:
            out.append([{"id": BAD, "r": 0, "l": 0, "oct": 0, "nt": 0, "kf": 0, "t": [0, 0]}])
    return out


def chans(s):
    out = []
    for c in range(8):
        try:
            out.append(chan(s.channel_config(c)))
        except Exception:
            out.append(chan(None))
    return out


def insts(s):
    try:
        return [inst(c) for c in s.configs]
    except Exception:
        return [inst(None)]


class Observer:
    """Complete visible state of one State, as differences step by step."""

    def __init__(self, state):
        self.s = state
        z = {k: 0 for k in ("tl", "ar", "d1r", "d1l", "d2r", "rr", "ks", "mul", "dt1", "dt2", "ase")}
        self.base = {"lfo": 0, "amd": 0, "pmd": 0, "wf": 0}
        self.chan = [{"fb": 0, "con": 0, "ams": 0, "pms": 0, "ne": 0, "nfrq": 0,
                      "op": [z, z, z, z]} for _ in range(8)]
        self.inst = []
        self.press = [[] for _ in range(8)]
        self.ticks = []

    @staticmethod
    def _diff(old, new):
        return [[i + 1, v] for i, v in enumerate(new) if i >= len(old) or old[i] != v]

    def see(self, err=0):
        s = self.s
        b, ch, ins, pr, tk = base(s), chans(s), insts(s), presses(s), ticks(s)
        o = {"err": err,
             "base": [b] if b != self.base else [],
             "chan": self._diff(self.chan, ch),
             "instn": len(ins), "inst": self._diff(self.inst, ins),
             "press": [[c + 1, len(pr[c]), self._diff(self.press[c], pr[c])]
                       for c in range(8) if pr[c] != self.press[c]],
             "ticks": [tk] if tk != self.ticks else []}
        self.base, self.chan, self.inst, self.press, self.ticks = b, ch, ins, pr, tk
        return o


# ------------------------------------------------------------------ files --
def text(v):
    return v if isinstance(v, str) else ""


def strict(v):
    """JSON number: integer, or boolean where the chip parameter is a flag."""
    if isinstance(v, bool) or not isinstance(v, int):
        return BAD
    return num(v)


def flag(v):
    return int(v) if isinstance(v, bool) else (v if type(v) is int and v in (0, 1) else BAD)


OPKEYS = ("tl", "ar", "d1r", "d1l", "d2r", "rr", "ks", "mul", "dt1", "dt2")


def file_op(d):
    d = d if isinstance(d, dict) else {}
    o = {k: strict(d.get(k)) for k in OPKEYS}
    o["ase"] = flag(d.get("ase"))
    return o


def no_dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key " + k)
        d[k] = v
    return d


def inst_file(raw):
    """[st, data]: st "new" for a JSON list of entries, else "bad"."""
    def reject(x):
        raise ValueError(x)
    try:
        doc = json.loads(raw.decode("utf-8"), parse_constant=reject, object_pairs_hook=no_dup)
        if not isinstance(doc, list):
            return {"st": "bad", "data": []}
    except Exception:
        return {"st": "bad", "data": []}
    out = []
    for e in doc:
        e = e if isinstance(e, dict) else {}
        b = e.get("base") if isinstance(e.get("base"), dict) else {}
        c = e.get("channel") if isinstance(e.get("channel"), dict) else {}
        out.append({
            "id": strict(e.get("id")), "wf": text(b.get("waveform")),
            "lfo": strict(b.get("lfo")), "amd": strict(b.get("amp_md")),
            "pmd": strict(b.get("phs_md")), "ops": text(e.get("operators")),
            "fb": strict(c.get("feedback")), "con": strict(c.get("connection")),
            "ams": strict(c.get("ams")), "pms": strict(c.get("pms")),
            "ne": flag(c.get("noise")), "nfrq": strict(c.get("noise_freq")),
            "m1": file_op(c.get("m1")), "c1": file_op(c.get("c1")),
            "m2": file_op(c.get("m2")), "c2": file_op(c.get("c2"))})
    return {"st": "new", "data": out}


NODOC = {"zip": 0, "version": BAD, "ntracks": [BAD, BAD, BAD], "ptracks": [],
         "patterns": [], "seq": [], "ninst": BAD, "bpm": BAD, "lpb": BAD, "shape": []}


def as_int(t):
    try:
        t = t.strip()
        return num(int(t)) if t.isdigit() else BAD
    except Exception:
        return BAD


def typed(parent, *tags):
    """How many children of each tag carry their own type attribute."""
    if parent is None:
        return [BAD] * len(tags)
    return [sum(1 for c in parent if c.tag == t and c.get("type") == t) for t in tags]


def blank(t):
    t = (t or "").strip()
    return "" if t in ("", "..", "---") else t


def whole_zip(raw):
    """Nothing before the first entry and nothing behind the directory."""
    e = raw.rfind(b"PK\5\6")
    if not raw.startswith(b"PK\3\4") or e < 0 or e + 22 > len(raw):
        return False
    size, off = (int.from_bytes(raw[e + i:e + i + 4], "little") for i in (12, 16))
    note = int.from_bytes(raw[e + 20:e + 22], "little")
    return e + 22 + note == len(raw) and (off == 0xffffffff or off + size <= e)


def text_class(t):
    t = t or ""
    if not t.strip():
        return "empty"
    if t in ("true", "false"):
        return "bool"
    if re.fullmatch(r"[+-]?[0-9]+", t):
        return "int"
    if re.fullmatch(r"[+-]?[0-9]*\.?[0-9]+([eE][+-]?[0-9]+)?", t):
        return "float"
    return "text"


def shape(root):
    """Every distinct element path of the document below its root, what kinds
    of content occur there, and (if few) which texts."""
    found = {}

    def walk(e, path):
        kinds, texts = found.setdefault(path, (set(), set()))
        if len(e):
            kinds.add("node")
            if (e.text or "").strip() or any((c.tail or "").strip() for c in e):
                kinds.add("mixed")
        else:
            kinds.add(text_class(e.text))
            if len(texts) < 30:
                texts.add(e.text or "")
        for c in e:
            walk(c, path + (c.tag,))
    for c in root:
        walk(c, (c.tag,))
    return [[list(p), sorted(k), sorted(t)] for p, (k, t) in sorted(found.items())]


def song_file(raw, schema=False):
    try:
        with zipfile.ZipFile(io.BytesIO(raw)) as z:
            if z.testzip() is not None or z.namelist() != ["Song.xml"] or not whole_zip(raw):
                return {"st": "new", "doc": NODOC}
            root = ET.fromstring(z.read("Song.xml"))
    except Exception:
        return {"st": "bad", "doc": NODOC}
    if root.tag != "RenoiseSong":
        return {"st": "bad", "doc": NODOC}
    doc = {"zip": 1, "version": as_int(root.get("doc_version") or ""), "shape": shape(root) if schema else []}
    doc["ntracks"] = typed(root.find("Tracks"), "SequencerTrack",
                           "SequencerMasterTrack", "SequencerSendTrack")
    ins = root.find("Instruments")
    doc["ninst"] = 0 if ins is None else len(ins.findall("Instrument"))
    doc["bpm"] = as_int(root.findtext("GlobalSongData/BeatsPerMin"))
    doc["lpb"] = as_int(root.findtext("GlobalSongData/LinesPerBeat"))
    doc["ptracks"], doc["patterns"] = [], []
    for p in root.findall("PatternPool/Patterns/Pattern"):
        tr = p.find("Tracks")
        doc["ptracks"].append(typed(tr, "PatternTrack", "PatternMasterTrack", "PatternSendTrack"))
        cells = []
        for t in ([] if tr is None else tr.findall("PatternTrack")):
            lines = []
            for ln in t.findall("Lines/Line"):
                cols = ln.findall("NoteColumns/NoteColumn")
                note = "|".join(blank(c.findtext("Note")) for c in cols)
                ins_ = "|".join(blank(c.findtext("Instrument")) for c in cols)
                pan = "|".join(blank(c.findtext("Panning")) for c in cols)
                lines.append([as_int(ln.get("index") or ""), note, ins_, pan])
            lines.sort(key=lambda x: x[0])
            cells.append(lines)
        nl = p.findtext("NumberOfLines")
        if nl is not None and as_int(nl) != 64:
            cells = []
        doc["patterns"].append(cells)
    doc["seq"] = [as_int(e.findtext("Pattern")) for e in
                  root.findall("PatternSequence/SequenceEntries/SequenceEntry")]
    return {"st": "new", "doc": doc}


def table_file(raw):
    try:
        rows = list(csv.reader(io.StringIO(raw.decode("utf-8"))))
    except Exception:
        return {"st": "bad", "rows": [], "head": 0}
    rows = [r for r in rows if r]
    head = 1 if rows and "Total Row" in rows[0] and "Channel 8" in rows[0] else 0
    out = []
    if head:
        h = rows[0]
        col = {n: h.index(n) for n in ("Row", "Pattern", "Total Row")} if all(
            n in h for n in ("Row", "Pattern", "Total Row")) else {}
        chs = [h.index("Channel %d" % i) for i in range(1, 9)] if all(
            "Channel %d" % i in h for i in range(1, 9)) else []
        if len(col) != 3 or len(chs) != 8:
            head = 0
        else:
            for r in rows[1:]:
                cell = lambda i: r[i] if i < len(r) else "?"
                out.append([as_int(cell(col["Row"])), as_int(cell(col["Pattern"])),
                            as_int(cell(col["Total Row"])),
                            [" ".join(cell(i).split(" ")).rstrip() for i in chs]])
    return {"st": "new", "rows": out, "head": head}


def le5(v):
    if not isinstance(v, int) or isinstance(v, bool) or v < 0 or v >= 1 << 40:
        return [BAD] * 5
    return [(v >> (8 * i)) & 255 for i in range(5)]


def le4(v):
    return le5(v)[:4] if isinstance(v, int) and v < 1 << 32 else [BAD] * 4
