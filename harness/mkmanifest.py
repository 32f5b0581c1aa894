"""Writes MANIFEST.json (run by hand when checks change)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("VgmFormat/TraceReader", "TLC enumerates command bodies (GenFormat) and judges every recorded command of vgm.core.reader"),
 "C02": ("VgmFormat/TraceReader", "every opcode and whole streams cut after every byte"),
 "C03": ("VgmFormat/TraceReader", "header field grids, cut headers, data starts"),
 "C04": ("Pipeline/TraceGroup", "one song in every container (plain, gzip levels/fields/members, stdin) and refused inputs"),
 "C05": ("Opm/VgmFormat", "all wait commands, enumerated and simulated histories, songs beyond 2^32 samples"),
 "C06": ("Opm/TraceOpm", "every register x value patterns (thorough: all 65536 pairs) in several contexts, complete visible state compared after every write"),
 "C07": ("Opm/TraceOpm", "all short key histories enumerated by TLC, simulated long ones, every key value"),
 "C08": ("Opm/TraceOpm", "every parameter bit apart, every irrelevant bit, many instruments and back, enumerated histories"),
 "C09": ("Opm/TraceOpm, Pipeline/TraceGroup", "append-only action property on recorded histories with exports in between; exports repeated"),
 "C10": ("Tracker/TraceSong", "instrument file of whole runs against InstFile(s)"),
 "C11": ("Tracker/TraceSong", "grid of whole runs against TrackCells"),
 "C12": ("Tracker/TraceSong", "cell texts of whole runs against XrnsNote/XrnsInstr/XrnsPan"),
 "C13": ("Tracker/TraceSong", "song structure of whole runs"),
 "C14": ("Tracker/TraceSong", "tempo for row lengths on both sides of every step"),
 "C15": ("Tracker/TraceEst", "recorded estimates against the declarative optimum"),
 "C16": ("Tracker/TraceSong", "CSV table of whole runs against CsvRow"),
 "C17": ("Pipeline/TraceGroup", "songs with many tails equated by the specification"),
 "C18": ("Pipeline/TraceSong", "fault enumeration: cuts at every byte, damaged gzip, missing inputs, existing outputs"),
 "C19": ("Pipeline/TraceGroup", "foreign commands inserted everywhere, equated by the specification"),
 "C20": ("Opm/VgmFormat/TraceGroup", "interleaved sessions, many songs per process, repeated songs"),
 "C21": ("FaultMC/TraceFault", "inputs failing after every byte, outputs that stop growing at many sizes, unwritable outputs"),
 "C22": ("ReaderMC/PipelineMC liveness, TraceEnd/TraceSong", "short command streams, mutated and arbitrary files decided by the whole specification"),
}
checks = []
for p, (mod, what) in sorted(T.items()):
    checks.append({
        "property": p,
        "quick_cmd": "bin/check %s --quick" % p,
        "thorough_cmd": "bin/check %s --thorough" % p,
        "technique": "TLA+ specification (%s) model-checked with TLC; TLC trace validation of recorded behaviour of the real code" % mod,
        "level": "model_checking",
        "level_note": "The design properties are checked by TLC on the specification's bounded state space; the code is bound to it by "
                      "conformance checking, which is exhaustive only over the listed inputs: " + what + ". Trusts TLC and the "
                      "projections in harness/project.py.",
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the public interface and the output files."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
