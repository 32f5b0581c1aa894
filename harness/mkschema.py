"""Writes spec/renoise65.json: the vocabulary of Renoise song documents
(doc_version 65), read off the classes generated from Renoise's schema.  Run by
hand once, on the pinned commit; the checks only read the result.
  types: {type: {child element: {"k": "node", "t": type} or {"k": "int"/"bool"/
         "float"/"text"} or {"k": "enum", "v": [values]} or {"k": "any"}}}"""
import dataclasses
import enum
import json
import os
import sys
import typing

sys.path.insert(0, "/repo/src")
import xrns.xml.song.renoise_song65 as dao  # noqa

SKIP = "Device"          # effect devices other than the mixers are not needed
types = {}


def leaf(t):
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return {"k": "enum", "v": [str(x.value) for x in t]}
    return {"k": {int: "int", bool: "bool", float: "float"}.get(t, "text")}


def visit(cls):
    n = cls.__qualname__
    if n in types:
        return n
    types[n] = {}
    hints = typing.get_type_hints(cls, vars(dao), {})
    for f in dataclasses.fields(cls):
        if f.metadata.get("type") != "Element":
            continue
        t = hints[f.name]
        while typing.get_origin(t) is not None:
            t = [a for a in typing.get_args(t) if a is not type(None)][0]
        tag = f.metadata.get("name", f.name)
        if not dataclasses.is_dataclass(t):
            v = leaf(t)
        else:
            last = t.__qualname__
            if SKIP in last and not any(x in last for x in ("Mixer", "DeviceChain")) or last.startswith(("SampleModulation", "Plugin", "AudioPlugin", "RecordManager", "MidiMapper", "OscMapper")):
                v = {"k": "any"}
            else:
                v = {"k": "node", "t": visit(t)}
        types[n][tag] = v
    return n


visit(dao.RenoiseSong)
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "renoise65.json")
with open(path, "w") as f:
    json.dump({"root": "RenoiseSong", "types": types}, f, indent=0, sort_keys=True)
    f.write("\n")
print(len(types), os.path.getsize(path))
