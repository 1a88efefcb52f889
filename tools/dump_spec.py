#!/usr/bin/env python3
"""One-off: write spec/layout.txt, the frozen description of atop's C structures per version.

This was run once on the pinned tree; the result was then reviewed by hand against the C sources' names, orders and
widths and is cross-checked by tools/crosscheck_spec.py (gcc's own layout, and the structure lengths that real atop
binaries wrote in the headers of the sample logs).  No check runs this script: checks only read the frozen result.
"""
import ctypes
import os
import sys

sys.path.insert(0, "/repo")
from atoparser import utils  # noqa: E402

PRIM = {
    ctypes.c_int: "i4", ctypes.c_uint: "u4", ctypes.c_long: "i8", ctypes.c_ulong: "u8", ctypes.c_longlong: "i8",
    ctypes.c_short: "i2", ctypes.c_ushort: "u2", ctypes.c_uint8: "u1", ctypes.c_float: "f4", ctypes.c_char: "char",
}
defs = {}  # body text -> name
order = []


def emit(cls, hint):
    lim = getattr(cls, "fields_limiters", {})
    body = []
    for name, typ in cls._fields_:
        if issubclass(typ, ctypes.Structure):
            body.append(f"{emit(typ, hint)} {name}")
        elif issubclass(typ, ctypes.Array):
            el = typ._type_
            t = emit(el, hint) if issubclass(el, ctypes.Structure) else PRIM[el]
            suffix = f" count={lim[name]}" if name in lim else ""
            body.append(f"{t} {name}[{typ._length_}]{suffix}")
        else:
            body.append(f"{PRIM[typ]} {name}")
    key = (cls.__name__, tuple(body))
    if key not in defs:
        defs[key] = f"{cls.__name__}@{hint}"
        order.append((defs[key], body))
    return defs[key]


roots = []
for module in utils._VERSIONS:
    h = module.Header
    v = h.supported_version
    r = {"header": emit(h, v), "record": emit(h.Record, v), "sstat": emit(h.SStat, v), "tstat": emit(h.TStat, v)}
    if h.CStat:
        r["cstat"] = emit(h.CStat, v)
    roots.append((v, r))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "layout.txt")
with open(out, "w") as f:
    f.write("# Atop raw log structures, x86-64 Linux (LP64), natural alignment.\n"
            "# i/u = signed/unsigned integer of that many bytes, f4 = float, char[n] = text, count= names the sibling field\n"
            "# that holds the number of valid entries.  struct NAME@V: as first used by version V.\n\n")
    for name, body in order:
        f.write(f"struct {name}\n" + "".join(f"  {b}\n" for b in body) + "\n")
    for v, r in roots:
        f.write(f"version {v} " + " ".join(f"{k}={n}" for k, n in r.items()) + "\n")
