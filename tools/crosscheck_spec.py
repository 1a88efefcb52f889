#!/usr/bin/env python3
"""Developer tool: checks vlib/layout.py's own layout computation against gcc, and the structure lengths against the ones that
real atop binaries wrote into the headers of the sample logs in corpus/.  Not part of any check."""
import glob
import gzip
import os
import re
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import layout  # noqa: E402

C = {"i1": "int8_t", "u1": "uint8_t", "i2": "int16_t", "u2": "uint16_t", "i4": "int32_t", "u4": "uint32_t", "i8": "int64_t",
     "u8": "uint64_t", "f4": "float", "char": "char"}
seen = {}


def cname(st):
    return "S_" + re.sub(r"\W", "_", st.name)


def walk(st, out):
    if st.name in seen:
        return
    for f in st.fields:
        if f.is_struct:
            walk(f.type, out)
    seen[st.name] = st
    body = "".join(
        f"  {('struct ' + cname(f.type)) if f.is_struct else C[f.type.code]} f_{f.name}{'' if f.count is None else f'[{f.count}]'};\n"
        for f in st.fields)
    out.append(f"struct {cname(st)} {{\n{body}}};\n")


src = ["#include <stdint.h>\n#include <stddef.h>\n"]
for v in layout.VERSIONS.values():
    for root in (v.header, v.record, v.sstat, v.tstat, v.cstat):
        if root:
            walk(root, src)
n = 0
for st in seen.values():
    src.append(f"_Static_assert(sizeof(struct {cname(st)}) == {st.size}, \"{st.name}\");\n")
    for f in st.fields:
        src.append(f"_Static_assert(offsetof(struct {cname(st)}, f_{f.name}) == {f.offset}, \"{st.name}.{f.name}\");\n")
        n += 1
with tempfile.TemporaryDirectory() as tmp:
    p = os.path.join(tmp, "x.c")
    with open(p, "w") as f:
        f.writelines(src)
    subprocess.run(["gcc", "-fsyntax-only", p], check=True)
print(f"gcc agrees: {len(seen)} structures, {n} offsets")
for path in sorted(glob.glob(os.path.join(os.path.dirname(layout.SPEC), "..", "corpus", "*.gz"))):
    with gzip.open(path) as f:
        data = f.read()
    word = int.from_bytes(data[4:6], "little")
    ver = layout.VERSIONS[f"{(word >> 8) & 0x7f}.{word & 255}"]
    g = lambda k: layout.get(ver.header, data, k)  # noqa: E731
    got = (g("rawheadlen"), g("rawreclen"), g("sstatlen"), g(ver.tlen_field), g("cstatlen") if ver.cstat else 0)
    want = (ver.header.size, ver.record.size, ver.sstat.size, ver.tstat.size, ver.cstat.size if ver.cstat else 0)
    print(os.path.basename(path), ver.name, got, "agrees" if got == want else f"DIFFERS {want}")
