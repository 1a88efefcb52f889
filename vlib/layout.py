"""Independent model of atop's C structures: parses spec/layout.txt and computes the LP64 layout itself.

Nothing here imports the code under test.  Offsets follow the System V x86-64 ABI (natural alignment), computed from the
frozen field lists; tools/crosscheck_spec.py compares them with gcc and with the lengths written by real atop binaries.
"""

from __future__ import annotations

import os
import re
import struct as _struct

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "layout.txt")

_PRIM = {
    "i1": ("b", 1), "u1": ("B", 1), "i2": ("h", 2), "u2": ("H", 2), "i4": ("i", 4), "u4": ("I", 4),
    "i8": ("q", 8), "u8": ("Q", 8), "f4": ("f", 4), "char": ("c", 1),
}


class Prim:
    def __init__(self, code: str):
        self.code = code
        self.fmt, self.size = _PRIM[code]
        self.align = self.size
        self.packer = _struct.Struct("<" + self.fmt)
        self.is_int = code[0] in "iu"
        if self.is_int:
            bits = 8 * self.size
            self.lo, self.hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if code[0] == "i" else (0, (1 << bits) - 1)


class Field:
    __slots__ = ("name", "type", "count", "limit", "offset", "size", "is_struct", "is_text", "placeholder")

    def __init__(self, name, typ, count, limit):
        self.name, self.type, self.count, self.limit = name, typ, count, limit
        self.is_struct = isinstance(typ, StructType)
        self.is_text = not self.is_struct and typ.code == "char"
        self.size = typ.size * (1 if count is None else count)
        self.placeholder = not self.is_struct and "future" in name
        self.offset = 0


class StructType:
    def __init__(self, name: str, fields: list[Field]):
        self.name, self.fields = name, fields
        off, align = 0, 1
        for f in fields:
            a = f.type.align
            off = (off + a - 1) // a * a
            f.offset = off
            off += f.size
            align = max(align, a)
        self.align = align
        self.size = (off + align - 1) // align * align
        self.by_name = {f.name: f for f in fields}

    def locate(self, path: str) -> tuple[int, Field]:
        """Offset and field for a dotted path without array indexes."""
        node, base = self, 0
        parts = path.split(".")
        for p in parts[:-1]:
            f = node.by_name[p]
            base += f.offset
            node = f.type
        f = node.by_name[parts[-1]]
        return base + f.offset, f


class Version:
    def __init__(self, name: str, roots: dict[str, StructType]):
        self.name = name
        self.major, self.minor = (int(x) for x in name.split("."))
        self.header, self.record, self.sstat, self.tstat = (roots[k] for k in ("header", "record", "sstat", "tstat"))
        self.cstat = roots.get("cstat")
        self.tasks_field = "nlist" if "nlist" in self.record.by_name else "ndeviat"
        self.tlen_field = "pstatlen" if "pstatlen" in self.header.by_name else "tstatlen"
        self.limits = list(_limits(self.sstat, ""))  # (path of array, path of count, capacity)

    @property
    def word(self) -> int:
        return 0x8000 | (self.major << 8) | self.minor


def _limits(st: StructType, prefix: str):
    for f in st.fields:
        if f.is_struct and f.count is None:
            yield from _limits(f.type, prefix + f.name + ".")
        elif f.limit:
            yield prefix + f.name, prefix + f.limit, f.count


def load(path: str = SPEC) -> dict[str, Version]:
    structs: dict[str, StructType] = {}
    versions: dict[str, Version] = {}
    cur, fields = None, []

    def close():
        if cur is not None:
            structs[cur] = StructType(cur, fields)

    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("#") or not line.strip():
                continue
            if line.startswith("struct "):
                close()
                cur, fields = line.split()[1], []
            elif line.startswith("version "):
                close()
                cur = None
                parts = line.split()
                versions[parts[1]] = Version(parts[1], {k: structs[v] for k, v in (p.split("=") for p in parts[2:])})
            else:
                m = re.fullmatch(r"  (\S+) (\w+)(?:\[(\d+)\])?(?: count=(\w+))?", line)
                t, name, n, lim = m.groups()
                fields.append(Field(name, structs[t] if t in structs else Prim(t), None if n is None else int(n), lim))
    return versions


VERSIONS = load()
LATEST = "2.12"
NAMES = list(VERSIONS)


# ------------------------------------------------------------------------------------------------ reference decoding
def read_leaf(f: Field, raw: bytes, base: int):
    """Value of a non-struct field as the library's attribute should present it."""
    off = base + f.offset
    if f.is_text:
        if f.count is None:
            return bytes(raw[off : off + 1])
        data = bytes(raw[off : off + f.count])
        return data.split(b"\0", 1)[0]
    if f.count is None:
        return f.type.packer.unpack_from(raw, off)[0]
    return [f.type.packer.unpack_from(raw, off + i * f.type.size)[0] for i in range(f.count)]


def text(data: bytes) -> str:
    """Text as the library documents it: UTF-8, undecodable bytes ignored."""
    return data.decode("utf-8", "ignore")


def to_dict(st: StructType, raw: bytes, base: int = 0) -> dict:
    """Reference for the dictionary form of a structure."""
    out = {}
    for f in st.fields:
        if f.is_struct:
            if f.count is None:
                out[f.name] = to_dict(f.type, raw, base + f.offset)
            else:
                n = f.count
                if f.limit:
                    n = min(max(read_leaf(st.by_name[f.limit], raw, base), 0), f.count)
                out[f.name] = [to_dict(f.type, raw, base + f.offset + i * f.type.size) for i in range(n)]
        elif not f.placeholder:
            v = read_leaf(f, raw, base)
            out[f.name] = text(v) if f.is_text else v
    return out


def get(st: StructType, raw: bytes, path: str, base: int = 0):
    """Value at a dotted path, e.g. 'cpu.cpu[3].stime'."""
    node = st
    parts = re.findall(r"(\w+)(?:\[(\d+)\])?", path)
    for i, (name, idx) in enumerate(parts):
        f = node.by_name[name]
        if f.is_struct:
            base += f.offset + (int(idx) * f.type.size if idx else 0)
            node = f.type
        else:
            assert i == len(parts) - 1
            return read_leaf(f, raw, base)
    raise KeyError(path)


def put(st: StructType, buf: bytearray, path: str, value, base: int = 0) -> None:
    off, f = st.locate(path)
    off += base
    if f.is_text:
        data = value if isinstance(value, bytes) else value.encode()
        n = 1 if f.count is None else f.count
        buf[off : off + n] = data[:n].ljust(n, b"\0")
    else:
        f.type.packer.pack_into(buf, off, value)
