"""Turns a recipe (plain JSON data drawn by Hypothesis) into a raw atop log plus what a reader must see in it.

A recipe is small: structure contents are expanded from drawn seeds by a seeded generator, so that a run is a pure function of
the recipe.  Recipe of a log:
  {"v": "2.11", "hs": seed, "hm": mode, "word": optional version word, "hdr": {field: value}, "s": [sample...], "o": [index...]}
or {"v": "2.11", "real": name of a log in corpus/} for a log that a real atop wrote.
Recipe of a sample:
  {"f": seed, "m": mode, "nt": tasks, "cg": None | [[namelen, nprocs, pad8], ...], "c": {array path: count},
   "l": [4 zlib levels], "r": {record field: value}, "d": dense, "set": {sstat path: value}}
Modes: zero, rand (all bits random), edge (extreme integers), seq (small distinct numbers), live (as on a host: most fields zero or
small, states from atop's letters, process IDs that repeat).
"""

from __future__ import annotations

import functools
import gzip
import os
import random
import struct
import zlib

from vlib import layout
from vlib.layout import VERSIONS

MAGIC = 0xFEEDBEEF
# A byte order mark, encoded surrogates, overlong forms, beyond the last code point, no-characters, line separators, controls, combining marks.
ODD_TEXT = (b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\xed\xb2\x80", b"\xc0\x80", b"\xe0\x80\xaf", b"\xf4\x90\x80\x80", b"\xff\xfe", b"\xfe\xff", b"\xef\xbf\xbf", b"\xef\xbf\xbd", b"\xe2\x80\xa8",
            b"\xc2\x85", b"\x1c", b"\x0b", b"\r\n", b"\r", b"\x1b[1m", b"\x08", b"e\xcc\x81", b"\xc3\xa9", b"\xe2\x80\x8f", b"\xf0\x9f\x91\xa8\xe2\x80\x8d", b"\xef\xac\x81", b"\xc2\xa0", b" ", b"%s", b"\\u0041",
            b"&lt;", b"+AGE-", b"a", b"Z")
MODES = ("zero", "rand", "edge", "seq", "live")


class Filler:
    """Deterministic expansion of a drawn seed into structure contents."""

    def __init__(self, seed: int, mode: str, counts: dict | None = None, dense: bool = False):
        self.r = random.Random(seed)
        self.mode, self.counts, self.dense = mode, counts or {}, dense
        self.seq = 0

    def text(self, n: int, element_name: bool) -> bytes:
        r = self.r
        if not n:
            return b""
        style = r.randrange(11)
        if self.mode == "zero":
            out = b"" if not element_name else b"d%d" % r.randrange(100)
        elif style == 0 and (not element_name or self.mode == "live"):
            out = b""
        elif style <= 3:  # full width, no terminator
            out = bytes(r.choice(b"abcxyz019-_/ .") for _ in range(n))
        elif style == 4:  # multi-byte text cut at the field width
            s = "".join(r.choice("aé漢🐧ß") for _ in range(n)).encode()
            out = s[:n]
        elif style == 5:  # arbitrary non-zero bytes
            out = bytes(r.randrange(1, 256) for _ in range(r.randrange(1, n + 1)))
        elif style == 6:  # stale bytes behind the terminator
            k = r.randrange(1, n) if n > 1 else 1
            out = b"n" * k + b"\0" + bytes(r.randrange(256) for _ in range(n))
        elif style == 7:  # characters that matter to JSON
            out = b'"\\\n\t{[\x7f,'[: max(1, n)]
        elif style == 10:  # bytes that decoders treat differently
            out = b"".join(r.choice(ODD_TEXT) for _ in range(r.randrange(1, 5)))
        else:
            out = bytes(r.choice(b"abcdefghijklmnop") for _ in range(r.randrange(1, n + 1)))
        return out[:n].ljust(n, b"\0")

    def number(self, p: layout.Prim) -> int | float:
        r = self.r
        if p.code == "f4":
            if self.mode == "zero":
                return 0.0
            if self.mode == "live" and r.random() < 0.5:
                return 0.0
            if self.mode == "rand" and r.random() < 0.5:  # everyday sizes, all digits
                return struct.unpack("<f", struct.pack("<f", r.choice((1, 1, 1, -1)) * (1 + r.random()) * 2.0 ** r.randrange(-10, 21)))[0]
            x = r.getrandbits(32) & 0xBFFFFFFF if self.mode == "rand" else struct.unpack("<I", struct.pack("<f", r.randrange(4000) / 100))[0]
            return struct.unpack("<f", struct.pack("<I", x))[0]
        if self.mode == "zero":
            return 0
        if self.mode == "rand":
            return r.getrandbits(8 * p.size) + p.lo
        if self.mode == "edge":
            k = r.randrange(8)
            v = (p.lo, p.hi, p.hi - 1, p.lo + 1, 0, 1, p.hi >> 1, (1 << (4 * p.size)) + 1)[k]
            return v
        if self.mode == "live":
            k = r.randrange(16)
            return 0 if k < 9 else r.randrange(1, 4) if k < 12 else min(p.hi, r.getrandbits(7 if k < 14 else 8 * p.size - 2)) if k < 15 or p.lo == 0 else -1
        self.seq += 1
        return self.seq % (p.hi + 1)

    def fill(self, st: layout.StructType, buf: bytearray, base: int = 0, path: str = "", element: bool = False) -> None:
        counts = {}
        for f in st.fields:  # counts first: they decide how much of each array is filled
            if f.limit:
                n = self.counts.get(path + f.name)
                if n is None:
                    n = self.r.choice((0, 1, 1, 2, 3)) if self.mode != "zero" else self.r.choice((0, 1))
                n = min(n, f.count)
                counts[f.limit] = n
        for f in st.fields:
            off = base + f.offset
            if f.is_struct:
                if f.count is None:
                    self.fill(f.type, buf, off, path + f.name + ".")
                    continue
                n = counts[f.limit] if f.limit else f.count
                if self.dense:
                    which = range(f.count)
                else:  # the valid entries, a stale one right behind them, and the last slot
                    which = list(range(min(n + 1, f.count)))
                    if f.count - 1 > n and self.r.random() < 0.5:
                        which.append(f.count - 1)
                size = f.type.size
                for i in which:
                    if self.mode == "zero" and i >= n:
                        continue
                    self.fill(f.type, buf, off + i * size, "", element=i < n)
            elif f.is_text:
                n = 1 if f.count is None else f.count
                if f.count is None:
                    buf[off] = self.r.choice(b"RSDTZEEIXKWPyn\0\1" if self.mode == "live" else (0, 0x52, 0x53, 1, 2, 0xC3, 255)) if self.mode != "zero" else 0
                else:
                    buf[off : off + n] = self.text(n, element and f.name in ("name", "ibname", "mountdev"))
            elif f.count is None:
                if f.name in counts:
                    f.type.packer.pack_into(buf, off, counts[f.name])
                else:
                    f.type.packer.pack_into(buf, off, self.number(f.type))
            elif self.mode == "rand" or self.mode == "edge":
                for i in range(f.count):
                    f.type.packer.pack_into(buf, off + i * f.type.size, self.number(f.type))


class Sample:
    """One sample: raw contents of its parts, and the stored (compressed) sections."""

    def __init__(self, ver: layout.Version, recipe: dict):
        self.ver, self.recipe = ver, recipe
        mode = recipe.get("m", "rand")
        levels = recipe.get("l") or [1, 1, 1, 1]
        fl = Filler(recipe["f"], mode, recipe.get("c"), bool(recipe.get("d")))
        s = bytearray(ver.sstat.size)
        fl.fill(ver.sstat, s)
        for p, v in (recipe.get("set") or {}).items():
            layout.put(ver.sstat, s, p, v)
        self.sstat = bytes(s)
        nt = recipe.get("nt", 0)
        t = bytearray(ver.tstat.size * nt)
        ft = Filler(recipe["f"] + 1, mode)
        distinct = nt if nt <= 40 else 40
        for i in range(distinct):
            ft.fill(ver.tstat, t, i * ver.tstat.size)
        if nt > distinct:  # long lists: repeat contents, but give every task its own pid
            block = bytes(t[: distinct * ver.tstat.size])
            for i in range(distinct, nt):
                k = i % distinct
                t[i * ver.tstat.size : (i + 1) * ver.tstat.size] = block[k * ver.tstat.size : (k + 1) * ver.tstat.size]
        if nt > 1:
            off, f = ver.tstat.locate("gen.pid")
            for i in range(nt):
                pid = ft.r.choice((0, 1, 1 + i // 2, i, 40000)) if mode == "live" else 1000 + i if mode != "zero" else i + 1
                f.type.packer.pack_into(t, off + i * ver.tstat.size, pid)
        for i, p, v in recipe.get("tset") or []:
            if i < nt:
                layout.put(ver.tstat, t, p, v if not isinstance(v, str) else bytes.fromhex(v), i * ver.tstat.size)
        if recipe.get("twin") and nt > 1:  # tasks that cannot be told apart
            t = t[: ver.tstat.size] * nt
        self.tasks_raw = bytes(t)
        self.ntasks = nt
        self.sections = [zlib.compress(self.sstat, levels[0]), zlib.compress(self.tasks_raw, levels[1])]
        rec = bytearray(ver.record.size)
        fr = Filler(recipe["f"] + 2, mode if mode != "zero" else "seq")
        fr.fill(ver.record, rec)
        for k, v in (recipe.get("r") or {}).items():
            if k in ver.record.by_name:
                layout.put(ver.record, rec, k, v)
        layout.put(ver.record, rec, ver.tasks_field, nt)
        if ver.cstat is None:  # 2.8 and 2.9 name these slots, but no atop before 2.11 stores anything there
            for k in ("ncgroups", "ccomplen", "coriglen", "ncgpids", "icomplen"):
                if k in ver.record.by_name:
                    layout.put(ver.record, rec, k, 0)
        self.cgroups = []  # (raw fixed part, [pids])
        if ver.cstat is not None:
            cg = recipe.get("cg", [])
            craw, pids = bytearray(), []
            fc = Filler(recipe["f"] + 3, mode)
            for namelen, nprocs, pad in cg or []:
                structlen = (ver.cstat.size + namelen + 1 + 7) // 8 * 8 + 8 * pad
                entry = bytearray(structlen)
                fc.fill(ver.cstat, entry)
                layout.put(ver.cstat, entry, "gen.structlen", structlen)
                layout.put(ver.cstat, entry, "gen.nprocs", nprocs)
                layout.put(ver.cstat, entry, "gen.namelen", namelen)
                # The C compiler may pad the fixed part; the inline name follows it.
                entry[ver.cstat.size : ver.cstat.size + namelen] = fc.r.randbytes(namelen)
                mine = [
                    fc.r.choice((1, 2**31 - 1, 65536, 32768, 0, -1, -(2**31))) if mode == "edge" else 0 if mode == "zero" else fc.r.randrange(0 if fc.r.random() < 0.1 else 1, 1 << fc.r.choice((1, 15, 22, 31)))
                    for _ in range(nprocs)
                ]
                pids += mine
                craw += entry
                self.cgroups.append((bytes(entry[: ver.cstat.size]), mine))
            layout.put(ver.record, rec, "ncgroups", len(self.cgroups))
            layout.put(ver.record, rec, "ncgpids", len(pids))
            layout.put(ver.record, rec, "coriglen", len(craw))
            if cg is None:  # host without cgroups v2: no cgroup data is stored at all
                c, i = b"", b""
            else:
                c = zlib.compress(bytes(craw), levels[2])
                i = zlib.compress(struct.pack(f"<{len(pids)}i", *pids), levels[3])
            self.sections += [c, i]
            layout.put(ver.record, rec, "ccomplen", len(c))
            layout.put(ver.record, rec, "icomplen", len(i))
        layout.put(ver.record, rec, "scomplen", len(self.sections[0]))
        layout.put(ver.record, rec, "pcomplen", len(self.sections[1]))
        self.record = bytes(rec)
        self.blob = self.record + b"".join(self.sections)

    def task(self, i: int) -> bytes:
        n = self.ver.tstat.size
        return self.tasks_raw[i * n : (i + 1) * n]

    def section_bounds(self) -> list[tuple[str, int, int]]:
        """(name, start, end) of each stored part, relative to the start of the sample."""
        out, pos = [("record", 0, len(self.record))], len(self.record)
        for name, data in zip(("sstat", "tstat", "cstat", "pids"), self.sections):
            out.append((name, pos, pos + len(data)))
            pos += len(data)
        return out


def header_bytes(ver: layout.Version, seed: int = 0, mode: str = "rand", word: int | None = None, override: dict | None = None) -> bytes:
    h = bytearray(ver.header.size)
    Filler(seed, mode).fill(ver.header, h)
    p = lambda k, v: layout.put(ver.header, h, k, v)
    p("magic", MAGIC)
    p("aversion", ver.word if word is None else word)
    p("rawheadlen", ver.header.size)
    p("rawreclen", ver.record.size)
    p("sstatlen", ver.sstat.size)
    p(ver.tlen_field, ver.tstat.size)
    if ver.cstat is not None:
        p("cstatlen", ver.cstat.size)
    for k, v in (override or {}).items():
        if k in ver.header.by_name:
            p(k, v)
    return bytes(h)


CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")
# Logs written by real atop binaries (the latest maintenance release of each version), with the version of their layout.
REAL = {"atop_" + v.replace(".", "_"): v for v in VERSIONS} | {"atop_2_7_1": "2.7", "atop_2_8_1": "2.8", "atop_2_11_1": "2.11"}


@functools.lru_cache(None)
def _real(name: str) -> bytes:
    with gzip.open(os.path.join(CORPUS, name + ".log.gz")) as f:
        return f.read()


class RealSample(Sample):
    """One sample of a real log, taken apart by the reference description alone."""

    def __init__(self, ver: layout.Version, data: bytes, pos: int):  # pylint: disable=super-init-not-called
        self.ver = ver
        self.record = data[pos : pos + ver.record.size]
        pos += ver.record.size
        get = lambda k: layout.get(ver.record, self.record, k)  # noqa: E731
        self.sections = []
        for k in ("scomplen", "pcomplen") + (("ccomplen", "icomplen") if ver.cstat else ()):
            self.sections.append(data[pos : pos + get(k)])
            pos += get(k)
        self.end = pos
        self.sstat, self.tasks_raw = zlib.decompress(self.sections[0]), zlib.decompress(self.sections[1])
        self.ntasks = get(ver.tasks_field)
        assert len(self.sstat) == ver.sstat.size and len(self.tasks_raw) == self.ntasks * ver.tstat.size
        self.cgroups, shapes = [], None
        if ver.cstat is not None and self.sections[2]:
            craw, ids = (zlib.decompress(s) for s in self.sections[2:])
            at, taken, shapes = 0, 0, []
            for _ in range(get("ncgroups")):
                raw = craw[at : at + ver.cstat.size]
                n = layout.get(ver.cstat, raw, "gen.nprocs")
                self.cgroups.append((raw, list(struct.unpack_from(f"<{n}i", ids, 4 * taken))))
                shapes.append([layout.get(ver.cstat, raw, "gen.namelen"), n, 0])
                at, taken = at + layout.get(ver.cstat, raw, "gen.structlen"), taken + n
            assert at == len(craw) and 4 * taken == len(ids)
        self.recipe = {"nt": self.ntasks, "cg": shapes}
        self.blob = self.record + b"".join(self.sections)


def real_recipes():
    return [{"v": v, "real": name} for name, v in sorted(REAL.items())]


def large(ver: str, seed: int, tasks: int = 1500, cgroups: int = 900, levels=(1, 0, 1, 0)) -> dict:
    """Recipe of a sample whose sections are large and do not compress."""
    cg = {"cg": [[200 + i % 50, i % 9, 0] for i in range(cgroups)]} if VERSIONS[ver].cstat else {}
    return {"f": seed, "m": "rand", "d": True, "nt": tasks, "l": list(levels), **cg}


class Log:
    def __init__(self, recipe: dict):
        self.recipe = recipe
        self.ver = VERSIONS[recipe["v"]]
        if "real" in recipe:
            data = _real(recipe["real"])
            self.header, self.samples = data[: self.ver.header.size], []
            pos = len(self.header)
            while pos < len(data):
                self.samples.append(RealSample(self.ver, data, pos))
                pos = self.samples[-1].end
            self._finish()
            return
        self.header = header_bytes(self.ver, recipe.get("hs", 0), recipe.get("hm", "rand"), recipe.get("word"), recipe.get("hdr"))
        built = [Sample(self.ver, s) for s in recipe.get("s", [])]
        order = recipe.get("o")
        self.samples = built if order is None else [built[i] for i in order if i < len(built)]
        self._finish()

    def _finish(self):
        self.data = self.header + b"".join(s.blob for s in self.samples)
        self.starts, pos = [], len(self.header)
        for s in self.samples:
            self.starts.append(pos)
            pos += len(s.blob)
        self.starts.append(pos)

    def complete_before(self, cut: int) -> int:
        """Number of samples that lie completely in the first `cut` bytes."""
        n = 0
        while n < len(self.samples) and self.starts[n + 1] <= cut:
            n += 1
        return n


def build(recipe: dict) -> Log:
    return Log(recipe)
