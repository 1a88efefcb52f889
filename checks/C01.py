"""Header and record metadata fidelity."""
import io

from hypothesis import strategies as st

from vlib import compare
from vlib import layout
from vlib import loggen
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C01"
LEVEL = "exploration"
RULE = (
    "A case is a log of one of the 11 versions with header and records filled from drawn seeds (random bits, extreme integers, small "
    "distinct numbers, zeros), or a one-hot header/record (exactly one named field non-zero). Non-trivial: the header or a "
    "record has at least one non-zero named field besides the structural ones; distinct by recipe."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures (frozen from the pinned tree, checked against gcc and real logs' lengths)"]
EXHAUSTIVE = "one-hot: every named header and record field of every version, several values"

STRUCT_H = {"rawheadlen", "rawreclen", "sstatlen", "tstatlen", "pstatlen", "cstatlen"}


def module(ver):
    import importlib

    return importlib.import_module("atoparser.structs.atop_" + ver.name.replace(".", "_"))


def check_header(log, h, where):
    n = compare.struct(h, log.ver.header, log.header, where)
    mod = module(log.ver)
    if not isinstance(h, mod.Header):
        sut.fail(f"{where}: type {type(h)} is not the exported Header of {log.ver.name}")
    for k, want in (("semantic_version", log.ver.name), ("major_version", log.ver.major), ("minor_version", log.ver.minor)):
        if sut.attr(h, k, where) != want:
            sut.fail(f"{where}.{k} is {sut.attr(h, k)!r}, not {want!r}")
    if bytes(h) != log.header:
        sut.fail(f"{where}: raw contents differ from the stored header")
    return n


def run(case, rec):
    recipe = case["case"]
    if case["arm"] == "onehot":
        return onehot(recipe, rec)
    log = loggen.build(recipe)
    src = io.BytesIO(log.data)
    h = sut.must("get_header", sut.atoparser.get_header, src)
    n = check_header(log, h, "header")
    mod = module(log.ver)
    for i, s in enumerate(log.samples):
        src.seek(log.starts[i])
        r = sut.must("get_record", sut.atoparser.get_record, src, h)
        n += compare.struct(r, log.ver.record, s.record, f"record[{i}]")
        if not isinstance(r, mod.Record) or bytes(r) != s.record:
            sut.fail(f"record[{i}] is not the exported Record of {log.ver.name} with the stored contents")
    d = sut.drain(io.BytesIO(log.data))
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"generate_statistics gave {d} for {len(log.samples)} stored samples")
    for i, (item, s) in enumerate(zip(d.samples, log.samples)):
        n += compare.sample(item, s, f"sample[{i}]", parts=("record",))
    rec.add("fields compared", n)
    rec.label("version " + log.ver.name)
    if log.recipe.get("hm") != "zero" or log.samples:
        rec.nontrivial_case()


def onehot(recipe, rec):
    """All named fields zero but one."""
    ver = VERSIONS[recipe["v"]]
    st_, what = (ver.header, "header") if recipe["part"] == "header" else (ver.record, "record")
    name, n = recipe["field"], 0
    base, f = st_.locate(name)
    if f.is_text:
        values = [b"x" * (f.count or 1), b"q", bytes([0xC3]) * (f.count or 1), b"ab\0cd"[: f.count or 1]]
    else:
        values = sorted({1, f.type.hi, f.type.lo, f.type.hi >> 1, 0x5A % (f.type.hi + 1)} - {0})
    for v in values:
        if what == "header":
            h = loggen.header_bytes(ver, 0, "zero")
            buf = bytearray(h)
            layout.put(st_, buf, name, v)
            kw = {"check_compatibility": False} if name in STRUCT_H else {}
            obj = sut.must("get_header", sut.atoparser.get_header, io.BytesIO(bytes(buf)), **kw)
        else:
            h = sut.must("get_header", sut.atoparser.get_header, io.BytesIO(loggen.header_bytes(ver, 0, "zero")))
            buf = bytearray(st_.size)
            layout.put(st_, buf, name, v)
            obj = sut.must("get_record", sut.atoparser.get_record, io.BytesIO(bytes(buf)), h)
        n += compare.struct(obj, st_, bytes(buf), what)
    rec.add("fields compared", n)
    rec.nontrivial_case()


def _paths(s, prefix=""):
    for f in s.fields:
        if f.placeholder or prefix + f.name in ("magic", "aversion"):
            continue
        if f.is_struct:
            yield from _paths(f.type, prefix + f.name + ".")
        else:
            yield prefix + f.name


def enumerated(tier):
    for real in loggen.real_recipes():
        yield {"arm": "logs", "case": real}
    for v in NAMES:
        ver = VERSIONS[v]
        for part, s in (("header", ver.header), ("record", ver.record)):
            for p in _paths(s):
                yield {"arm": "onehot", "case": {"v": v, "part": part, "field": p}}


ARMS = {
    "logs": (gs.logs(tasks=st.integers(0, 2), big=False, max_samples=4), 400, 6000),
    "headers": (gs.logs(tasks=st.just(0), max_samples=0), 700, 12000),
}
