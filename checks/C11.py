"""Parseable rows of atop 1.26 samples."""
import io
import json

from hypothesis import strategies as st

from checks.C10 import diff
from vlib import loggen
from vlib import parseable
from vlib import strategies as gs
from vlib import sut
from vlib.layout import VERSIONS

ID = "C11"
LEVEL = "exploration"
RULE = (
    "A case is an atop 1.26 log; for every sample all 16 parseables are produced and compared (rows, order, keys, values and types) with rows computed "
    "from the stored bytes, then passed through JSON. Names and command lines include non-UTF-8 bytes, text cut inside a character, full "
    "width; device lists end at capacity, at an unnamed entry, or have named entries behind it. Non-trivial: a sample in which some "
    "device list or the task list is not empty; distinct by recipe."
)
ASSUMPTIONS = ["row names and units follow atop 1.26's manual page (PARSEABLE OUTPUT) as restated in vlib/parseable.py", "1.26 layout as in spec/layout.txt"]
VER = VERSIONS["1.26"]
DEVICES = {"dsk.dsk": "name", "dsk.lvm": "name", "dsk.mdd": "name", "intf.intf": "name"}


def run(case, rec):
    c = case["case"]
    log = loggen.build(c["log"])
    patch(log, c.get("names", []))
    src = io.BytesIO(log.data)
    h = sut.must("get_header", sut.atoparser.get_header, src)
    d = sut.drain(src, h)
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"generate_statistics gave {d} for {len(log.samples)} stored samples")
    some = False
    for i, ((r, x, tasks, _), s) in enumerate(zip(d.samples, log.samples)):
        for name in parseable.ALL:
            want = parseable.rows(name, log.header, s)
            where = f"sample[{i}] parse_{name}"
            try:
                got = list(getattr(sut.parsers, "parse_" + name)(h, r, x, tasks))
            except Exception as exc:  # pylint: disable=broad-except
                sut.fail(f"{where}: {type(exc).__name__}: {exc}")
            if len(got) != len(want):
                sut.fail(f"{where}: {len(got)} rows, expected {len(want)}")
            for j, (g, w) in enumerate(zip(got, want)):
                if not isinstance(g, dict) or set(g) != set(w):
                    sut.fail(f"{where} row {j} has {sut.short(g)}, expected columns {list(w)}")
                diff({k: g[k] for k in w}, w, f"{where} row {j}")
            try:
                back = json.loads(json.dumps(got))
            except (TypeError, ValueError) as exc:
                sut.fail(f"{where}: not JSON compatible: {exc}")
            if back != got:
                sut.fail(f"{where}: changed by a JSON round trip")
            rec.add("rows", len(want))
            if name in ("DSK", "LVM", "MDD", "NETL", "PRC"):
                some |= bool(want)
                rec.label(f"{name}: " + ("none" if not want else "one" if len(want) == 1 else "several" if len(want) < 20 else "20+"))
    if some:
        rec.nontrivial_case()


def patch(log, edits):
    """Set device names: (sample, list, index, name bytes in hex); then store the sample again."""
    if not edits or not log.samples:
        return
    for i, arr, idx, name in edits:
        s = log.samples[i % len(log.samples)]
        outer, inner = arr.split(".")
        f = VER.sstat.by_name[outer].type.by_name[inner]
        base = VER.sstat.by_name[outer].offset + f.offset + (idx % f.count) * f.type.size
        raw = bytearray(s.sstat)
        loggen.layout.put(f.type, raw, DEVICES[arr], bytes.fromhex(name), base)
        s.sstat = bytes(raw)
        s.sections[0] = loggen.zlib.compress(s.sstat, 1)
        rec = bytearray(s.record)
        loggen.layout.put(VER.record, rec, "scomplen", len(s.sections[0]))
        s.record = bytes(rec)
        s.blob = s.record + b"".join(s.sections)
    log.data = log.header + b"".join(s.blob for s in log.samples)


def enumerated(tier):
    yield {"arm": "logs", "case": {"log": {"v": "1.26", "real": "atop_1_26"}}}
    caps = {p: c for p, _, c in VER.limits}
    for k in (0, 1, 2, 99, 100, 10**6):
        c = {p: min(k, cap) for p, cap in caps.items()}
        for m in ("seq", "rand"):
            yield {"arm": "logs", "case": {"log": {"v": "1.26", "hs": 4, "s": [{"f": 5, "m": m, "nt": min(k, 200), "c": c}]}}}
    for flags in range(16):
        yield {"arm": "logs", "case": {"log": {"v": "1.26", "hdr": {"supportflags": flags}, "s": [{"f": 5, "m": "seq", "nt": 2}]}}}
    for arr in DEVICES:
        for idx, name in ((0, ""), (1, ""), (0, "ff"), (2, "c3"), (0, "6100"), (31, ""), (31, "7a")):
            c = {arr: 32 if idx == 31 else 4}
            yield {"arm": "logs", "case": {"log": {"v": "1.26", "s": [{"f": 5, "m": "seq", "nt": 0, "c": c}]}, "names": [[0, arr, idx, name]]}}
    # One-hot: exactly one system or task field is non-zero.
    for path in _leaves(VER.sstat):
        yield {"arm": "logs", "case": {"log": {"v": "1.26", "s": [{"f": 5, "m": "zero", "nt": 1, "set": {path: 1000003 if "lavg" not in path else 0.5}}]}}}


def _leaves(s, prefix=""):
    for f in s.fields:
        if f.is_struct and f.count is None:
            yield from _leaves(f.type, prefix + f.name + ".")
        elif not f.is_struct and not f.is_text and f.count is None and not f.placeholder and not any(g.limit == f.name for g in s.fields):
            if f.type.code == "f4" or f.type.size >= 4:
                yield prefix + f.name


nasty = st.one_of(st.just(b""), st.binary(max_size=12), st.text(max_size=8).map(lambda t: t.encode("utf-8", "surrogatepass")), st.sampled_from([b"\xc3", b"\xff\xfe", b"sd\xe2\x82", b"a\0b", b'"\\']))
ARMS = {
    "logs": (st.fixed_dictionaries({
        "log": gs.logs(version=st.just("1.26"), tasks=st.integers(0, 12), min_samples=1, max_samples=3, repeat=False),
        "names": st.lists(st.tuples(st.integers(0, 2), st.sampled_from(sorted(DEVICES)), st.integers(0, 5), nasty.map(bytes.hex)).map(list), max_size=4),
    }), 400, 8000),
}
