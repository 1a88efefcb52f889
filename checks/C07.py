"""Damage after the header is contained."""
import contextlib
import zlib

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C07"
LEVEL = "exploration"
RULE = (
    "Arm 'flip': a log with bytes of one part (record or one compressed section) of one sample overwritten. Arm 'tail': intact samples "
    "followed by arbitrary bytes or by a crafted sample (consistent checksums but lengths, counts, entry sizes or section "
    "sizes that do not fit). Most are read from memory, some from the other kinds of sources. Each is read with raise_on_truncation True and False. Non-trivial: at least one stored byte really changed, "
    "or at least one byte of tail; distinct by recipe."
)
ASSUMPTIONS = ["an overwrite that keeps a zlib section's contents and checksum intact counts as undamaged; one that gives other contents of the same checksum is skipped", "termination is judged by a budget of 100000 reads"]


@contextlib.contextmanager
def opened(data, kind):
    if kind in (None, "budget"):
        yield sut.Budget(data)
    else:
        with sources.opened(data, kind) as f:
            yield f


def ended(d, where, allowed):
    if d.error is not None and not isinstance(d.error, allowed):
        sut.fail(f"{where}: ended with {sut.Raised(d.error)}")


def complete(item, ver, where):
    """Whatever was read, a sample that is handed out has what its record declares."""
    record, _, tasks, cgroups = item
    want = sut.attr(record, ver.tasks_field, where)
    if len(tasks) != want:
        sut.fail(f"{where}: {len(tasks)} tasks, but its record declares {want}")
    want = sut.attr(record, "ncgroups", where) if ver.cstat is not None else 0
    if len(cgroups) != want:
        sut.fail(f"{where}: {len(cgroups)} cgroups, but its record declares {want}")


def flip(c, rec):
    log = loggen.build(c["log"])
    i = c["sample"] % len(log.samples)
    s = log.samples[i]
    bounds = s.section_bounds()
    name, a, b = bounds[c["part"] if c["part"] < len(bounds) else 1 + c["part"] % 2]
    if a == b:
        rec.label("empty section (skipped)")
        return
    data = bytearray(log.data)
    for pos, val, how in c["edits"]:
        at = log.starts[i] + a + pos % (b - a)
        data[at] = (data[at] ^ (val or 1)) if how else val
    if bytes(data) == log.data:
        rec.label("nothing changed (skipped)")
        return
    same = False
    if name != "record":
        try:
            sec = bytes(data[log.starts[i] + a : log.starts[i] + b])
            same = zlib.decompress(sec) == zlib.decompress(log.data[log.starts[i] + a : log.starts[i] + b])
            if not same:  # other contents of the same Adler-32 checksum: nothing that reads the format can tell
                rec.label("checksum collision (skipped)")
                return
        except zlib.error:
            pass
    for flag in (True, False):
        where = f"{len(c['edits'])} bytes of {name} of sample {i} overwritten, raise_on_truncation={flag}"
        upto = i if name == "record" else len(log.samples) if same else i

        def one(k, item, upto=upto, where=where):
            if k < upto:
                compare.quick_same(item, log.samples[k], f"{where}: sample[{k}]")
            elif name != "record":
                sut.fail(f"{where}: sample {k} was yielded")
            else:
                complete(item, log.ver, f"{where}: sample[{k}]")

        with opened(bytes(data), c.get("src")) as src:
            h = sut.must("get_header", sut.atoparser.get_header, src) if (flag + len(log.data)) % 2 else None
            limit = {"max_samples": len(log.samples) + 40} if len(data) % 3 == 0 else {}
            d = sut.drain(src, h, on_sample=one, raise_on_truncation=flag, **limit)
        if len(d.samples) < upto:
            sut.fail(f"{where}: {d}, but {upto} samples precede the damage")
        if name == "record":
            ended(d, where, (zlib.error, ValueError))
        elif same or not flag:
            if d.error is not None:
                sut.fail(f"{where}: ended with {sut.Raised(d.error)}")
        elif not isinstance(d.error, zlib.error):
            sut.fail(f"{where}: the damage was not reported as zlib.error ({d})")
        if flag and name == "record":
            rec.label("damaged record: " + (type(d.error).__name__ if d.error else "normal end"))
    rec.label("damage in " + name, *(["contents survived"] if same else []))
    rec.nontrivial_case()


def tail(c, rec):
    log = loggen.build(c["log"])
    ver = log.ver
    data = log.data
    t = c["tail"]
    if t[0] == "bytes":
        extra = bytes.fromhex(t[1])
    else:
        kw = t[1]
        comp = lambda n, seed: zlib.compress(loggen.Filler(seed, "rand").r.randbytes(n) if n < 100000 else bytes(n), 1)  # noqa: E731
        r = bytearray(ver.record.size)
        loggen.Filler(kw["f"], kw["m"]).fill(ver.record, r)
        secs = [comp(max(0, ver.sstat.size + kw["ds"]), 1), comp(max(0, ver.tstat.size * kw["nt"] + kw["dt"]), 2)]
        put = lambda k, v: loggen.layout.put(ver.record, r, k, v & ((1 << 8 * ver.record.by_name[k].size) - 1)) if k in ver.record.by_name else None  # noqa: E731
        put(ver.tasks_field, kw["nt"] + kw["dn"])
        if ver.cstat is not None:
            ent = bytearray()
            for structlen, nprocs in kw["cg"]:
                e = bytearray(ver.cstat.size)
                loggen.layout.put(ver.cstat, e, "gen.structlen", structlen)
                loggen.layout.put(ver.cstat, e, "gen.nprocs", nprocs)
                ent += e
            secs += [zlib.compress(bytes(ent)), comp(4 * kw["np"], 3)]
            put("ncgroups", len(kw["cg"]) + kw["dc"])
            put("ccomplen", len(secs[2]))
            put("icomplen", len(secs[3]))
        put("scomplen", len(secs[0]) + kw["dl"][0])
        put("pcomplen", len(secs[1]) + kw["dl"][1])
        extra = bytes(r) + b"".join(secs) + bytes.fromhex(kw["end"])
    data = data + extra
    for flag in (True, False):
        where = f"tail {t[0]}, raise_on_truncation={flag}"

        def one(k, item, where=where):
            if k < len(log.samples):
                compare.quick_same(item, log.samples[k], f"{where}: sample[{k}]")
            else:
                complete(item, ver, f"{where}: sample[{k}]")
                rec.label("tail read as a sample")

        with opened(data, c.get("src")) as src:
            h = sut.must("get_header", sut.atoparser.get_header, src) if (flag + len(data)) % 2 else None
            limit = {"max_samples": 86399} if len(data) % 3 == 0 else {}
            d = sut.drain(src, h, on_sample=one, raise_on_truncation=flag, **limit)
        if len(d.samples) < len(log.samples):
            sut.fail(f"{where}: {d}, but {len(log.samples)} samples precede the tail")
        ended(d, where, (zlib.error, ValueError))
        if not flag and isinstance(d.error, zlib.error):
            sut.fail(f"{where}: zlib.error was raised although truncation is to be ignored")
        if flag:
            rec.label(f"tail {t[0]}: " + (type(d.error).__name__ if d.error else "normal end"))
    if extra:
        rec.nontrivial_case()


def run(case, rec):
    (flip if case["arm"] == "flip" else tail)(case["case"], rec)
    rec.label("version " + case["case"]["log"]["v"])


def enumerated(tier):
    for real in loggen.real_recipes():
        for part in range(5 if VERSIONS[real["v"]].cstat else 3):
            for pos in (1, 40, -3):
                yield {"arm": "flip", "case": {"log": real, "sample": part, "part": part, "edits": [[pos, 0x55, True]]}}
        yield {"arm": "tail", "case": {"log": real, "tail": ["bytes", "ff" * 300]}}
    for v in NAMES:
        cg = {"cg": [[3, 2, 0], [9, 1, 0]]} if VERSIONS[v].cstat else {}
        recipe = {"v": v, "s": [{"f": 5, "m": "seq", "nt": 2, **cg}, {"f": 6, "m": "seq", "nt": 1, **cg}]}
        for part in range(5 if cg else 3):
            for pos in list(range(0, 6)) + list(range(-8, 0)):  # zlib header, first block bits, checksum
                yield {"arm": "flip", "case": {"log": recipe, "sample": pos & 1, "part": part, "edits": [[pos % 1000003 if pos >= 0 else pos, 1 << (pos & 7), True]]}}


edit = st.tuples(st.integers(-20, 4000), st.integers(0, 255), st.booleans()).map(list)
small = st.integers(-3, 3)
odd = st.one_of(st.integers(-2, 2), st.sampled_from([-(2**31), 2**31 - 1, 432, 440, 431, 433, 65536]))
crafted = st.fixed_dictionaries({
    "f": gs.seeds, "m": gs.modes, "nt": st.integers(0, 4), "ds": st.sampled_from([0, 0, 0, -1, 1, -1000, 8]), "dt": st.sampled_from([0, 0, 0, -1, 1, 100]),
    "dn": st.sampled_from([0, 0, 0, 1, -1, 2**31, 2**32 - 5]), "cg": st.lists(st.tuples(odd, odd).map(list), max_size=4), "np": st.integers(0, 5),
    "dc": st.sampled_from([0, 0, 0, 1, -1, 65000]), "dl": st.tuples(st.sampled_from([0, 0, 0, 1, -1, 2**32 - 1]), st.sampled_from([0, 0, 0, 1, -1])).map(list),
    "end": st.binary(max_size=8).map(bytes.hex),
})
srcs = st.sampled_from(("budget",) * 5 + sources.KINDS)
few = gs.logs(tasks=st.integers(0, 3), big=False, min_samples=1, max_samples=3)
ARMS = {
    "flip": (st.fixed_dictionaries({
        "log": few, "src": srcs, "sample": st.integers(0, 5), "part": st.sampled_from([1, 2, 3, 4, 0]),
        "edits": st.one_of(st.lists(edit, min_size=1, max_size=2), st.lists(edit, min_size=1, max_size=8)),
    }), 400, 8000),
    "tail": (st.fixed_dictionaries({
        "src": srcs,
        "log": gs.logs(tasks=st.integers(0, 2), big=False, max_samples=2, repeat=False),
        "tail": st.one_of(st.tuples(st.just("bytes"), st.one_of(st.binary(max_size=400), st.binary(min_size=100, max_size=400)).map(bytes.hex)), st.tuples(st.just("crafted"), crafted), st.tuples(st.just("crafted"), crafted)).map(list),
    }), 400, 8000),
}
