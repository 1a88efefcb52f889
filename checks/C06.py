"""A cut at any byte loses only the unfinished tail."""
import gzip
import io
import zlib

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C06"
LEVEL = "fault_enumeration"
RULE = (
    "A case is (log, list of cut positions); positions are drawn around and inside every part of every sample (record, each compressed "
    "section, boundaries), and positions of the log's gzip file. Each cut is read with raise_on_truncation True and False, from memory "
    "and (some) from files. Enumerated: all boundaries +-3 and every byte of a record for every version (thorough: every byte of logs "
    "of every version, plain and gzip). An evaluation is one (log, cut list); 'cuts' in totals counts single cut positions. Non-trivial: at least "
    "one cut lies strictly inside a sample; distinct by recipe."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures", "a cut inside a record may be reported either way (the statement leaves it open), but never yields a sample"]
EXHAUSTIVE = "quick: every section boundary +-3 bytes and every byte of the second record; thorough: every byte of the enumerated logs"


def kind_of(log, cut):
    k = log.complete_before(cut)
    if cut == log.starts[k]:
        return k, "boundary"
    rel = cut - log.starts[k]
    for name, a, b in log.samples[k].section_bounds():
        if a < rel < b:
            return k, name
        if rel == b:
            return k, "after " + name
    raise AssertionError((cut, k))


def check(log, make, k, kind, errors, where, rec):
    want = log.samples[:k]
    base, turn = where, sum(where.encode())
    for n, flag in enumerate((False, True, None)):
        src = make()
        kw = {} if flag is None else {"raise_on_truncation": flag}
        if (turn // 2 + n) % 3:  # a limit that is not reached changes nothing
            kw["max_samples"] = k + (1, 9, 86400)[(turn // 6 + n) % 3]
        h, where = None, base + ", implicit header"
        if (n + turn) % 2:  # otherwise the generator reads the header
            where = base
            h = sut.must(where + ": get_header", sut.atoparser.get_header, src)

        def one(i, item):
            if i >= len(want):
                sut.fail(f"{where}, {kw}: sample {i} was yielded, only {len(want)} are complete")
            compare.quick_same(item, want[i], f"{where}, {kw}: sample[{i}]")

        d = sut.drain(src, h, on_sample=one, **kw)
        if len(d.samples) != len(want):
            sut.fail(f"{where}, {kw}: {d}, but {len(want)} samples are complete")
        if flag is False:
            if d.error is not None:
                sut.fail(f"{where}, {kw}: ended with {sut.Raised(d.error)}")
        elif errors is None:
            if d.error is not None:
                sut.fail(f"{where}, {kw}: ended with {sut.Raised(d.error)} although nothing is incomplete")
        elif d.error is None:
            if None not in errors:
                sut.fail(f"{where}, {kw}: the truncation was not reported")
        elif not isinstance(d.error, tuple(e for e in errors if e)):
            sut.fail(f"{where}, {kw}: ended with {sut.Raised(d.error)}")
    rec.add("cuts", 1)
    rec.label("cut: " + kind)


def plain_cut(log, cut, rec, as_file=False):
    k, kind = kind_of(log, cut)
    data = log.data[:cut]
    if kind == "boundary":
        errors = None
    elif kind == "record":
        errors = (None, zlib.error, ValueError)
    else:
        errors = (zlib.error,)
    where = f"cut at byte {cut} ({kind} of sample {k}) of {len(log.data)}"
    if as_file:
        with sources.temp(data) as p:
            files = []

            def make():
                files.append(open(p, "rb"))
                return files[-1]

            try:
                check(log, make, k, kind, errors, where + ", file", rec)
            finally:
                for f in files:
                    f.close()
    else:
        check(log, lambda: io.BytesIO(data), k, kind, errors, where, rec)
    return kind != "boundary"


def gzip_cut(log, packed, cut, rec):
    prefix = packed[:cut]
    n, whole = sources.inflated(prefix)
    if whole and n >= len(log.header) and cut < len(packed):  # cut between two members: a gzip file of a plain log that is cut off
        k, kind = kind_of(log, n)
        errors = None if kind == "boundary" else (None, zlib.error, ValueError) if kind == "record" else (zlib.error,)
        where = f"gzip file cut between two members at byte {cut} of {len(packed)} ({n} of {len(log.data)} bytes left)"
        check(log, lambda: gzip.GzipFile(fileobj=io.BytesIO(prefix), mode="rb"), k, "gzip, between members", errors, where, rec)
        return kind != "boundary"
    if n < len(log.header) or cut > len(packed):
        rec.label("gzip cut before the end of the header (not in the domain)")
        return False
    k = log.complete_before(n)
    where = f"gzip file cut at byte {cut} of {len(packed)} ({n} of {len(log.data)} bytes left)"
    errors = (EOFError,) if cut < len(packed) else None
    if errors and prefix[-1:] == b"\x1f" and sources.inflated(prefix[:-1])[1]:  # gzip takes a single byte for the start of something else
        errors += (gzip.BadGzipFile,)
    check(log, lambda: gzip.GzipFile(fileobj=io.BytesIO(prefix), mode="rb"), k, "gzip", errors, where, rec)
    return cut < len(packed)


def positions(log, cuts):
    """Drawn (sample, part, edge, offset) to byte positions."""
    for i, part, frac, off in cuts:
        if not log.samples:
            yield len(log.header)
            continue
        i %= len(log.samples)
        b = log.samples[i].section_bounds()
        _, a, e = b[part % len(b)]
        pos = log.starts[i] + a + (e - a) * frac // 16 + off
        yield min(max(pos, len(log.header)), len(log.data))


def run(case, rec):
    c = case["case"]
    log = loggen.build(c["log"])
    inside = False
    for pos in positions(log, c.get("cuts", [])):
        inside |= plain_cut(log, pos, rec)
    for pos in c.get("abs", []):
        if len(log.header) <= pos <= len(log.data):
            inside |= plain_cut(log, pos, rec)
    for pos in list(positions(log, c.get("cuts", [])))[: c.get("files", 0)]:
        inside |= plain_cut(log, pos, rec, as_file=True)
    if c.get("gz") or c.get("gzabs"):
        packed = sources.gz(log.data, c.get("level", 1), c.get("members", 1))
        for frac, off in c.get("gz", []):
            inside |= gzip_cut(log, packed, min(max(len(packed) * frac // 64 + off, 1), len(packed)), rec)
        for pos in c.get("gzabs", []):
            if 0 < pos <= len(packed):
                inside |= gzip_cut(log, packed, pos, rec)
    rec.label("version " + log.ver.name)
    if inside:
        rec.nontrivial_case()


def _fixed(v, seed, mode):
    s = [{"f": seed + i, "m": mode, "nt": i + 1, **({"cg": [[3, 2, 0], [9, 0, 0]] if i != 1 else None} if VERSIONS[v].cstat else {})} for i in range(3)]
    return {"v": v, "s": s}


def enumerated(tier):
    for v in NAMES:  # large sections
        log = {"v": v, "s": [{"f": 3, "m": "seq", "nt": 1}, loggen.large(v, 9)]}
        yield {"arm": "cuts", "case": {"log": log, "cuts": [[1, p, fr, off] for p in range(5) for fr, off in ((0, 0), (1, 0), (9, 1), (16, -1))], "files": 3, "gz": [[5, 0], [33, 0], [63, 0]]}}
    for real in loggen.real_recipes():
        at = [[i, part, frac, off] for i in (0, 2, 4) for part in range(5) for frac, off in ((0, 0), (0, 1), (7, 3), (16, -1))]
        yield {"arm": "cuts", "case": {"log": real, "cuts": at, "gz": [[k, 0] for k in range(20, 64, 3)]}}
    for v in NAMES:
        recipe = _fixed(v, 21, "seq" if tier == "quick" else "zero")
        log = loggen.build(recipe)
        if tier == "quick":
            cuts = set(range(log.starts[1], log.starts[1] + log.ver.record.size + 1))
            for i, s in enumerate(log.samples):
                for _, a, b in s.section_bounds():
                    cuts.update(log.starts[i] + x + d for x in (a, b) for d in (-3, -2, -1, 0, 1, 2, 3))
            cuts = sorted(x for x in cuts if len(log.header) <= x <= len(log.data))
        else:
            cuts = list(range(len(log.header), len(log.data) + 1))
        for i in range(0, len(cuts), 40):
            yield {"arm": "cuts", "case": {"log": recipe, "abs": cuts[i : i + 40]}}
        packed = len(sources.gz(log.data, 1))
        log3 = sources.gz(log.data, 1, 3)
        ends = [i for i in range(1, len(log3)) if log3[i : i + 4] == b"\x1f\x8b\x08\0"]
        yield {"arm": "cuts", "case": {"log": recipe, "members": 3, "gzabs": sorted({e + d for e in ends for d in (-9, -8, -1, 0, 1, 9, 10, 11)})}}
        gzcuts = list(range(max(1, packed - 16), packed + 1)) if tier == "quick" else list(range(1, packed + 1))
        for i in range(0, len(gzcuts), 40):
            yield {"arm": "cuts", "case": {"log": recipe, "gzabs": gzcuts[i : i + 40]}}


cut = st.tuples(st.integers(0, 7), st.integers(0, 4), st.integers(0, 16), st.integers(-4, 4)).map(list)
ARMS = {
    "cuts": (st.fixed_dictionaries({
        "log": gs.logs(tasks=st.integers(0, 4), big=False, min_samples=1, max_samples=4),
        "cuts": st.lists(cut, min_size=1, max_size=12), "files": st.integers(0, 1),
        "gz": st.lists(st.tuples(st.integers(0, 64), st.integers(-9, 9)).map(list), max_size=5), "level": st.integers(0, 9), "members": st.sampled_from([1, 1, 1, 2, 3, 5]),
    }), 130, 2500),
}
