"""All samples exactly once, in order, up to the limit, from any source."""
from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES

ID = "C05"
LEVEL = "exploration"
RULE = (
    "A case is (log of 0-600 samples, kind of byte source, explicit or implicit header, max_samples or its default); every yielded "
    "sample is compared with the stored one at its position. Non-trivial: at least two samples, or a limit below the number of samples; "
    "distinct by recipe. One enumerated log of 86403 samples decides the default limit."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures", "records carry a non-empty system statistics section (atop always writes one)"]


def read(case, log, want, where):
    with sources.opened(log.data, case["src"]) as f:
        kw = {}
        if case.get("max") is not None:
            kw["max_samples"] = case["max"]
        if case.get("raise") is not None:
            kw["raise_on_truncation"] = case["raise"]
        header = None
        if case["explicit"]:
            header = sut.must("get_header", sut.atoparser.get_header, f)

        def one(i, item):
            if i >= len(want):
                sut.fail(f"{where}: sample {i} was yielded, but only {len(want)} were expected")
            compare.quick_same(item, want[i], f"{where}: sample[{i}]")
            for obj, union in zip(item[:2], (sut.atoparser.Record, sut.atoparser.SStat)):
                if not isinstance(obj, union):
                    sut.fail(f"{where}: sample[{i}] has a {type(obj).__name__} that is none of the exported types")

        if case.get("pos"):
            flag, most = kw.get("raise_on_truncation", True), kw.get("max_samples", 86400)
            d = sut.drain(f, header, on_sample=one, positional=(flag, most) if "max_samples" in kw else (flag,))
        else:
            d = sut.drain(f, header, on_sample=one, **kw)
    if d.error is not None:
        sut.fail(f"{where}: {sut.Raised(d.error)} after {len(d.samples)} of {len(want)} samples")
    if len(d.samples) != len(want):
        sut.fail(f"{where}: {len(d.samples)} samples were yielded, {len(want)} expected")


def run(case, rec):
    c = case["case"]
    if case["arm"] == "limit":
        return limit(c, rec)
    log = loggen.build(c["log"])
    n = len(log.samples)
    want = log.samples if c.get("max") is None else log.samples[: c["max"]]
    read(c, log, want, f"{c['src']}, {'explicit' if c['explicit'] else 'implicit'} header, max_samples={c.get('max')}")
    rec.label("source " + c["src"], "explicit header" if c["explicit"] else "implicit header", "version " + log.ver.name)
    rec.label("0 samples" if n == 0 else "1 sample" if n == 1 else "2-20 samples" if n <= 20 else "21-600 samples")
    if c.get("max") is not None:
        rec.label("limit below" if c["max"] < n else "limit equal" if c["max"] == n else "limit above")
    rec.add("samples", len(want))
    if n >= 2 or (c.get("max") is not None and c["max"] < n):
        rec.nontrivial_case()


def limit(c, rec):
    """The default limit: 86400 of more samples; repeats a few distinct samples."""
    ver = c["v"]
    log = loggen.build({"v": ver, "s": [{"f": i, "m": "zero", "nt": 0, "r": {"interval": i + 1}, **({"cg": None} if loggen.VERSIONS[ver].cstat else {})} for i in range(7)]})
    n = c["n"]
    blobs = [s.blob for s in log.samples]
    data = log.header + b"".join(blobs[i % 7] for i in range(n))
    src = sut.Budget(data, 8 * n + 5000)
    want = min(n, c["max"]) if c.get("max") else min(n, 86400)
    kw = {"max_samples": c["max"]} if c.get("max") else {}
    k = 0
    for record, sstat, tstats, cgroups in sut.atoparser.generate_statistics(src, **kw):
        if record.interval != k % 7 + 1:
            sut.fail(f"sample {k} of {n} has interval {record.interval}, not {k % 7 + 1}")
        k += 1
        if k > want:
            break
    if k != want:
        sut.fail(f"{'at least ' if k > want else ''}{k} samples were yielded of a log of {n} with {kw or 'the default limit'}, expected {want}")
    rec.add("samples", k)
    rec.label("limit run")
    rec.nontrivial_case()


def enumerated(tier):
    yield {"arm": "limit", "case": {"v": "1.26", "n": 86403}}
    for k, real in enumerate(loggen.real_recipes()):
        for n in (None, k % 7):
            yield {"arm": "logs", "case": {"log": real, "src": sources.KINDS[k % len(sources.KINDS)], "explicit": n is None, "max": n, "raise": None}}
    for k, v in enumerate(NAMES):  # sections of up to a few megabytes
        for j in range(3):
            kinds = sources.KINDS + sources.STREAMS
            log = {"v": v, "s": [loggen.large(v, 60 + j, levels=((1, 0, 1, 0), (0, 1, 0, 1), (9, 9, 9, 9))[j]), {"f": 3, "m": "seq", "nt": 1}, loggen.large(v, 70 + j, 3, 2)]}
            yield {"arm": "logs", "case": {"log": log, "src": kinds[(3 * k + j) % len(kinds)], "explicit": bool(k & 1), "max": None, "raise": None}}
    for v in NAMES:  # dealt to the other shards first
        for src in sources.KINDS + sources.STREAMS:
            for explicit in (True, False):
                s = [{"f": i, "m": "seq", "nt": i, **({"cg": [[3, 2, 0]]} if loggen.VERSIONS[v].cstat else {})} for i in range(3)]
                yield {"arm": "logs", "case": {"log": {"v": v, "s": s}, "src": src, "explicit": explicit, "max": None, "raise": None}}
    for v in NAMES:  # a limit that is never reached: the end of the log ends the reading
        for n, most in ((0, 2**40), (1, 2**31), (5, 2**62)):
            yield {"arm": "limit", "case": {"v": v, "n": n, "max": most}}
    if tier == "thorough":
        yield {"arm": "limit", "case": {"v": "2.12", "n": 86401}}
        yield {"arm": "limit", "case": {"v": "1.26", "n": 100001, "max": 100000}}


def _case(logs):
    return st.fixed_dictionaries({
        "log": logs, "src": st.sampled_from(sources.KINDS + sources.STREAMS), "explicit": st.booleans(),
        "max": st.one_of(st.none(), st.integers(0, 8), st.integers(0, 700)), "raise": st.sampled_from([None, True, False]),
        "pos": st.integers(0, 4).map(lambda k: k == 4),
    })


@st.composite
def _long(draw):
    """Many samples: long orders over a few distinct small samples."""
    ver = draw(gs.versions)
    ss = draw(st.lists(gs.samples(ver, st.integers(0, 2), False, mode=st.sampled_from(["zero", "seq"])), min_size=1, max_size=4))
    n = draw(st.integers(1, 60).map(lambda k: k * 10))
    a, b = draw(st.integers(1, 97)), draw(st.integers(0, 96))
    return {"v": ver, "hs": draw(gs.seeds), "hm": "rand", "s": ss, "o": [(a * i + b) % 97 % len(ss) for i in range(n)]}


ARMS = {
    "logs": (_case(st.integers(0, 9).flatmap(lambda k: gs.logs(tasks=st.integers(0, 3), big=False, min_samples=2 if k else 0, max_samples=5))), 400, 6000),
    "long": (_case(_long()), 10, 250),
}
