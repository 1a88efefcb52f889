"""System statistics fidelity."""
import io

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C02"
LEVEL = "exploration"
RULE = (
    "A case is a log of one of the 11 versions. Arm 'logs': some array elements filled, counts at and around capacities; all "
    "named fields outside arrays, the valid elements, the one behind them and the last slot are compared. Arm 'dense': every "
    "element of every array is filled and compared. Non-trivial: at least one sample whose system statistics are not all zero; "
    "distinct by recipe."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures (frozen from the pinned tree, checked against gcc and real logs' lengths)"]


def run(case, rec):
    log = loggen.build(case["case"])
    dense = case["arm"] == "dense"
    src = io.BytesIO(log.data)
    h = sut.must("get_header", sut.atoparser.get_header, src)
    n = 0
    for i, s in enumerate(log.samples):
        src.seek(log.starts[i])
        r = sut.must("get_record", sut.atoparser.get_record, src, h)
        x = sut.must("get_sstat", sut.atoparser.get_sstat, src, h, r)
        n += compare.struct(x, log.ver.sstat, s.sstat, f"sstat[{i}]", every=dense)
        if bytes(x) != s.sstat:
            sut.fail(f"sstat[{i}]: raw contents differ from the stored ones")
    d = sut.drain(io.BytesIO(log.data))
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"generate_statistics gave {d} for {len(log.samples)} stored samples")
    for i, (item, s) in enumerate(zip(d.samples, log.samples)):
        if dense:
            if bytes(item[1]) != s.sstat:
                sut.fail(f"sample[{i}].sstat: raw contents differ from the stored ones")
        else:
            n += compare.sample(item, s, f"sample[{i}]", parts=("sstat",))
    rec.add("fields compared", n)
    rec.label("version " + log.ver.name, "dense" if dense else "sparse")
    for s in case["case"].get("s", []):
        for p, k in (s.get("c") or {}).items():
            cap = dict((a, c) for a, _, c in log.ver.limits)[p]
            rec.label("count = capacity" if k == cap else "count = 0" if k == 0 else "count between")
    if log.samples and any(any(s.sstat) for s in log.samples):
        rec.nontrivial_case()


def _dense(ver):
    return st.fixed_dictionaries({"v": st.just(ver), "s": st.tuples(st.fixed_dictionaries(
        {"f": gs.seeds, "m": st.sampled_from(["rand", "seq", "edge"]), "d": st.just(True), "nt": st.integers(0, 1)},
    )).map(list)})


def enumerated(tier):
    for real in loggen.real_recipes():
        yield {"arm": "dense", "case": real}
    for v in NAMES:
        for m in ("seq", "rand", "edge"):
            yield {"arm": "dense", "case": {"v": v, "s": [{"f": 11, "m": m, "d": True}]}}
        for _, p, _ in VERSIONS[v].limits:  # counts are statistics as well, whatever they say
            _, f = VERSIONS[v].sstat.locate(p)
            for k in (f.type.lo, f.type.hi, -1 if f.type.lo else f.type.hi - 1):
                yield {"arm": "logs", "case": {"v": v, "s": [{"f": 11, "m": "zero", "set": {p: k}}]}}
        full = {p: c for p, _, c in VERSIONS[v].limits}
        yield {"arm": "logs", "case": {"v": v, "s": [{"f": 12, "m": "rand", "c": full}, {"f": 13, "m": "seq", "c": dict.fromkeys(full, 0)}]}}


ARMS = {
    "dense": (gs.versions.flatmap(_dense), 25, 600),
    "logs": (gs.logs(tasks=st.integers(0, 2), min_samples=1, max_samples=3), 350, 6000),
}
