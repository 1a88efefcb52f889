"""Cgroup statistics and process lists."""
import io

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C04"
LEVEL = "exploration"
RULE = (
    "A case is a log of 2.11/2.12 whose samples carry any mix of cgroups (0-40 groups, inline names of 0-255 bytes, 0-40 processes, "
    "extra entry padding) or no cgroup data at all; or a log of an earlier version. Non-trivial: some sample has two or more cgroups "
    "that differ in entry size or process count, or a sample without cgroup data lies next to another sample; distinct by recipe."
)
ASSUMPTIONS = [
    "spec/layout.txt describes atop's structures",
    "a host without cgroups v2 stores zero-length cgroup sections (atop's rawlog.c writes nothing when there are no cgroups)",
]


def run(case, rec):
    log = loggen.build(case["case"])
    src = io.BytesIO(log.data)
    h = sut.must("get_header", sut.atoparser.get_header, src)
    nontrivial = False
    if log.ver.cstat is not None:
        for i, s in enumerate(log.samples):
            src.seek(log.starts[i])
            r = sut.must("get_record", sut.atoparser.get_record, src, h)
            src.seek(log.starts[i] + s.section_bounds()[3][1])
            got = sut.must(f"get_cstat[{i}]", sut.atoparser.get_cstat, src, h, r)
            rec.add("fields compared", compare.cgroups(got, s.cgroups, log.ver.cstat, f"get_cstat[{i}]"))
            if src.tell() != log.starts[i + 1]:
                sut.fail(f"get_cstat[{i}] stopped at {src.tell()}, the next record is at {log.starts[i + 1]}")
            absent = s.recipe.get("cg") is None
            shapes = {(len(p), g) for (raw, p), g in zip(s.cgroups, [tuple(x[::2]) for x in s.recipe.get("cg") or []])}
            nontrivial |= len(shapes) > 1 or (absent and len(log.samples) > 1)
            rec.add("cgroups", len(s.cgroups))
            rec.label("no cgroup data" if absent else "0 cgroups" if not s.cgroups else "1 cgroup" if len(s.cgroups) == 1 else "2+ cgroups")
    d = sut.drain(io.BytesIO(log.data))
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"generate_statistics gave {d} for {len(log.samples)} stored samples")
    for i, (item, s) in enumerate(zip(d.samples, log.samples)):
        rec.add("fields compared", compare.sample(item, s, f"sample[{i}]", parts=("cgroup", "record")))
        if log.ver.cstat is None and list(item[3]):
            sut.fail(f"sample[{i}] of version {log.ver.name} has cgroups")
        compare.quick_same(item, s, f"sample[{i}]")  # the sections around the cgroups are undisturbed
    rec.label("version " + log.ver.name)
    if nontrivial:
        rec.nontrivial_case()


def enumerated(tier):
    for real in loggen.real_recipes():
        yield {"arm": "logs" if VERSIONS[real["v"]].cstat else "old", "case": real}
    for v in NAMES:
        if VERSIONS[v].cstat is None:
            yield {"arm": "old", "case": {"v": v, "s": [{"f": 3, "m": "rand", "nt": 1}, {"f": 4, "m": "rand", "nt": 0}]}}
            continue
        for cg in (
            None, [], [[0, 0, 0]], [[0, 0, 0], [0, 0, 0]], [[7, 1, 0], [8, 0, 0], [9, 2, 0]], [[255, 300, 0], [0, 1, 5]],
            [[i % 41, (i * 7) % 5, i % 3] for i in range(300)], [[1, 70000, 0], [2, 1, 0]],
        ):
            for other in (None, [[3, 2, 0]]):
                yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "rand", "nt": 1, "cg": cg}, {"f": 4, "m": "seq", "nt": 0, "cg": other}]}}
        # numbers of processes (and name lengths) that agree in their low bits, within a sample and one sample after the other
        pairs = [[[1, n + (1 << k), 0], [2, n, 0]] for n in (0, 1, 5) for k in range(1, 17)] + [[[n + (1 << k), 2, 0], [n, 1, 0]] for n in (0, 3) for k in range(3, 14)]
        yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "seq", "nt": 0, "cg": [x for p in pairs for x in p]}, {"f": 4, "m": "seq", "nt": 0, "cg": [x for p in pairs for x in p[::-1]]}]}}
        for p in pairs:
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "seq", "nt": 0, "cg": [x]} for x in p]}}
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "seq", "nt": 0, "cg": [x]} for x in p[::-1]]}}
        # as many cgroups as a record can declare, and sections beyond 16 and 64 MiB
        if v == "2.12" or tier == "thorough":
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "zero", "nt": 0, "l": [1, 1, 0, 1], "cg": [[1100, 0, 0]] * 65535}, {"f": 3, "m": "seq", "nt": 1, "cg": [[3, 2, 0]]}]}}
        if v != "2.12" or tier == "thorough":
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "zero", "nt": 0, "cg": [[0, 0, 0]] * 40000}]}}
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "seq", "nt": 0, "l": [1, 1, 1, 0], "cg": [[1, 1300000, 0], [2, 1, 0]]}]}}
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 3, "m": "zero", "nt": 0, "l": [1, 1, 1, 0], "cg": [[1, 100, 0]] * 45000}]}}
        yield {"arm": "logs", "case": {"v": v, "s": [loggen.large(v, 31), {"f": 4, "m": "seq", "nt": 1, "cg": [[3, 2, 0]]}]}}


ARMS = {
    "logs": (gs.logs(version=gs.cg_versions, tasks=st.integers(0, 2), big=False, min_samples=1, max_samples=4, cgroups=gs.cgroup_list(True)), 500, 8000),
    "old": (gs.logs(version=st.sampled_from([n for n in NAMES if VERSIONS[n].cstat is None]), tasks=st.integers(0, 2), big=False, min_samples=1), 60, 800),
}
