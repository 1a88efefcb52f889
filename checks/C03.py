"""Task list fidelity."""
import io

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES

ID = "C03"
LEVEL = "exploration"
RULE = (
    "A case is a log whose samples carry 0 to thousands of tasks (0-30 in the main arm, up to 3000 in 'long', fixed lengths around "
    "256, 32768, 65536 and 262144 enumerated, sections of up to 160 MB); the record's other counters are random. Every named field of every task is compared (long lists: "
    "field by field for every k-th task, raw contents and PID for all). Non-trivial: some sample has at least two tasks; distinct by recipe."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures (frozen from the pinned tree, checked against gcc and real logs' lengths)"]


def tasks(got, s, where, rec):
    ver = s.ver
    try:
        k = len(got)
    except TypeError:
        sut.fail(f"{where}: tasks are not a sequence: {sut.short(got)}")
    if k != s.ntasks:
        sut.fail(f"{where}: {k} tasks, the record declares {s.ntasks}")
    n, step = 0, max(1, k // 60)
    for i, t in enumerate(got):
        if bytes(t) != s.task(i):
            n += compare.struct(t, ver.tstat, s.tasks_raw, f"{where}.task[{i}]", i * ver.tstat.size)
            sut.fail(f"{where}.task[{i}]: raw contents differ from the stored ones")
        if i % step == 0 or i == k - 1:
            n += compare.struct(t, ver.tstat, s.tasks_raw, f"{where}.task[{i}]", i * ver.tstat.size)
    rec.add("fields compared", n)
    rec.add("tasks", k)


def run(case, rec):
    log = loggen.build(case["case"])
    src = io.BytesIO(log.data)
    h = sut.must("get_header", sut.atoparser.get_header, src)
    for i, s in enumerate(log.samples):
        src.seek(log.starts[i])
        r = sut.must("get_record", sut.atoparser.get_record, src, h)
        src.seek(log.starts[i] + s.section_bounds()[2][1])
        tasks(sut.must("get_tstat", sut.atoparser.get_tstat, src, h, r), s, f"get_tstat[{i}]", rec)
    d = sut.drain(io.BytesIO(log.data))
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"generate_statistics gave {d} for {len(log.samples)} stored samples")
    for i, (item, s) in enumerate(zip(d.samples, log.samples)):
        tasks(item[2], s, f"sample[{i}]", rec)
    top = max([s.ntasks for s in log.samples], default=0)
    rec.label("version " + log.ver.name, "no tasks" if top == 0 else "1 task" if top == 1 else "2-30 tasks" if top <= 30 else "31-999 tasks" if top < 1000 else "1000+ tasks")
    if top >= 2:
        rec.nontrivial_case()


def enumerated(tier):
    for real in loggen.real_recipes():
        yield {"arm": "logs", "case": real}
    for v in NAMES:
        for nt in (0, 1, 2, 127, 128, 255, 256, 257):
            yield {"arm": "long", "case": {"v": v, "s": [{"f": 3, "m": "seq", "nt": nt}, {"f": 4, "m": "rand", "nt": 2}]}}
        yield {"arm": "long", "case": {"v": v, "s": [{"f": 3, "m": "seq", "nt": 5000}]}}
    if tier == "thorough":
        for v in ("2.3", "2.6", "2.12"):
            yield {"arm": "long", "case": {"v": v, "s": [{"f": 3, "m": "zero", "nt": 262145}]}}
        yield {"arm": "long", "case": {"v": "1.26", "s": [{"f": 3, "m": "zero", "nt": 1048577}]}}
    yield {"arm": "long", "case": {"v": "1.26", "s": [{"f": 3, "m": "zero", "nt": 262145}]}}
    yield {"arm": "long", "case": {"v": "2.12", "s": [loggen.large("2.12", 41, 30000), {"f": 4, "m": "seq", "nt": 2}]}}
    for v in NAMES:
        yield {"arm": "long", "case": {"v": v, "s": [loggen.large(v, 41, 2000), {"f": 4, "m": "seq", "nt": 2}]}}
    for v, nt in (("1.26", 32768), ("2.12", 32769), ("1.26", 65537), ("2.12", 65537)):
        yield {"arm": "long", "case": {"v": v, "s": [{"f": 3, "m": "zero", "nt": nt}]}}


def _zero_heavy():
    return st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 30))


ARMS = {
    "logs": (gs.logs(tasks=_zero_heavy(), big=False, min_samples=1, max_samples=3), 350, 6000),
    "long": (gs.logs(tasks=st.one_of(st.integers(31, 400), st.integers(400, 3000)), big=False, min_samples=1, max_samples=1, repeat=False), 12, 250),
}
