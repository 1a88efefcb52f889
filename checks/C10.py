"""Dictionary conversion."""
import io
import json

from hypothesis import strategies as st

from vlib import layout
from vlib import loggen
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C10"
LEVEL = "exploration"
RULE = (
    "A case is a log whose decoded header, records, system statistics, tasks and cgroups are all converted and compared with a "
    "dictionary computed from the stored bytes, key order included, then passed through JSON. Entry counts of 0 to capacity, stale entries behind "
    "the count, full-width, cut and non-UTF-8 text, extreme integers. Non-trivial: at least one sample; distinct by recipe."
)
ASSUMPTIONS = ["floats are finite (JSON has no others) and entry counts lie between 0 and the capacity, as atop guarantees", "spec/layout.txt describes atop's structures"]


def diff(got, want, path):
    """First difference, types and key order included."""
    if type(got) is not type(want):
        sut.fail(f"{path} is {sut.short(got)}, expected {sut.short(want)}")
    if isinstance(want, dict):
        if list(got) != list(want):
            sut.fail(f"{path} has keys {sut.short(list(got), 400)}, expected {sut.short(list(want), 400)}")
        for k in want:
            diff(got[k], want[k], f"{path}.{k}")
    elif isinstance(want, list):
        if len(got) != len(want):
            sut.fail(f"{path} has {len(got)} entries, expected {len(want)}")
        if want and not isinstance(want[0], (dict, list)):
            if got != want or any(type(a) is not type(b) for a, b in zip(got, want)):
                sut.fail(f"{path} is {sut.short(got)}, expected {sut.short(want)}")
        else:
            for i, (a, b) in enumerate(zip(got, want)):
                diff(a, b, f"{path}[{i}]")
    elif got != want or repr(got) != repr(want):
        sut.fail(f"{path} is {sut.short(got)}, expected {sut.short(want)}")


def convert(obj, want, where, raw=None):
    before = bytes(obj) if raw is not None else None
    got = sut.must(where + ": struct_to_dict", sut.atoparser.struct_to_dict, obj)
    diff(got, want, where)
    try:
        back = json.loads(json.dumps(got))
    except (TypeError, ValueError, UnicodeError) as exc:
        sut.fail(f"{where}: not JSON compatible: {exc}")
    if back != got:
        diff(back, got, where + " after JSON")
    if raw is not None and (bytes(obj) != before or before != raw):
        sut.fail(f"{where}: the structure was altered")
    again = sut.must(where + ": struct_to_dict", sut.atoparser.struct_to_dict, obj)
    if again is got or again != got:
        sut.fail(f"{where}: a second conversion gives something else, or the same object")


def run(case, rec):
    log = loggen.build(case["case"])
    ver = log.ver
    src = io.BytesIO(log.data)
    h = sut.must("get_header", sut.atoparser.get_header, src)
    convert(h, layout.to_dict(ver.header, log.header), "header", log.header)
    d = sut.drain(src, h)
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"generate_statistics gave {d} for {len(log.samples)} stored samples")
    for i, ((r, x, tasks, cgs), s) in enumerate(zip(d.samples, log.samples)):
        convert(r, layout.to_dict(ver.record, s.record), f"record[{i}]", s.record)
        convert(x, layout.to_dict(ver.sstat, s.sstat), f"sstat[{i}]", s.sstat)
        for j, t in enumerate(tasks):
            convert(t, layout.to_dict(ver.tstat, s.tasks_raw, j * ver.tstat.size), f"task[{i}][{j}]", s.task(j))
        if len(cgs) != len(s.cgroups):
            sut.fail(f"sample[{i}] has {len(cgs)} cgroups, {len(s.cgroups)} are stored")
        for j, (g, (raw, pids)) in enumerate(zip(cgs, s.cgroups)):
            convert(g, {"cstat": layout.to_dict(ver.cstat, raw), "proclist": pids}, f"cgroup[{i}][{j}]")
        # Structures inside structures convert like their parents do.
        sub = sut.attr(x, "cpu")
        convert(sub, layout.to_dict(ver.sstat.by_name["cpu"].type, s.sstat, ver.sstat.by_name["cpu"].offset), f"sstat[{i}].cpu")
        rec.add("structures converted", 3 + len(tasks) + len(cgs))
        for p, lim, cap in ver.limits:
            k = layout.get(ver.sstat, s.sstat, lim)
            rec.label("count 0" if k == 0 else "count = capacity" if k == cap else "count between")
    rec.label("version " + ver.name)
    if log.samples:
        rec.nontrivial_case()


def enumerated(tier):
    for real in loggen.real_recipes():
        yield {"arm": "logs", "case": real}
    for v in NAMES:
        ver = VERSIONS[v]
        cg = {"cg": [[3, 2, 0], [0, 0, 0]]} if ver.cstat else {}
        for p, _, cap in ver.limits:
            for k in (0, 1, cap - 1, cap):
                yield {"arm": "logs", "case": {"v": v, "s": [{"f": 8, "m": "seq", "nt": 1, "c": {p: k}, **cg}]}}
        for dense in ("rand", "seq"):
            yield {"arm": "logs", "case": {"v": v, "s": [{"f": 9, "m": dense, "nt": 0, "d": True, "c": {p: 1 for p, _, _ in ver.limits}}]}}


ARMS = {"logs": (gs.logs(tasks=st.integers(0, 6), min_samples=1, max_samples=3), 200, 4000)}
