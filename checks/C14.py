"""Section readers consume exactly their section; reading stops and resumes (stateful)."""
import gc

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C14"
LEVEL = "exploration"
RULE = (
    "A case is a log, a kind of byte source and a drawn plan that splits its reading into generator runs (limited by max_samples, abandoned with close, "
    "abandoned without, or drained) and single section calls, with re-reads of earlier samples by seeking. The file position is "
    "compared after every header, section and sample, and every sample with the stored one. Arm 'joined': several logs one behind the other in one source, "
    "read in turn with given and with implicit headers. Non-trivial: the plan reads at least two samples in "
    "at least two pieces; distinct by recipe."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures"]


def joined(c, rec):
    """Several logs, one behind the other in one source: the header reader starts where the source stands, so each can be read in turn."""
    logs = [loggen.build(x) for x in c["logs"]]
    with sources.opened(b"".join(x.data for x in logs), c["src"]) as f:
        start = 0
        for k, log in enumerate(logs):
            where = f"log {k} of {len(logs)} in one file"
            style = c["how"][k % len(c["how"])]
            n = len(log.samples)
            if style == 0 or k == len(logs) - 1 and style == 1:
                h = sut.must(f"{where}: get_header", sut.atoparser.get_header, f)
                if f.tell() != start + len(log.header):
                    sut.fail(f"{where}: the file is at {f.tell()} after get_header, expected {start + len(log.header)}")
                d = sut.drain(f, h, **({"max_samples": n} if style == 0 else {}))
            else:
                d = sut.drain(f, **({"max_samples": n} if style == 1 or k < len(logs) - 1 else {}))
            if d.error is not None or len(d.samples) != n:
                sut.fail(f"{where}: {d}, expected {n} samples")
            for i, item in enumerate(d.samples):
                compare.quick_same(item, log.samples[i], f"{where}: sample[{i}]")
            start += len(log.data)
            if f.tell() != start:
                sut.fail(f"{where}: the file is at {f.tell()}, expected {start}")
    rec.label("joined logs", "source " + c["src"])
    if sum(len(x.samples) for x in logs) >= 2 and len(logs) > 1:
        rec.nontrivial_case()


def run(case, rec):
    c = case["case"]
    if case["arm"] == "joined":
        return joined(c, rec)
    log = loggen.build(c["log"])
    a, ver = sut.atoparser, log.ver
    pieces = read = 0
    with sources.opened(log.data, c["src"]) as f:

        def at(want, where):
            if f.tell() != want:
                sut.fail(f"{where}: the file is at {f.tell()}, expected {want}")

        i = 0
        header = None
        if c["implicit"]:
            gen = a.generate_statistics(f, max_samples=c["implicit"] - 1)
            got = sut.drain_iter(gen)
            n = min(c["implicit"] - 1, len(log.samples))
            if got.error is not None or len(got.samples) != n:
                sut.fail(f"generate_statistics(max_samples={c['implicit'] - 1}) gave {got}, expected {n} samples")
            for j, item in enumerate(got.samples):
                compare.quick_same(item, log.samples[j], f"implicit header: sample[{j}]")
            if c["implicit"] - 1 <= len(log.samples) :
                at(log.starts[n], "after a limited run with implicit header")
            i, pieces, read = n, 1, n
            f.seek(0)
        header = sut.must("get_header", a.get_header, f, **({"check_compatibility": False} if c["implicit"] % 2 else {}))
        at(len(log.header), "after get_header")
        if i:
            f.seek(log.starts[i])
        for op, n in c["plan"]:
            s = log.samples[i] if i < len(log.samples) else None
            if op == "seek":
                i = n % (len(log.samples) + 1)
                f.seek(log.starts[i])
                continue
            if op == "sections":
                if s is None:
                    continue
                where = f"sample {i} by sections"
                b = s.section_bounds()
                at(log.starts[i], where)
                r = sut.must(where, a.get_record, f, header)
                at(log.starts[i] + b[0][2], where + ": after get_record")
                if n % 2:  # what follows depends on what the record says, not on the object
                    r = type(r).from_buffer_copy(bytes(r))
                x = sut.must(where, a.get_sstat, f, header, r)
                at(log.starts[i] + b[1][2], where + ": after get_sstat")
                t = sut.must(where, a.get_tstat, f, header, r)
                at(log.starts[i] + b[2][2], where + ": after get_tstat")
                cg = []
                if ver.cstat is not None:
                    cg = sut.must(where, a.get_cstat, f, header, r)
                    at(log.starts[i + 1], where + ": after get_cstat")
                compare.quick_same((r, x, t, cg), s, where)
                i, pieces, read = i + 1, pieces + 1, read + 1
                rec.label("op sections")
                continue
            if op == "skip":  # the record alone says where each section ends
                if s is None:
                    continue
                r = sut.must("get_record", a.get_record, f, header)
                f.seek(log.starts[i] + s.section_bounds()[2][1])
                t = sut.must("get_tstat", a.get_tstat, f, header, r)
                if b"".join(bytes(x) for x in t) != s.tasks_raw:
                    sut.fail(f"sample {i}: tasks read alone differ")
                at(log.starts[i] + s.section_bounds()[2][2], "after get_tstat alone")
                i += 1
                f.seek(log.starts[i])
                rec.label("op skip")
                continue
            # A generator run of at most n samples, ended in different ways.
            left = len(log.samples) - i
            limit = n if op == "limit" else None
            gen = a.generate_statistics(f, header, **({"max_samples": limit} if limit is not None else {}), **({"raise_on_truncation": False} if n % 2 else {}))
            stop = min(n, left) if op in ("close", "abandon") else min(left, limit) if limit is not None else left
            for j in range(stop):
                item = sut.call(next, gen, None)
                where = f"{op} run at sample {i}"
                if item is None or isinstance(item, sut.Raised):
                    sut.fail(f"{where}: {'ended' if item is None else item} after {j} samples, expected {stop}")
                compare.quick_same(item, log.samples[i], where)
                i += 1
                at(log.starts[i], f"{where}: after the sample")
                read += 1
            if op == "close":
                gen.close()
            elif op == "abandon":
                del gen
                gc.collect(0)
            else:
                more = sut.call(next, gen, None)
                if more is not None:
                    sut.fail(f"{op} run at sample {i}: expected its end, got {sut.short(more)}")
            at(log.starts[i], f"after the {op} run")
            pieces += 1 if stop else 0
            rec.label("op " + op)
    rec.label("source " + c["src"], "version " + ver.name)
    if read >= 2 and pieces >= 2:
        rec.nontrivial_case()


def enumerated(tier):
    plans = ([["sections", 0]] * 4, [["limit", 1]] * 4, [["close", 1]] * 4, [["abandon", 1], ["sections", 0], ["limit", 1], ["drain", 0]], [["drain", 0], ["seek", 1], ["sections", 0], ["drain", 0]], [["skip", 0], ["drain", 0]])
    for k, real in enumerate(loggen.real_recipes()):
        yield {"arm": "plan", "case": {"log": real, "src": sources.KINDS[k % len(sources.KINDS)], "implicit": k % 4, "plan": plans[k % len(plans)] + [["seek", 2], ["sections", 0], ["drain", 0]]}}
    for k, v in enumerate(NAMES):
        for n, how in enumerate(([0], [1], [2], [0, 1, 2])):
            logs = [{"v": w, "s": [{"f": 7 * j + k + i, "m": "seq", "nt": i} for i in range((j + 2) % 3)]} for j, w in enumerate((v, v, NAMES[(k + 3) % len(NAMES)], v))]
            yield {"arm": "joined", "case": {"logs": logs, "src": sources.KINDS[(k + n) % len(sources.KINDS)], "how": how}}
    for k, v in enumerate(NAMES):  # large sections
        log = {"v": v, "s": [loggen.large(v, 90), {"f": 3, "m": "seq", "nt": 1}, loggen.large(v, 91, 5, 1)]}
        for j in range(2):
            yield {"arm": "plan", "case": {"log": log, "src": sources.KINDS[(2 * k + j) % len(sources.KINDS)], "implicit": (k + j) % 4, "plan": plans[(k + j) % len(plans)] + [["seek", 0], ["sections", 0], ["limit", 1], ["drain", 0]]}}
    for v in NAMES:
        cg = [{"cg": [[3, 2, 0], [9, 1, 0]]}, {"cg": None}, {"cg": []}] if VERSIONS[v].cstat else [{}] * 3
        log = {"v": v, "s": [{"f": 40 + i, "m": "seq", "nt": i, **cg[i]} for i in range(3)]}
        for src in sources.KINDS:
            for k, p in enumerate(plans):
                yield {"arm": "plan", "case": {"log": log, "src": src, "implicit": k % 4, "plan": p}}


ARMS = {"joined": (st.fixed_dictionaries({
    "logs": st.lists(gs.logs(tasks=st.integers(0, 3), big=False, max_samples=3, repeat=False), min_size=1, max_size=4),
    "src": st.sampled_from(sources.KINDS), "how": st.lists(st.integers(0, 2), min_size=1, max_size=4),
}), 120, 2000), "plan": (st.fixed_dictionaries({
    "log": gs.logs(tasks=st.integers(0, 4), big=False, min_samples=1, max_samples=6),
    "src": st.sampled_from(sources.KINDS), "implicit": st.sampled_from([0, 0, 0, 1, 2, 3]),
    "plan": st.lists(st.tuples(st.sampled_from(["limit", "close", "abandon", "drain", "sections", "sections", "seek", "skip"]), st.integers(0, 3)).map(list), min_size=1, max_size=10),
}), 250, 5000)}
