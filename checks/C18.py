"""The work of reading is in proportion to the data."""
import contextlib
import functools
import gc
import io
import struct
import sys
import time
import zlib

from hypothesis import strategies as st

from vlib import layout
from vlib import loggen
from vlib import sources
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C18"
LEVEL = "exploration"
RULE = (
    "A case is a version, contents, a way of reading or converting and the dimension that grows: samples of a log, tasks, cgroups, PIDs or name lengths of one sample, "
    "logs read one after the other. The size is doubled until the operation takes 12 ms of processor time; then the time for four, eight and 32 times that size (same contents, more of it) is compared, "
    "an excess being measured again several times. For the first sample, the time must not grow at all. Non-trivial: the measured size was reached, distinct by recipe."
)
ASSUMPTIONS = [
    "processor time of the reading thread with the garbage collector off; an operation that is slower than proportional by less than a factor of 2.5 at eight times the size passes",
    "operations that stay below 12 ms at the largest size are not judged",
]
BASE, FACTOR, SLACK = 0.012, 2.5, 0.03


@functools.lru_cache(64)
def sample(ver, seed, mode, cg):
    v = VERSIONS[ver]
    return loggen.build({"v": ver, "hs": seed, "s": [{"f": seed, "m": mode, "nt": 8, **({"cg": [[5 + i, 2, 0] for i in range(6)] if cg else None} if v.cstat else {})}]})


def sized(c, n):
    """A log whose drawn dimension is n."""
    dim, v = c["dim"], VERSIONS[c["v"]]
    base = sample(c["v"], c["f"], c["m"], bool(c.get("cg", 1)))
    s = base.samples[0]
    if dim in ("samples", "first", "logs", "headers"):
        at, rest = v.record.locate("curtime")[0], s.blob[len(s.record) :]
        out, rec = [base.header], bytearray(s.record)
        for i in range(n):
            struct.pack_into("<I", rec, at, 1700000000 + i)
            out += [bytes(rec), rest]
        return b"".join(out)
    rec, (sec_s, sec_t, *sec_c) = bytearray(s.record), list(s.sections)
    if dim == "tasks":
        size = v.tstat.size
        raw, at = bytearray((s.tasks_raw * (n // 8 + 1))[: n * size]), v.tstat.locate("gen.pid")[0]
        for i in range(n):
            struct.pack_into("<i", raw, at + i * size, 100 + i)
        sec_t = zlib.compress(raw, 1)
        layout.put(v.record, rec, v.tasks_field, n)
        layout.put(v.record, rec, "pcomplen", len(sec_t))
    else:
        fixed = bytearray(s.cgroups[0][0])
        count, pids, name = {"cgroups": (n, 1, 9), "pids": (1, n, 9), "names": (16, 1, n)}[dim]
        structlen = (v.cstat.size + name + 8) // 8 * 8
        for k, x in (("structlen", structlen), ("nprocs", pids), ("namelen", name)):
            layout.put(v.cstat, fixed, "gen." + k, x)
        sec_c = [zlib.compress((bytes(fixed) + b"n" * (structlen - len(fixed))) * count, 1), zlib.compress(struct.pack(f"<{count * pids}i", *range(count * pids)), 1)]
        for k, x in (("ncgroups", count), ("ncgpids", count * pids), ("coriglen", structlen * count), ("ccomplen", len(sec_c[0])), ("icomplen", len(sec_c[1]))):
            layout.put(v.record, rec, k, x)
    return base.header + bytes(rec) + b"".join([sec_s, sec_t, *sec_c])


LIMITS = {"samples": 20000, "first": 4000, "logs": 4000, "headers": 40000, "tasks": 40000, "cgroups": 60000, "pids": 4000000, "names": 60000}
START = {"samples": 16, "first": 16, "logs": 16, "headers": 64, "tasks": 64, "cgroups": 64, "pids": 4096, "names": 512}


def operation(c, data):
    """The function that is measured."""
    a, op, P, v = sut.atoparser, c["op"], sut.parsers, VERSIONS[c["v"]]
    mode = ({}, {"raise_on_truncation": False}, {"max_samples": 10**6})[c["f"] % 3]
    if c["dim"] in ("logs", "headers"):
        one, at, to = bytearray(data), v.header.locate("utsname.nodename")[0], v.header.size + v.record.locate("curtime")[0]

        def logs(n):
            for i in range(n):
                one[at : at + 8] = b"%08d" % i
                one[to : to + 4] = i.to_bytes(4, "little")  # the record's time
                f = io.BytesIO(one)
                h = a.get_header(f)
                if c["dim"] == "headers":
                    continue
                for r, *_ in a.generate_statistics(f, h, **mode):
                    a.struct_to_dict(r)

        return logs
    if op == "command":

        def command():
            out, old = io.StringIO(), sys.argv
            with sources.temp(sources.gz(data) if c.get("gz") else data) as path, contextlib.redirect_stdout(out):
                sys.argv = ["atoparser", path, *(["-P", "PRG", "CPU"] if c["v"] == "1.26" and c.get("P") else ["--tstats", "--cstats"])]
                try:
                    sut.reader.main()
                finally:
                    sys.argv = old

        return command
    with sources.opened(data, "bytesio") as f:
        header = a.get_header(f)
    if op in ("dict", "rows"):
        f = io.BytesIO(data)
        a.get_header(f)
        record, sstat, tasks, cgroups = next(a.generate_statistics(f, header))
        if op == "rows":
            return lambda: [list(getattr(P, "parse_" + p)(header, record, sstat, tasks)) for p in c.get("P") or ("PRC", "PRG", "PRM")]
        return lambda: [a.struct_to_dict(x) for x in (*tasks, *cgroups)]

    if c["dim"] == "first":

        def first():
            f.seek(0)
            next(a.generate_statistics(f, a.get_header(f), **mode))

        first.stack = contextlib.ExitStack()
        f = first.stack.enter_context(sources.opened(data, c["src"]))
        return first

    def read():
        with sources.opened(data, c["src"]) as f:
            h = a.get_header(f)
            if op == "sections":
                while True:
                    r = a.get_record(f, h)
                    if not r.scomplen:
                        return
                    a.get_sstat(f, h, r)
                    a.get_tstat(f, h, r)
                    if h.CStat is not None:
                        a.get_cstat(f, h, r)
            kept = []
            for _ in a.generate_statistics(f, h, **mode):
                if op == "kept":  # a caller with plenty of objects of its own
                    kept += [[] for _ in range(200)]

    return read


def clock(fn, times):
    """Best processor time. (Of the thread: that of the process is only updated by ticks while the runner's timer is armed.)"""
    best = None
    gc.collect()
    gc.freeze()  # what the harness has in memory is no concern of the code under test, should that collect garbage
    gc.disable()
    try:
        for _ in range(times):
            t = time.thread_time()
            fn()
            t = time.thread_time() - t
            best = t if best is None else min(best, t)
    finally:
        gc.enable()
        gc.unfreeze()
    return best


def run(case, rec):
    c = case["case"]
    dim, v = c["dim"], VERSIONS[c["v"]]
    if dim in ("cgroups", "pids", "names") and v.cstat is None:
        rec.label("version without cgroups (skipped)")
        return
    where = f"{c['op']} of version {c['v']}, growing {dim}"

    def prepared(n):
        if dim in ("logs", "headers"):
            fn = operation(c, sized(c, 1))
            return lambda: fn(n)
        return operation(c, sized(c, n))

    top = LIMITS[dim]
    if c["op"] in ("command", "dict") and dim in ("samples", "pids"):
        top //= 8
    n = START[dim]
    if dim == "first":
        with contextlib.ExitStack() as stack:
            fns = [prepared(n), prepared(top)]
            for fn in fns:
                stack.enter_context(fn.stack)
            few, lots = (clock(fn, 20) for fn in fns)
            for _ in range(5):
                if lots <= 3 * few + 0.002:
                    break
                few, lots = max(few, clock(fns[0], 20)), min(lots, clock(fns[1], 20))
        if lots > 3 * few + 0.002:
            sut.fail(f"{where}: the first of {n} samples takes {few * 1e3:.2f} ms, the first of {top} {lots * 1e3:.2f} ms")
        rec.label("first sample")
        rec.nontrivial_case()
        return
    t = clock(prepared(n), 1)
    while t < BASE and n * 16 <= top:
        n *= 2
        t = clock(prepared(n), 1)
    if t < BASE / 4:
        rec.label(f"{dim}: too quick to judge")
        return
    t = clock(prepared(n), 3)
    for k in (4, 8, 32):
        if n * k > top and k > 4:
            break
        fn = prepared(n * k)
        big = clock(fn, 1)
        if big <= FACTOR * k * t + SLACK:
            continue
        again = prepared(n)
        for _ in range(6):  # another process may have disturbed one of the two
            big, t = min(big, clock(fn, 1)), max(t, clock(again, 2))
            if big <= FACTOR * k * t + SLACK:
                break
        else:
            sut.fail(f"{where}: {n} take {t * 1e3:.1f} ms, {n * k} take {big * 1e3:.0f} ms: {big / t:.0f} times as long for {k} times as many")
    rec.label("grows " + dim, "op " + c["op"], "version " + c["v"])
    rec.nontrivial_case()


def enumerated(tier):
    for k, v in enumerate(NAMES):
        for dim, ops in (
            ("samples", ["read", "sections", "kept"] + (["command"] if k % 3 == 0 else [])), ("tasks", ["read", "dict"] + (["command"] if k % 3 == 1 else [])), ("first", ["read"]), ("logs", ["read"]), ("headers", ["read"]),
            ("cgroups", ["read", "dict"]), ("pids", ["read", "dict"]), ("names", ["read"]),
        ):
            if VERSIONS[v].cstat is None and dim in ("cgroups", "pids", "names"):
                continue
            for j, op in enumerate(ops):
                yield {"arm": "cost", "case": {"v": v, "dim": dim, "op": op, "src": ("bytesio", "file", "gzip")[(k + j) % 3] if dim != "first" else "file", "f": 5 + k, "m": ("seq", "live", "rand")[(j + k) % 3], "cg": 1}}
    for p in ("PRC", "PRD", "PRG", "PRM", "PRN"):
        yield {"arm": "cost", "case": {"v": "1.26", "dim": "tasks", "op": "rows", "src": "bytesio", "f": 3, "m": "seq", "P": [p]}}
    yield {"arm": "cost", "case": {"v": "1.26", "dim": "samples", "op": "command", "P": 1, "gz": 1, "src": "bytesio", "f": 3, "m": "live"}}
    yield {"arm": "cost", "case": {"v": "2.12", "dim": "cgroups", "op": "command", "src": "bytesio", "f": 3, "m": "live"}}


cases = st.fixed_dictionaries({
    "v": st.sampled_from(NAMES), "dim": st.sampled_from(["samples", "tasks", "cgroups", "logs", "headers", "names", "pids"]), "op": st.sampled_from(["read", "sections", "kept", "dict", "command"]),
    "src": st.sampled_from(["bytesio", "file", "gzip", "buffered-tiny", "gzip-multi"]), "f": st.integers(0, 2**30), "m": st.sampled_from(["seq", "live", "rand", "edge", "zero"]), "cg": st.just(1), "gz": st.integers(0, 1),
})
ARMS = {"cost": (cases, 4, 120)}
