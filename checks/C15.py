"""What reading costs and leaves behind: memory, open files, the caller's source, the input files."""
import contextlib
import functools
import gc
import gzip
import io
import os
import shutil
import stat
import sys
import tempfile
import tracemalloc

from hypothesis import strategies as st

from vlib import layout
from vlib import loggen
from vlib import parseable
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C15"
LEVEL = "exploration"
RULE = (
    "Arm 'memory': a case is a log of 400 (quick enumeration) or 200-400 generated samples, all different, and a way of using it: the generator, with "
    "conversion, with parseable rows, by section calls, from gzip, one reader per sample, failing reads, one command per log. The memory that the process "
    "has allocated (number of blocks and bytes) is compared at the half and at the end; the peak is bounded too. Arm 'files': a case is a log, "
    "intact, cut off or damaged, read from a drawn kind of source and by the command; the source must stay open, no descriptor may be left, "
    "files stay as they are. Non-trivial: the log has at least one sample; distinct by recipe."
)
ASSUMPTIONS = ["caches of at most 300 entries count as bounded: growth is judged over the second half of the samples only, and confirmed with a log three times as long"]


# ------------------------------------------------------------------------------------------------ memory
@functools.lru_cache(2)
def many(ver, n, seed, mode, nt, cg):
    v = VERSIONS[ver]
    extra = lambda k: {"cg": [[3 + i, (7 * k + i) % 40, 0] for i in range(cg)] or None} if v.cstat else {}  # noqa: E731
    return loggen.build({"v": ver, "hs": seed, "s": [{"f": seed + 10 * k, "m": mode, "nt": nt, "r": {"interval": k + 1}, **extra(k)} for k in range(n)]})


def memory(c, rec):
    """Growth must be confirmed by a log three times as long: a cache of bounded size is full by then."""
    try:
        measure(c, rec)
    except sut.Violation:
        gc.collect()
        measure({**c, "n": 3 * c["n"]}, rec)
        rec.label("growth not confirmed (a bounded cache)")
    rec.label("memory " + c["op"], "version " + c["v"])
    rec.nontrivial_case()


def measure(c, rec):
    a = sut.atoparser
    n, ver, op = c["n"], c["v"], c["op"]
    log = many(ver, n, c["f"], c["m"], c["nt"], c["cg"])
    one = max(len(s.sstat) + len(s.tasks_raw) for s in log.samples) + 1_000_000
    data = sources.gz(log.data) if op in ("gzip",) else log.data
    rows = [getattr(sut.parsers, "parse_" + name) for name in parseable.ALL]  # looked up once: the interpreter's attribute cache keeps names
    blocks, sizes = [], []
    step = n // 8
    seen = 0
    mode = ({}, {"raise_on_truncation": False}, {"max_samples": 10**6}, {"raise_on_truncation": False, "max_samples": n})[(NAMES.index(ver) + c["f"]) % 4]

    def mark(k):
        if k % step == 0:
            gc.collect()
            blocks.append(sys.getallocatedblocks())
            sizes.append(tracemalloc.get_traced_memory()[0])

    def use(h, item, k):
        if item[0].interval != k + 1:
            sut.fail(f"sample {k} has interval {item[0].interval}")
        if op == "dict":
            for x in (h, item[0], item[1], *item[2], *item[3]):
                a.struct_to_dict(x)
        elif op == "rows":
            for fn in rows:
                list(fn(h, *item[:3]))

    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        if op in ("iterate", "dict", "rows", "gzip"):
            with gzip.GzipFile(fileobj=io.BytesIO(data)) if op == "gzip" else io.BytesIO(data) as f:
                h = a.get_header(f)
                for k, item in enumerate(a.generate_statistics(f, h, **mode)):
                    use(h, item, k)
                    del item
                    mark(k)
                    seen += 1
        elif op == "sections":
            with io.BytesIO(data) as f:
                h = a.get_header(f)
                for k in range(n):
                    r = a.get_record(f, h)
                    item = (r, a.get_sstat(f, h, r), a.get_tstat(f, h, r), a.get_cstat(f, h, r) if log.ver.cstat else [])
                    use(h, item, k)
                    del item, r
                    mark(k)
                    seen += 1
        elif op in ("reopen", "fail", "reject", "command"):
            for k, s in enumerate(log.samples):
                part = log.header + s.blob
                if op == "reopen":
                    gen = a.generate_statistics(io.BytesIO(part), **mode)
                    use(None, next(gen), k)
                    if k % 2:
                        gen.close()
                    del gen
                elif op == "fail":
                    d = sut.drain(io.BytesIO(part[: len(part) - 1 - k % len(s.sections[1])]), raise_on_truncation=not k % 3)
                    if d.samples:
                        sut.fail("a sample that is cut off was yielded")
                    del d
                elif op == "reject":
                    bad = bytearray(part)
                    layout.put(log.ver.header, bad, "rawreclen", log.ver.record.size + 1 + k)
                    out = sut.call(a.get_header, io.BytesIO(bytes(bad)), **({"check_compatibility": False} if k % 3 == 2 else {}))
                    if not isinstance(out, sut.Raised) and k % 3 != 2:
                        sut.fail("a header with a wrong length was accepted")
                    if not isinstance(out, sut.Raised):
                        sut.call(out.check_compatibility)
                    del out, bad
                else:
                    with sources.temp(part) as p, contextlib.redirect_stdout(io.StringIO()):
                        sut.reader.parse_file(p, show_tstats=True, show_cstats=True)
                del part, s
                mark(k)
                seen += 1
        else:
            raise KeyError(op)
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    where = f"{op} over {n} samples of version {ver}"
    if seen != n:
        sut.fail(f"{where}: {seen} samples were delivered")
    half = len(blocks) // 2
    later = (len(blocks) - 1 - half) * step  # samples between the two marks
    grown, more = blocks[-1] - blocks[half], sizes[-1] - sizes[half]
    # Every command reads a file of another name, and the interpreter itself may keep a name for good (pathlib interns the parts of a path).
    if grown > (later * 3 // 2 if op == "command" else later // 3):
        sut.fail(f"{where}: the last {later} samples left {grown} more blocks of memory allocated ({blocks}): samples that the caller dropped are retained")
    if more > later * 400 + 16384:
        sut.fail(f"{where}: the last {later} samples left {more} more bytes allocated ({sizes}): what was read is retained")
    limit = 40 * one if op != "command" else 60 * one
    if peak > limit:
        sut.fail(f"{where}: up to {peak} bytes were in use at once; one sample has {one - 1_000_000}")
    rec.add("samples", n)


# ------------------------------------------------------------------------------------------------ files
def descriptors():
    return {fd: link for fd in os.listdir("/proc/self/fd") if (link := _link(fd))}


def _link(fd):
    try:
        return os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        return None  # the descriptor of the listing itself


def state(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in dirs + names:
            p = os.path.join(root, n)
            s = os.lstat(p)
            body = None
            if stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    body = f.read()
            out[os.path.relpath(p, d)] = (s.st_mode, s.st_uid, s.st_nlink, s.st_mtime_ns, body)
    return out


def files(c, rec):
    log = loggen.build(c["log"])
    data = bytearray(log.data)
    for pos, val in c["edits"]:
        if pos < len(data):
            data[pos] = val
    if c["cut"] is not None:
        del data[len(data) * c["cut"] // 32 + c["off"] if c["cut"] else max(c["off"], 0) * 40 :]
    data = bytes(data)
    with sources.opened(data, c["src"]) as f:
        what = f"{len(data)} bytes from {c['src']}"
        out = sut.call(sut.atoparser.get_header, f)
        if f.closed:
            sut.fail(f"{what}: get_header closed the caller's file")
        if not isinstance(out, sut.Raised):
            gen = sut.atoparser.generate_statistics(f, out, raise_on_truncation=c["raise"])
            got = 0
            ended = None
            while got < c["take"]:
                item = sut.call(next, gen, None)
                if item is None or isinstance(item, sut.Raised):
                    ended = "failing" if item else "ending"
                    break
                got += 1
                if f.closed:
                    sut.fail(f"{what}: the caller's file was closed after sample {got}")
            gen.close()
            if f.closed:
                sut.fail(f"{what}: the caller's file was closed by {ended or 'closing'} after {got} samples")
            rec.label("reading " + (ended or "abandoned"))
        else:
            rec.label("header rejected")
    tmp = tempfile.mkdtemp(dir=sources.scratch())
    try:
        path = os.path.join(tmp, c["name"])
        with open(path, "wb") as f:
            f.write(sources.gz(data, 1, c["gz"]) if c["gz"] else data)
        os.chmod(path, c["mode"])
        os.utime(path, ns=(10**18, 10**18 + 7))
        before, fds = state(tmp), descriptors()
        cwd = os.getcwd()
        stdout = io.StringIO()
        with contextlib.redirect_stdout(stdout):
            out = sut.call(sut.reader.parse_file, path, c["P"] or None, show_tstats=True, show_cstats=True)  # a failure keeps its traceback while we look
        left = {k: v for k, v in descriptors().items() if fds.get(k) != v}
        what = f"parse_file of {len(data)} bytes ({'gzip' if c['gz'] else 'plain'})"
        how = "failed" if isinstance(out, sut.Raised) else "succeeded"
        if left:
            sut.fail(f"{what} {how} and left open: {sorted(v.replace(tmp, '') for v in left.values())}")
        after = state(tmp)
        if after != before:
            sut.fail(f"{what} {how} and changed files: {sorted(set(before) ^ set(after)) or [k for k in before if before[k] != after[k]]}")
        if os.getcwd() != cwd:
            sut.fail(f"{what} changed the working directory")
        rec.label("command " + how)
        del out
    finally:
        shutil.rmtree(tmp)
    rec.label("source " + c["src"], "version " + log.ver.name)
    if log.samples:
        rec.nontrivial_case()


def run(case, rec):
    (memory if case["arm"] == "memory" else files)(case["case"], rec)


NOT_FUZZED = ("memory",)
OPS = ("iterate", "dict", "gzip", "sections", "reopen", "fail", "reject", "command")


def enumerated(tier):
    n = 400
    for ops in (("iterate", "dict"), ("reopen", "fail"), ("sections", "reject"), ("gzip", "command")):
        # Shard s takes every 8th case: versions go to different shards, the log is built once for both.
        pads = [v for v in NAMES] + ["1.26"] * (-len(NAMES) % 8)
        for op in ops:
            for v in pads:
                yield {"arm": "memory", "case": {"v": v, "n": n, "f": 77, "m": "seq", "nt": 2, "cg": 2, "op": op}}
    yield {"arm": "memory", "case": {"v": "1.26", "n": 2 * n, "f": 78, "m": "rand", "nt": 3, "cg": 0, "op": "rows"}}


@st.composite
def _memory(draw):
    ver = draw(gs.versions)
    op = draw(st.sampled_from(OPS + (("rows", "rows") if ver == "1.26" else ())))
    return {
        "v": ver, "n": 800 if op == "rows" else draw(st.sampled_from([200, 280, 400])), "f": draw(st.integers(0, 10**6)), "m": draw(st.sampled_from(["seq", "zero", "rand"])),
        "nt": draw(st.integers(0, 8)), "cg": draw(st.integers(0, 5)), "op": op,
    }


ARMS = {
    "files": (st.fixed_dictionaries({
        "log": gs.logs(tasks=st.integers(0, 3), big=False, max_samples=3),
        "edits": st.one_of(st.just([]), st.lists(st.tuples(st.one_of(st.integers(0, 31), st.integers(400, 3000)), st.integers(0, 255)).map(list), max_size=3)),
        "cut": st.one_of(st.none(), st.integers(0, 32)), "off": st.integers(-3, 3), "raise": st.booleans(), "take": st.integers(0, 4),
        "src": st.sampled_from(sources.KINDS), "gz": st.sampled_from([0, 1, 2]), "name": st.sampled_from(["atop.log", "a.gz", "x y"]),
        "mode": st.sampled_from([0o644, 0o444, 0o600]), "P": st.sampled_from([[], [], ["CPU"], ["PRC", "DSK"]]),
    }), 150, 3000),
    "memory": (_memory(), 3, 60),
}
