"""Failures of the source and interruptions reach the caller and break nothing afterwards."""
import asyncio
import builtins
import contextlib
import errno
import gzip
import io
import linecache
import os
import shutil
import sys
import tempfile
import threading

from hypothesis import strategies as st

from checks import C12
from checks import C13
from vlib import compare
from vlib import layout
from vlib import loggen
from vlib import parseable
from vlib import sources
from vlib import strategies as gs
from vlib import sut

ID = "C19"
LEVEL = "exploration"
RULE = (
    "Arm 'source': a log is read (header, samples, single sections; both truncation modes) from memory, through a buffer or through gzip, and one of its read operations raises an "
    "error of a drawn kind. Arm 'interrupt': an error is raised at a drawn line of atoparser that is executed while a log is read, converted or turned into rows, as a signal handler would. "
    "Arm 'command': the files given to the command fail while they are read. Non-trivial: the error was really raised during the operation; distinct by recipe."
)
ASSUMPTIONS = [
    "zlib.error, EOFError and BadGzipFile raised by a source mean a cut off log and are not injected", "a source raises its error instead of handing out data, and works again afterwards",
    "interruptions are raised between lines, not where a 'with' or 'try' statement is entered or left",
]


class Odd(Exception):
    """An application's own error, e.g. raised by a signal handler as a timeout."""


class Stop(BaseException):
    """An application's own error that is no Exception."""


KINDS = {
    "EIO": lambda: OSError(errno.EIO, "Input/output error"), "ESTALE": lambda: OSError(errno.ESTALE, "Stale file handle"), "plain OSError": lambda: OSError("failed"), "timeout": lambda: TimeoutError("timed out"),
    "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"), "permission": lambda: PermissionError(errno.EACCES, "denied"), "pipe": lambda: BrokenPipeError(errno.EPIPE, "broken"),
    "blocking": lambda: BlockingIOError(errno.EAGAIN, "again"), "interrupt": KeyboardInterrupt, "memory": MemoryError, "odd": lambda: Odd("odd"), "stop": lambda: Stop("stop"), "cancelled": asyncio.CancelledError,
    "runtime": lambda: RuntimeError("failed"), "value": lambda: ValueError("I/O operation on closed file"), "exit": lambda: SystemExit(7),
    "missing": lambda: FileNotFoundError(errno.ENOENT, "gone"), "nodev": lambda: OSError(errno.ENODEV, "gone"), "unsupported": lambda: io.UnsupportedOperation("read"),
}
ASYNC = ["interrupt", "odd", "stop", "timeout", "memory", "exit", "runtime"]


class Faulty(io.BytesIO):
    """A log in memory of which one read operation (counted from 0) raises an error."""

    def __init__(self, data, at, exc):
        super().__init__(data)
        self.at, self.exc, self.raised = at, exc, None

    def _tick(self):
        self.at -= 1
        if self.at == -1:
            self.raised = self.tell()
            raise self.exc

    def read(self, *a):
        self._tick()
        return super().read(*a)

    def read1(self, *a):
        self._tick()
        return super().read1(*a)

    def readinto(self, b):
        self._tick()
        return super().readinto(b)

    def readinto1(self, b):
        self._tick()
        return super().readinto1(b)


class FaultyRaw(io.RawIOBase):
    """A raw file that hands out its bytes up to some position, and raises an error when asked for what follows (once)."""

    def __init__(self, data, upto, exc):
        super().__init__()
        self.data, self.pos, self.upto, self.exc, self.raised = data, 0, upto, exc, None

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if self.raised is None and n and self.pos + n > self.upto:
            n = self.upto - self.pos
            if n <= 0:
                self.raised = self.pos
                raise self.exc
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


class FaultyFile(io.FileIO):
    """A file on a medium that cannot be read from some position on."""

    def __init__(self, path, fault):
        super().__init__(path, "rb")
        self.fault = fault

    def readinto(self, b):
        pos, upto = self.tell(), self.fault["upto"]
        if pos + len(b) > upto and pos < self.fault["size"] and len(b):
            if pos >= upto:
                self.fault["raised"] = pos
                raise self.fault["exc"]
            return super().readinto(memoryview(b).cast("B")[: upto - pos])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buffer = bytearray(size)
        return bytes(buffer[: self.readinto(buffer)])

    def readall(self):
        out = b""
        while True:
            part = self.read(65536)
            if not part:
                return out
            out += part


def same(item, s, where):
    compare.quick_same(item, s, where)


def whole(log, src, header, first, where):
    """From sample `first` on, the log reads as stored."""
    d = sut.drain(src, header)
    if d.error is not None or len(d.samples) != len(log.samples) - first:
        sut.fail(f"{where}: {d}, stored are {len(log.samples) - first}")
    for k, item in enumerate(d.samples):
        same(item, log.samples[first + k], f"{where}: sample[{first + k}]")


def by_sections(log, src, header, got):
    a = sut.atoparser
    for _ in log.samples:
        r = a.get_record(src, header)
        s = a.get_sstat(src, header, r)
        t = a.get_tstat(src, header, r)
        got.append((r, s, t, a.get_cstat(src, header, r) if log.ver.cstat is not None else []))


def source(c, rec):
    log = loggen.build(c["log"])
    exc = KINDS[c["kind"]]()
    how, flag, at = c["how"], c["flag"], c["at"]
    if how == "gzip":
        data = sources.gz(log.data)
        raw = FaultyRaw(data, at % (len(data) + 1) if c.get("where") is None else min(len(data), c["where"]), exc)
        src = gzip.GzipFile(fileobj=io.BufferedReader(raw), mode="rb")
    elif how == "buffered":
        raw = FaultyRaw(log.data, at % (len(log.data) + 1), exc)
        src = io.BufferedReader(raw, buffer_size=(7, 512, 8192)[at % 3])
    else:
        calls = 2 + len(log.samples) * (5 if log.ver.cstat is not None else 3)
        raw = src = Faulty(log.data, at % calls, exc)
    where = f"{how}, {c['read']}, raise_on_truncation={flag}, {type(exc).__name__} raised"
    got, error, header, ended = [], None, None, False
    try:
        if c["read"] != "implicit":
            header = sut.atoparser.get_header(src)
        if c["read"] == "sections":
            by_sections(log, src, header, got)
        else:
            for item in sut.atoparser.generate_statistics(src, header, raise_on_truncation=flag):
                got.append(item)
        ended = True
    except BaseException as e:  # pylint: disable=broad-except
        error = e
    where = f"{where} after {len(got)} samples"
    if raw.raised is None:
        if not ended:
            sut.fail(f"{where}: {sut.Raised(error)} although no read operation failed")
        if len(got) != len(log.samples):
            sut.fail(f"{where}: {len(got)} of {len(log.samples)} samples")
        rec.label("error not reached")
    else:
        if error is not exc:
            sut.fail(f"{where}: the caller sees {'a normal end' if ended else sut.Raised(error)}, not the error of the source")
        rec.label("source " + how, "read " + c["read"], "error " + c["kind"])
        rec.nontrivial_case()
    for k, item in enumerate(got):
        if k >= len(log.samples):
            sut.fail(f"{where}: more samples than stored")
        same(item, log.samples[k], f"{where}: sample[{k}]")
    if raw.raised is not None and how != "gzip" and c["read"] != "sections":
        k = log.complete_before(raw.raised)
        if len(got) != k and not (len(got) == k - 1 and raw.raised == log.starts[k] and not log.samples[k - 1].sections[-1]):  # asked for none of an empty section's bytes
            sut.fail(f"{where}: {len(got)} samples were delivered, {k} are complete before the position of the error")
    if src.closed:
        sut.fail(f"{where}: the source was closed")
    # In another thread, so that a lock left behind shows.
    error = traced(None, lambda: resume(log, src, header, len(got), raw.raised is not None and how == "memory", where))
    if error is not None:
        raise error


def resume(log, src, header, k, again, where):
    if again:  # the source works again
        if header is None:
            src.seek(0)
            header = sut.must(f"{where}: get_header afterwards", sut.atoparser.get_header, src)
        src.seek(log.starts[k])
        whole(log, src, header, k, f"{where}; reading on afterwards")
    whole(log, io.BytesIO(log.data), None, 0, f"{where}; reading again")


HERE = os.path.dirname(os.path.abspath(sut.atoparser.__file__)) + os.sep
SKIP = ("with ", "with(", "try:", "async ", "finally", "def ", "class ", "@")


class Tracer:
    """Counts the lines of atoparser that are executed; raises the error at the given one."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.place = 0, at, exc, None

    def local(self, frame, event, arg):
        if event == "line" and frame.f_code.co_name != "<module>":
            if self.n == self.at:
                line = linecache.getline(frame.f_code.co_filename, frame.f_lineno).strip()
                if line.startswith(SKIP) or "release" in line:
                    return self.local
                self.place = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.n += 1
                raise self.exc
            self.n += 1
        return self.local

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(HERE) else None


def operate(log, c, kept):
    """What is interrupted: a log is read and converted; kept: (object, its stored bytes, their layout)."""
    a, src = sut.atoparser, io.BytesIO(log.data)
    h = a.get_header(src)
    kept.append((h, log.header, log.ver.header))
    if c["op"] in ("dicts", "rows"):
        _ = h.minor_version, h.semantic_version, h.major_version
    if c["op"] == "sections":
        got = []
        by_sections(log, src, h, got)
        return
    for item, s in zip(a.generate_statistics(src, h, raise_on_truncation=c["flag"]), log.samples):
        kept += [(item[0], s.record, log.ver.record), (item[1], s.sstat, None), *((t, s.task(j), log.ver.tstat) for j, t in enumerate(item[2]))]
        if c["op"] == "dicts":
            for x in (h, item[0], *item[2][:2], *item[3][:2], *([item[1]] if c.get("system") else [])):
                a.struct_to_dict(x)
        elif c["op"] == "rows" and log.ver.name == "1.26":
            for p in parseable.ALL:
                list(getattr(sut.parsers, "parse_" + p)(h, *item[:3]))


def traced(tracer, fn, hold=None):
    """Run in a thread of its own; the exception or None. With an event to hold on to, the thread lives on until it is set."""
    out, done = [], threading.Event()

    def work():
        sys.settrace(tracer)
        try:
            fn()
        except BaseException as exc:  # pylint: disable=broad-except
            out.append(exc)
        finally:
            sys.settrace(None)
            done.set()
        if hold is not None:
            hold.wait(120)

    t = threading.Thread(target=work, daemon=True)
    t.start()
    if not done.wait(30):
        sut.fail("reading does not end within 30 seconds")
    if hold is None:
        t.join(10)
    return out[0] if out else None


def interrupt(c, rec):
    hold = threading.Event()  # the interrupted thread lives on (otherwise another one could be taken for it by a lock it left behind)
    try:
        with C13.fresh(c.get("cold", False)):
            _interrupt(c, rec, hold)
    finally:
        hold.set()


def _interrupt(c, rec, hold):
    log = loggen.build(c["log"])
    other = loggen.build(c["other"])
    exc = KINDS[c["kind"]]()
    if c.get("cold"):  # how many lines are executed the first time, when something may be set up
        with C13.fresh(True):
            count = Tracer()
            first = traced(count, lambda: operate(log, c, []))
    else:
        count = Tracer()
        first = traced(count, lambda: operate(log, c, []))
    if first is not None:
        sut.fail(f"reading and converting: {sut.Raised(first)}")
    kept, tracer = [], Tracer(c["at"] % max(1, count.n), exc)
    seen = traced(tracer, lambda: operate(log, c, kept), hold)
    where = f"{c['op']}, {type(exc).__name__} raised at line {c['at'] % max(1, count.n)} of {count.n}"
    if tracer.place is None:
        rec.label("not interrupted")
        if seen is not None:
            sut.fail(f"{where}: {sut.Raised(seen)}")
    else:
        if seen is not exc:
            sut.fail(f"{where} ({tracer.place}): the caller sees {'a normal end' if seen is None else sut.Raised(seen)}")
        rec.label("interrupted " + c["op"], "interrupted by " + c["kind"], *(["library just imported"] if c.get("cold") else []))
        rec.nontrivial_case()
    error = traced(None, lambda: returned(log, kept, where))
    if error is not None:
        raise error
    # Another thread, so that a lock left behind shows.
    for which, name in ((log, "the same log afterwards"), (other, "another log afterwards")):
        after = traced(None, lambda which=which, name=name: C13.visit(which, f"{where}; {name}", bool(c.get("system"))))
        if after is not None:
            raise after


def returned(log, kept, where):
    """What was returned before an interruption is as it was, and can be used."""
    for obj, raw, st_ in kept:
        if bytes(obj) != raw:
            sut.fail(f"{where}: a {type(obj).__name__} returned before changed")
        if st_ is not None:
            C13.diff(sut.must(f"{where}: dictionary of a {type(obj).__name__} returned before", sut.atoparser.struct_to_dict, obj), layout.to_dict(st_, raw), f"{where}: dictionary of a {type(obj).__name__} returned before")
    if kept:
        h = kept[0][0]
        found = [sut.attr(h, x, f"{where}: header returned before") for x in ("major_version", "minor_version", "semantic_version")]
        if found != [*map(int, log.ver.name.split(".")), log.ver.name]:
            sut.fail(f"{where}: header returned before says {found}")
        whole(log, io.BytesIO(log.data[len(log.header) :]), h, 0, f"{where}; reading with the header returned before")


def command(c, rec):
    tmp = tempfile.mkdtemp(dir=sources.scratch())
    real, faults = builtins.open, {}
    try:
        files = []
        for i, f in enumerate(c["files"]):
            log = loggen.build(f["log"])
            data = sources.gz(log.data) if f.get("gz") else log.data
            path = os.path.join(tmp, f"{i}.log")
            with real(path, "wb") as out:
                out.write(data)
            if f.get("kind"):
                faults[path] = {"upto": f["at"] % len(data), "size": len(data), "exc": KINDS[f["kind"]](), "raised": None}
            files.append((path, log))
        argv = C12.argv_of(c, [p for p, _ in files])

        def opens(file, mode="r", *args, **kwargs):
            if isinstance(file, (str, os.PathLike)) and os.fspath(file) in faults and "b" in mode:
                raw = FaultyFile(file, faults[os.fspath(file)])
                return raw if (args and args[0] == 0) or kwargs.get("buffering") == 0 else io.BufferedReader(raw)
            return real(file, mode, *args, **kwargs)

        out, err, old, error = io.StringIO(), io.StringIO(), sys.argv, None
        sys.argv, builtins.open = ["atoparser", *argv], opens
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    sut.reader.main()
                except BaseException as exc:  # pylint: disable=broad-except
                    error = exc
        finally:
            sys.argv, builtins.open = old, real
        status = error is not None and not (isinstance(error, SystemExit) and not error.code)
        hit = [i for i, (path, _) in enumerate(files) if path in faults and faults[path]["raised"] is not None]
        where = f"{[a.replace(tmp, '') for a in argv]}, files failing while they are read: {hit}"
        if hit and not status:
            sut.fail(f"{where}: the command ended with status 0")
        if status and not hit:
            sut.fail(f"{where}: the command ended with {sut.Raised(error)}")
        docs = C12.documents(out.getvalue(), where)
        rest = [x for i, x in enumerate(files) if i not in hit]
        before = hit[0] if hit else len(files)
        if not before <= len(docs) <= len(rest):
            sut.fail(f"{where}: {len(docs)} documents")
        for doc, (path, log) in zip(docs, rest):
            C12.verify(doc, C12.expected(log, len(log.samples), path, c), log, path, where)
        rec.label("command: " + ("a file failed" if hit else "no file failed"))
        if hit:
            rec.nontrivial_case()
    finally:
        shutil.rmtree(tmp)


def run(case, rec):
    {"source": source, "interrupt": interrupt, "command": command}[case["arm"]](case["case"], rec)


def enumerated(tier):
    for n, v in enumerate(layout.NAMES):
        cg = {"cg": [[3, 2, 0]]} if layout.VERSIONS[v].cstat else {}
        log = {"v": v, "s": [{"f": 5, "m": "seq", "nt": 2, **cg}, {"f": 6, "m": "rand", "nt": 1, **cg}]}
        calls = 2 + 2 * (5 if cg else 3)
        for at in range(calls):
            for k, read in enumerate(("explicit", "implicit", "sections")):
                for flag in (True, False):
                    for kind in ("EIO", list(KINDS)[(n * 7 + at * 3 + k * 2 + flag) % len(KINDS)]):
                        yield {"arm": "source", "case": {"log": log, "how": "memory", "read": read, "flag": flag, "at": at, "kind": kind}}
        for at in range(0, 60000, 7919):
            for how in ("gzip", "buffered"):
                for flag in (True, False):
                    yield {"arm": "source", "case": {"log": log, "how": how, "read": ("explicit", "implicit")[at % 2], "flag": flag, "at": at, "kind": ("EIO", "timeout", "odd", "stop")[(at + n) % 4]}}
        for k, kind in enumerate(("EIO", "interrupt", "odd", "value", "timeout")):
            files = [{"log": log, "gz": k % 2}, {"log": log, "gz": n % 2, "kind": kind, "at": 7919 * (k + n)}, {"log": log}]
            yield {"arm": "command", "case": {"t": True, "c": True, "files": files[k % 2 :]}}
    for kind in KINDS:
        log = {"v": layout.NAMES[len(kind) % 11], "s": [{"f": 5, "m": "seq", "nt": 2}, {"f": 6, "m": "rand", "nt": 1}]}
        for flag in (True, False):
            for at in (1, 2, 3, 4, 5):
                yield {"arm": "source", "case": {"log": log, "how": "memory", "read": "explicit", "flag": flag, "at": at, "kind": kind}}
        yield {"arm": "command", "case": {"files": [{"log": log, "kind": kind, "at": 3000}]}}
        yield {"arm": "command", "case": {"files": [{"log": log, "kind": kind, "at": 2000, "gz": 1}]}}
    small = {"v": "1.26", "s": [{"f": 5, "m": "seq", "nt": 1, "c": {}}]}
    for op in ("sections", "dicts", "rows", "read"):
        for v in ("1.26", "2.12"):
            log = {"v": v, "s": [{"f": 5, "m": "seq", "nt": 1, **({"cg": [[3, 1, 0]]} if v == "2.12" else {})}]}
            for at in range(0, 90 if op in ("sections", "read") else 60):
                yield {"arm": "interrupt", "case": {"log": log, "other": small if v == "2.12" else {"v": "2.12", "s": []}, "op": op, "flag": bool(at % 2), "at": at if op in ("sections", "read") else at * 97, "kind": ASYNC[at % len(ASYNC)], "cold": at % 10 == 3}}


few = gs.logs(tasks=st.integers(0, 3), big=False, min_samples=1, max_samples=3, repeat=False)


@st.composite
def _file(draw):
    f = {"log": draw(few), "gz": draw(st.integers(0, 1))}
    if draw(st.integers(0, 1)):
        f.update(kind=draw(st.sampled_from(list(KINDS))), at=draw(st.integers(0, 60000)))
    return f


ARMS = {
    "source": (st.fixed_dictionaries({
        "log": few, "how": st.sampled_from(["memory", "memory", "memory", "gzip", "buffered"]), "read": st.sampled_from(["explicit", "implicit", "sections"]), "flag": st.booleans(),
        "at": st.one_of(st.integers(0, 20), st.integers(0, 60000)), "kind": st.sampled_from(list(KINDS)),
    }), 250, 6000),
    "interrupt": (st.fixed_dictionaries({
        "log": few, "other": gs.logs(tasks=st.integers(0, 2), big=False, max_samples=2, repeat=False), "op": st.sampled_from(["read", "sections", "dicts", "rows"]), "flag": st.booleans(), "at": st.one_of(st.integers(0, 60), st.integers(0, 100000)),
        "kind": st.sampled_from(ASYNC), "system": st.booleans(), "cold": st.sampled_from([False] * 9 + [True]),
    }), 120, 3000),
    "command": (st.fixed_dictionaries({"files": st.lists(_file(), min_size=1, max_size=3), "t": st.booleans(), "c": st.booleans(), "p": st.booleans()}), 40, 1000),
}
