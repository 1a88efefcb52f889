"""Independence of readers and results (stateful)."""
import contextlib
import copy
import ctypes
import hashlib
import importlib
import io
import json
import os
import sys
import threading

from hypothesis import strategies as st

from checks.C10 import diff
from vlib import compare
from vlib import layout
from vlib import loggen
from vlib import parseable
from vlib import strategies as gs
from vlib import sut

ID = "C13"
LEVEL = "exploration"
RULE = (
    "Arm 'ops': a case is a pool of 2-4 logs (same and different versions; some cut off, some with rejected headers) and a drawn sequence of up to 40 operations: open "
    "a reader, advance any reader by a sample, by a single section or to its end, convert, produce parseable rows, modify a returned object or "
    "dictionary, read a rejected log, print a log with the command, let another reader advance in the middle of a reader's next file operations "
    "(the points where threads or coroutines would switch). A model knows what each reader and each retained object must hold; "
    "everything retained is compared after every modification and at the end. Non-trivial: at least two readers advanced alternately, or an object "
    "modified while others are retained; distinct by recipe. Arm 'threads': several logs, each read and converted repeatedly by a thread of its own, "
    "with thread switches forced often; always non-trivial. Arm 'switched': two or three threads, each with a log of its own, of which one "
    "runs at a time; the recipe says after how many lines or byte code instructions of atoparser the turn passes on. Non-trivial: the turn "
    "passed on more often than there are threads. Arm 'history': two to ten uses of the library with all of its options (headers with and without check, implicit or kept, "
    "truncation mode, limits, abandoned, the command) on variants of one or two logs, each compared with the same use in a copy of the library that has just been imported. "
    "Non-trivial: two or more uses."
)
ASSUMPTIONS = ["each open file and each returned object is used by one thread at a time", "declared lengths and counts of a header or record in use are not modified by the caller"]


class Held:
    """A retained object and what it must hold."""

    def __init__(self, what, obj, raw=None, value=None):
        self.what, self.obj, self.raw, self.value = what, obj, raw, value

    def check(self, when):
        if self.raw is not None:
            if bytes(self.obj) != self.raw:
                sut.fail(f"{when}: {self.what} changed")
        elif self.obj != self.value:
            sut.fail(f"{when}: {self.what} changed: {sut.short(self.obj)}, was {sut.short(self.value)}")


class Source(io.BytesIO):
    """A log during whose file operations something else can happen."""

    during = None

    def _run(self):
        todo = self.during
        if todo is not None:
            self.during = None
            try:
                todo()
            finally:
                self.during = todo

    def read(self, *a):
        self._run()
        out = super().read(*a)
        self._run()
        return out

    def readinto(self, b):
        self._run()
        out = super().readinto(b)
        self._run()
        return out


class Reader:
    def __init__(self, log, k, damaged, name):
        self.log, self.k, self.damaged, self.name = log, k, damaged, name
        self.src = self.header = self.gen = self.pending = None
        self.i = 0


class World:
    def __init__(self, c):
        self.logs = []
        for x in c["logs"]:
            log = loggen.build(x["log"])
            data = log.data
            if x.get("cut") is not None:
                data = data[: len(log.header) + (len(data) - len(log.header)) * x["cut"] // 16]
            kind = x.get("bad")
            if kind:
                b = bytearray(data)
                if kind == 1:
                    b[0] ^= 1
                elif kind == 2:
                    layout.put(log.ver.header, b, "sstatlen", 17)
                else:
                    b = b[:479]
                data = bytes(b)
            self.logs.append((log, data, kind))
        self.readers, self.held, self.dicts, self.advanced = [], [], [], []
        self.modified = self.nests = False

    def hold(self, what, obj, raw):
        if len(self.held) < 60:
            self.held.append(Held(what, obj, raw))

    def open(self, n, implicit=False):
        log, data, kind = self.logs[n % len(self.logs)]
        src = Source(data)
        if implicit:  # the generator is to read the header
            r = Reader(log, log.complete_before(len(data)), len(data) not in log.starts, f"reader {len(self.readers)} of log {n % len(self.logs)}")
            r.src = src
            if kind:
                self.rejected(sut.atoparser.generate_statistics(src), kind)
            else:
                self.readers.append(r)
            return
        h = sut.call(sut.atoparser.get_header, src)
        if kind:
            if not isinstance(h, sut.Raised) or not issubclass(h.type, ValueError):
                sut.fail(f"a bad header of kind {kind} was not rejected: {h!r}")
            return
        if isinstance(h, sut.Raised):
            sut.fail(f"get_header of log {n % len(self.logs)}: {h}")
        if h.semantic_version != log.ver.name or h.major_version != log.ver.major or h.minor_version != log.ver.minor:
            sut.fail(f"a header of {log.ver.name} says {h.semantic_version}")
        compare.struct(h, log.ver.header, log.header, "header")
        r = Reader(log, log.complete_before(len(data)), len(data) not in log.starts, f"reader {len(self.readers)} of log {n % len(self.logs)}")
        r.src, r.header, r.rheader = src, h, bytearray(log.header)
        self.readers.append(r)
        self.hold(f"header of {r.name}", h, log.header)
        r.hheld = self.held[-1] if self.held and self.held[-1].obj is h else None

    def rejected(self, gen, kind):
        got = sut.call(next, gen, None)
        if not isinstance(got, sut.Raised) or not issubclass(got.type, ValueError):
            sut.fail(f"a bad header of kind {kind} was not rejected by the sample generator: {sut.short(got)}")

    def joined(self, m, n):
        """Two logs, one behind the other in one file, each read by a generator that reads the header itself."""
        (a, _, ka), (b, bdata, kb) = self.logs[m % len(self.logs)], self.logs[n % len(self.logs)]
        if ka:
            return
        src = Source(a.data + bdata)
        where = f"log {m % len(self.logs)} followed by log {n % len(self.logs)} in one file"
        for second, log, k in ((False, a, len(a.samples)), (True, b, b.complete_before(len(bdata)))):
            if second and kb:
                self.rejected(sut.atoparser.generate_statistics(src), kb)
                return
            d = sut.drain(src, raise_on_truncation=False) if second else sut.drain(src, max_samples=k)
            if d.error is not None or len(d.samples) != k:
                sut.fail(f"{where}: {d}, expected {k} samples")
            for i, item in enumerate(d.samples):
                compare.quick_same(item, log.samples[i], f"{where}: sample[{i}]")
            if not second and src.tell() != len(a.data):
                sut.fail(f"{where}: at {src.tell()} after the first log of {len(a.data)} bytes")

    def reader(self, n):
        return self.readers[n % len(self.readers)] if self.readers else None

    def keep_sample(self, r, item, i):
        s = r.log.samples[i]
        compare.quick_same(item, s, f"{r.name}: sample[{i}]")
        record, sstat, tasks, cgs = item
        self.hold(f"record {i} of {r.name}", record, s.record)
        self.hold(f"sstat {i} of {r.name}", sstat, s.sstat)
        for j, t in enumerate(tasks):
            self.hold(f"task {j} of sample {i} of {r.name}", t, s.task(j))
        for j, g in enumerate(cgs):
            self.hold(f"cgroup {j} of sample {i} of {r.name}", g.cstat, s.cgroups[j][0])
            self.hold(f"processes of cgroup {j} of sample {i} of {r.name}", g.proclist, b"".join(p.to_bytes(4, "little", signed=True) for p in s.cgroups[j][1]))
        r.last = (item, i)

    def step(self, r):
        """Next sample through the generator."""
        if r is None or r.pending:
            return
        if r.gen is None:
            if r.header is None:
                if r.src.tell():
                    return
                r.gen = sut.atoparser.generate_statistics(r.src, raise_on_truncation=False)
            else:
                r.gen = sut.atoparser.generate_statistics(r.src, r.header, raise_on_truncation=False)
        item = sut.call(next, r.gen, None)
        if isinstance(item, sut.Raised):
            sut.fail(f"{r.name}: {item}")
        if r.i >= r.k:
            if item is not None:
                sut.fail(f"{r.name}: a sample behind the last complete one")
            r.gen = None if not r.damaged else r.gen
            return
        if item is None:
            sut.fail(f"{r.name} ended after {r.i} of {r.k} samples")
        self.advanced.append(id(r))
        self.keep_sample(r, item, r.i)
        r.i += 1

    def section(self, r):
        """Next section through the single readers."""
        if r is None or r.i >= r.k:
            return
        a, s = sut.atoparser, r.log.samples[r.i]
        p = r.pending
        if r.header is None:  # with the header of another reading of the same log
            f = io.BytesIO(r.log.data)
            r.header, r.rheader = sut.must(f"get_header for {r.name}", a.get_header, f), bytearray(r.log.header)
            self.hold(f"header of {r.name}", r.header, r.log.header)
            if not r.src.tell():
                r.src.seek(len(r.log.header))
        if r.gen is not None:
            r.gen.close()
            r.gen = None
        self.advanced.append(id(r))
        where = f"{r.name}: sample {r.i}"
        if not p:
            rec = sut.must(where, a.get_record, r.src, r.header)
            if bytes(rec) != s.record:
                sut.fail(f"{where}: record differs")
            r.pending = [rec]
        elif len(p) == 1:
            p.append(sut.must(where, a.get_sstat, r.src, r.header, p[0]))
            if bytes(p[1]) != s.sstat:
                sut.fail(f"{where}: sstat differs")
        elif len(p) == 2:
            p.append(sut.must(where, a.get_tstat, r.src, r.header, p[0]))
        if len(r.pending) == 3:
            cg = sut.must(where, a.get_cstat, r.src, r.header, r.pending[0]) if r.log.ver.cstat else []
            item = (*r.pending, cg)
            r.pending = None
            self.keep_sample(r, item, r.i)
            r.i += 1

    def nested(self, a, b):
        """While one reader advances, others do so in the middle of each of its file operations."""
        outer, inner = self.reader(a), self.reader(b)
        if outer is None or inner is outer:
            return
        trouble = []

        def during():
            try:
                (self.step if b % 3 else self.section)(inner)
                if not b % 4:
                    self.open(b // 4)
            except sut.Violation as v:  # not to be swallowed by the code that reads
                trouble.append(v)

        outer.src.during = during
        try:
            (self.step if a % 2 or outer.pending else self.section)(outer)
            if outer.pending:
                self.section(outer)
        finally:
            outer.src.during = None
        if trouble:
            raise trouble[0]
        self.nests = True

    def convert(self, n):
        if not self.held:
            return
        held = self.held[n % len(self.held)]
        if not isinstance(held.obj, ctypes.Structure):
            return
        d = sut.must(f"struct_to_dict of {held.what}", sut.atoparser.struct_to_dict, held.obj)
        st_ = self.type_of(held)
        if st_ is not None:
            diff(d, layout.to_dict(st_, held.raw), f"dictionary of {held.what}")
        if len(self.dicts) < 12:
            self.dicts.append(Held(f"dictionary of {held.what}", d, None, copy.deepcopy(d)))

    def type_of(self, held):
        w, name = held.what, held.what.rsplit("log ", 1)[-1]
        ver = self.logs[int(name)][0].ver
        return {"header": ver.header, "record": ver.record, "sstat": ver.sstat, "task": ver.tstat, "cgroup": ver.cstat}.get(w.split()[0])

    def modify(self, n, value):
        """The caller changes one retained object; nothing else may change."""
        if not self.held:
            return
        held = self.held[n % len(self.held)]
        kind, raw = held.what.split()[0], bytearray(held.raw)
        if kind == "processes":
            if not len(held.obj):
                return
            held.obj[0] = value
            raw[0:4] = value.to_bytes(4, "little")
        else:
            st_ = self.type_of(held)
            path = {"header": ("hertz", "pagesize", "utsname.nodename"), "record": ("interval", "curtime"), "sstat": ("cpu.csw", "mem.freemem", "cpu.nrcpu"),
                    "task": ("gen.pid", "gen.name", "mem.vmem"), "cgroup": ("cpu.utime", "gen.nprocs", "gen.structlen")}[kind][value % (2 if kind == "record" else 3)]
            obj = held.obj
            parts = path.split(".")
            for p in parts[:-1]:
                obj = getattr(obj, p)
            off, f = st_.locate(path)
            v = b"changed%d" % (value % 10) if f.is_text else value % 100
            setattr(obj, parts[-1], v)
            if f.is_text:  # ctypes writes the text and one NUL, and leaves the rest
                raw[off : off + len(v) + 1] = v + b"\0"
            else:
                layout.put(st_, raw, path, v)
            if kind == "header":
                for r in self.readers:
                    if r.header is held.obj:
                        r.rheader = raw
        held.raw = bytes(raw)
        self.modified = self.modified or len(self.held) > 1
        self.check(f"after {held.what} was modified by its owner")

    def modify_containers(self, n):
        """The caller changes the lists and dictionaries it was given."""
        r = self.reader(n)
        if r is not None and getattr(r, "last", None):
            item, _ = r.last
            for part in item[2:]:
                if isinstance(part, list):
                    part.clear()
                    part.append("changed")
            r.last = None
        if self.dicts:
            d = self.dicts.pop(n % len(self.dicts))
            spoil(d.obj)
        self.modified = True
        self.check("after a list or dictionary was modified by its owner")

    def rows(self, r):
        if r is None or r.header is None or r.log.ver.name != "1.26" or not getattr(r, "last", None):
            return
        (record, sstat, tasks, _), i = r.last
        by = {id(h.obj): h for h in self.held}
        if not all(id(x) in by for x in (record, sstat, *tasks)):
            return
        s = r.log.samples[i]
        now = copy.copy(s)
        now.record, now.sstat, now.tasks_raw = by[id(record)].raw, by[id(sstat)].raw, b"".join(by[id(t)].raw for t in tasks)
        for name in ("CPU", "DSK", "PRG", "PRM", "MEM"):
            got = sut.must("parse_" + name, lambda name=name: list(getattr(sut.parsers, "parse_" + name)(r.header, record, sstat, tasks)))
            want = parseable.rows(name, bytes(r.rheader), now)
            where = f"{r.name}: parse_{name}"
            if len(got) != len(want):
                sut.fail(f"{where}: {len(got)} rows, expected {len(want)}")
            for g, x in zip(got, want):  # the order of the columns is not promised
                if set(g) != set(x):
                    sut.fail(f"{where}: a row has columns {sorted(g)}, expected {sorted(x)}")
                diff({k: g[k] for k in x}, x, where)

    def command(self, n, flags):
        from vlib import sources

        log, data, kind = self.logs[n % len(self.logs)]
        if kind:
            return
        with sources.temp(data) as path:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                sut.must("parse_file", sut.reader.parse_file, path, None, False, show_tstats=bool(flags & 1), show_cstats=bool(flags & 2))
        docs = json.loads(out.getvalue())
        k = log.complete_before(len(data))
        if len(docs) != k:
            sut.fail(f"the command prints {len(docs)} of {k} samples")
        for doc, s in zip(docs, log.samples):
            diff(doc["header"], layout.to_dict(log.ver.header, log.header), "command: header")
            diff(doc["record"], layout.to_dict(log.ver.record, s.record), "command: record")

    def check_apart(self, when):
        """No two retained objects are made of the same memory."""
        spans = sorted((ctypes.addressof(h.obj), ctypes.sizeof(h.obj), h.what) for h in self.held if h.raw and isinstance(h.obj, (ctypes.Structure, ctypes.Array)))
        for (a, n, x), (b, _, y) in zip(spans, spans[1:]):
            if b < a + n:
                sut.fail(f"{when}: {x} and {y} share memory, so changing one changes the other")

    def check(self, when):
        self.check_apart(when)
        for h in self.held:
            h.check(when)
        for d in self.dicts:
            d.check(when)


def spoil(d):
    for v in d.values():
        if isinstance(v, dict):
            spoil(v)
        elif isinstance(v, list):
            for e in v:
                if isinstance(e, dict):
                    spoil(e)
            v.append("changed")
    d["changed"] = True


def visit(log, name, system=False):
    """Read a log, convert what it holds, and compare everything with its stored contents."""
    src = io.BytesIO(log.data)
    h = sut.must(f"{name}: get_header", sut.atoparser.get_header, src)
    if h.semantic_version != log.ver.name:
        sut.fail(f"{name}: a header of {log.ver.name} says {h.semantic_version}")
    diff(sut.must(name, sut.atoparser.struct_to_dict, h), layout.to_dict(log.ver.header, log.header), f"{name}: header dictionary")
    d = sut.drain(src, h)
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"{name}: {d} for {len(log.samples)} samples")
    for i, (item, s) in enumerate(zip(d.samples, log.samples)):
        compare.quick_same(item, s, f"{name}: sample[{i}]")
        diff(sut.must(name, sut.atoparser.struct_to_dict, item[0]), layout.to_dict(log.ver.record, s.record), f"{name}: record dictionary")
        if system:
            diff(sut.must(name, sut.atoparser.struct_to_dict, item[1]), layout.to_dict(log.ver.sstat, s.sstat), f"{name}: system dictionary")
        for j, t in enumerate(item[2][:2]):
            diff(sut.must(name, sut.atoparser.struct_to_dict, t), layout.to_dict(log.ver.tstat, s.task(j)), f"{name}: task dictionary")
        for g, (raw, pids) in list(zip(item[3], s.cgroups))[:2]:
            diff(sut.must(name, sut.atoparser.struct_to_dict, g), {"cstat": layout.to_dict(log.ver.cstat, raw), "proclist": pids}, f"{name}: cgroup dictionary")
        if log.ver.name == "1.26":
            for p in ("CPL", "NETU", "PRG", "PRM"):
                got = sut.must(name, lambda p=p: list(getattr(sut.parsers, "parse_" + p)(h, *item[:3])))
                if got != parseable.rows(p, log.header, s):
                    sut.fail(f"{name}: rows of {p} differ")


def threads(c, rec):
    """Every thread reads its own log again and again; what it gets must not depend on the others."""
    logs = [loggen.build(x) for x in c["logs"]]
    trouble, gate = [], threading.Barrier(len(logs))

    def work(log, name):
        try:
            gate.wait(60)
            for _ in range(c["rounds"]):
                visit(log, name)
                if trouble:
                    return
        except BaseException as exc:  # pylint: disable=broad-except
            trouble.append(exc)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        pool = [threading.Thread(target=work, args=(log, f"thread {k} (version {log.ver.name})")) for k, log in enumerate(logs)]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if trouble:
        raise trouble[0]
    rec.label("threads")
    rec.nontrivial_case()


class Baton:
    """Lets one of several threads run at a time and passes on after a given number of steps of the code under test."""

    PATIENCE = 1.5  # without a step for so long, the thread in turn waits for one of the others (a lock): let all run

    def __init__(self, n, quotas):
        self.cv = threading.Condition()
        self.quotas, self.alive = quotas, list(range(n))
        self.turn, self.i, self.left, self.steps, self.passes, self.free = 0, 0, quotas[0], 0, 0, False

    def step(self, k):
        if self.free:
            return
        self.steps += 1
        self.left -= 1
        if self.left <= 0:
            with self.cv:
                self._pass(k)
                self._wait(k)

    def _pass(self, k):
        self.i += 1
        self.left = self.quotas[self.i % len(self.quotas)]
        nxt = [x for x in self.alive if x > k] + [x for x in self.alive if x < k] or [k]
        self.turn = nxt[0]
        self.passes += nxt[0] != k
        self.cv.notify_all()

    def _wait(self, k):
        while self.turn != k and not self.free:
            before = self.steps
            if not self.cv.wait(self.PATIENCE) and self.steps == before and self.turn != k:
                self.free = True
                self.cv.notify_all()

    def begin(self, k):
        with self.cv:
            self._wait(k)

    def end(self, k):
        with self.cv:
            self.alive.remove(k)
            if self.alive:
                self._pass(k)


@contextlib.contextmanager
def fresh(wanted):
    """A copy of the library as it is right after its import: whatever it sets up on first use is yet to come."""
    if not wanted:
        yield
        return
    kept = {m: sys.modules.pop(m) for m in list(sys.modules) if m.split(".")[0] == "atoparser"}
    old = sut.atoparser, sut.parsers
    try:
        sut.atoparser = importlib.import_module("atoparser")
        sut.parsers = importlib.import_module("atoparser.parsers.atop_1_26")
        yield
    finally:
        sut.atoparser, sut.parsers = old
        for m in [m for m in sys.modules if m.split(".")[0] == "atoparser"]:
            del sys.modules[m]
        sys.modules.update(kept)


def switched(c, rec):
    """Threads with logs of their own, switched after every so many lines (or byte code instructions) of atoparser."""
    with fresh(c["cold"]):
        _switch(c, rec)


def _switch(c, rec):
    logs = [loggen.build(x) for x in c["logs"]]
    if not c["cold"]:
        for log in logs:
            visit(log, f"before the threads (version {log.ver.name})")
    baton, trouble = Baton(len(logs), c["q"]), {}
    here = os.path.dirname(os.path.abspath(sut.atoparser.__file__)) + os.sep
    mark = "opcode" if c["fine"] else "line"

    def work(k, log):
        def local(frame, event, arg):
            if event == mark:
                baton.step(k)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(here):
                return None
            if c["fine"]:
                frame.f_trace_opcodes = True
            return local

        baton.begin(k)
        sys.settrace(trace)
        try:
            visit(log, f"thread {k} (version {log.ver.name})", True)
        except BaseException as exc:  # pylint: disable=broad-except
            trouble[k] = exc
        finally:
            sys.settrace(None)
            baton.end(k)

    pool = [threading.Thread(target=work, args=(k, log), daemon=True) for k, log in enumerate(logs)]
    for t in pool:
        t.start()
    for t in pool:
        t.join()
    if trouble:
        raise trouble[min(trouble)]
    rec.add("thread switches", baton.passes)
    rec.label("switched threads", *(["library just imported"] if c["cold"] else []), *(["blocked: schedule given up"] if baton.free else []))
    if baton.passes > len(logs):
        rec.nontrivial_case()


def variant(x):
    """The bytes of a log of the pool: cut off, with a changed header, both, or as stored."""
    log = loggen.build(x["log"])
    data = bytearray(log.data)
    if x.get("cut") is not None:
        del data[len(log.header) + (len(data) - len(log.header)) * x["cut"] // 16 :]
    kind = x.get("bad")
    if kind == 1:
        data[0] ^= 1
    elif kind == 3:
        del data[479:]
    elif kind == 4:
        data[4:6] = (0x8000 | 2 << 8 | 77).to_bytes(2, "little")
    elif kind:
        name = ("sstatlen", "rawreclen", log.ver.tlen_field, "rawheadlen")[kind % 4]
        layout.put(log.ver.header, data, name, layout.get(log.ver.header, data, name) + 8)
    return bytes(data)


def perform(u, data, kept):
    """Everything that one use of the library shows."""
    from vlib import sources

    a, how, digest = sut.atoparser, u["how"], hashlib.sha256()
    if how == "command":
        out = io.StringIO()
        with sources.temp(data) as path, contextlib.redirect_stdout(out):
            got = sut.call(sut.reader.parse_file, path, ["CPU", "PRG"] if u["max"] == 1 else None, u["max"] == 0, show_tstats=u["raise"] != 1, show_cstats=u["check"] != 1)
        return {"printed": out.getvalue().replace(path, "PATH"), "ended": got.type.__name__ if isinstance(got, sut.Raised) else None}
    src, h, seen = io.BytesIO(data), None, {}
    check = {"check_compatibility": bool(u["check"] - 1)} if u["check"] else {}
    if how == "kept":  # a header that was read before, for this very log
        h, check = kept.get(u["n"]), {"check_compatibility": False}
        if h is not None:
            src.seek(480)
    if how != "implicit":
        h = h if h is not None else sut.call(a.get_header, src, **check)
        if isinstance(h, sut.Raised):
            return {"header": h.type.__name__, "at": src.tell()}
        kept[u["n"]] = h
        seen["version"] = (h.semantic_version, h.major_version, h.minor_version)
        seen["header"] = json.dumps(a.struct_to_dict(h))
        again = sut.call(h.check_compatibility)
        seen["compatible"] = again.type.__name__ if isinstance(again, sut.Raised) else None
    kw = {"raise_on_truncation": bool(u["raise"] - 1)} if u["raise"] else {}
    if u["max"] is not None:
        kw["max_samples"] = u["max"]
    gen = a.generate_statistics(src, h, **kw)
    n, seen["end"] = 0, "end"
    while n < (1 if how == "abandoned" else 99):
        item = sut.call(next, gen, None)
        if item is None or isinstance(item, sut.Raised):
            seen["end"] = item.type.__name__ if item else "end"
            break
        n += 1
        record, sstat, tasks, cgroups = item
        for x in (record, sstat, *tasks, *(y for g in cgroups for y in (g.cstat, g.proclist))):
            digest.update(bytes(x) + b"|")
        for x in (record, *tasks[:2], *cgroups[:2]):
            digest.update(repr(a.struct_to_dict(x)).encode("utf-8", "surrogatepass"))
    gen.close()
    return {**seen, "samples": n, "contents": digest.hexdigest(), "at": src.tell()}


def history(c, rec):
    """A sequence of uses with all options: each must show what it shows when it is the first after the import."""
    datas = [variant(x) for x in c["logs"]]
    uses = [{**u, "n": u["n"] % len(datas)} for u in c["uses"]]
    alone = {}
    for u in uses:
        key = json.dumps(u, sort_keys=True)
        if key not in alone:
            with fresh(True):
                alone[key] = perform(u, datas[u["n"]], {})
    with fresh(True):
        kept = {}
        for k, u in enumerate(uses):
            got, want = perform(u, datas[u["n"]], kept), alone[json.dumps(u, sort_keys=True)]
            if got != want:
                keys = [x for x in {**want, **got} if got.get(x) != want.get(x)]
                sut.fail(
                    f"use {k} of {len(uses)} ({u}): " + ", ".join(f"{x} is {sut.short(got.get(x), 60)}, but {sut.short(want.get(x), 60)} right after the import" for x in keys)
                )
            rec.label("use " + u["how"], "outcome " + str(got.get("end", got.get("ended", "rejected"))))
    rec.add("uses", len(uses))
    rec.label("history")
    if len(alone) > 1 or len(uses) > len(alone):
        rec.nontrivial_case()


def run(case, rec):
    c = case["case"]
    if case["arm"] == "history":
        history(c, rec)
        return
    if case["arm"] == "threads":
        threads(c, rec)
        return
    if case["arm"] == "switched":
        switched(c, rec)
        return
    w = World(c)
    for op, a, b in c["ops"]:
        if op == "open":
            w.open(a, b % 4 == 3)
        elif op == "joined":
            w.joined(a, b)
        elif op == "step":
            w.step(w.reader(a))
        elif op == "section":
            w.section(w.reader(a))
        elif op == "convert":
            w.convert(b)
        elif op == "modify":
            w.modify(b, a)
        elif op == "containers":
            w.modify_containers(a)
        elif op == "rows":
            w.rows(w.reader(a))
        elif op == "command":
            w.command(a, b)
        elif op == "nested":
            w.nested(a, b)
        elif op == "drain":
            r = w.reader(a)
            while r is not None and not r.pending and r.i < r.k:
                w.step(r)
        rec.label("op " + op)
    for r in w.readers:  # finish every reader
        while r.pending:
            w.section(r)
        while r.i < r.k:
            w.step(r)
        w.step(r)
    w.check("at the end")
    alternations = sum(1 for x, y in zip(w.advanced, w.advanced[1:]) if x != y)
    rec.add("operations", len(c["ops"]))
    rec.add("objects retained", len(w.held))
    rec.label("readers " + ("0-1" if len(w.readers) < 2 else "2+"), *(["alternating reads"] if alternations > 1 else []), *(["modified while others retained"] if w.modified else []), *(["nested reads"] if w.nests else []))
    if alternations > 1 or w.modified:
        rec.nontrivial_case()


@st.composite
def _pool(draw):
    n = draw(st.integers(2, 4))
    out = []
    same = draw(st.booleans())
    v0 = draw(gs.versions)
    for i in range(n):
        ver = st.just(v0) if same and i else gs.versions if i else st.just(v0)
        x = {"log": draw(gs.logs(version=ver, tasks=st.integers(0, 3), big=False, min_samples=1, max_samples=4))}
        k = draw(st.integers(0, 9))
        if k == 0 and i:
            x["bad"] = draw(st.integers(1, 3))
        elif k == 1:
            x["cut"] = draw(st.integers(0, 16))
        out.append(x)
    return out


@st.composite
def _switched(draw):
    """Small logs of one or more versions, equal ones included, and the lengths of the threads' turns."""
    v = draw(gs.versions)
    logs = [draw(gs.logs(version=st.just(v), tasks=st.integers(0, 2), big=False, min_samples=1, max_samples=2))]
    for _ in range(draw(st.integers(1, 2))):
        logs.append(draw(gs.logs(version=draw(st.sampled_from([st.just(v), gs.versions])), tasks=st.integers(0, 2), big=False, min_samples=1, max_samples=2)))
    turn = draw(st.sampled_from([st.integers(1, 4), st.integers(1, 40), st.integers(1, 600)]))
    return {"logs": logs, "q": draw(st.lists(turn, min_size=1, max_size=8)), "fine": draw(st.booleans()), "cold": draw(st.booleans())}


@st.composite
def _history(draw):
    """Variants of one or two logs, and uses of them with all options."""
    v = draw(gs.versions)
    bases = [draw(gs.logs(version=w, tasks=st.integers(0, 2), big=False, min_samples=1, max_samples=3)) for w in (st.just(v), draw(st.sampled_from([st.just(v), gs.versions])))]
    logs = []
    for _ in range(draw(st.integers(1, 4))):
        x = {"log": bases[draw(st.integers(0, 1))]}
        k = draw(st.integers(0, 5))
        if k <= 1:
            x["bad"] = draw(st.integers(1, 8))
        if k in (1, 2):
            x["cut"] = draw(st.integers(0, 16))
        logs.append(x)
    use = st.fixed_dictionaries({
        "n": st.integers(0, len(logs) - 1), "check": st.sampled_from([0, 0, 1, 2]), "raise": st.sampled_from([0, 1, 1, 2]), "max": st.sampled_from([None, None, 0, 1, 2, 5, 86400]),
        "how": st.sampled_from(["explicit", "explicit", "implicit", "kept", "abandoned", "command"]),
    })
    return {"logs": logs, "uses": draw(st.lists(use, min_size=2, max_size=10))}


op = st.tuples(
    st.sampled_from(["open", "joined", "step", "step", "step", "section", "section", "section", "convert", "convert", "modify", "modify", "containers", "rows", "command", "drain", "nested", "nested"]),
    st.integers(0, 9), st.integers(0, 99),
).map(list)


def enumerated(tier):
    """Logs of one version, of several, and of very different sizes, in parallel."""
    def sample(v, k, nt):
        return {"f": 10 * k + nt, "m": ("rand", "seq")[k & 1], "nt": nt, **({"cg": [[3, 2, 0], [9, k, 0]] if k % 3 else None} if layout.VERSIONS[v].cstat else {})}

    names = layout.NAMES
    for v in names:  # equal contents: equal tasks and cgroups, repeated samples, equal logs
        cg = {"cg": [[3, 2, 0], [3, 2, 0], [0, 0, 0]]} if layout.VERSIONS[v].cstat else {}
        twins = {"v": v, "s": [{"f": 1, "m": "zero", "nt": 3, "twin": True, **cg}, {"f": 1, "m": "zero", "nt": 3, "twin": True, **cg}], "o": [0, 0, 1, 1]}
        ops = [["open", 0, 0], ["open", 1, 0], ["open", 0, 3]]
        ops += [["step", 0, 0], ["step", 1, 0], ["section", 1, 0], ["section", 1, 0], ["section", 1, 0], ["step", 2, 0], ["step", 0, 0], ["step", 2, 0], ["convert", 0, 1], ["convert", 0, 2], ["convert", 0, 2]]
        ops += [["modify", a, b] for a, b in ((5, 4), (6, 5), (3, 8), (4, 11), (7, 1), (3, 2))] + [["containers", 0, 0], ["containers", 1, 0], ["drain", 0, 0]]
        yield {"arm": "ops", "case": {"logs": [{"log": twins}, {"log": twins}], "ops": ops}}
    for k, v in enumerate(names):  # every option between two ordinary uses of the same and of changed logs
        log = {"v": v, "s": [sample(v, 1, 1), sample(v, 2, 2)]}
        logs = [{"log": log}, {"log": log, "bad": 5 + k % 3}, {"log": log, "cut": 15}, {"log": log, "bad": 4}]
        plain = [{"n": n, "check": 0, "raise": 0, "max": None, "how": how} for n in range(4) for how in ("explicit", "implicit")] + [{"n": 2, "check": 0, "raise": r, "max": None, "how": "kept"} for r in (1, 0)]
        odd = [{"check": 1}, {"check": 2}, {"raise": 1}, {"raise": 2}, {"max": 0}, {"max": 1}, {"how": "abandoned"}, {"how": "command"}, {"how": "kept", "raise": 1}]
        for change in odd:
            yield {"arm": "history", "case": {"logs": logs, "uses": [{"n": n, "check": 0, "raise": 0, "max": None, "how": "explicit", **change} for n in range(4)] + plain}}
    for k, v in enumerate(names):
        w, x = names[(k + 1) % len(names)], names[(k + 5) % len(names)]
        yield {"arm": "threads", "case": {"rounds": 6 if tier == "quick" else 60, "logs": [
            {"v": v, "hs": k, "s": [sample(v, 1, 3), sample(v, 2, 40)]}, {"v": v, "hs": k + 1, "s": [sample(v, 3, 1), sample(v, 4, 0)]},
            {"v": w, "hs": k + 2, "s": [sample(w, 5, 2), sample(w, 6, 90)]}, {"v": x, "hs": k + 3, "s": [sample(x, 7, 5)]}]}}


ARMS = {
    "ops": (st.fixed_dictionaries({
    "logs": _pool(),
    "ops": st.one_of(st.lists(op, max_size=12), st.lists(op, min_size=12, max_size=40)).map(lambda ops: [["open", 0, 0], ["open", 1, 0], ["step", 0, 0], ["section", 1, 0], *ops]),
}), 220, 5000),
    "history": (_history(), 150, 4000),
    "switched": (_switched(), 24, 700),
}
