"""The command succeeds only if every file was read, and fails visibly otherwise."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import zlib

from hypothesis import strategies as st

from checks import C12
from vlib import layout
from vlib import loggen
from vlib import parseable
from vlib import sources
from vlib import strategies as gs
from vlib import sut

ID = "C17"
LEVEL = "exploration"
RULE = (
    "A case is one command line over 1-4 files: readable logs (intact, cut off, with damaged compressed data), files that cannot be read (missing, folder, empty, "
    "short, text, wrong magic, other layout, gzip cut inside the header or not gzip behind its magic), logs whose sections do not fit, plain or gzip; wrong usage; output that cannot be written. "
    "Exit status, standard error and printed documents are compared with what each file allows. Non-trivial: at least one file that fails, wrong usage, or unwritable output, distinct by recipe."
)
ASSUMPTIONS = ["files behind a failing one may be left out or printed", "a log whose sections inflate to sizes that do not fit may fail or end there"]
BAD = ["missing", "folder", "empty", "short", "text", "magic", "layout", "gzshort", "nogzip"]


def make(path, f):
    """Write the file; what may come of it: (log, number of samples, 'good', 'either' or 'bad')."""
    kind, a, b = f["kind"], f.get("a", 0), f.get("b", 1)
    if kind == "missing":
        return None, 0, "bad"
    if kind == "folder":
        os.mkdir(path)
        return None, 0, "bad"
    log = loggen.build(f["log"])
    n = len(log.header)
    data, k, cls = bytearray(log.data), len(log.samples), "good"
    if kind == "empty":
        data, cls = bytearray(), "bad"
    elif kind == "text":
        data, cls = bytearray(b"ATOP - host  2024/01/01  10:00:00\n" * (1 + a % 60)), "bad"
    elif kind == "short":
        data, cls = data[: a % n], "bad"
    elif kind == "magic":
        data[a % 4] ^= 1 << b % 8
        cls = "bad"
    elif kind == "layout":
        name = ("sstatlen", "pstatlen" if log.ver.name == "1.26" else "tstatlen")[a % 2]
        layout.put(log.ver.header, data, name, (layout.get(log.ver.header, data, name) + (b % 40 or 1)) % 2**31)
        cls = "bad"
    elif kind == "cut":
        at = n + (len(data) - n) * (a % 1001) // 1000
        data, k = data[:at], log.complete_before(at)
    elif kind in ("damaged", "misfit") and log.samples:
        i = a % len(log.samples)
        s = log.samples[i]
        if kind == "damaged":
            parts = [p for p in s.section_bounds() if p[0] != "record" and p[2] > p[1]]
            name, lo, hi = parts[b % len(parts)]
            at = log.starts[i] + lo + (a * 31 + b) % (hi - lo)
            data[at] ^= b % 255 + 1
            try:
                zlib.decompress(bytes(data[log.starts[i] + lo : log.starts[i] + hi]))
                cls = "either"
            except zlib.error:
                k = i
        else:  # a section of another size, compressed correctly
            sec = zlib.compress(s.sstat[: len(s.sstat) - 1 - b % 200])
            lo, hi = next((p[1], p[2]) for p in s.section_bounds() if p[0] == "sstat")
            r = bytearray(s.record)
            layout.put(log.ver.record, r, "scomplen", len(sec))
            start = log.starts[i]
            data[start : start + hi] = r + bytes(data[start + len(r) : start + lo]) + sec
            k, cls = i, "either"
    data = bytes(data)
    if kind == "nogzip":
        data, cls = b"\x1f\x8b" + data[2:], "bad"
    elif kind == "gzshort":
        data, cls = sources.gz(data, 1), "bad"
        m = a % len(data)
        while m and sources.inflated(data[:m])[0] >= n:
            m //= 2
        data = data[:m]
    elif f.get("gz"):
        data = sources.gz(data, 1, f["gz"])
        if kind == "gzdamaged":
            at = len(data) - 1 - a % 8  # checksum and length behind the data; before, gzip hands out wrong data without noticing
            data = data[:at] + bytes([data[at] ^ (b % 255 + 1)]) + data[at + 1 :]
    with open(path, "wb") as out:
        out.write(data)
    return log, k, cls


def execute(argv, c):
    """Exit status (0 or not), standard output, standard error."""
    if c.get("how") != "process":
        out, err, old = io.StringIO(), io.StringIO(), sys.argv
        sys.argv, status = ["atoparser", *argv], 0
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    sut.reader.main()
                except SystemExit as exc:
                    status = exc.code & 0xFF if isinstance(exc.code, int) else int(exc.code is not None)
                    err.write(exc.code if isinstance(exc.code, str) else "")
                except Exception as exc:  # pylint: disable=broad-except
                    status = 1
                    err.write(f"{type(exc).__name__}: {exc}")
        finally:
            sys.argv = old
        return status, out.getvalue(), err.getvalue()
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/verif-pycache", **({"PYTHONOPTIMIZE": "2"} if c.get("opt") else {}))
    cmd, where = [sys.executable, "-m", "atoparser.reader", *argv], sources.scratch()
    if c.get("out") == "full":
        with open("/dev/full", "wb") as full:
            p = subprocess.run(cmd, stdout=full, stderr=subprocess.PIPE, env=env, cwd=where, check=False)
        return p.returncode, "", p.stderr.decode(errors="replace")
    if c.get("out") == "closed":
        r, w = os.pipe()
        os.close(r)
        with os.fdopen(w, "wb") as pipe:
            p = subprocess.run(cmd, stdout=pipe, stderr=subprocess.PIPE, env=env, cwd=where, check=False)
        return p.returncode, "", p.stderr.decode(errors="replace")
    p = subprocess.run(cmd, capture_output=True, env=env, cwd=where, check=False)
    return p.returncode, p.stdout.decode(errors="surrogateescape"), p.stderr.decode(errors="replace")


def explain(docs, files, failing, c, where):
    """Whether the documents are what these files allow; otherwise the reason found last."""
    why = ["?"]

    def fits(doc, log, k, path):
        want = C12.expected(log, k, path, c)
        try:
            C12.verify(doc, want, log, path, where)
            return True
        except sut.Violation as exc:
            why[0] = str(exc)
            return False

    def match(i, j, failed):
        if failed and failing and j == len(docs):
            return True
        if i == len(files):
            if j < len(docs):
                why[0] = f"{where}: {len(docs) - j} documents too many: {sut.short(docs[j])}"
            elif failed != failing:
                why[0] = f"{where}: ended with {'an error' if failing else 'status 0'} although {'every file can be read' if failing else 'a file cannot be read'}"
            return j == len(docs) and failed == failing
        path, log, k, cls = files[i]
        if cls in ("bad", "either") and match(i + 1, j, True):
            return True
        if cls == "bad":
            return False
        if j == len(docs):
            why[0] = f"{where}: no document for file {i}"
            return False
        return fits(docs[j], log, k, path) and match(i + 1, j + 1, failed)

    return match(0, 0, False), why[0]


USAGE = [[], ["-P", "CPU"], ["FILE", "-P"], ["FILE", "-P", "XYZ"], ["FILE", "-P", "CPU", "nonsense"], ["FILE", "--no-such-option"], ["FILE", "-x"], ["FILE", "-P", "cpl"], ["-P", "CPU", "FILE"], ["FILE", "--pretty-print=yes"], ["FILE", "-P", ""], ["FILE", "-P", "PRG,PRM"]]


def run(case, rec):
    c = case["case"]
    tmp = tempfile.mkdtemp(dir=sources.scratch())
    try:
        files = []
        for i, f in enumerate(c["files"]):
            path = os.path.join(tmp, str(i), f.get("name", "atop.log"))
            os.mkdir(os.path.dirname(path))
            files.append((path, *make(path, f)))
            rec.label("file " + f["kind"] + (" (gzip)" if f.get("gz") and f["kind"] not in BAD else ""))
        if c.get("usage") is not None:
            argv = [files[0][0] if a == "FILE" else a for a in USAGE[c["usage"] % len(USAGE)]]
        else:
            argv = C12.argv_of(c, [p for p, *_ in files])
        where = f"{c.get('how', 'main')} {[a.replace(tmp, '') for a in argv]}, files {[f['kind'] for f in c['files']]}"
        status, out, err = execute(argv, c)
        if status and not err.strip():
            sut.fail(f"{where}: ended with status {status} without any message")
        if c.get("usage") is not None:
            if not status or out:
                sut.fail(f"{where}: wrong usage ended with status {status} and {len(out)} characters of output")
            rec.label("wrong usage")
            rec.nontrivial_case()
            return
        if c.get("out"):
            if not status:
                sut.fail(f"{where}: ended with status 0 although its output could not be written ({c['out']})")
            rec.label("output " + c["out"])
            rec.nontrivial_case()
            return
        if status and not any(cls in ("bad", "either") for *_, cls in files):
            sut.fail(f"{where}: ended with status {status} although every file can be read: {sut.short(err[-300:])}")
        ok, why = explain(C12.documents(out, where), files, bool(status), c, where)
        if not ok:
            sut.fail(why)
        rec.label("status " + ("not 0" if status else "0"))
        if any(cls != "good" or f["kind"] in ("cut", "damaged") for f, (*_, cls) in zip(c["files"], files)):
            rec.nontrivial_case()
    finally:
        shutil.rmtree(tmp)


def enumerated(tier):
    some = {"v": "2.6", "s": [{"f": 5, "m": "seq", "nt": 2}, {"f": 6, "m": "rand", "nt": 1}]}
    ok = {"kind": "ok", "log": some, "gz": 0}
    for k, v in enumerate(layout.NAMES):
        cg = {"cg": [[3, 2, 0]]} if layout.VERSIONS[v].cstat else {}
        log = {"v": v, "s": [{"f": 5, "m": "seq", "nt": 2, **cg}, {"f": 6, "m": "rand", "nt": 1, **cg}]}
        for j, kind in enumerate([*BAD, "cut", "damaged", "misfit", "gzdamaged"]):
            f = {"kind": kind, "log": log, "gz": (j + k) % 3, "a": 997 * k + 37 * j, "b": 3 * k + j}
            yield {"arm": "main", "case": {"files": [f]}}
            yield {"arm": "main", "case": {"files": [ok, f, ok], "t": True}}
            if (j + k) % 4 == 0:
                yield {"arm": "main", "case": {"how": "process", "opt": True, "files": [ok, f]}}
    for v in ("1.26", "2.12"):
        log = {"v": v, "s": [{"f": 5, "m": "seq", "nt": 2}]}
        for n in range(0, 480, 7):
            yield {"arm": "main", "case": {"files": [{"kind": "short", "log": log, "a": n}], "P": ["CPU"] if v == "1.26" else None}}
        for a in range(4):
            for b in range(8):
                yield {"arm": "main", "case": {"files": [{"kind": "magic", "log": log, "a": a, "b": b}]}}
    for n in range(len(USAGE)):
        yield {"arm": "main", "case": {"files": [ok], "usage": n}}
        yield {"arm": "main", "case": {"how": "process", "files": [ok], "usage": n}}
    large = {"kind": "ok", "log": {"v": "2.6", "s": [{"f": i, "m": "seq", "nt": 30} for i in range(6)]}, "gz": 1}
    for out in ("full", "closed"):
        for f in (ok, large):
            yield {"arm": "main", "case": {"how": "process", "out": out, "t": True, "files": [f]}}
            yield {"arm": "main", "case": {"how": "process", "out": out, "p": True, "files": [f, f]}}
    for n in (3, 128, 256):
        yield {"arm": "main", "case": {"how": "process", "files": [{"kind": "missing"}] * n}}
        yield {"arm": "main", "case": {"files": [{"kind": BAD[(i + n) % len(BAD)], "log": some, "a": i, "b": 1} for i in range(n)]}}
    yield {"arm": "main", "case": {"files": [ok] * 40 + [{"kind": "missing"}]}}
    for k, real in enumerate(loggen.real_recipes()):
        yield {"arm": "main", "case": {"files": [{"kind": ("cut", "damaged", "misfit", "gzdamaged")[k % 4], "log": real, "gz": k % 3, "a": 1000 * k + 777, "b": k + 1}, {"kind": BAD[k % len(BAD)], "log": real, "a": 3 * k, "b": k}]}}


@st.composite
def _file(draw):
    kind = draw(st.sampled_from(draw(st.sampled_from([["ok", "cut", "damaged"]] * 4 + [["misfit", "gzdamaged"], BAD]))))
    f = {"kind": kind, "name": draw(st.sampled_from(["atop.log", "atop.log.gz", "x"])), "a": draw(st.integers(0, 5000)), "b": draw(st.integers(0, 255))}
    if kind not in ("missing", "folder"):
        f["log"] = draw(gs.logs(tasks=st.integers(0, 3), big=False, max_samples=3, repeat=False))
        f["gz"] = draw(st.sampled_from([0, 1, 2])) if kind != "gzdamaged" else 1
    return f


@st.composite
def _case(draw, how="main"):
    c = {"how": how, "p": draw(st.booleans()), "t": draw(st.booleans()), "c": draw(st.booleans()), "where": draw(st.integers(0, 2)), "spell": draw(st.integers(0, 8))}
    if draw(st.integers(0, 3)) == 0:
        c["P"] = draw(st.lists(st.sampled_from(parseable.CLI), min_size=1, max_size=3))
    c["files"] = draw(st.lists(_file(), min_size=1, max_size=4))
    if how == "process":
        c["opt"] = draw(st.booleans())
    return c


ARMS = {"main": (_case(), 150, 3000), "process": (_case("process"), 5, 80)}
