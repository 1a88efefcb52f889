"""No effects besides reading."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import effects
from vlib import layout
from vlib import loggen
from vlib import parseable
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import NAMES

ID = "C16"
LEVEL = "exploration"
RULE = (
    "Arm 'library': a log, intact, cut off, overwritten, with a tail or with a bad header, is read from a drawn kind of source in a drawn way (to its end, "
    "up to a limit, abandoned, by sections, with an implicit header; the header also without the compatibility check), with conversions and parseable rows. Python's audit events tell what is opened, changed, started or sent; the "
    "settings of the process, the standard streams and the objects passed in are compared after every single call and sample. Arm 'command': the same logs, and missing "
    "or empty files, through the command. Non-trivial: at least one stored sample, or a rejected header; distinct by recipe."
)
ASSUMPTIONS = ["effects are seen through Python's audit events (native code could act unseen)", "opening files of Python's own library and of atoparser (imports) does not count"]


def damaged(log, c):
    """The bytes of the log after the recipe's change, and what to call it."""
    data, (kind, a, b) = bytearray(log.data), c["change"]
    n = len(log.header)
    if kind == "cut":
        return bytes(data[: n + (len(data) - n) * a // 1000]), "cut off"
    if kind == "edit" and len(data) > n:
        data[n + a % (len(data) - n)] ^= b or 1
        return bytes(data), "overwritten"
    if kind == "tail":
        return bytes(data) + bytes([b]) * a, "with a tail"
    if kind == "header":
        data[a % n] ^= b or 1
        return bytes(data), "with a changed header"
    if kind == "short":
        return bytes(data[: a % n]), "without a complete header"
    return bytes(data), "intact"


def raw_of(obj):
    """What a structure, a cgroup or a list of them consists of."""
    if isinstance(obj, list):
        return [id(x) for x in obj]
    return bytes(obj.cstat) + bytes(obj.proclist) if hasattr(obj, "proclist") else bytes(obj)


class Watch:
    def __init__(self, where):
        self.where, self.given = where, []

    def __call__(self, what, fn, *args):
        """Call the code under test and look at everything it must leave alone."""
        where = f"{self.where}: {what}"
        settings = effects.Settings()
        with effects.silent(where), effects.watched(where=where):
            inner = effects.Streams()
            out = sut.call(fn, *args)
            inner.check(where)
        settings.check(where)
        for name, obj, raw in self.given:
            if raw_of(obj) != raw:
                sut.fail(f"{where}: altered the {name} that was passed in")
        return out

    def keep(self, name, obj):
        self.given.append((name, obj, raw_of(obj)))


def implicit(w, a, f, c):
    """The header is left to the generator."""
    gen = w("generate_statistics", lambda: a.generate_statistics(f, raise_on_truncation=c["raise"]))
    for _ in range(1 + c["take"]):
        item = w("next sample (header read implicitly)", next, gen, None)
        if item is None or isinstance(item, sut.Raised):
            break
    w("closing", gen.close)


def library(c, rec):
    log = loggen.build(c["log"])
    data, state = damaged(log, c)
    a, w = sut.atoparser, Watch(f"{state}, {c['src']}")
    with sources.opened(data, c["src"]) as f:
        for check in (False, True) if len(data) % 2 else (False,):
            other = w(f"get_header, check_compatibility={check}", lambda: a.get_header(io.BytesIO(data), check_compatibility=check))
            if not isinstance(other, sut.Raised):
                w.keep("header", other)
                for name in ("semantic_version", "major_version", "minor_version"):
                    w(name, getattr, other, name)
                w("check_compatibility", other.check_compatibility)
                w("struct_to_dict of a header that was not checked", a.struct_to_dict, other)
        w.given = []
        if c["how"] == "implicit":
            implicit(w, a, f, c)
            rec.nontrivial_case()
            return
        h = w("get_header", a.get_header, f)
        if isinstance(h, sut.Raised):
            rec.label("header rejected")
            rec.nontrivial_case()
            return
        w.keep("header", h)
        w("struct_to_dict of the header", a.struct_to_dict, h)
        got, end = 0, "limit"
        if c["how"] == "sections":
            steps = iter(lambda: sections(w, a, f, h), None)
        else:
            gen = w("generate_statistics", lambda: a.generate_statistics(f, h, c["raise"], *([c["take"]] if c["how"] == "limited" else [])))
            steps = iter(lambda: w("next sample", next, gen, None), None)
        for item in steps:
            if isinstance(item, sut.Raised):
                end = "error"
                break
            got += 1
            record, sstat, tstats, cgroups = item
            w.given = w.given[:1]
            w.keep("record", record)
            w.keep("system statistics", sstat)
            for t in tstats[:3]:
                w.keep("task", t)
            for g in cgroups[:3]:
                w.keep("cgroup", g)
            w.keep("list of tasks", tstats)
            w.keep("list of cgroups", cgroups)
            if c["use"]:
                for what, x in [("record", record), ("system statistics", sstat)] + [("task", t) for t in tstats[:2]] + [("cgroup", g) for g in cgroups[:2]]:
                    w(f"struct_to_dict of the {what}", a.struct_to_dict, x)
                if log.ver.name == "1.26":
                    for p in parseable.ALL:
                        rows = w(f"parse_{p}", getattr(sut.parsers, "parse_" + p), h, record, sstat, tstats)
                        rows = rows if isinstance(rows, sut.Raised) else w(f"rows of {p}", iter, rows)
                        for _ in range(2):  # row by row, then the rest
                            if isinstance(rows, sut.Raised) or w(f"next row of {p}", next, rows, None) is None:
                                break
                        else:
                            w(f"other rows of {p}", list, rows)
            if c["how"] == "abandoned" and got >= c["take"]:
                end = "abandoned"
                break
        else:
            end = "end"
        if c["how"] != "sections":
            w("close", gen.close)
            del gen
        w("dropping everything", lambda: None)
    rec.label("log " + state, "source " + c["src"], "use " + c["how"], "reading: " + end)
    if log.samples:
        rec.nontrivial_case()


def sections(w, a, f, h):
    r = w("get_record", a.get_record, f, h)
    if isinstance(r, sut.Raised) or not r.scomplen:
        return r if isinstance(r, sut.Raised) else None
    w.given = w.given[:1]
    w.keep("record", r)
    out = [r]
    for name in ("get_sstat", "get_tstat") + (("get_cstat",) if h.CStat is not None else ()):
        x = w(name, getattr(a, name), f, h, r)
        if isinstance(x, sut.Raised):
            return x
        out.append(x)
    return (*out, []) if len(out) == 3 else tuple(out)


def command(c, rec):
    tmp = tempfile.mkdtemp(dir=sources.scratch())
    try:
        paths, some = [], False
        for i, x in enumerate(c["files"]):
            path = os.path.join(tmp, str(i), x["name"])
            os.mkdir(os.path.dirname(path))
            if x["log"] is not None:
                log = loggen.build(x["log"])
                data, state = damaged(log, x)
                some = some or log.samples
                with open(path, "wb") as f:
                    f.write(sources.gz(data, 1, x["gz"]) if x["gz"] else data)
                rec.label("log " + state)
            elif x["gz"]:
                with open(path, "wb"):
                    pass
                rec.label("empty file")
            else:
                rec.label("missing file")
            paths.append(path)
        argv = paths + (["-p"] if c["p"] else []) + ["--tstats", "--cstats"] * c["all"] + (["-P", *c["P"]] if c["P"] else [])
        where = f"atoparser {[x.replace(tmp, '') for x in argv]}"
        if c.get("process"):
            process(tmp, paths, argv, where, rec)
            if some:
                rec.nontrivial_case()
            return
        before = {(d, n) for d, _, names in os.walk(tmp) for n in names}
        threads = effects.Settings.now()["threads"]
        out, old = io.StringIO(), sys.argv
        sys.argv = ["atoparser", *argv]
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), effects.watched(paths, where):
                try:
                    sut.reader.main()
                    end = "succeeded"
                except SystemExit:
                    end = "exited"
                except Exception:  # pylint: disable=broad-except
                    end = "failed"
        finally:
            sys.argv = old
        if {(d, n) for d, _, names in os.walk(tmp) for n in names} != before:
            sut.fail(f"{where}: files were added or removed")
        if effects.Settings.now()["threads"] - threads:
            sut.fail(f"{where}: left a thread behind")
        rec.label("command " + end)
        if some:
            rec.nontrivial_case()
    finally:
        shutil.rmtree(tmp)


def process(tmp, paths, argv, where, rec):
    """The command as a process of its own, importing atoparser under the audit hook."""
    work = os.path.join(tmp, "work")
    os.mkdir(work)
    report, stdin = os.path.join(tmp, "report"), os.path.join(tmp, "stdin")
    with open(stdin, "wb") as f:
        f.write(b"y\n" * 50)
    before = {(d, n) for d, _, names in os.walk(tmp) for n in names}
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "PYTHONHASHSEED")} | {"HOME": work, "TMPDIR": work, "XDG_CACHE_HOME": work}
    with open(stdin, "rb") as f:
        cmd = [sys.executable, os.path.join(os.path.dirname(effects.__file__), "watchdog.py"), sut.REPO, report, *argv]
        subprocess.run(cmd, stdin=f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work, env=env, check=False, timeout=300)
        if os.lseek(f.fileno(), 0, os.SEEK_CUR):
            sut.fail(f"{where}: reads its standard input")
    with open(report, encoding="utf-8") as f:
        events = json.load(f)
    effects.judge(events, paths, where + " as a process")
    if {(d, n) for d, _, names in os.walk(tmp) for n in names} != before | {(tmp, "report")}:
        sut.fail(f"{where} as a process: files were added or removed")
    rec.label("command as a process")


def run(case, rec):
    with effects.descriptors_silent(case["arm"]):
        (command if case["arm"] == "command" else library)(case["case"], rec)


def enumerated(tier):
    for k, real in enumerate(loggen.real_recipes()):
        for j, change in enumerate((["none", 0, 0], ["cut", 700, 0], ["edit", 900, 7], ["tail", 40, 255])):
            yield {"arm": "library", "case": {"log": real, "change": change, "src": sources.KINDS[(k + j) % len(sources.KINDS)], "how": ("all", "sections")[k % 2], "raise": bool(j % 2), "take": 9, "use": j == 0}}
        yield {"arm": "command", "case": {"files": [{"log": real, "change": ["none", 0, 0], "gz": k % 3, "name": "atop.log"}], "p": False, "all": k % 2, "P": ["CPU", "PRG"] if real["v"] == "1.26" else None}}
        yield {"arm": "command", "case": {"process": True, "files": [{"log": real, "change": ["none", 0, 0] if k % 2 else ["cut", 600, 0], "gz": k % 3, "name": "atop.log"}], "p": bool(k % 2), "all": 1, "P": ["MEM", "cpu"] if real["v"] == "1.26" else None}}
    for v in NAMES:
        cg = {"cg": [[3, 2, 0], [9, 0, 0]]} if layout.VERSIONS[v].cstat else {}
        log = {"v": v, "s": [{"f": i, "m": m, "nt": 2, **cg} for i, m in enumerate(("live", "rand", "edge"))]}
        for how in ("all", "limited", "abandoned", "sections", "implicit"):
            for change in (["none", 0, 0], ["cut", 900, 0], ["edit", 800, 1], ["header", 15, 1], ["short", 300, 0]):
                yield {"arm": "library", "case": {"log": log, "change": change, "src": "file", "how": how, "raise": how == "all", "take": 1, "use": how != "sections"}}
        long = {"v": v, "s": [{"f": i, "m": "zero", "nt": i, "r": {"interval": i + 1}} for i in range(3)], "o": [0, 1, 2] * 100}
        yield {"arm": "library", "case": {"log": long, "change": [["none", 0, 0], ["cut", 950, 0]][len(v) % 2], "src": "file", "how": "all", "raise": False, "take": 1, "use": False}}
        yield {"arm": "command", "case": {"files": [{"log": long, "change": ["none", 0, 0], "gz": 1, "name": "atop.log"}], "p": False, "all": 0, "P": None}}
        big = {"v": v, "s": [loggen.large(v, 5), {"f": 6, "m": "seq", "nt": 1, **cg}]}
        for k, change in enumerate((["none", 0, 0], ["cut", 900, 0])):
            yield {"arm": "library", "case": {"log": big, "change": change, "src": ("gzip", "file")[k], "how": "all", "raise": False, "take": 1, "use": False}}
            yield {"arm": "command", "case": {"files": [{"log": big, "change": change, "gz": 1 - k, "name": "atop.log"}], "p": bool(k), "all": k, "P": None}}
        yield {"arm": "command", "case": {"files": [{"log": log, "change": ["none", 0, 0], "gz": 0, "name": "a"}, {"log": None, "gz": 0, "name": "b"}], "p": True, "all": 1, "P": None}}


changes = st.one_of(
    st.just(["none", 0, 0]), st.tuples(st.just("cut"), st.integers(0, 1000), st.just(0)).map(list), st.tuples(st.just("edit"), st.integers(0, 5000), st.integers(0, 255)).map(list),
    st.tuples(st.just("tail"), st.integers(0, 300), st.integers(0, 255)).map(list), st.tuples(st.sampled_from(["header", "short"]), st.integers(0, 479), st.integers(0, 255)).map(list),
)
few = gs.logs(tasks=st.integers(0, 3), big=False, max_samples=3)
ARMS = {
    "library": (st.fixed_dictionaries({
        "log": few, "change": changes, "src": st.sampled_from(sources.KINDS), "how": st.sampled_from(["all", "all", "limited", "abandoned", "sections", "implicit"]), "raise": st.booleans(),
        "take": st.integers(1, 3), "use": st.booleans(),
    }), 120, 2500),
    "command": (st.fixed_dictionaries({
        "files": st.lists(st.fixed_dictionaries({"log": st.one_of(few, few, few, st.none()), "change": changes, "gz": st.sampled_from([0, 1, 2]), "name": st.sampled_from(["atop.log", "a.gz", "x y", "$(id)"])}), min_size=1, max_size=2),
        "p": st.booleans(), "all": st.integers(0, 1), "P": st.one_of(st.none(), st.none(), st.lists(st.sampled_from(parseable.CLI), min_size=1, max_size=3)),
    }), 60, 1200),
}
