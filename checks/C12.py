"""The command line."""
import contextlib
import functools
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from checks.C10 import diff
from vlib import layout
from vlib import loggen
from vlib import parseable
from vlib import sources
from vlib import strategies as gs
from vlib import sut

ID = "C12"
LEVEL = "exploration"
RULE = (
    "A case is one command line (1-3 files, any option combination and spelling; absolute, relative, bare or symbolic-link paths) over generated logs stored plain or gzip compressed "
    "(one or several members) under drawn names, intact or cut off, alone or beside other files of similar names. The printed documents are compared with ones computed from the stored bytes. "
    "Some cases run the command as a process (under several locales and output encodings), some call parse_file. Non-trivial: at least one file with a complete sample, or an "
    "error entry; distinct by recipe."
)
ASSUMPTIONS = ["floats are finite", "every file given starts with a complete, compatible header (unreadable files are outside the statement)", "spec/layout.txt describes atop's structures"]


def expected(log, k, path, c):
    """The document for the first k samples of a log."""
    ver, P = log.ver, c.get("P")
    if P and ver.name != "1.26":
        return None
    out = []
    for s in log.samples[:k]:
        if P:
            for name in P:
                out += [{**row, "parseable": name} for row in parseable.rows(name, log.header, s)]
            continue
        doc = {"header": layout.to_dict(ver.header, log.header), "record": layout.to_dict(ver.record, s.record), "sstat": layout.to_dict(ver.sstat, s.sstat)}
        if c.get("t"):
            doc["tstat"] = [layout.to_dict(ver.tstat, s.tasks_raw, j * ver.tstat.size) for j in range(s.ntasks)]
        if c.get("c"):
            doc["cgroup"] = [{"cstat": layout.to_dict(ver.cstat, raw), "proclist": pids} for raw, pids in s.cgroups]
        out.append(doc)
    return out


def verify(got, want, log, path, where):
    if want is None:
        if not isinstance(got, list) or len(got) != 1 or not isinstance(got[0], dict) or set(got[0]) != {"error", "file"}:
            sut.fail(f"{where}: expected a single error entry, got {sut.short(got)}")
        if got[0]["file"] != path or log.ver.name not in str(got[0]["error"]).replace(",", " ").split():
            sut.fail(f"{where}: the error entry does not name file and version: {sut.short(got[0])}")
        return
    if not isinstance(got, list):
        sut.fail(f"{where}: the document is not a list: {sut.short(got)}")
    if len(got) != len(want):
        sut.fail(f"{where}: {len(got)} entries, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        if not isinstance(g, dict) or set(g) != set(w):
            sut.fail(f"{where}: entry {i} has keys {sut.short(g if not isinstance(g, dict) else list(g))}, expected {list(w)}")
        for k in w:
            diff(g[k], w[k], f"{where}: entry {i}.{k}")


def documents(text, where):
    dec, pos, docs = json.JSONDecoder(), 0, []
    while True:
        while pos < len(text) and text[pos].isspace():
            pos += 1
        if pos == len(text):
            return docs
        try:
            doc, end = dec.raw_decode(text, pos)
        except ValueError as exc:
            sut.fail(f"{where}: the output is not JSON at {pos}: {exc}: {sut.short(text[pos:pos + 80])}")
        docs.append(doc)
        if end < len(text) and text[end] != "\n":
            sut.fail(f"{where}: something follows a document: {sut.short(text[end:end + 80])}")
        pos = end


# Names a command might mistake for the one it was given.
NEAR = (lambda n: n + ".gz", lambda n: n.removesuffix(".gz"), lambda n: n + ".1", lambda n: n.strip(), lambda n: n.lower(), lambda n: n.upper(), lambda n: "log1.log", lambda n: "log1", lambda n: n.replace("e\u0301", "\xe9"),
        lambda n: n.replace("%41", "A"), lambda n: os.path.splitext(n)[0], lambda n: "a" + n, lambda n: n.rpartition(":")[2], lambda n: n.partition("#")[0], lambda n: n.partition("\n")[0], lambda n: n + ".idx", lambda n: "." + n, lambda n: n + "~")


@functools.lru_cache(maxsize=None)
def decoy(k, name):
    if k == 2:
        return b"not a log\n"
    data = loggen.build({"v": layout.NAMES[len(name) % len(layout.NAMES)], "s": [{"f": 3000 + len(name), "m": "seq", "nt": 1}]}).data
    return sources.gz(data) if name.endswith(".gz") else data


def argv_of(c, paths):
    opts = []
    sp = c.get("spell", 0)
    if c.get("p"):
        opts.append([["-p"], ["--pretty-print"], ["--pretty"]][sp % 3])
    if c.get("t"):
        opts.append([["--tstats"], ["--tstat"]][sp % 2])
    if c.get("c"):
        opts.append([["--cstats"], ["--cstat"]][sp % 2])
    P = [[["-P"], ["--parseables"], ["--pars"]][sp // 3 % 3] + c["P"]] if c.get("P") else []
    where = c.get("where", 0) % 3
    if where == 0:
        parts = [paths, *opts, *P]
    elif where == 1:
        parts = [*opts, paths, *P]
    else:
        parts = [*P, *opts, ["--"], paths]
        if not (P or opts):
            parts = [paths]
    return [a for part in parts for a in part]


LOCALES = [{"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "latin-1"},
           {"PYTHONOPTIMIZE": "2"}, {"COLUMNS": "20", "PYTHONINTMAXSTRDIGITS": "640", "PYTHONUTF8": "1"}]


def run_main(argv, how, locale=0):
    if how == "process":
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/verif-pycache", **LOCALES[locale % len(LOCALES)])
        p = subprocess.run([sys.executable, "-m", "atoparser.reader", *argv], capture_output=True, env=env, check=False)
        if p.returncode:
            sut.fail(f"atoparser {argv}: ended with {p.returncode}: {sut.short(p.stderr.decode(errors='replace')[-300:])}")
        try:
            return p.stdout.decode("utf-8")
        except UnicodeDecodeError as exc:
            sut.fail(f"atoparser {argv} with {LOCALES[locale % len(LOCALES)]}: the output is not JSON text: {exc}")
    out, old = io.StringIO(), sys.argv
    sys.argv = ["atoparser", *argv]
    try:
        with contextlib.redirect_stdout(out):
            try:
                sut.reader.main()
            except SystemExit as exc:
                if exc.code:
                    sut.fail(f"atoparser {argv}: ended with exit status {exc.code}")
            except Exception as exc:  # pylint: disable=broad-except
                sut.fail(f"atoparser {argv}: {type(exc).__name__}: {exc}")
    finally:
        sys.argv = old
    return out.getvalue()


def long(c, rec):
    """A log of many samples: three different ones, again and again."""
    v, n = c["v"], c["n"]
    log = loggen.build({"v": v, "s": [{"f": i, "m": "zero", "nt": i, "r": {"interval": i + 1}, **({"cg": None} if layout.VERSIONS[v].cstat else {})} for i in range(3)]})
    blobs = [s.blob for s in log.samples]
    data = log.header + b"".join(blobs[i % 3] for i in range(n))
    with sources.temp(sources.gz(data) if c["gz"] else data) as path:
        argv = argv_of(c, [path])
        text = run_main(argv, "main")
        want = [expected(_Only(log, s), 1, path, c) for s in log.samples]
        docs = documents(text, f"{n} samples")
        if len(docs) != 1:
            sut.fail(f"{n} samples: {len(docs)} documents for one file")
        verify(docs[0], [e for i in range(n) for e in want[i % 3]], log, path, f"main {argv[1:]}, {n} samples of version {v}")
    rec.add("samples of long logs", n)
    rec.label("long log")
    rec.nontrivial_case()


class _Only:
    def __init__(self, log, s):
        self.ver, self.header, self.samples = log.ver, log.header, [s]


def run(case, rec):
    c = case["case"]
    if case["arm"] == "long":
        long(c, rec)
        return
    tmp = tempfile.mkdtemp(dir=sources.scratch())
    before = os.getcwd()
    try:
        files, cwd = [], sources.scratch()
        bare = next((i for i, f in enumerate(c["files"]) if f.get("via") == "bare"), None)
        for i, f in enumerate(c["files"]):
            log = loggen.build(f["log"])
            data, k = log.data, len(log.samples)
            if f.get("cut") is not None and not f.get("gzcut"):
                cut = len(log.header) + (len(data) - len(log.header)) * f["cut"] // 32 + f.get("off", 0)
                cut = min(max(cut, len(log.header)), len(data))
                data, k = data[:cut], log.complete_before(cut)
            if f["gz"]:
                data = sources.gz_styled(data, f.get("level", 1), f["style"]) if f.get("style") else sources.gz(data, f.get("level", 1), f["gz"])
                if f.get("cut") is not None and f.get("gzcut") and f.get("style") != "padded":
                    cut = len(data) * f["cut"] // 32 + f.get("off", 0)
                    part = data[: min(max(cut, 1), len(data))]
                    n, _ = sources.inflated(part)
                    if n >= len(log.header):
                        data, k = part, log.complete_before(n)
            d = os.path.join(tmp, str(i) + f.get("dir", ""))
            os.makedirs(d, exist_ok=True)
            name = f["name"]
            if c.get("locale"):  # a name outside of the locale's characters is not what is to be tested
                name = name.encode("ascii", "replace").decode().replace("?", "_")
            path = os.path.join(d, name)
            with open(path, "wb") as out:
                out.write(data)
            for near in NEAR if f.get("near") else ():  # others in the same folder are not asked for
                near = near(name)
                if near not in ("", ".", "..") and not os.path.exists(os.path.join(d, near)):
                    with open(os.path.join(d, near), "wb") as out:
                        out.write(decoy(f["near"], near))
            if f.get("via") == "symlink":
                os.symlink(path, os.path.join(tmp, f"link{i}.log.gz" if f["name"] == "atop.log" else f"link{i}"))
                path = os.path.join(tmp, f"link{i}.log.gz" if f["name"] == "atop.log" else f"link{i}")
            elif i == bare:  # the name alone, from inside of the file's folder
                path, cwd = name, d
            files.append((path, log, k))
        for i, (path, log, k) in enumerate(files):
            if c["files"][i].get("via") == "relative" or i != bare and c["files"][i].get("via") == "bare":
                files[i] = (os.path.relpath(path, cwd), log, k)
        os.chdir(cwd)
        order = [files[i % len(files)] for i in c["order"]] if c.get("order") else files
        argv = argv_of(c, [p for p, _, _ in order])
        how = c.get("how", "main")
        where = f"{how} {[a.replace(tmp, '') for a in argv]}"
        if how == "parse_file":
            for path, log, k in order:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    try:
                        if c.get("spell", 0) % 3 == 2:
                            sut.reader.parse_file(path, c.get("P"), bool(c.get("p")), bool(c.get("t")), bool(c.get("c")))
                        else:
                            sut.reader.parse_file(path, c.get("P"), **({"pretty_print": bool(c.get("p"))} if c.get("spell", 0) % 2 else {}), show_tstats=bool(c.get("t")), show_cstats=bool(c.get("c")))
                    except Exception as exc:  # pylint: disable=broad-except
                        sut.fail(f"{where}: {type(exc).__name__}: {exc}")
                docs = documents(out.getvalue(), where)
                if len(docs) != 1:
                    sut.fail(f"{where}: {len(docs)} documents")
                verify(docs[0], expected(log, k, path, c), log, path, where)
        else:
            text = run_main(argv, how, c.get("locale", 0))
            docs = documents(text, where)
            if len(docs) != len(order):
                sut.fail(f"{where}: {len(docs)} documents for {len(order)} files")
            for n, (doc, (path, log, k)) in enumerate(zip(docs, order)):
                verify(doc, expected(log, k, path, c), log, path, f"{where}: document {n}")
            if how == "main":
                flipped = dict(c, p=not c.get("p"))
                other = run_main(argv_of(flipped, [p for p, _, _ in order]), how)
                if documents(other, where) != docs:
                    sut.fail(f"{where}: -p changes more than whitespace")
                compact, pretty = (other, text) if c.get("p") else (text, other)
                if compact.count("\n") != len(order):
                    sut.fail(f"{where}: without -p, {compact.count(chr(10))} lines are printed for {len(order)} files")
                if any(docs) and pretty.count("\n") <= len(order):
                    sut.fail(f"{where}: -p does not indent")
        rec.label("how " + how, f"{len(order)} files", *(["parseables"] if c.get("P") else []), *(["tstats"] if c.get("t") else []), *(["cstats"] if c.get("c") else []), *(["pretty"] if c.get("p") else []))
        for f, (path, log, k) in zip(c["files"], files):
            rec.label("stored " + ("plain" if not f["gz"] else "gzip"), "name with .gz" if ".gz" in path.replace(tmp, "") else "name without .gz", *(["cut off"] if k < len(log.samples) else []), *(["gzip " + f["style"]] if f.get("style") else []))
        if any(k or (c.get("P") and log.ver.name != "1.26") for _, log, k in files):
            rec.nontrivial_case()
    finally:
        os.chdir(before)
        shutil.rmtree(tmp)


NAMES_ = ["atop.log", "atop.log.gz", "atop_20240101", "atop.gz.log", "x.gzip", "a.gz.1", "b.GZ", "log gz", "ätop.log", ".gz", "gz", "-dash"[1:], "atop_2_3.log.bak", "two\nlines", 'quo"te\\', "\udcff\udc8b.log", "日次",
          "log[1]*", "$HOME.log", "%41.log", "a{b,c}.log", " lead", "trail ", "@arguments", "~", "~root", "back\\slash", "a=b", "C:x.log", "#x", "e\u0301.log", "http:x", "0", "None"]


@st.composite
def _file(draw, ver=gs.versions):
    f = {"log": draw(gs.logs(version=ver, tasks=st.integers(0, 3), big=False, max_samples=3, repeat=False)), "gz": draw(st.sampled_from([0, 0, 1, 1, 3])), "name": draw(st.sampled_from(NAMES_))}
    if draw(st.integers(0, 3)) == 0:
        f["dir"] = draw(st.sampled_from([".gz", "logs.gz.d", "x"]))
    if draw(st.integers(0, 3)) == 0:
        f.update(cut=draw(st.integers(0, 32)), off=draw(st.integers(-3, 3)), gzcut=draw(st.booleans()))
    if draw(st.integers(0, 3)) == 0:
        f["via"] = draw(st.sampled_from(["symlink", "relative", "bare"]))
    if draw(st.integers(0, 3)) == 0:
        f["near"] = draw(st.integers(1, 2))
    if f["gz"]:
        f["level"] = draw(st.sampled_from([1, 6, 9, 0]))
        if f["gz"] == 1 and draw(st.booleans()):
            f["style"] = draw(st.sampled_from(sources.GZ_STYLES))
    return f


@st.composite
def _case(draw, how=st.sampled_from(["main", "main", "main", "parse_file"])):
    c = {"how": draw(how), "p": draw(st.booleans()), "t": draw(st.booleans()), "c": draw(st.booleans()), "spell": draw(st.integers(0, 8)), "where": draw(st.integers(0, 2))}
    if c["how"] == "process":
        c["locale"] = draw(st.integers(0, len(LOCALES) - 1))
    ver = gs.versions
    if draw(st.integers(0, 2)) == 0:
        c["P"] = draw(st.lists(st.sampled_from(parseable.CLI), min_size=1, max_size=5))
        ver = st.one_of(st.just("1.26"), st.just("1.26"), gs.versions)
    c["files"] = draw(st.lists(_file(ver), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        c["order"] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=4))
    return c


def enumerated(tier):
    yield {"arm": "long", "case": {"v": "1.26", "n": 40000 if tier == "quick" else 86400, "P": ["CPL"], "gz": 0}}
    yield {"arm": "long", "case": {"v": "1.26", "n": 1500, "t": True, "c": True, "gz": 1}}
    yield {"arm": "long", "case": {"v": "2.12", "n": 300, "t": True, "c": True, "p": True, "gz": 0}}
    yield {"arm": "long", "case": {"v": "2.3", "n": 2000, "gz": 0}}
    yield {"arm": "long", "case": {"v": "1.26", "n": 3000, "P": ["PRC", "CPU"], "gz": 1}}
    for k, v in enumerate(layout.NAMES):  # large sections
        log = {"v": v, "s": [loggen.large(v, 5, 40, 20), {"f": 6, "m": "seq", "nt": 1}]}
        yield {"arm": "main", "case": {"how": ("main", "process")[k % 2], "t": True, "c": True, "files": [{"log": log, "gz": k % 3, "name": "atop.log"}]}}
    many = [{"log": {"v": layout.NAMES[i % 11], "s": [{"f": i + j, "m": "zero", "nt": i % 4} for j in range((40, 1, 0, 7)[i % 4])]}, "gz": i % 2, "name": f"atop_{i}"} for i in range(24)]
    yield {"arm": "main", "case": {"how": "main", "t": True, "files": many}}
    yield {"arm": "main", "case": {"how": "process", "files": many[::-1]}}
    yield {"arm": "main", "case": {"how": "main", "P": ["CPL", "PRG"], "files": many}}
    for k, real in enumerate(loggen.real_recipes()):
        yield {"arm": "main", "case": {"how": "main", "t": True, "c": True, "files": [{"log": real, "gz": k % 2, "name": "atop.log"}]}}
        if real["v"] == "1.26":
            yield {"arm": "main", "case": {"how": "main", "P": list(parseable.CLI), "files": [{"log": real, "gz": 1, "name": "atop.log"}]}}
    for n, v in enumerate(layout.NAMES):
        cg = {"cg": [[3, 2, 0]]} if layout.VERSIONS[v].cstat else {}
        log = {"v": v, "s": [{"f": 5, "m": "seq", "nt": 2, **cg}, {"f": 6, "m": "rand", "nt": 1, **cg}]}
        for gz in (0, 1):
            for bits in range(4):
                f = {"log": log, "gz": gz, "name": "atop.log"}
                yield {"arm": "main", "case": {"how": "main", "t": bool(bits & 1), "c": bool(bits & 2), "p": bits == 3, "files": [f]}}
        for style in sources.GZ_STYLES:
            yield {"arm": "main", "case": {"how": "main", "files": [{"log": log, "gz": 1, "name": "atop.log", "style": style}]}}
        for name in NAMES_:
            yield {"arm": "main", "case": {"how": "main", "P": ["CPU"], "files": [{"log": {"v": v, "s": log["s"][:1]}, "gz": 0, "name": name, "near": n % 3, **({"via": "bare"} if n % 2 else {})}]}}
        yield {"arm": "main", "case": {"how": "main", "P": ["CPU", "cpu"], "files": [{"log": log, "gz": 0, "name": "a.gz.log"}]}}
        yield {"arm": "main", "case": {"how": "process", "t": True, "c": True, "locale": n + 1, "files": [{"log": log, "gz": 1, "name": "atop.log"}]}}
        yield {"arm": "main", "case": {"how": "main", "P": ["CPU"], "files": [{"log": {"v": v, "s": []}, "gz": 0, "name": "empty"}]}}
    log = {"v": "1.26", "s": [{"f": 5, "m": "seq", "nt": 2}, {"f": 6, "m": "rand", "nt": 1}]}
    for p in parseable.CLI:
        yield {"arm": "main", "case": {"how": "main", "P": [p], "files": [{"log": log, "gz": 0, "name": "atop.log"}]}}


ARMS = {"main": (_case(), 130, 3000), "process": (_case(st.just("process")), 6, 100)}
