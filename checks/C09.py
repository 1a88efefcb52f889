"""The version word selects version and layout."""
import ctypes
import io

from hypothesis import strategies as st

from vlib import compare
from vlib import loggen
from vlib import strategies as gs
from vlib import sut
from vlib.layout import LATEST
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C09"
LEVEL = "exploration"
RULE = (
    "Enumerated: all 65536 version words, each with the declared lengths of the latest layout and a two-sample log in that layout (with "
    "cgroups); supported words also with a log in their own layout. Generated: (word, layout of any version, log contents). "
    "The version properties are read in different orders and on headers obtained in different ways. Each (word, log) pair is one "
    "non-trivial case; each is one evaluation."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures"]
EXHAUSTIVE = "all 65536 version words x lengths of the latest layout"
ORDERS = (("semantic_version", "major_version", "minor_version"), ("major_version", "minor_version", "semantic_version"), ("minor_version", "semantic_version", "major_version"))
_cache = {}


def body(v, seed=31):
    if (v, seed) not in _cache:
        cg = {"cg": [[3, 2, 0], [9, 1, 0]]} if VERSIONS[v].cstat else {}
        log = loggen.build({"v": v, "hs": seed, "hm": "seq", "s": [{"f": seed, "m": "zero", "nt": 2, **cg}, {"f": seed + 9, "m": "zero", "nt": 1, **cg}]})
        _cache[v, seed] = log
    return _cache[v, seed]


def props(h, word, where):
    major, minor = (word >> 8) & 0x7F, word & 0xFF
    want = {"semantic_version": f"{major}.{minor}", "major_version": major, "minor_version": minor}
    for k in ORDERS[word % 3]:
        got = sut.attr(h, k, where)
        if got != want[k] or type(got) is not type(want[k]):
            sut.fail(f"{where}.{k} is {got!r}, not {want[k]!r}")


def one(word, log, rec):
    """A log in some layout whose version word is replaced."""
    name = f"{(word >> 8) & 0x7F}.{word & 0xFF}"
    data = bytearray(log.data)
    data[4:6] = word.to_bytes(2, "little")
    where = f"version word {word:#06x} ({name}) with lengths of {log.ver.name}"
    src = io.BytesIO(bytes(data))
    h = sut.call(sut.atoparser.get_header, src, check_compatibility=False)
    if isinstance(h, sut.Raised):
        sut.fail(f"{where}: without the compatibility check: {h}")
    props(h, word, where)
    src = io.BytesIO(bytes(data))
    h = sut.call(sut.atoparser.get_header, src)
    lens = lambda v: (v.header.size, v.record.size, v.sstat.size, v.tstat.size)  # noqa: E731
    target = VERSIONS.get(name) or VERSIONS[LATEST]
    fits = lens(target) == lens(log.ver) and (target.cstat is None or (log.ver.cstat is not None and log.ver.cstat.size == target.cstat.size))
    if isinstance(h, sut.Raised):
        if not issubclass(h.type, ValueError):
            sut.fail(f"{where}: {h}, only ValueError may be raised")
        if name in VERSIONS and fits:
            sut.fail(f"{where}: {h}, but the version is supported and its lengths match")
        rec.label("rejected")
        return
    if not fits:
        sut.fail(f"{where}: accepted with lengths of another layout")
    props(h, word, where)
    rec.label("decoded as itself" if name in VERSIONS else "decoded as latest")
    if (target.cstat is None) != (log.ver.cstat is None):
        return
    full = (word & 0xFF) % 16 == 5 or name in VERSIONS
    h2 = h

    def check(i, item):
        if i >= len(log.samples):
            sut.fail(f"{where}: more samples than stored")
        compare.quick_same(item, log.samples[i], f"{where}: sample[{i}]")
        if full:
            s = log.samples[i]
            r, x, t, cg = item
            compare.struct(r, target.record, s.record, where + ".record")
            compare.struct(x, target.sstat, s.sstat, where + ".sstat")
            for j, task in enumerate(t):
                compare.struct(task, target.tstat, s.tasks_raw, where + f".task[{j}]", j * target.tstat.size)

    d = sut.drain(src, h2, on_sample=check)
    if d.error is not None or len(d.samples) != len(log.samples):
        sut.fail(f"{where}: {d}, {len(log.samples)} samples are stored")


def run(case, rec):
    c = case["case"]
    if case["arm"] == "block":
        for word in range(c, c + 64):
            one(word, body(LATEST), rec)
            rec.nontrivial_case(word)
        rec.evaluations += 63
        return
    if case["arm"] == "direct":
        return direct(c, rec)
    one(c["word"], body(c["own"]) if "own" in c else loggen.build(c["log"]), rec)
    rec.nontrivial_case()


def direct(word, rec):
    """Headers that did not come out of get_header."""
    for v in NAMES:
        cls = type(sut.must("get_header", sut.atoparser.get_header, io.BytesIO(body(v).data)))
        a = cls()
        a.aversion = word
        props(a, word, f"Header() of {v}")
        raw = bytearray(ctypes.sizeof(cls))
        raw[4:6] = word.to_bytes(2, "little")
        props(cls.from_buffer_copy(raw), word, f"Header.from_buffer_copy of {v}")
        props(cls.from_buffer(raw), word, f"Header.from_buffer of {v}")
    rec.nontrivial_case(["direct", word])


def enumerated(tier):
    for b in range(0, 65536, 64):
        yield {"arm": "block", "case": b}
    for v in NAMES:
        for o in NAMES:
            for flag in (0, 0x8000):
                yield {"arm": "words", "case": {"word": VERSIONS[v].word & 0x7FFF | flag, "own": o}}
    for word in (*range(0, 65536, 257), *(VERSIONS[v].word for v in NAMES)):
        yield {"arm": "direct", "case": word}


word = st.one_of(st.integers(0, 65535), st.sampled_from([VERSIONS[o].word for o in NAMES]), st.tuples(st.sampled_from([1, 2, 3]), st.integers(0, 30), st.booleans()).map(lambda t: t[0] << 8 | t[1] | (0x8000 if t[2] else 0)))
ARMS = {
    "words": (st.fixed_dictionaries({"word": word, "log": gs.logs(tasks=st.integers(0, 2), big=False, max_samples=2, repeat=False)}), 200, 4000),
    "direct": (st.integers(0, 65535), 20, 300),
}
