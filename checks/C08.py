"""Which byte strings are accepted as headers."""
import io

from hypothesis import strategies as st

from vlib import compare
from vlib import layout
from vlib import loggen
from vlib import sources
from vlib import strategies as gs
from vlib import sut
from vlib.layout import LATEST
from vlib.layout import NAMES
from vlib.layout import VERSIONS

ID = "C08"
LEVEL = "exploration"
RULE = (
    "A case is a byte string presented as the start of a log: a valid header of some version with drawn changes to declared lengths, magic, "
    "version word or other fields, cut to a drawn length or followed by other bytes, or arbitrary bytes; read with and without the "
    "compatibility check. Non-trivial: the string starts with atop's magic number (so that something beyond it decides), or it "
    "differs from it in at most two bytes; distinct by recipe. Enumerated: every prefix length 0-480 of every version, every declared length off by "
    "one and more, all lengths of every other version, every single bit of the magic and other well-known numbers."
)
ASSUMPTIONS = ["spec/layout.txt describes atop's structures"]
LENS = ("rawheadlen", "rawreclen", "sstatlen", "tlen", "cstatlen")


# Numbers that someone may take for atop's: other byte orders, halves, complement, other signatures, numbers with all of its bits.
MAGICS = (0xEFBEEDFE, 0xBEEFFEED, 0xEDFEEFBE, 0xFEED0000, 0x0000BEEF, ~loggen.MAGIC & 0xFFFFFFFF, 0, 0xFFFFFFFF, -loggen.MAGIC & 0xFFFFFFFF, 0xFEEDFACE, 0xDEADBEEF, 0x00088B1F, 0xFEEDBEEE, 0xFEEDBEF0)


def size(ver, k):
    return {"rawheadlen": ver.header, "rawreclen": ver.record, "sstatlen": ver.sstat, "tlen": ver.tstat, "cstatlen": ver.cstat}[k].size


def checked(ver):
    return [k for k in LENS if k != "cstatlen" or ver.cstat is not None]


def build(c):
    if "raw" in c:
        return bytes.fromhex(c["raw"])
    ver = VERSIONS[c["v"]]
    over = {}
    for k, v in (c.get("set") or {}).items():
        over[ver.tlen_field if k == "tlen" else k] = v
    types = {k: ver.header.by_name[k].type for k in over if k in ver.header.by_name}
    over = {k: (over[k] - t.lo) % (1 << 8 * t.size) + t.lo for k, t in types.items()}  # wrapped to the field's range
    h = bytearray(loggen.header_bytes(ver, c.get("hs", 0), c.get("hm", "rand"), c.get("word"), over))
    for pos, x in c.get("xor", []):
        h[pos % len(h)] ^= x
    if c.get("cut") is not None:
        h = h[: c["cut"]]
    return bytes(h) + bytes.fromhex(c.get("tail", ""))


def verdicts(data, ver_of_word):
    """(allowed with the check, allowed without, version whose layout applies); True accept, False reject, None either."""
    if len(data) < 480 or int.from_bytes(data[:4], "little") != loggen.MAGIC:
        return False, False, None
    known = ver_of_word in VERSIONS
    ver = VERSIONS[ver_of_word if known else LATEST]
    ok = all(layout.get(ver.header, data, ver.tlen_field if k == "tlen" else k) == size(ver, k) for k in checked(ver))
    return (ok if known else (None if ok else False)), True, ver


def run(case, rec):
    c = case["case"]
    data = build(c)
    word = int.from_bytes(data[4:6], "little") if len(data) >= 6 else 0
    name = f"{(word >> 8) & 0x7F}.{word & 0xFF}"
    strict, loose, ver = verdicts(data, name)
    kind = c.get("src", "bytesio")
    for check in (None, True, False):
        kw = {} if check is None else {"check_compatibility": check}
        want = loose if check is False else strict
        where = f"get_header({len(data)} bytes, version {name}, {kw})"
        with sources.opened(data, kind) as f:
            args = kw.values() if word & 1 else ()  # by position
            got = sut.call(sut.atoparser.get_header, f, *args, **({} if args else kw))
            if isinstance(got, sut.Raised):
                if not issubclass(got.type, ValueError):
                    sut.fail(f"{where}: {got}, only ValueError may be raised")
                if want is True:
                    sut.fail(f"{where}: rejected ({got}), but the header is complete and its lengths match")
                continue
            if want is False:
                sut.fail(f"{where}: accepted")
            compare.struct(got, ver.header, data[:480], where)
            again = sut.call(got.check_compatibility)
            if isinstance(again, sut.Raised):
                if not issubclass(again.type, ValueError):
                    sut.fail(f"{where}.check_compatibility: {again}, only ValueError may be raised")
                if strict is True:
                    sut.fail(f"{where}.check_compatibility: {again}, but all lengths match")
            elif strict is False:
                sut.fail(f"{where}.check_compatibility accepts lengths that do not match")
    if strict is False:  # also when the header is left to the generator
        for kw in ({}, {"raise_on_truncation": True}, {"raise_on_truncation": False, "max_samples": 1 + word % 5}, {"max_samples": 86400}):
            with sources.opened(data, kind) as f:
                got = sut.call(lambda: next(sut.atoparser.generate_statistics(f, **kw), None))
            if not isinstance(got, sut.Raised) or not issubclass(got.type, ValueError):
                sut.fail(f"generate_statistics({len(data)} bytes, version {name}, {kw}) without a header: {sut.short(got)}, but the header is to be rejected with ValueError")
    rec.label("accepted" if strict else "unknown version, matching lengths" if strict is None else "rejected for its lengths or version" if loose else "rejected")
    if data[:4] == b"\xef\xbe\xed\xfe":
        rec.label("cut" if len(data) < 480 else "complete", "supported version" if name in VERSIONS else "other version")
        rec.nontrivial_case()
    elif sum(a != b for a, b in zip(data[:4].ljust(4, b"\0"), b"\xef\xbe\xed\xfe")) <= 2:
        rec.nontrivial_case()


def enumerated(tier):
    for v in NAMES:
        ver = VERSIONS[v]
        yield {"arm": "edits", "case": {"v": v}}
        for n in range(0, 481):
            yield {"arm": "edits", "case": {"v": v, "cut": n, "hm": "seq"}}
            if tier == "thorough" or n % 16 in (0, 15):
                yield {"arm": "edits", "case": {"v": v, "cut": n, "hm": "zero"}}
                yield {"arm": "edits", "case": {"v": v, "cut": n, "hm": "edge", "src": "file"}}
        for magic in MAGICS:
            yield {"arm": "edits", "case": {"v": v, "xor": [[i, a ^ b] for i, (a, b) in enumerate(zip(magic.to_bytes(4, "little"), loggen.MAGIC.to_bytes(4, "little"))) if a != b]}}
        for bit in range(32):
            yield {"arm": "edits", "case": {"v": v, "xor": [[bit // 8, 1 << bit % 8]]}}
        for k in checked(ver):
            for d in (-size(ver, k), -8, -1, 1, 8, 256, 65536 if k not in ("rawheadlen", "rawreclen") else 4096, 1 << 15):
                yield {"arm": "edits", "case": {"v": v, "set": {k: size(ver, k) + d}}}
                for k2 in checked(ver):  # compensated by another length
                    if k2 != k:
                        yield {"arm": "edits", "case": {"v": v, "set": {k: size(ver, k) + d, k2: size(ver, k2) - d}}}
        for o in NAMES:
            lens = {k: size(VERSIONS[o], k) for k in LENS if k != "cstatlen" or VERSIONS[o].cstat}
            yield {"arm": "edits", "case": {"v": v, "set": lens}}
            for flag in (0, 0x8000):
                yield {"arm": "edits", "case": {"v": o, "word": VERSIONS[v].word & 0x7FFF | flag}}
        for mj, mn in ((0, 0), (1, 25), (1, 27), (2, 0), (2, 1), (2, 2), (2, 13), (2, 255), (3, 0), (3, 3), (3, 11), (3, 12), (127, 255)):
            yield {"arm": "edits", "case": {"v": v, "word": 0x8000 | mj << 8 | mn}}


def _length(ver, k):
    n = size(ver, k)
    return st.one_of(
        st.integers(-9, 9).map(lambda d: n + d), st.integers(0, 2**16 - 1),
        st.sampled_from([size(VERSIONS[o], k) for o in NAMES if k != "cstatlen" or VERSIONS[o].cstat]), st.integers(0, 2**32 - 1),
    )


@st.composite
def _edits(draw):
    v = draw(gs.versions)
    ver = VERSIONS[v]
    c = {"v": v, "hs": draw(gs.seeds), "hm": draw(gs.modes), "src": draw(st.sampled_from(["bytesio", "bytesio", "file", "fileio", "buffered-tiny"]))}
    keys = draw(st.lists(st.sampled_from(checked(ver)), max_size=3, unique=True))
    if keys:
        c["set"] = {k: draw(_length(ver, k)) for k in keys}
    k = draw(st.integers(0, 9))
    if k <= 2:
        c["word"] = draw(st.one_of(st.sampled_from([VERSIONS[o].word for o in NAMES]), st.integers(0, 65535), st.integers(0, 1023).map(lambda x: x | 0x8000)))
    elif k == 3:
        c["xor"] = draw(st.lists(st.tuples(st.integers(0, 479), st.integers(1, 255)).map(list), min_size=1, max_size=3))
    elif k == 4:
        c["cut"] = draw(st.integers(0, 480))
    elif k == 5:
        c["tail"] = draw(st.binary(max_size=50)).hex()
    return c


ARMS = {
    "edits": (_edits(), 1500, 30000),
    "raw": (st.fixed_dictionaries({"raw": st.one_of(
        st.binary(max_size=600), st.binary(max_size=600).map(lambda b: b"\xef\xbe\xed\xfe" + b),
        st.binary(min_size=470, max_size=490).map(lambda b: b"\xef\xbe\xed\xfe" + b)).map(bytes.hex)}), 400, 6000),
}
