"""Hypothesis strategies for log recipes (see loggen)."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib.layout import NAMES, VERSIONS

seeds = st.integers(0, 2**32 - 1)
modes = st.sampled_from(["rand", "seq", "edge", "zero", "live"])
versions = st.sampled_from(NAMES)
cg_versions = st.sampled_from([n for n in NAMES if VERSIONS[n].cstat is not None])
levels = st.one_of(st.just([1, 1, 1, 1]), st.lists(st.integers(0, 9), min_size=4, max_size=4))
small_tasks = st.one_of(st.integers(0, 5), st.integers(0, 30))


def counts(ver: str, big: bool = True):
    """Explicit entry counts for some of the arrays, boundary values included."""
    lim = VERSIONS[ver].limits

    def one(item):
        path, _, cap = item
        opts = [st.integers(0, 3), st.sampled_from([0, 1, 2])]
        if big:
            opts.append(st.sampled_from(sorted({min(cap, 9), min(cap, 33), min(65, cap)})))
            if cap <= 256:
                opts.append(st.sampled_from([cap - 1, cap]))
        return st.tuples(st.just(path), st.one_of(opts))

    return st.lists(st.sampled_from(lim).flatmap(one), max_size=4).map(dict)


def cgroup_list(big: bool = False):
    # Names of single directories, and (rarely) the length of whole paths and beyond.
    long = st.sampled_from([4000, 4096, 9000, 33000, 66000])
    entry = st.tuples(
        st.integers(0, 15).flatmap(lambda k: long if k == 7 else st.integers(0, 255) if k & 1 else st.integers(0, 12)),
        st.one_of(st.integers(0, 3), st.integers(0, 40), st.just(0)),
        st.sampled_from([0, 0, 0, 1, 5]),
    ).map(list)
    few, many = st.lists(entry, min_size=1, max_size=5), st.lists(entry, max_size=40 if big else 6)
    return st.integers(0, 6).flatmap(lambda k: st.none() if k == 0 else st.just([]) if k == 1 else many if k == 2 else few)


record_overrides = st.fixed_dictionaries(
    {},
    optional={
        "curtime": st.sampled_from([0, 1, 2**31 - 1, 2**31, 2**40, -1]),
        "interval": st.sampled_from([0, 1, 60, 2**32 - 1]),
        "flags": st.integers(0, 0xFFFF),
        "nexit": st.sampled_from([0, 1, 7, 2**32 - 1]),
        "ntask": st.sampled_from([0, 1, 2]),
        "nactproc": st.sampled_from([0, 1, 3]),
        "npresent": st.sampled_from([0, 1, 3]),
        "totproc": st.sampled_from([0, 1, 3]),
        "noverflow": st.sampled_from([0, 1]),
    },
)


@st.composite
def samples(draw, ver: str, tasks=small_tasks, big: bool = True, cgroups=None, mode=modes):
    s = {"f": draw(seeds), "m": draw(mode), "nt": draw(tasks)}
    if VERSIONS[ver].cstat is not None:
        s["cg"] = draw(cgroups if cgroups is not None else cgroup_list())
    c = draw(counts(ver, big))
    if c:
        s["c"] = c
    if s["nt"] > 1 and draw(st.integers(0, 9)) == 5:
        s["twin"] = True
    lv = draw(levels)
    if lv != [1, 1, 1, 1]:
        s["l"] = lv
    r = draw(record_overrides)
    if r:
        s["r"] = r
    return s


@st.composite
def logs(draw, version=versions, min_samples=0, max_samples=4, tasks=small_tasks, big: bool = True, cgroups=None, mode=modes, repeat=True):
    ver = draw(version)
    ss = draw(st.lists(samples(ver, tasks, big, cgroups, mode), min_size=min_samples, max_size=max_samples))
    log = {"v": ver, "hs": draw(seeds), "hm": draw(mode), "s": ss}
    if draw(st.integers(0, 3)) == 0:
        log["word"] = VERSIONS[ver].word & 0x7FFF
    if repeat and ss and draw(st.integers(0, 3)) == 0:
        log["o"] = draw(st.lists(st.integers(0, len(ss) - 1), min_size=min_samples, max_size=3 * max_samples))
    return log
