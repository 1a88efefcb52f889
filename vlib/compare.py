"""Comparison of decoded objects with the reference contents."""

from __future__ import annotations

from vlib import layout
from vlib.sut import attr
from vlib.sut import fail
from vlib.sut import short


def same(a, b) -> bool:
    """Equality that also tells True from 1 and keeps the sign of zero apart."""
    if isinstance(b, float):
        return isinstance(a, float) and (a == b and str(a) == str(b))
    return type(a) is type(b) and a == b


def struct(obj, st: layout.StructType, raw: bytes, where: str, base: int = 0, every: bool = False, skip=()) -> int:
    """Compare every named (non-placeholder) field of a decoded structure with the reference; returns the number compared.

    Arrays of structures: all valid entries up to 40, the one behind them, some in between, and the last slot; all when `every`.
    """
    n = 0
    for f in st.fields:
        if f.placeholder or f.name in skip:
            continue
        v = attr(obj, f.name, where)
        if f.is_struct:
            if f.count is None:
                n += struct(v, f.type, raw, f"{where}.{f.name}", base + f.offset, every)
                continue
            try:
                cap = len(v)
            except TypeError:
                fail(f"{where}.{f.name} is not an array: {short(v)}")
            if cap != f.count:
                fail(f"{where}.{f.name} has capacity {cap}, atop stores {f.count}")
            if every:
                which = range(f.count)
            else:
                valid = min(max(layout.read_leaf(st.by_name[f.limit], raw, base), 0), f.count) if f.limit else f.count
                which = sorted({i for i in (*range(min(valid + 2, 40)), valid // 2, valid - 1, valid, f.count // 2, f.count - 1) if 0 <= i < f.count})
            for i in which:
                n += struct(v[i], f.type, raw, f"{where}.{f.name}[{i}]", base + f.offset + i * f.type.size, every)
        else:
            want = layout.read_leaf(f, raw, base)
            if f.count is not None and not f.is_text:
                v = list(v)
            if not same(v, want):
                fail(f"{where}.{f.name} is {short(v)}, atop stored {short(want)}")
            n += 1
    return n


def cgroups(got, want, st, where: str) -> int:
    try:
        k = len(got)
    except TypeError:
        fail(f"{where}: cgroups are not a sequence: {short(got)}")
    if k != len(want):
        fail(f"{where}: {k} cgroups, the record declares {len(want)}")
    n = 0
    for i, (g, (raw, pids)) in enumerate(zip(got, want)):
        w = f"{where}.cgroup[{i}]"
        n += struct(attr(g, "cstat", w), st, raw, w + ".cstat", skip=("cgname",))
        mine = list(attr(g, "proclist", w))
        if mine != pids:
            fail(f"{w}.proclist is {short(mine)}, atop stored {short(pids)}")
    return n


def sample(item, want, where: str, every: bool = False, parts=("record", "sstat", "tstat", "cgroup")) -> int:
    """Compare a yielded sample with the stored one (a loggen.Sample)."""
    record, sstat, tstats, cgs = item
    ver = want.ver
    n = 0
    if "record" in parts:
        n += struct(record, ver.record, want.record, where + ".record")
    if "sstat" in parts:
        n += struct(sstat, ver.sstat, want.sstat, where + ".sstat", every=every)
    if "tstat" in parts:
        try:
            k = len(tstats)
        except TypeError:
            fail(f"{where}: tasks are not a sequence: {short(tstats)}")
        if k != want.ntasks:
            fail(f"{where}: {k} tasks, the record declares {want.ntasks}")
        for i, t in enumerate(tstats):
            n += struct(t, ver.tstat, want.tasks_raw, f"{where}.task[{i}]", i * ver.tstat.size)
    if "cgroup" in parts:
        n += cgroups(cgs, want.cgroups, ver.cstat, where)
    return n


def quick_same(item, want, where: str) -> None:
    """Cheaper identity check for properties about which samples come out: raw contents, counts and PIDs."""
    record, sstat, tstats, cgs = item
    for what, obj, raw in (("record", record, want.record), ("sstat", sstat, want.sstat)):
        if bytes(obj) != raw:
            fail(f"{where}.{what} differs from what atop stored")
    if len(tstats) != want.ntasks or b"".join(bytes(t) for t in tstats) != want.tasks_raw:
        fail(f"{where}: tasks differ from what atop stored ({len(tstats)} of {want.ntasks})")
    cgroups(cgs, want.cgroups, want.ver.cstat, where)
