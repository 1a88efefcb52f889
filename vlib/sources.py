"""The kinds of byte sources a log can be read from."""

from __future__ import annotations

import contextlib
import gzip
import io
import os
import tempfile
import threading
import zlib

STREAMS = ("pipe", "gzip-pipe")  # cannot seek
KINDS = ("bytesio", "file", "fileio", "gzip", "gzip-multi", "buffered-tiny", "gzip-mem")


def scratch() -> str:
    """A directory for temporary files: the runner's, or a fresh one (removed at exit) in a replay."""
    global _SCRATCH
    d = os.environ.get("VERIF_SCRATCH")
    if d and os.path.isdir(d):
        return d
    if _SCRATCH is None:
        _SCRATCH = tempfile.TemporaryDirectory(prefix="verif-scratch-")
    return _SCRATCH.name


_SCRATCH = None


@contextlib.contextmanager
def temp(data: bytes, suffix: str = ".log"):
    fd, path = tempfile.mkstemp(suffix=suffix, dir=scratch())
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        yield path
    finally:
        os.unlink(path)


def gz(data: bytes, level: int = 1, members: int = 1) -> bytes:
    """Gzip bytes without a time stamp; several members when asked (what `cat a.gz b.gz` gives)."""
    if members <= 1:
        return gzip.compress(data, level, mtime=0)
    step = max(1, (len(data) + members - 1) // members)
    return b"".join(gzip.compress(data[i : i + step], level, mtime=0) for i in range(0, len(data), step)) or gzip.compress(b"", level, mtime=0)


def gz_styled(data: bytes, level: int, style: str) -> bytes:
    """One gzip member as other programs write it: with the optional header fields, or padded with zeros (as from tapes)."""
    name, extra, comment, crc = (style in (x, "all") for x in ("name", "extra", "comment", "crc"))
    head = b"\x1f\x8b\x08" + bytes([crc << 1 | extra << 2 | name << 3 | comment << 4]) + (1704067200).to_bytes(4, "little") + b"\x02\x03"
    if extra:
        head += b"\x06\0" + b"AP\x02\0\x1f\x8b"
    head += (b"atop_20240101\0" if name else b"") + (b"daily log\0" if comment else b"")
    if crc:
        head += (zlib.crc32(head) & 0xFFFF).to_bytes(2, "little")
    d = zlib.compressobj(level, zlib.DEFLATED, -15)
    body = d.compress(data) + d.flush()
    return head + body + zlib.crc32(data).to_bytes(4, "little") + (len(data) & 0xFFFFFFFF).to_bytes(4, "little") + (bytes(512) if style == "padded" else b"")


GZ_STYLES = ("name", "extra", "comment", "crc", "all", "padded")


@contextlib.contextmanager
def opened(data: bytes, kind: str):
    """A readable binary file of that kind that holds the given bytes."""
    if kind == "bytesio":
        yield io.BytesIO(data)
    elif kind == "gzip-mem":
        with gzip.GzipFile(fileobj=io.BytesIO(gz(data)), mode="rb") as f:
            yield f
    elif kind == "buffered-tiny":
        with io.BufferedReader(io.BytesIO(data), buffer_size=7) as f:
            yield f
    elif kind == "file":
        with temp(data) as p, open(p, "rb") as f:
            yield f
    elif kind == "fileio":
        with temp(data) as p, open(p, "rb", buffering=0) as f:
            yield f
    elif kind == "gzip":
        with temp(gz(data), ".log.gz") as p, gzip.open(p, "rb") as f:
            yield f
    elif kind == "gzip-multi":
        with temp(gz(data, members=3), ".log.gz") as p, gzip.open(p, "rb") as f:
            yield f
    elif kind == "pipe":
        with piped(data) as f:
            yield f
    elif kind == "gzip-pipe":
        with piped(gz(data)) as p, gzip.open(p) as f:
            yield f
    else:
        raise KeyError(kind)


@contextlib.contextmanager
def piped(data: bytes):
    """The reading end of a pipe into which the data is written."""
    r, w = os.pipe()

    def write():
        with contextlib.suppress(BrokenPipeError), os.fdopen(w, "wb", buffering=0) as f:
            view = memoryview(data)
            while view:
                view = view[f.write(view[:5000]) :]

    t = threading.Thread(target=write, daemon=True)
    t.start()
    try:
        with os.fdopen(r, "rb") as f:
            yield f
    finally:
        t.join(60)


def inflated(prefix: bytes) -> tuple[int, bool]:
    """How many bytes a gzip file (of any number of members) that is cut off here still contains, and whether it ends with a member."""
    n = 0
    while prefix:
        d = zlib.decompressobj(wbits=31)
        n += len(d.decompress(prefix))
        if not d.eof:
            return n, False
        prefix = d.unused_data
    return n, True
