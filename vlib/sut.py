"""The code under test, imported from /repo's working tree, and helpers that turn its misbehaviour into violations."""

from __future__ import annotations

import io
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import atoparser  # noqa: E402
from atoparser import reader  # noqa: E402
from atoparser.parsers import atop_1_26 as parsers  # noqa: E402

assert os.path.abspath(atoparser.__file__).startswith(os.path.abspath(REPO) + os.sep), atoparser.__file__


class Violation(Exception):
    """The property does not hold for this case."""


class Runaway(BaseException):
    """The code under test used up its budget of reads (deterministic stand-in for 'does not terminate')."""


def fail(msg: str) -> None:
    raise Violation(msg)


def short(x, n: int = 200) -> str:
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Raised:
    """An exception that the code under test raised."""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc)

    def __repr__(self):
        return f"raised {self.type.__name__}: {short(str(self.exc), 120)}"


def call(fn, *args, **kwargs):
    """Call the code under test; an Exception is returned as Raised."""
    try:
        return fn(*args, **kwargs)
    except Runaway:
        return Raised(RuntimeError("read budget exhausted: does not terminate"))
    except Exception as exc:  # pylint: disable=broad-except
        return Raised(exc)


def must(what: str, fn, *args, **kwargs):
    """Call the code under test where the property says that it cannot fail."""
    out = call(fn, *args, **kwargs)
    if isinstance(out, Raised):
        fail(f"{what}: {out}")
    return out


def attr(obj, name: str, where: str = ""):
    try:
        return getattr(obj, name)
    except Exception as exc:  # pylint: disable=broad-except
        fail(f"{where}: reading field {name!r} of {type(obj).__name__}: {type(exc).__name__}: {exc}")


class Budget(io.BytesIO):
    """In-memory log that refuses to be read for ever."""

    def __init__(self, data: bytes, reads: int = 100000):
        super().__init__(data)
        self.left = reads

    def _tick(self):
        self.left -= 1
        if self.left < 0:
            raise Runaway()

    def read(self, *a):
        self._tick()
        return super().read(*a)

    def readinto(self, b):
        self._tick()
        return super().readinto(b)


class Drained:
    """Everything a generator of samples gave: complete samples and how it ended (None or the exception)."""

    def __init__(self, samples, error):
        self.samples, self.error = samples, error

    def __repr__(self):
        end = "normal end" if self.error is None else Raised(self.error)
        return f"{len(self.samples)} samples, {end}"


def drain(source, header=None, limit: int | None = None, on_sample=None, positional=None, **kwargs) -> Drained:
    """Iterate generate_statistics to its end. Shape errors are violations, exceptions are recorded."""
    out = []
    try:
        gen = atoparser.generate_statistics(source, header, *positional) if positional else atoparser.generate_statistics(source, header, **kwargs) if header is not None else atoparser.generate_statistics(source, **kwargs)
        for item in gen:
            if not isinstance(item, tuple) or len(item) != 4:
                fail(f"a sample is not a group of four: {short(item)}")
            if on_sample is not None:
                on_sample(len(out), item)
                out.append(None)
            else:
                out.append(item)
            if limit is not None and len(out) > limit:
                fail(f"more than {limit} samples were yielded")
    except Violation:
        raise
    except Runaway:
        return Drained(out, RuntimeError("read budget exhausted: does not terminate"))
    except Exception as exc:  # pylint: disable=broad-except
        return Drained(out, exc)
    return Drained(out, None)


def drain_iter(gen) -> Drained:
    """Like drain, for a generator that already exists."""
    out = []
    try:
        for item in gen:
            out.append(item)
    except Exception as exc:  # pylint: disable=broad-except
        return Drained(out, exc)
    return Drained(out, None)
