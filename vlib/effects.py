"""What code under test does to the world around it: audit events and the settings of the process."""

from __future__ import annotations

import atexit
import builtins
import codecs
import collections
import contextlib
import ctypes
import decimal
import gc
import gzip
import io
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import struct
import sys
import sysconfig
import threading
import time
import warnings
import zlib

from vlib import sut

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGES = (
    "os.remove os.rename os.mkdir os.rmdir os.chmod os.chown os.link os.symlink os.truncate os.utime os.setxattr os.removexattr os.chflags os.lockf fcntl.fcntl "
    "fcntl.flock fcntl.lockf os.chdir os.fchdir os.chroot os.putenv os.unsetenv os.system os.exec os.fork os.forkpty os.posix_spawn os.spawn os.startfile os.kill "
    "os.killpg os.mkfifo os.mknod pty.spawn subprocess.Popen resource.setrlimit signal.pthread_kill setopencodehook sys.addaudithook syslog.syslog syslog.openlog"
).split()
CHANGING = ("socket.", "shutil.", "tempfile.", "ftplib.", "http.", "smtplib.", "urllib.", "sqlite3.", "webbrowser.", "poplib.", "imaplib.", "telnetlib.")
LIBRARY = tuple(os.path.realpath(p) + os.sep for p in {sysconfig.get_path("stdlib"), sysconfig.get_path("purelib"), sys.prefix, sys.base_prefix + "/lib", "/usr/share", sut.REPO})

MODULES = (builtins, codecs, collections, ctypes, gzip, io, json, os, struct, sys, zlib)
_watch: list | None = None
_threads: set = set()
_hooked = False


def _hook(event, args):
    if _watch is None or threading.get_ident() in _threads:
        return
    if event == "open":
        path, _, flags = args
        if isinstance(path, int):
            return
        path = os.path.abspath(os.fsdecode(path))
        if isinstance(flags, int) and flags & WRITE:
            _watch.append(("open for writing", path))
        else:
            _watch.append(("open", path))
    elif event in CHANGES or event.startswith(CHANGING):
        _watch.append((event, sut.short(args, 80)))
    elif event == "_thread.start_new_thread":
        _watch.append(("start of a thread", ""))


@contextlib.contextmanager
def watched(allowed=(), where=""):
    """Fail when the block does anything but read the allowed files (and the modules of libraries)."""
    global _watch, _threads, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    events = []
    _watch, _threads = events, {t.ident for t in threading.enumerate()} - {threading.get_ident()}  # those that the harness started before
    try:
        yield
    finally:
        _watch = None
    judge(events, allowed, where)


def judge(events, allowed, where):
    """Fail for every event that is more than reading the allowed files and the modules of libraries."""
    ok = {os.path.realpath(p) for p in allowed} | {os.path.abspath(p) for p in allowed}
    for event, what in events:
        if event == "open" and (what in ok or os.path.realpath(what).startswith(LIBRARY) or what == os.devnull):
            continue
        if event == "start of a thread":
            continue  # judged by the threads that are left over
        sut.fail(f"{where}: does more than reading: {event} {what}")


class Settings:
    """The settings of the process that a library has no business changing."""

    @staticmethod
    def now():
        handlers = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGHUP, signal.SIGCHLD, signal.SIGUSR1)}
        ctx = decimal.getcontext()
        return {
            "working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "signal handlers": handlers,
            "alarm": signal.getitimer(signal.ITIMER_REAL)[0] > 0, "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            "warning filters": list(warnings.filters), "warnings shown by": warnings.showwarning, "random state": hash(random.getstate()),
            "decimal context": (ctx.prec, ctx.rounding, dict(ctx.traps)), "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "digits of integers": sys.get_int_max_str_digits(),
            "module search path": list(sys.path), "import hooks": (len(sys.meta_path), len(sys.path_hooks)), "exception hook": (sys.excepthook, threading.excepthook, sys.unraisablehook),
            "threads": {t for t in threading.enumerate()}, "log handlers": (list(logging.root.handlers), logging.root.level, logging.root.manager.disable),
            "resource limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE)),
            "priority": os.getpriority(os.PRIO_PROCESS, 0), "default buffer size": io.DEFAULT_BUFFER_SIZE, "umask": _umask(), "time zone": (time.tzname, time.timezone),
            "handlers at exit": atexit._ncallbacks(), "tracing": (sys.gettrace(), sys.getprofile()), "collector callbacks": (len(gc.callbacks), gc.get_freeze_count()),
            "socket timeout": socket.getdefaulttimeout(), "hooks": (sys.displayhook, sys.unraisablehook, sys.breakpointhook, sys.get_asyncgen_hooks()),
            "byte code": sys.dont_write_bytecode, "functions of Python": {m.__name__: {k: id(v) for k, v in vars(m).items() if callable(v)} for m in MODULES},
        }

    def __init__(self):
        self.before = self.now()

    def check(self, when):
        now = self.now()
        for k, v in self.before.items():
            if k == "threads" and now[k] <= v:  # those of the harness may end
                continue
            if now[k] != v:
                sut.fail(f"{when}: changed the process: {k} was {sut.short(v, 100)}, is {sut.short(now[k], 100)}")


class Streams:
    """The standard streams while they are replaced by the harness."""

    def __init__(self):
        self.before = sys.stdin, sys.stdout, sys.stderr

    def check(self, where):
        if any(x is not y for x, y in zip(self.before, (sys.stdin, sys.stdout, sys.stderr))):
            sut.fail(f"{where}: replaced a standard stream")


def _umask():
    with open("/proc/self/status", encoding="ascii", errors="replace") as f:
        for line in f:
            if line.startswith("Umask:"):
                return line
    return None


@contextlib.contextmanager
def descriptors_silent(where):
    """Fail when something is written to the descriptors of standard output and standard error."""
    for f in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__):
        f.flush()
    saved, caught = [os.dup(1), os.dup(2)], [os.memfd_create("out"), os.memfd_create("err")]
    os.dup2(caught[0], 1)
    os.dup2(caught[1], 2)
    try:
        yield
    finally:
        for f in (sys.__stdout__, sys.__stderr__):
            f.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        written = [os.pread(fd, 200, 0) for fd in caught]
        for fd in saved + caught:
            os.close(fd)
    for name, text in zip(("standard output", "standard error"), written):
        if text:
            sut.fail(f"{where}: wrote to the descriptor of {name}: {sut.short(text)}")


@contextlib.contextmanager
def silent(where):
    """Fail when something is printed."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old
    for name, f in (("standard output", out), ("standard error", err)):
        if f.getvalue():
            sut.fail(f"{where}: printed to {name}: {sut.short(f.getvalue())}")
