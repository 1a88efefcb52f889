"""Started as a process of its own: runs the command under an audit hook, imports of atoparser included, and reports the events.

python watchdog.py REPO REPORT ARGUMENTS...
"""
import os
import sys

repo, report = sys.argv[1:3]
sys.argv = ["atoparser", *sys.argv[3:]]
sys.dont_write_bytecode = True
sys.path[0] = repo
import argparse, ctypes, gettext, json, gzip, io, locale, threading, zlib  # noqa: E401,E402,F401  # pylint: disable=all

events = []


def hook(event, args):
    if event == "open" and not isinstance(args[0], int):
        flags = args[2] if isinstance(args[2], int) else 0
        events.append(["open for writing" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) else "open", os.path.abspath(os.fsdecode(args[0]))])
    elif event.startswith(("os.", "subprocess.", "socket.", "shutil.", "tempfile.", "fcntl.", "pty.", "resource.set", "signal.", "syslog.")) and event not in ("os.listdir", "os.scandir", "os.walk", "os.fwalk", "os.getxattr", "os.listxattr"):
        events.append([event, repr(args)[:80]])


sys.addaudithook(hook)
threads = threading.active_count()
code = 0
try:
    from atoparser import reader

    reader.main()
except SystemExit as exc:
    code = exc.code if isinstance(exc.code, int) else 1
except BaseException:  # pylint: disable=broad-except
    import traceback

    traceback.print_exc()
    code = 1
seen = list(events)
if threading.active_count() > threads:
    seen.append(["thread left over", ""])
with open(report, "w") as f:
    json.dump(seen, f)
sys.stdout.flush()
os._exit(code)
