#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAYOUT = "Trusts spec/layout.txt (atop's C layouts, frozen; cross-checked with gcc and with lengths in real logs) and Python's ctypes/zlib. "
NOTES = {
    "C01": ("property-based testing: generated headers/records vs. independent reference decoder; exhaustive one-hot fields", LAYOUT + "Random, extreme and one-hot contents of every field of every version; sampling, no absence proof."),
    "C02": ("property-based testing: generated system statistics vs. independent reference decoder", LAYOUT + "Every element of every array is compared in dense cases; sampling."),
    "C03": ("property-based testing: generated task lists vs. independent reference decoder", LAYOUT + "Task lists up to 262145 entries; sampling."),
    "C04": ("property-based testing: generated cgroup hierarchies vs. independent reference decoder", LAYOUT + "Up to 65535 cgroups and 4.5 million PIDs; absent sections follow atop's rawlog.c."),
    "C05": ("property-based testing: generated logs x sources x limits vs. the stored sample list", "Up to 600 generated samples; the default limit by one log of 86403 samples."),
    "C06": ("fault enumeration with generated logs: every kind of cut position, plain and gzip, vs. the list of complete samples", "Quick: enumerated boundaries and drawn cuts; thorough: every byte of enumerated logs. A cut inside a record may be reported either way."),
    "C07": ("property-based fault injection: overwritten bytes and crafted tails vs. containment oracle", "Relies on zlib's 32-bit checksum: a damaged section could in principle keep it. Termination judged by a read budget."),
    "C08": ("property-based testing: mutated and arbitrary headers vs. acceptance model; all prefixes and length mismatches enumerated", LAYOUT + "Sampling over byte strings; enumerated prefixes, single and paired length errors."),
    "C09": ("exhaustive enumeration of all 65536 version words over generated logs, vs. version model", LAYOUT + "Exhaustive over words with the latest layout's lengths; sampled for other combinations."),
    "C10": ("property-based testing: dictionary form vs. reference computed from stored bytes, JSON round trip", LAYOUT + "Finite floats and counts within capacity."),
    "C11": ("property-based testing: parseable rows vs. reference rows computed from stored bytes; one-hot fields", "Row definitions restated from atop's manual page in vlib/parseable.py."),
    "C12": ("property-based testing: generated command lines, files and names vs. expected documents; metamorphic -p, gzip/plain, naming", "Mostly in-process main(); some real processes. Readable files only."),
    "C13": ("stateful property-based testing: operation sequences over several readers vs. model, retained objects re-checked", "Interleavings down to single section calls and to file operations of other readers; thread schedules are drawn per line or instruction (sampling)."),
    "C14": ("stateful property-based testing: reading plans vs. stored sections and expected file positions", "All kinds of byte sources; plans up to 10 operations."),
    "C15": ("property-based testing: generated long histories and logs vs. bounds on allocated memory, open files and file state", "Growth judged over up to 800 samples or logs; caches of a few dozen entries count as bounded."),
    "C16": ("property-based testing: generated reads and command lines under an audit hook, process settings compared after every call", "Effects are seen through Python's audit events and a list of process settings; native code could act unseen."),
    "C17": ("property-based testing: generated command lines over readable, damaged and unreadable files vs. expected status, messages and documents", "Mostly in-process main(); some real processes (also with PYTHONOPTIMIZE, /dev/full, a closed pipe)."),
    "C18": ("property-based testing: metamorphic relation between the processor time for generated logs and for the same with four, eight and 32 times the data", "Judges growth, not speed: an excess below a factor of 2.5 passes. Up to 60000 tasks or cgroups, 20000 samples."),
    "C19": ("property-based fault injection: errors raised by generated sources at every operation and at drawn lines of the library, vs. the error seen and later reads", "Interruptions between lines of the library's Python code, not inside of native code."),
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": k, "quick_cmd": f"bash run.sh {k} quick", "thorough_cmd": f"bash run.sh {k} thorough", "evidence_file": f"evidence/{k}.json",
            "technique": t + "; thorough adds coverage-guided fuzzing (atheris) of the same generators", "level": "fault_enumeration" if k == "C06" else "exploration", "level_note": n,
        }
        for k, (t, n) in NOTES.items()
    ],
    "not_applicable": [],
    "notes": "All checks are property-based tests (Hypothesis, python3-vt) over generated raw logs; they import the code from /repo's working tree and need no build. VERIF_SEED fixes every random choice.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
