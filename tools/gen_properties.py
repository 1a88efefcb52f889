#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os

U = "atoparser/utils.py"
S = "atoparser/structs"
SH = "atoparser/structs/shared.py"
P = "atoparser/parsers/atop_1_26.py"
R = "atoparser/reader.py"
STRUCTS = [f"{S}/atop_{v}.py" for v in ("1_26 2_3 2_4 2_5 2_6 2_7 2_8 2_9 2_10 2_11 2_12".split())] + [SH]

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop(
    "C01", "Header and record metadata decode to what atop wrote, for every version",
    "For a log of any supported Atop version (1.26, 2.3 to 2.12), every named field of the file header and of every "
    "record equals the value Atop stored at that field's position in that version's C layout (x86-64 ABI), for all "
    "field values. The decoded header and records are of the types exported for that version's log.",
    ["inputs", "configurations"],
    "Every supported version x every header and record content (all integer values of each field's width, any host strings).",
    "Tests read one real log per version in which most metadata fields are zero or equal, and compare only the last record; "
    "fields with the same width can be swapped, shifted or narrowed without any test value changing.",
    STRUCTS + [U],
    [("Header._fields_ and Record._fields_ of every version module", S), ("get_header / get_record read straight into the structs", U)],
    state=[("rawheader / rawrecord", "C layout of the metadata", S)],
    observe=["atoparser.get_header", "atoparser.get_record", "atoparser.generate_statistics"],
)
prop(
    "C02", "System statistics decode to what atop wrote, for every version",
    "For a log of any supported Atop version, every named system-level statistic (processors, memory, NUMA nodes, network "
    "protocols and interfaces, disks, volumes, NFS, containers, pressure, GPU, InfiniBand, last-level cache, HTTP) of every "
    "sample, in every array element up to the array's capacity, equals the value Atop stored at that field's position in "
    "that version's C layout, for all field values.",
    ["inputs", "configurations"],
    "Every supported version x every system statistics block (up to 1 MB: up to 2048 processors, 3328 disks and volumes, 1024 NUMA nodes).",
    "Tests look at six of several hundred system-level fields, in one idle 6-processor VM; a wrong width, order or capacity of "
    "any other field, or of a later array element, changes nothing they compare.",
    STRUCTS + [U],
    [("SStat and the structs nested in it", S), ("get_sstat: read scomplen, decompress, copy into SStat", U)],
    state=[("sstat", "system-level statistics of one sample", S)],
    observe=["atoparser.get_sstat", "atoparser.generate_statistics"],
)
prop(
    "C03", "Every task of a sample is decoded, in order, with the values atop wrote",
    "For a log of any supported Atop version, each sample has exactly as many tasks as its record declares (none included), "
    "in the order they were stored, and every named field of every task equals the value Atop stored at that field's position "
    "in that version's C layout. This holds for any number of tasks and any field values, whatever the record's other counters say.",
    ["inputs", "configurations"],
    "Every supported version x task lists of any length (0 to thousands) with any contents.",
    "Tests compare the name and command line of the last task in logs with two to six tasks; task counts, order, strides and the "
    "other roughly eighty fields per task are unconstrained.",
    STRUCTS + [U],
    [("get_tstat: task count from the record, fixed stride from the header", U), ("TStat / PStat and nested structs", S)],
    state=[("nlist / ndeviat", "number of tasks stored after the system statistics", S), ("pstatlen / tstatlen", "bytes per task", S)],
    observe=["atoparser.get_tstat", "atoparser.generate_statistics"],
)
prop(
    "C04", "Cgroup statistics and their process lists are paired and decoded exactly",
    "For logs of Atop 2.11 and later, each sample has exactly the cgroups its record declares, in order, each with the values "
    "Atop stored and with exactly its own process IDs, for any mix of cgroup name lengths (stored inline, so entries vary in size) "
    "and process counts, zero included. A sample stored without any cgroup data (a host without cgroups v2) yields an empty cgroup "
    "list and does not disturb the samples around it, and logs of earlier versions yield an empty cgroup list.",
    ["inputs", "configurations"],
    "Every cgroup hierarchy (number, name lengths, process counts, PIDs) in every sample of every 2.11+ log; every older version.",
    "The sample logs contain a single unnamed root cgroup with two processes, so neither the variable stride, nor the slicing of the "
    "shared PID list over several cgroups, nor an absent cgroup section is ever exercised.",
    [U, f"{S}/atop_2_11.py", f"{S}/atop_2_12.py"],
    [("get_cstat: entries advance by structlen, PID slices by nprocs", U), ("CStat, CGGen, CGConf, CGCPU, CGMem, CGDSK, CGChainer", f"{S}/atop_2_11.py")],
    state=[("structlen", "size of one cgroup entry including its inline name", f"{S}/atop_2_11.py"), ("nprocs", "number of PIDs of this cgroup in the shared list", f"{S}/atop_2_11.py")],
    observe=["atoparser.get_cstat", "atoparser.generate_statistics"],
)
prop(
    "C05", "An intact log yields every sample exactly once, in order, up to the limit",
    "Reading an intact log of N samples yields exactly the first min(N, max_samples) samples, in file order and nothing else, "
    "where the default limit is 86400 samples. This does not depend on what the samples contain, on the compression level of each "
    "section, on whether the header is passed in or read implicitly, or on whether the source is an in-memory buffer, a plain file, "
    "a gzip stream or a pipe that cannot seek.",
    ["inputs", "histories", "configurations"],
    "Every supported version x every number and content of samples x every limit x every kind of byte source.",
    "Tests read five-sample logs and look at the last sample; max_samples, implicit headers, plain files, long logs and unusual but "
    "valid samples (no tasks, zero interval, zero timestamps, repeated samples) are never tried.",
    [U],
    [("generate_statistics loop, natural end of file on an empty record, max_samples", U), ("MAX_SAMPLES_PER_FILE", U)],
    state=[("scomplen == 0", "no further record", U)],
    observe=["atoparser.generate_statistics"],
)
prop(
    "C06", "A log cut off at any byte loses only its unfinished tail",
    "If a log (plain, or its gzip file) is cut off at any byte after the header, reading yields exactly the samples that are completely "
    "present, each unaltered, and never a partial one. With raise_on_truncation=False reading then ends without an error; "
    "with raise_on_truncation=True (the default) a cut inside the compressed data of a sample is reported as zlib.error (EOFError when "
    "the gzip file itself is cut, or BadGzipFile where gzip sees just one byte of a further member), and a cut exactly between two samples of a plain log is a normal end.",
    ["crash_points", "inputs"],
    "Every cut position after the header of every log, both settings of raise_on_truncation, plain and gzip.",
    "One unit test truncates a system statistics block at one offset through the low-level reader; the generator's behaviour at any "
    "crash point, and the False setting, are not tested at all.",
    [U, R],
    [("generate_statistics: except zlib.error, raise_on_truncation", U), ("zlib.decompress of exactly scomplen/pcomplen/ccomplen/icomplen bytes", U)],
    observe=["atoparser.generate_statistics"],
)
prop(
    "C07", "Damage after the header is contained: no altered statistics, no odd errors",
    "If bytes after the header are overwritten, every sample stored before the damage is still delivered unaltered. Damage inside a "
    "compressed section that zlib's checksum reveals never yields statistics that differ from the stored ones: reading ends at that sample with zlib.error (silently if "
    "raise_on_truncation=False). Whatever bytes follow a valid header, reading terminates, every delivered sample has as many tasks and cgroups "
    "as its record declares, and if reading fails it fails with zlib.error or ValueError only.",
    ["fault_sequences", "inputs"],
    "Every overwrite of any bytes after the header with any values, in logs of every version; and arbitrary byte strings after a header.",
    "No test feeds damaged data to the generator; the space of corruptions is unbounded.",
    [U],
    [("zlib checksums verified by zlib.decompress", U), ("from_buffer_copy size checks", U)],
    observe=["atoparser.generate_statistics"],
)
prop(
    "C08", "Headers are accepted exactly when they describe a readable atop log",
    "Reading a header returns it only if all of its bytes are present, its magic number is atop's, and every declared structure "
    "length (header, record, system, task, and cgroup from 2.11) equals the length this library uses for that version; for any other "
    "byte string it raises ValueError and no other error. With check_compatibility=False the length comparison alone is skipped.",
    ["inputs"],
    "Every byte string of every length presented as the start of a log, and every combination of declared lengths and version words.",
    "Tests try one wrong magic and one 32-byte prefix; no declared length is ever wrong in a test, and no unsupported version or longer "
    "prefix is tried.",
    [U, SH] + [f"{S}/atop_1_26.py", f"{S}/atop_2_11.py"],
    [("get_header: magic check, version dispatch", U), ("HeaderMixin.check_compatibility", SH)],
    observe=["atoparser.get_header", "Header.check_compatibility"],
)
prop(
    "C09", "The version word selects the version and layout, for all version words",
    "For every 16-bit version word, the reported major version is bits 8 to 14, the minor version the low byte, and the semantic version "
    "'major.minor'; the flag bit 15 has no influence. A log of a supported version is decoded with that version's layout; any other "
    "version is either rejected with ValueError or, when its declared lengths match the latest supported layout, decoded completely with "
    "the latest layout, cgroups included.",
    ["inputs", "configurations"],
    "All 65536 version words, with declared lengths of each supported layout.",
    "Tests see 11 of 65536 version words, always with matching lengths; the fallback for unknown versions is never exercised.",
    [SH, U],
    [("HeaderMixin.semantic_version / major_version / minor_version", SH), ("_HEADER_BY_VERSION, _DEFAULT_VERSION dispatch in get_header", U)],
    observe=["Header.semantic_version", "Header.major_version", "Header.minor_version", "atoparser.get_header", "atoparser.generate_statistics"],
)
prop(
    "C10", "Dictionary conversion is complete, exact and JSON compatible",
    "Converting any decoded header, record, system, task or cgroup structure to a dictionary keeps every named field in declaration order "
    "except the scalar and array placeholders named 'future', with integers and (finite) floats exact, text as the UTF-8 text before the first NUL with "
    "undecodable bytes ignored, and arrays of structures cut to exactly the number of entries that the structure's own count declares "
    "(zero included). The result survives a JSON round trip unchanged, the conversion never fails, and it does not alter the structure.",
    ["inputs", "configurations"],
    "Every structure of every supported version x every content (counts from 0 to capacity, any bytes in text fields, all integers).",
    "Tests convert idle-VM samples and compare a handful of keys; counts at the limits, non-UTF-8 text, the extremes of 64-bit counters "
    "and most arrays never occur.",
    [U] + STRUCTS,
    [("struct_to_dict", U), ("fields_limiters of each struct", S)],
    observe=["atoparser.struct_to_dict"],
)
prop(
    "C11", "Parseable output follows atop's definition for every 1.26 sample",
    "For every sample of an Atop 1.26 log, each parseable (cpu, CPL, CPU, DSK, LVM, MDD, MEM, NETL, NETU, PAG, PRC, PRD, PRG, PRM, PRN, SWP) "
    "has exactly the rows atop defines: one per system for the totals, one per active processor, one per named device or interface up to "
    "the first unnamed one, and one per task; each row's values are the documented statistics (with units and sums, e.g. IPv4 plus IPv6, KiB to "
    "bytes). Producing the rows never fails, whatever bytes process names, command lines or device names contain, and is JSON compatible.",
    ["inputs"],
    "Every Atop 1.26 system and task statistics content.",
    "Tests compare the last row of each parseable for one idle VM, where most values are zero or equal, so swapped, mis-summed or "
    "mis-scaled values and wrong row counts are invisible; non-ASCII names are never tried.",
    [P, f"{S}/atop_1_26.py"],
    [("parse_* generators", P)],
    observe=["atoparser.parsers.atop_1_26.parse_*"],
)
prop(
    "C12", "The command prints exactly the log's content as JSON, per the chosen options",
    "For every readable log, the atoparser command prints one JSON document per file, in argument order, with one entry per complete sample (or "
    "per parseable row with -P, in sample order then option order): header, record and system statistics always, tasks only with --tstats, cgroups only "
    "with --cstats; -p changes only whitespace. The output depends only on the log's content: it is the same for a plain log "
    "and for its gzip compressed copy whatever the file is called, a truncated log gives its complete samples, and parseables of a version without "
    "parseable support give a single error entry naming version and file.",
    ["inputs", "configurations"],
    "Every log of every version x every combination of options x every file naming and compression x several files.",
    "Tests call the function behind the command three times on packaged .gz logs and compare the last ten lines; options, plain files, file names, "
    "several files and truncated logs are not covered.",
    [R, U, P],
    [("parse_args, main, parse_file", R), ("PARSEABLE_MAP", R)],
    observe=["stdout of atoparser.reader.main"],
)
prop(
    "C13", "Readers and results are independent of each other and of history",
    "What reading a log returns depends only on that log: it is the same however reads of other logs (of the same or other versions, valid, truncated or "
    "rejected) are interleaved with it, and however often it is repeated. Samples, headers and dictionaries already returned never change because of later reads "
    "or conversions, and changing a returned object never affects any other.",
    ["histories"],
    "Every interleaving of opening, reading, converting and modifying over any set of logs.",
    "Each test reads one log start to end and keeps only the last sample; no test holds two readers or two results at once.",
    [U, SH, R],
    [("from_buffer_copy gives every struct its own memory", U), ("per instance caching of the version in HeaderMixin", SH), ("header re-typed in place with from_buffer", U)],
    state=[("_semantic_version, _major_version, _minor_version", "version cached per header instance", SH)],
    observe=["atoparser.get_header", "atoparser.generate_statistics", "atoparser.struct_to_dict"],
)
prop(
    "C14", "Section readers consume exactly their section, so reading can stop and resume",
    "The header, record, system, task and cgroup readers each consume exactly the bytes their section declares, so calling them in file order "
    "gives the same results as the sample generator, and after each yielded sample the file position is the start of the next record. "
    "Reading a log in any sequence of partial generator runs and single section calls on one open file therefore yields the same samples as one "
    "uninterrupted run.",
    ["histories", "inputs"],
    "Every way of splitting the reading of any log of any version into generator runs (with any max_samples, or abandoned early) and section calls.",
    "Tests call each section reader once at the start of a 1.26 log, or drain the generator in one go; positions and resumption are never observed.",
    [U],
    [("get_header, get_record, get_sstat, get_tstat, get_cstat read by declared length", U), ("lazy generator", U)],
    observe=["position of the open file", "atoparser.get_*", "atoparser.generate_statistics"],
)

prop(
    "C15", "Reading is incremental and leaves nothing behind: memory, files, sources",
    "Samples are produced one at a time: what the caller has dropped (samples, dictionaries, rows, abandoned or failed readers, rejected headers) is not "
    "kept by the library, so the memory in use while a log is read does not grow with the number of samples (nor with the number of logs read), apart from "
    "caches of bounded size. The library never closes the source it was given, whether reading ends, fails or is abandoned. The command holds no file open "
    "once it is done with a log, also when it failed, and never changes its input files or anything next to them.",
    ["histories", "inputs"],
    "Every log of any length, every way of using its samples, every number of logs read in one process, intact, damaged or cut off.",
    "Tests read 14 five-sample logs and never look at memory, descriptors or the source afterwards; growth shows only over long histories.",
    [U, R, SH],
    [("generate_statistics is a generator that keeps no sample", U), ("with open(...) in parse_file", R)],
    observe=["allocated blocks and bytes of the process", "closed attribute of the source", "/proc/self/fd", "input files"],
)

prop(
    "C16", "Reading has no effects besides reading: no files, processes or settings",
    "Whatever a log contains (intact, cut off, damaged, rejected), the library functions only read from the source they are given: they open, create or change no file, "
    "start no process, leave no thread, use no network and print nothing. They leave the process as it is, also between samples and after failed or abandoned reads "
    "(working directory, environment, locale, signal handling, garbage collection, warning filters, random and decimal state, limits, standard streams), and do not alter the headers, "
    "records and samples passed to them. The command opens only the files it is given, for reading only, and writes only to its standard output and standard error.",
    ["inputs", "histories", "configurations"],
    "Every log, intact or not, every way of reading and converting it, every command line.",
    "Tests look at returned values only; an effect of an error path, of an unusual content or of an abandoned reader stays unseen, and it need not change any returned value.",
    [U, R, P, SH],
    [("functions only call read of the raw file they are given", U), ("open for reading in parse_file", R)],
    observe=["audit events of the process", "process settings before and after each call", "standard output and error", "bytes of objects passed in"],
)

prop(
    "C17", "The command succeeds only if every file was read, and fails visibly otherwise",
    "The exit status of the atoparser command is zero exactly if every file given has been read: a file that is missing, unreadable, empty, not an atop log, of an unsupported layout, or "
    "incomplete in its header (plain or gzip), output that cannot be written, and wrong usage (no file, unknown option or parseable) end with a non-zero status and a message on standard error. "
    "Nothing is printed on standard output for a file that fails, and the documents of the files before it are printed, complete and correct. "
    "A log that is cut off or whose compressed data is damaged behind its header counts as read: the samples before the damage are printed.",
    ["inputs", "configurations", "fault_sequences"],
    "Every command line over readable, damaged and unreadable files in any order.",
    "No test looks at the exit status, at files that cannot be read or at output that cannot be written.",
    [R, U],
    [("main, parse_args, parse_file", R), ("get_header raises ValueError", U)],
    observe=["exit status, standard output and standard error of the command"],
)

prop(
    "C18", "The time to read and convert is in proportion to the amount of data",
    "Reading a log takes time in proportion to its samples, and reading or converting one sample (structures, dictionaries, parseable rows, the command's output) time in proportion to its tasks, "
    "cgroups, PIDs and name lengths; twice the data never takes several times as long. The first sample of a log is available in the same time however long the log is, and reading many logs "
    "one after the other does not get slower.",
    ["inputs", "histories"],
    "Every log of any length and samples of any size, every way of reading and converting.",
    "Tests read five samples with a handful of tasks; superlinear work shows only with thousands of tasks, cgroups or samples.",
    [U, R, P],
    [("loops over tasks and cgroups that slice the decompressed section by offset", U), ("lazy generator", U)],
    observe=["processor time at one, four, eight and 32 times the size"],
)

prop(
    "C19", "A failing source or an interruption is passed on and breaks nothing later",
    "If the source of a log fails while it is read (an operation raises an error, e.g. OSError of a failing disk or a lost connection, a timeout, KeyboardInterrupt), that very error reaches the "
    "caller, whatever raise_on_truncation says: it is never taken for the end of the log, a truncated log or a foreign file. The samples read before are delivered unaltered, and the source "
    "is not closed. The same holds if reading, conversion or row production is interrupted at any point (e.g. by a signal handler that raises): the error is passed on, what was returned before "
    "stays as it was, and reading the same or another log afterwards gives what it always gives. (Errors that mean a cut off log, i.e. zlib.error, EOFError and BadGzipFile, are the subject of "
    "C06.) The command ends with a non-zero status and prints nothing for the file that failed.",
    ["inputs", "fault_sequences", "histories"],
    "Every error a source can raise at any of its operations, and an interruption at every line.",
    "No test has a source that fails, or interrupts anything.",
    [U, R, P],
    [("generate_statistics: except clause", U), ("get_header, get_record, get_sstat, get_tstat, get_cstat", U), ("main, parse_file", R)],
    observe=["the exception the caller sees, samples delivered, later reads"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")
