From fd7a6ff0d27dfd4577b02f9f57a710d1d9a084ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 1/7] fix: read 2.11+ samples that were stored without cgroup
 data

---
 atoparser/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..c48091e 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -265,10 +265,11 @@ def get_cstat(
     """
     # Read the requested length instead of the length of the struct.
     # The data is compressed and must be decompressed before it will fill the final list of structs.
+    # Hosts without cgroups v2 do not store any cgroup data, and both lengths are zero.
     buffer_cstats = raw_file.read(record.ccomplen)
-    decompressed_cstats = zlib.decompress(buffer_cstats)
+    decompressed_cstats = zlib.decompress(buffer_cstats) if record.ccomplen else b""
     buffer_pidlist = raw_file.read(record.icomplen)
-    decompressed_pidlist = zlib.decompress(buffer_pidlist)
+    decompressed_pidlist = zlib.decompress(buffer_pidlist) if record.icomplen else b""
 
     cgroups = []
     cstat_start = 0
-- 
2.43.0


From d746ef02ed083ac831829a42b446f3a1bd1cce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 2/7] fix: reject a log that ends inside of its header

---
 atoparser/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index c48091e..74e22ea 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -145,11 +145,13 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    length = raw_file.readinto(header)
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
         raise ValueError(msg)
+    if length != ctypes.sizeof(header):
+        raise ValueError(f"File does not contain a complete atop header: {length} of {ctypes.sizeof(header)} bytes")
 
     header_version = header.semantic_version
     if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
-- 
2.43.0


From a048bd78a20aa53a70eca942cd8da6a51e298fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 3/7] fix: handle the fallback layout of unsupported versions
 consistently

---
 atoparser/structs/shared.py | 5 +++--
 atoparser/utils.py          | 7 ++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..8c44550 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -49,11 +49,12 @@ class HeaderMixin:
             ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
             ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
         ]
-        if self.major_version >= 2 and self.minor_version >= 3:
+        # Versions that are not supported use the latest header, so check the fields of the header instead of the version.
+        if hasattr(self, "tstatlen"):
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
             sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
-        if self.major_version >= 2 and self.minor_version >= 11:
+        if self.CStat is not None:
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
             raise ValueError(
diff --git a/atoparser/utils.py b/atoparser/utils.py
index 74e22ea..474c893 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -101,9 +101,6 @@ def generate_statistics(
         header = get_header(raw_file)
 
     try:
-        header_version = header.semantic_version
-        major, minor = header_version.split(".")[:2]
-        major, minor = int(major), int(minor)
         for _ in range(max_samples):
             # Read the repeating structured information until the end of the file.
             # Atop log files consist of the following after the header, repeated until the end:
@@ -117,7 +114,7 @@ def generate_statistics(
                 break
             sstat = get_sstat(raw_file, header, record)
             tstats = get_tstat(raw_file, header, record)
-            if major >= 2 and minor >= 11:
+            if header.CStat is not None:
                 cgroups = get_cstat(raw_file, header, record)
             else:
                 cgroups = []
@@ -236,7 +233,7 @@ def get_tstat(
     decompressed = zlib.decompress(buffer)
 
     record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
-    tstatlen = header.tstatlen if header.major_version >= 2 and header.minor_version >= 3 else header.pstatlen
+    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
     tstats = []
     for index in range(record_count):
         # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
-- 
2.43.0


From 8d47eca733fd942af7f9358788ee0c8d71b25d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 4/7] fix: ignore undecodable bytes of names in parseables

---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From 1dbd853f2df75f6f90fba929e009417ab380e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 5/7] fix: honor raise_on_truncation for truncated gzip files

---
 atoparser/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 474c893..e2bc66f 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -119,7 +119,7 @@ def generate_statistics(
             else:
                 cgroups = []
             yield record, sstat, tstats, cgroups
-    except zlib.error:
+    except (zlib.error, EOFError):
         # End of readable data reached. This is common during software restarts.
         # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
         if raise_on_truncation:
-- 
2.43.0


From 3c22bb1c3b7ec0119fa2eff57990c94db80e5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 6/7] fix: detect gzip compression by content instead of file
 name

---
 atoparser/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/reader.py b/atoparser/reader.py
index 80c3e0d..dad1fa3 100755
--- a/atoparser/reader.py
+++ b/atoparser/reader.py
@@ -76,8 +76,9 @@ def parse_file(  # pylint: disable=too-many-locals
         show_cstats: Wheter to include CGroup/CStats in output
     """
     samples = []
-    opener = open if ".gz" not in file else gzip.open
-    with opener(file, "rb") as raw_file:
+    with open(file, "rb") as log_file:
+        # The name of a file does not tell how it is stored, e.g. rotated logs. Check for the gzip magic number instead.
+        raw_file = gzip.open(log_file) if log_file.peek(2)[:2] == b"\x1f\x8b" else log_file
         header = atoparser.get_header(raw_file)
         if parseables and header.semantic_version not in PARSEABLE_MAP:
             samples.append(
-- 
2.43.0


From 5dc743f8261fb9287b6e0cfa30db01971fb11e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 7/7] fix: treat a gzip file cut behind the first byte of a
 further member as truncated

gzip reports it as BadGzipFile instead of EOFError.
---
 atoparser/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index e2bc66f..e7f8886 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -27,6 +27,7 @@ The basic layout of an Atop log file can be described as the following:
 from __future__ import annotations
 
 import ctypes
+import gzip
 import io
 import zlib
 from typing import Union
@@ -119,7 +120,7 @@ def generate_statistics(
             else:
                 cgroups = []
             yield record, sstat, tstats, cgroups
-    except (zlib.error, EOFError):
+    except (zlib.error, EOFError, gzip.BadGzipFile):
         # End of readable data reached. This is common during software restarts.
         # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
         if raise_on_truncation:
-- 
2.43.0

