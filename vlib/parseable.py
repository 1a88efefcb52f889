"""Reference for atop 1.26 parseable rows, computed from the stored bytes (see "PARSEABLE OUTPUT" in atop's manual page)."""

from __future__ import annotations

from vlib import layout

TASK = ("PRC", "PRD", "PRG", "PRM", "PRN")
ALL = ("cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRD", "PRG", "PRM", "PRN", "SWP")
CLI = tuple(p for p in ALL if p != "PRD")

CPU_FIELDS = {
    "system": "stime", "user": "utime", "niced": "ntime", "idle": "itime", "wait": "wtime", "irq": "Itime", "softirq": "Stime",
    "steal": "steal", "guest": "guest",
}
DISK_FIELDS = {"io_ms": "io_ms", "reads": "nread", "read_sectors": "nrsect", "writes": "nwrite", "write_sectors": "nwsect"}
PATCHSTAT, IOSTAT = 2, 4  # atop.h: bits of supportflags


def rows(name: str, header: bytes, sample) -> list[dict]:
    ver = sample.ver
    H = lambda p: layout.get(ver.header, header, p)  # noqa: E731
    R = lambda p: layout.get(ver.record, sample.record, p)  # noqa: E731
    S = lambda p: layout.get(ver.sstat, sample.sstat, p)  # noqa: E731
    base = {"timestamp": R("curtime"), "interval": R("interval")}
    out = []
    if name == "cpu":
        for i in range(min(S("cpu.nrcpu"), ver.sstat.by_name["cpu"].type.by_name["cpu"].count)):
            out.append({**base, "ticks": H("hertz"), "proc": i, **{k: S(f"cpu.cpu[{i}].{f}") for k, f in CPU_FIELDS.items()}})
    elif name == "CPU":
        out.append({**base, "ticks": H("hertz"), "procs": S("cpu.nrcpu"), **{k: S(f"cpu.all.{f}") for k, f in CPU_FIELDS.items()}})
    elif name == "CPL":
        out.append({**base, "procs": S("cpu.nrcpu"), "load_1": S("cpu.lavg1"), "load_5": S("cpu.lavg5"), "load_15": S("cpu.lavg15"),
                    "context_switches": S("cpu.csw"), "interrupts": S("cpu.devint")})
    elif name in ("DSK", "LVM", "MDD"):
        arr = name.lower()
        cap = ver.sstat.by_name["dsk"].type.by_name[arr].count
        for i in range(cap):
            n = S(f"dsk.{arr}[{i}].name")
            if not n:
                break
            out.append({**base, "name": layout.text(n), **{k: S(f"dsk.{arr}[{i}].{f}") for k, f in DISK_FIELDS.items()}})
    elif name == "MEM":
        out.append({**base, "page_size": H("pagesize"), "phys_mem": S("mem.physmem"), "free_mem": S("mem.freemem"),
                    "page_cache": S("mem.cachemem"), "buffer_cache": S("mem.buffermem"), "slab": S("mem.slabmem"),
                    "dirty_pages": S("mem.cachedrt")})
    elif name == "NETL":
        cap = ver.sstat.by_name["intf"].type.by_name["intf"].count
        for i in range(cap):
            p = f"intf.intf[{i}]."
            n = S(p + "name")
            if not n:
                break
            out.append({**base, "name": layout.text(n), "pkt_received": S(p + "rpack"), "byte_received": S(p + "rbyte"),
                        "pkt_transmitted": S(p + "spack"), "bytes_transmitted": S(p + "sbyte"), "speed": S(p + "speed"),
                        "duplex": S(p + "duplex")[0]})
    elif name == "NETU":
        both = lambda a, b: S("net." + a) + S("net." + b)  # noqa: E731
        out.append({**base, "name": "upper", "tcp_pkt_received": S("net.tcp.InSegs"), "tcp_pkt_transmitted": S("net.tcp.OutSegs"),
                    "udp_pkt_received": both("udpv4.InDatagrams", "udpv6.Udp6InDatagrams"),
                    "udp_pkt_transmitted": both("udpv4.OutDatagrams", "udpv6.Udp6OutDatagrams"),
                    "ip_pkt_received": both("ipv4.InReceives", "ipv6.Ip6InReceives"),
                    "ip_pkt_transmitted": both("ipv4.OutRequests", "ipv6.Ip6OutRequests"),
                    "ip_pkt_delivered": both("ipv4.InDelivers", "ipv6.Ip6InDelivers"),
                    "ip_pkt_forwarded": both("ipv4.ForwDatagrams", "ipv6.Ip6OutForwDatagrams")})
    elif name == "PAG":
        out.append({**base, "page_size": H("pagesize"), "page_scans": S("mem.pgscans"), "alloc_stalls": S("mem.allocstall"),
                    "swapins": S("mem.swins"), "swapouts": S("mem.swouts")})
    elif name == "SWP":
        out.append({**base, "page_size": H("pagesize"), "swap": S("mem.totswap"), "free_swap": S("mem.freeswap"),
                    "committed_space": S("mem.committed"), "committed_limit": S("mem.commitlim")})
    elif name in TASK:
        flags = H("supportflags")
        for i in range(sample.ntasks):
            T = lambda p: layout.get(ver.tstat, sample.tasks_raw, p, i * ver.tstat.size)  # noqa: E731, B023
            row = {**base, "pid": T("gen.pid"), "name": layout.text(T("gen.name")), "state": layout.text(T("gen.state"))}
            if name == "PRC":
                row.update(ticks=H("hertz"), user_consumption=T("cpu.utime"), system_consumption=T("cpu.stime"), nice=T("cpu.nice"),
                           priority=T("cpu.prio"), priority_realtime=T("cpu.rtprio"), policy=T("cpu.policy"), cpu=T("cpu.curcpu"),
                           sleep=T("cpu.sleepavg"))
            elif name == "PRD":
                row.update(kernel_patch="y" if flags & PATCHSTAT else "n", standard_io="y" if flags & IOSTAT else "n",
                           reads=T("dsk.rio"), read_sectors=T("dsk.rsz"), writes=T("dsk.wio"), written_sectors=T("dsk.wsz"),
                           cancelled_sector_writes=T("dsk.cwsz"))
            elif name == "PRG":
                row.update(real_uid=T("gen.ruid"), real_gid=T("gen.rgid"), tgid=T("gen.pid"), threads=T("gen.nthr"),
                           exit_code=T("gen.excode"), start_time=T("gen.btime"), cmd=layout.text(T("gen.cmdline")), ppid=T("gen.ppid"),
                           running_threads=T("gen.nthrrun"), sleeping_threads=T("gen.nthrslpi"), dead_threads=T("gen.nthrslpu"),
                           effective_uid=T("gen.euid"), effective_gid=T("gen.egid"), saved_uid=T("gen.suid"), saved_gid=T("gen.sgid"),
                           filesystem_uid=T("gen.fsuid"), filesystem_gid=T("gen.fsgid"), elapsed_time=T("gen.elaps"))
            elif name == "PRM":
                row.update(page=H("pagesize"), vsize=T("mem.vmem") * 1024, rsize=T("mem.rmem") * 1024, ssize=T("mem.shtext") * 1024,
                           vgrowth=T("mem.vgrow") * 1024, rgrowth=T("mem.rgrow") * 1024, minor_faults=T("mem.minflt"),
                           major_faults=T("mem.majflt"))
            else:
                row.update(kernel_patch="y" if flags & PATCHSTAT else "n", tcp_transmitted=T("net.tcpsnd"),
                           tcp_transmitted_size=T("net.tcpssz"), tcp_received=T("net.tcprcv"), tcp_received_size=T("net.tcprsz"),
                           udp_transmitted=T("net.udpsnd"), udp_transmitted_size=T("net.udpssz"), udp_received=T("net.udprcv"),
                           udp_received_size=T("net.udprsz"), raw_transmitted=T("net.rawsnd"), raw_received=T("net.rawrcv"))
            out.append(row)
    else:
        raise KeyError(name)
    return out
