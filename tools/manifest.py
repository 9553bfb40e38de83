#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "The real peers and transports run on kernel sockets in a deterministic single-threaded executor with seeded schedules; "
T = {
 "C01": ("record/replay monitor: offline exactly-once-in-order checker over event logs, with injected partial reads and writes (interposed sendmsg/recvmsg) and a re-fragmenting proxy",
         SIM + "the syscalls of the transport are shortened, delayed and made spuriously not ready at random."),
 "C02": ("differential byte-level monitor: independent encoder and decoder on the raw socket, plus lockstep monitor", SIM + "every header value class, byte order, size class and transport; the documentation is the specification of the oracle."),
 "C03": ("hostile-input monitor: mutated and random byte streams and datagrams with a prediction by an independent parser", SIM + "panics are caught with debug assertions and overflow checks on."),
 "C06": ("descriptor monitor: identity (device, inode) tracking of every descriptor and a census of /proc/self/fd, with fault injection (RLIMIT_NOFILE)", SIM + "random histories with 0 to 250 descriptors per message, and child processes that run out of descriptors."),
 "C19": ("runtime monitor of real listeners under hostile client mixes, address and credential oracle, fault injection (resets, panics, garbage)", "Real listeners on current_thread and multi_thread runtimes, real sockets; a hang is an operation that takes more than 25 s."),
 "C20": ("file system snapshot monitor around bind, then real clients", "22 kinds of path contents in a scratch directory, through plain, symbolic and dotted directories."),
 "C04": ("lockstep runtime monitor against an executable reference model", SIM + "random histories with bodies over the limit from every send call."),
 "C21": ("classification monitor: the public class of every error is compared with what happened, over random histories of failures and all kinds of ends of the connection", SIM + "two engines; a message cut off by the end of a stream may be reported either way."),
 "C22": ("generated test programs: random interfaces compiled against the tree, runtime monitor over Client/Server calls and over the frames on the wire, with an independent encoder", "40 random interfaces (160 in the thorough tier) compiled into one program; every generated method driven by random scenarios."),
 "C23": ("generated test programs: hostile peers send wrong IDs, undecodable bodies and unexpected messages to random interfaces; runtime monitor over the classification and the state afterwards", "as C22."),
 "C24": ("generated test programs: introspection data of random interfaces compared with the definition they were generated from", "200 random interfaces (1000 in the thorough tier)."),
 "C25": ("verdict monitor: the real compiler and macro run on random well-formed, ambiguous and malformed definitions, each with a known verdict", "well-formed definitions must compile, others must be rejected with a diagnostic and no panic of the macro; one known limitation is listed in known-findings.txt."),
 "C26": ("multi-threaded stress with an offline exactly-once checker, natively, under ThreadSanitizer (instrumented std) and in Miri (data races, undefined behaviour, leaks, deadlocks, weak memory), plus compile-time Send/Sync assertions", "schedules are those of the machine and of Miri's random scheduler; hangs are operations that do not end in 60 s."),
 "C27": ("memory of the thread (counting allocator) and descriptors of the process measured at quiet moments while connections and listeners repeat up to 32 kinds of finished business thousands of times", "leaks smaller than 8 KB over 9600 repetitions are not seen; 9600 rounds per case (quick)."),
 "C28": ("wake-ups of a real runtime and processor time of its thread, measured over windows of 100 ms after random sequences of 19 situations in which a connection or listener has to wait", "timers longer than about 12 ms are not noticed."),
 "C05": ("lockstep runtime monitor against an executable reference model", SIM + "random histories with incoming messages over the limit."),
 "C07": ("lockstep runtime monitor against a reference model, and offline checker over event logs of two busy peers", SIM + "two engines."),
 "C08": ("lockstep runtime monitor against a reference model, and offline checker over event logs of two busy peers", SIM + "two engines."),
 "C09": ("lockstep runtime monitor with concurrent responders and reused IDs, and offline checker over event logs", SIM + "two engines."),
 "C10": ("lockstep runtime monitor with positioned ID counter", SIM + "a guarded hook positions the ID counter near wrap-around and open IDs."),
 "C11": ("lockstep runtime monitor against a reference model, and offline checker over event logs", SIM + "two engines."),
 "C12": ("lockstep runtime monitor with the read handle dropped", SIM + "random histories."),
 "C13": ("quiescence monitor (every operation completes after the end) on random histories, and an engine that ends the connection in every way at random points", SIM + "three engines; hangs are detected exactly, by quiescence, not by timeouts."),
 "C14": ("lockstep runtime monitor and offline log checkers around orderly ends, with up to 3000 messages queued in front of the end", SIM + "a third engine runs on tokio's own scheduler, with a hang being 25 s without progress."),
 "C15": ("lockstep runtime monitor with handle churn, and a lifetime monitor (when the peer stops, when its socket closes) over random handle graphs", SIM + "two engines."),
 "C16": ("cancellation injection with lockstep monitor and offline log checker, at the peer and at the transport halves", SIM + "three engines."),
 "C17": ("bounded-progress monitor under bidirectional load with tiny buffers and under floods (progress measured in polls of the peer task)", SIM + "hangs are detected exactly, by quiescence; in the flood engine the socket is refilled before every poll."),
 "C18": ("lockstep runtime monitor and offline exactly-once-in-order checker over event logs", SIM + "two engines."),
}
TRUST = " Not exhaustive: assurance is limited to the histories generated (counted in the evidence); trusts the harness' model and the kernel."
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "--cfg fizyr_rpc_verify", "enable": "the harness crate builds /repo with rustflags --cfg fizyr_rpc_verify (harness/.cargo/config.toml)", "source_commits": ["b1be2d1a046eded1b62a6be8e58dcd5523b8caa4"]},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {k}", "technique": t, "level": "exploration", "level_note": n + TRUST} for k, (t, n) in sorted(T.items())],
 "not_applicable": [],
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
for p in props:
    if p["id"] not in T:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
