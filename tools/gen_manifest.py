#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS: property -> (technique, level note)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TRUST = "Trusts the shims (sync, atomic, time, os, net, ... in mc/zzv/s) and the text instrumenter; bounds are listed per scenario in the evidence; exhaustive unless the evidence says otherwise."
SEQ = "stateless model checking of the real code: bounded-exhaustive operation sequences against a reference model"
CON = "stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound)"
FLT = "stateless model checking of the real code with exhaustive fault and crash point placement"
INP = "stateless model checking of the real code: bounded-exhaustive enumeration of inputs and request sequences against a reference model"
T = {
 "C01": (SEQ, "Every sequence of saves, drops, sweeps and clock steps up to the depth, over 2-3 torrents and 2 peers, is run and the listings compared with a reference model after every step."),
 "C02": (SEQ, "As C01 for the counts, with restores from a backup and swarms around 65536 peers."),
 "C03": (SEQ, "As C01 for the global metrics, with restores and up to 65537 peers behind one address."),
 "C04": (CON, "All interleavings (preemption bound per scenario) of every pair, triple, 2+1 and 2+2 of nine operations from five states; each outcome must be linearizable against the reference model."),
 "C05": (CON + ", with the happens-before race detector deciding each interleaving", "Every explored interleaving also runs under the Go race detector (only the tracker's code is instrumented for it, so scheduler and harness add no ordering)."),
 "C06": (SEQ, "All sequences of list calls over swarms of every size and family mix, sharing recycled buffers, plus swarm sizes and wanted numbers around several limits."),
 "C07": (SEQ, "Peers of every age around the expiry, in one to three torrents, and all operation sequences with clock steps."),
 "C08": (SEQ, "Every database reachable by bounded histories is saved, restored in a fresh tracker and compared, including its further evolution."),
 "C09": (FLT, "Every crash point of a save (every torn length of every write, every subset of unsynced data considered by the file system model) followed by a restart."),
 "C10": (CON, "All interleavings up to a preemption bound of one backup with one or two mutating threads; the file is loaded by a fresh database and compared with what may be in it."),
 "C11": (FLT, "Every placement of up to two database faults over sequences of saves and loads on a fake Postgres driver."),
 "C12": (FLT, "Every truncation and every byte substitution from a set of boundary values, at every offset, of files of small databases."),
 "C13": (SEQ, "Every sequence up to a depth of connects, announces and scrapes with every id issued, clock steps, sweeps and restarts by several clients."),
 "C14": (SEQ, "Every sequence up to a depth of connects, clock steps around the expiry, sweeps and save/restart, probed by requests with every id."),
 "C15": (INP, "All action values, lengths and sender forms, with and without a valid connection id, compared with the protocol."),
 "C16": (INP, "The cross product of announce fields over short histories of several clients, compared with a reference tracker."),
 "C17": (INP, "All scrape sizes and orders over known and unknown torrents."),
 "C18": (INP, "Bounded-exhaustive grammar enumeration of request lines, compared with a reference parser."),
 "C19": (INP, "Every sequence of up to three requests on one worker, with I/O faults, compared with a fresh tracker holding the same content."),
 "C20": (INP, "Cross product of parameter values over both families and short histories, compared with a reference tracker."),
 "C21": (INP, "All numbers, positions and duplicates of info_hash parameters over several swarms."),
 "C22": (FLT, "Bounded-exhaustive mutation of every request kind and every placement of I/O faults, followed by a liveness probe."),
 "C23": (INP, "Every header value up to three entries over an alphabet of addresses, junk and separators, on the app-engine build."),
 "C24": (CON, "The whole tracker (Run with all its goroutines) is run under the controlled scheduler with clients and signals at every point."),
 "C25": (CON, "All interleavings of request handling and metric publication up to a preemption bound."),
 "C26": (SEQ, "Every sequence up to a depth of controller commands and process events over a virtual process table and clock."),
 "C27": (INP, "Every combination of sources (environment, working directory, home) per setting, each in a process of its own on real files."),
 "C28": (INP, "Every embedded path and all its single-edit neighbours, with and without queries, in the enabled mode; the configuration's paths in the information mode."),
 "C29": (INP, "Every sequence up to a depth of dictionary writes over boundary values, decoded by an independent decoder."),
 "C30": (INP, "Boundary values of every field of every message, compared with an independent codec."),
 "C31": (CON, "All interleavings up to a preemption bound of pairs of concurrent requests on both protocols; each reply compared with the possible sequential ones."),
 "C33": (SEQ, "Every sequence up to a depth of command lines and process events, run through the program's main function over a virtual process table and clock."),
 "C35": (SEQ, "Every combination of settings and failing listens up to the bounds, on the tracker's Run in a virtual process and network."),
 "C34": (SEQ, "The histories of C01, C08 and C16/C20 on the build with the fast tag."),
 "C36": (SEQ, "Every sequence of 4 (thorough 5) of 13 requests, waits, saves, restarts and crashes of the whole tracker (Run with all its goroutines on the virtual network, file system, clock and process table), each reply compared with a reference tracker."),
 "C37": (FLT, "Each of 46 events and every pair (thorough: triple) of them is repeated 2, 5 and 11 times on the whole tracker, and every placement of failing calls in saves; what the process holds is counted by the virtual network, file system, scheduler and database and must not grow."),
 "C32": (SEQ, "Every sequence of run durations over the ticks of a period, under a virtual clock."),
}
done = [i for i in ids if os.path.exists(os.path.join(ROOT, "mc", "claimed", i))]
checks = [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "technique": T[i][0], "level": "model_checking", "level_note": T[i][1] + " " + TRUST} for i in done]
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in done]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
  "notes": "check.sh copies /repo's working tree to a scratch directory, redirects its nondeterminism (goroutines, channels, locks, clock, network, files, signals, randomness) to a controlled runtime by source instrumentation, and explores the property's scenarios exhaustively within bounds. No hooks in /repo. Replay: ./check.sh ID replay FILE."},
  open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(done), "claimed")
