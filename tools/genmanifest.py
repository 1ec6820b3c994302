#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state enumeration: %s, each executed on the real code and compared with an independent reference model"
CONC = "stateless model checking of the real code under a controlled scheduler: %s"
SN = "Exhaustive within the bounds in the evidence file; beyond them nothing is claimed. Trusts the reference model (mc/ref, definition table checked against MAVLink CRC extras) and the Go toolchain."
CN = "Exhaustive over schedules within the preemption bound and over the scenarios in the evidence file. Trusts the scheduler (mc/vsched), the source instrumentation (mc/cmd/instr) and sequentially consistent memory between synchronisation operations, with happens-before race detection for the rest."
T = {
 "C01": (SEQ % "all inputs of 3 bytes (every CRC state and byte) and all operation sequences to a depth", SN),
 "C02": (SEQ % "all messages x versions x header values x payload patterns", SN),
 "C03": (SEQ % "all messages x every payload byte value, and all 2^24 ids of each dialect", SN),
 "C04": (SEQ % "all byte strings to a length and all messages x last non-zero position x cut", SN),
 "C05": (SEQ % "all messages x versions x payload lengths", SN),
 "C06": (SEQ % "product of limits, lengths, versions and checksums, all small damage patterns", SN),
 "C07": (SEQ % "all lengths, flags, header bytes, ids and copy lengths", SN),
 "C08": (CONC % "all byte streams over a segment alphabet to a depth against a reference scanner", CN),
 "C09": (CONC % "all ways to cut byte streams into reads, within bounds", CN),
 "C10": (CONC % "frame sequences with every delivered frame re-read and overwritten at every later step", CN),
 "C11": (CONC % "all byte strings over a small alphabet against a reference scanner", CN),
 "C12": (CONC % "transport faults injected after every byte and at every write, with all schedules to a preemption bound", CN),
 "C13": (CONC % "all schedules to a preemption bound x write outcome histories, transport trace compared with the frames accepted", CN),
 "C14": (CONC % "all schedules to a preemption bound x transport and logger outcomes, log compared with the traffic", CN),
 "C15": (CONC % "all interleavings of reader, writer, consumer, producer, closers and cancellation to a preemption bound", CN),
 "C16": (CONC % "all interleavings of competing close causes and observers to a preemption bound", CN),
 "C17": (CONC % "all interleavings to a preemption bound, run to quiescence", CN),
 "C18": (CONC % "all interleavings to a preemption bound with happens-before race detection on every instrumented access", CN),
 "C19": (SEQ % "all lists of dialect behaviours to a length, all pairs and triples of real dialects x ids", SN),
 "C20": (SEQ % "all undefined 24-bit ids and all payload lengths", SN),
 "C21": (SEQ % "all sequences of sets to a depth on every text field", SN),
 "C22": (SEQ % "all sequences of coding operations to a depth on every message", SN),
 "C23": (CONC % "all interleavings at statement granularity to a preemption bound of pairs of coding operations", CN),
 "C24": (CONC % "all operation sequences to a depth on loopback sockets against a model of the transport", CN),
 "C25": (CONC % "all interleavings of concurrent reads, writes and close to a preemption bound, on loopback sockets", CN),
 "C26": (SEQ % "all messages x field value patterns x extension flag", SN),
 "C27": (CONC % "all interleavings of the four loops of two connected streams to a preemption bound x ways to cut the bytes", CN),
 "C28": (SEQ % "all payload lengths x contents x versions x previous payloads, all received lengths", SN),
 "C29": (CONC % "all sequences of datagrams and sends to a depth and all interleavings to a preemption bound, on loopback sockets", CN),
 "C30": (CONC % "all sequences of segments to a depth passed on, and all interleavings of connected streams to a preemption bound", CN),
 "C31": (CONC % "all sequences to a depth of frames that agree or differ in each component of their kind, what is printed compared with the reference scan", CN),
 "C32": (SEQ % "all lengths, header bytes, checksums and signature bytes", SN),
 "C33": (CONC % "all patterns of waiting between the directions to a depth, and all interleavings to a preemption bound, against the least progress of independent directions", CN),
 "C34": (CONC % "all sequences of segments to a depth without end before a consumer that stops, blocking writes and missing loops in all interleavings to a preemption bound", CN),
}
claimed = sorted(T) if not os.environ.get("ONLY") else os.environ["ONLY"].split(",")
checks = [{"property": p, "quick_cmd": "./run.sh %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % p, "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in claimed]
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in claimed],
 "notes": "No hooks in /repo: the code under test is instrumented from /repo's working tree at check time and compiled through go build -overlay."}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
