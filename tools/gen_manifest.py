#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (one place to edit what is claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "runtime monitoring of randomized executions: "
C = {}
def c(id, technique, level, note): C[id] = (technique, level, note)

c("C01", RM + "round-trip oracle (independent encoder) over random bodies, read schedules and ways of reading", "exploration",
  "Every execution is judged by comparison with what an independent encoder put in; bodies, read splits and consumer buffers are sampled with emphasis on delimiters straddling reads and the 512 B/8 KiB buffer edges. Trusts the encoder in harness/src/gen.rs.")
c("C02", RM + "panic hook, step/call/heap monitors and delivered-bytes oracle on hostile input", "exploration",
  "Hostile bodies are sampled, not enumerated; hangs are judged by processor time, runaway memory by a counting allocator, delivered bytes by comparison with the body; also run with the log level at trace.")
c("C03", RM + "counting global allocator recording the peak of live heap bytes per thread while generated bodies of up to tens of MiB are read, skipped or saved", "exploration",
  "Bound checked on the sampled sizes; independence of size is judged from bodies whose size differs by orders of magnitude against the same constant.")
c("C04", RM + "history oracle: random ways of leaving a field and of advancing, every later field compared", "exploration",
  "Histories of reads, peeks, minimum sizes and advances are random; the oracle is the list of encoded parts and a model of the position in the field.")
c("C05", RM + "every-position truncation and delimiter/header corruption with an error-or-prefix oracle", "exploration",
  "Small bodies are cut at every byte, larger ones at sampled positions; the outcome must be an error and everything delivered a prefix.")
c("C06", RM + "fault injection at every read call of small requests, repeat-on-error driver, comparison with the undisturbed run", "fault_enumeration",
  "For sampled requests one transient fault is injected at each read call in turn, and random multiple faults; larger requests at sampled calls. Caller behaviour: repeat the failed call.")
c("C07", RM + "grammar-based header generator with known values, acceptance and rejection oracle", "exploration",
  "Header blocks are sampled from a grammar covering parameter order, quoting, case, whitespace, other parameters and headers; rejections from a list of defects.")
c("C08", RM + "independent multipart parser as oracle over captured client output, short-writing and interrupting writers", "exploration",
  "Trusts the independent parser in harness/src/oracle.rs (byte search for the delimiter, no code of the crate).")
c("C09", RM + "independent multipart parser as oracle over the lazy body read with random buffers, stream errors and chunkings", "exploration",
  "As C08; in addition every joint between the segments of the body is hit by reads of one byte around it.")
c("C10", RM + "conservation monitor: announced length against bytes captured on the wire", "exploration",
  "Announced lengths are taken from the request object and from the HTTP request head captured by a recording connection.")
c("C11", "fault injection at every write/finish/open/read point of client requests, with an error-must-be-reported oracle", "fault_enumeration",
  "Every write call of sampled requests fails in turn; sources, files, request opening and header application fail at sampled points.")
c("C12", "fault injection (transport, writer, unusable paths, full device, RLIMIT_FSIZE) with a conservation oracle: saved + rest = sent", "fault_enumeration",
  "Faults at sampled points of sampled saves. Disk-full is simulated by the process's file size limit and /dev/full.")
c("C13", RM + "limit monitor over stored bytes (memory, files, writer) at sizes at and around the limit", "exploration",
  "Sampled sizes, limits, thresholds, policies; the default limit is exercised with real 8 MiB fields.")
c("C14", RM + "exactly-once history oracle over sequences of counted saves and resumptions", "exploration",
  "Sampled requests and limit sequences; every field must be delivered exactly once over the whole history.")
c("C15", RM + "file system observation (listing of a private directory) against threshold rules", "exploration",
  "Sampled sizes at and around threshold and limit.")
c("C16", RM + "UTF-8 oracle (std) over saved data for every text policy, with reads ending inside characters", "exploration",
  "Sampled text and invalid sequences at sampled positions including the very end and buffer edges.")
c("C17", RM + "file system snapshots around saves, name registry across threads and processes", "exploration",
  "Everything below the harness's scratch root is listed before and after; names are collected across threads and child processes. Writes outside of the scratch root are only visible through the paths reported.")
c("C18", RM + "acceptance oracle over generated request heads for every server integration", "exploration",
  "Requests are parsed by the real hyper/iron/nickel/tiny_http from bytes in memory or over loopback; content types are generated with known truth.")
c("C19", RM + "limit and cleanup oracle over requests passed through the iron middleware", "exploration",
  "In-memory iron requests through the real BeforeMiddleware with random limits, strict and lenient.")
c("C20", RM + "end-to-end digest oracle over concurrent uploads on loopback connections", "exploration",
  "Real servers of every integration, all client kinds, concurrent requests; each response echoes what the server saw and is compared with what was sent.")
c("C21", RM + "independent recount of every save result against memory and files", "exploration",
  "Sampled results of all kinds including resumed saves, kept partial fields and read faults.")
c("C22", RM + "reference model of each conversion over constructed and real results", "exploration",
  "All result kinds x conversions x error kinds are covered for constructed results; real ones are sampled.")
c("C23", RM + "uniqueness registry and alphabet monitor over boundaries from threads and processes", "exploration",
  "Unpredictability is only judged by uniqueness and spread of characters across processes and threads, not cryptographically.")
c("C24", RM + "byte-exact model of the mock transports under random buffer sizes; tee observed in a child process", "exploration",
  "Sampled read and write sizes.")
c("C25", RM + "counting global allocator recording the sending thread's peak of live heap bytes while large files and streams go to a discarding connection", "exploration",
  "Sizes up to 12 MiB (64 MiB thorough) per field against a constant of 256 KiB; buffered sized requests are exempt by documentation.")
c("C26", RM + "monitor of open descriptors (/proc/self/fd), drop counters and the thread's heap balance over random histories with faults", "exploration",
  "Histories and faults are sampled; a leak of memory is judged by growth over repeated rounds of the same case.")
c("C27", RM + "online trace monitor of transport reads against the position in the encoded body, over random histories", "exploration",
  "Histories, bodies and read plans are sampled; the allowance behind the position is the documented minimum plus one delimiter.")
c("C28", RM + "offline checker over the ordered event log of source reads, writes, opening and finishing", "exploration",
  "Requests and sizes are sampled; buffering inside hyper is outside of the crate.")
c("C29", RM + "instruction counts (valgrind) of a process handling n, 2n and 4n units of generated data, growth oracle", "exploration",
  "Scenarios, content, schedules and ways are random; growth beyond 2.35 times for a doubling, twice in a row, is a violation; work below 8 times the base size is not judged.")

import re
main = open(os.path.join(ROOT, "harness/src/main.rs")).read()
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    m = re.search(r'"%s" => \(\w+::\w+, "(\w+)"' % i, main)
    if not m:
        na.append(dict(property=i, reason="its check is not written yet"))
        continue
    t, level, note = C[i]
    assert level == m.group(1), i
    checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
                       technique=t, level=level, level_note=note))
d = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor sits outside (readers, writers, allocator, file system, connections). Known findings and fixes: KNOWN_FINDINGS.md.")
json.dump(d, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
