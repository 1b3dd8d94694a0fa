#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the entries stay uniform)."""
import json
N={
"W01":"every texture compared byte for byte with an independent decoder, over sampled thread interleavings, pool sizes, short/interrupted reads and rewrites",
"W02":"complete outcome (error text included) compared with a forked single-threaded fault-free run of the same tree, over sampled interleavings, pool sizes, hash seeds and clocks; damaged files and unreadable sectors included",
"W03":"error or complete reference, under sampled hard failures, cuts and deletions at every kind of system call, plus the load after recovery",
"W04":"normal return, bounded memory requests and, on success, exactly what an unbounded-arithmetic decoder finds in the damaged bytes; sampled damage",
"P01":"palette and every converted pixel compared with an independent lookup under sampled I/O faults and schedules",
"M01":"scene tree compared with an independent model over generated maps and configurations, sampled read splits, hash keys and load histories",
"M02":"delivered geometry matched face by face with known polyhedra (coverage by area), sampled as M01",
"M03":"error or complete reference scene, under sampled hard failures, deletion and non-text content, plus the load after recovery",
"M04":"every accepted scene equals that of the complete entities before the cut; sampled cut positions, before and during the load",
"M05":"normal return within bounded simulated steps over sampled damage; exactly-once delivery for damaged group references",
"M06":"bit-exact canonical scene (or error text) compared across hash keys, threads, clocks, read splits, histories and a forked run",
"D01":"standard output parsed and compared with the line sets of both files; failing input and output at sampled calls",
"F01":"file content equals the rendered text whenever success is reported; sampled failures and histories of saves",
"F02":"file system inspected after a crash or failure at every reachable system call of a save, with any prefix of a write applied (process crash: data already written survives; machine crash: a seeded part of what was not synchronised is lost)",
"S01":"result equals one version current during the load; replacement at sampled system calls; files replaced by rename",
"C01":"every concurrent call compared with the same call run alone in a forked process; sampled interleavings (switches also between any two branches of the crate's code) and confined failures",
"C02":"simulated kernel's call log and descriptor table checked after every call under sampled failures",
"C03":"complete outcome compared with a forked fault-free run while the output streams fail",
}
NA={
"G01":"A pure function of one brush's plane equations: no thread, time, I/O, randomness or fault reaches it, so no schedule or fault could change the answer; deciding it is input generation or proof, not simulation. (That every face is covered by triangles over its own corners is decided within M02.)",
"G02":"Pure arithmetic on one face definition and texture size; no schedule, fault or history can influence it. (That the result does not vary between loads, threads and hash seeds is decided by M06.)",
"G03":"Pure arithmetic on the planes of one brush; no schedule, fault or history can influence it. (Reproducibility is decided by M06.)",
"G04":"A pure string rendering of in-memory definitions; no schedule, fault or history can influence it. (That the rendered text reaches the file is decided by F01 and F02.)",
"G05":"A pair of constant tables; there is nothing to schedule or to fail.",
}
checks=[dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",
  evidence_file=f"evidence/{p}.json",technique="deterministic simulation with fault injection (seeded search over schedules, faults and workloads)",
  level="exploration",level_note=n[0].upper()+n[1:]+". Trusts the simulated kernel and the reference model; see DESIGN.md.") for p,n in N.items()]
m=dict(version=1,setup_cmd="cd sim && CARGO_NET_OFFLINE=true cargo build --offline --quiet",
 hooks=dict(guard="none",enable="No hooks in /repo: the simulator's binary defines the libc entry points (open, read, write, pthread_create, syscall(futex), clock_gettime, ...) that the code under test and the Rust standard library call, and builds /repo's crate as an ordinary path dependency (compiled with LLVM edge callbacks through sim/wrap.sh).",source_commits=[]),
 checks=checks,not_applicable=[dict(property=p,reason=r) for p,r in NA.items()],
 notes="Replay: sim/target/debug/qsim replay FILE. Known and repaired defects: known_findings.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
