import json
T="deterministic simulation with fault injection: "
C={
"C01":("seeded preemptive schedules of real threads at every edge, load and store; outcome compared with the same call alone in a pristine process",
 "Sampled interleavings (sequentially consistent memory) of 2-5 threads over generated grammars, documents and calls. Trusts the simulator's scheduler, allocator and interposed libc calls."),
"C02":("seeded preemptive schedules of the first calls of a cold process; outcome compared with the same call alone, deadlock and crash detection",
 "Sampled interleavings of the one-time initialisation; each run is a fresh process. Weak memory is not simulated."),
"C03":("threads suspended for ever at seeded steps, calls unwound by writer panics, callback panics and failed allocations; bounded-progress and pristine-process comparison",
 "Sampled suspension and unwinding points; progress bound is a multiple of the solo step count. First initialisation of the meta language is excluded by the statement."),
"C04":("seeded histories of calls with faults, unwinding and reused addresses in one process; each outcome compared with the same call first in a pristine process",
 "Sampled histories up to some hundred calls (single calls repeated up to some thousand times)."),
"C05":("seeded histories of parses into shared vectors with failures and failed allocations; prefix invariant and comparison with an independent reference interpreter",
 "Sampled grammars, documents and failing allocations; trusts the reference interpreter, which shares the lexical primitives of the read_token dependency."),
"C06":("seeded short, interrupted, zero, failing and panicking writes at byte offsets; comparison with an independent reference rendering",
 "Sampled metadata and fault scripts; every call checked for exact delivery or exact prefix and identity of the error."),
"C07":("seeded short, interrupted, zero, failing and panicking writes at byte offsets over sequences of reports; comparison with an independent reference rendering",
 "Sampled texts, ranges, errors and fault scripts."),
"C08":("seeded faults of write system calls on descriptors 1 and 2 and seeded schedules of printing threads; delivered bytes compared with reference renderings",
 "Sampled fault scripts and schedules. EBADF on a standard stream, which the Rust standard library hides by design, is not injected."),
"C09":("simulated disk with seeded open, stat, seek and read faults over repeated loads; comparison with the reference meta language and parser",
 "Sampled grammars, documents and fault scripts."),
"C10":("simulated disk contents after torn, lost, stale, doubled and flipped blocks and overwrites during the load; comparison with the reference meta language and parser",
 "Sampled damage of generated files; runs whose bytes mean a grammar outside the statement (left recursion, empty repeats) are discarded and counted."),
"C11":("long seeded histories with failures, faults and failed allocations; live heap bytes, blocks and descriptors read after each round",
 "96 rounds (256 in the thorough tier) per run; reports growth that continues between the checkpoints."),
"C12":("seeded sequences of nested searches with failing and panicking callbacks in several threads; comparison with a reference cursor",
 "Sampled metadata, searches and schedules."),
"C13":("seeded scripts of reads, skips, moves and differences over several copies of cursors in several threads with abandoned and suspended conversions; comparison with a reference cursor",
 "Sampled metadata, scripts and schedules. Skipping at an entry that closes a node which was never opened is outside the statement."),
"C14":("the same seeded plan run in differing simulated environments (clock, clock jumps, randomness, addresses, memory contents and reuse, alignment, stack depth, environment variables, terminal, processors, descriptors, file metadata); records and streams must be equal",
 "Sampled plans, three environments each. Output of several threads on one stream is compared only per call."),
"C15":("seeded plans of all calls with writer, callback, file, stream and allocation faults; every system call and library call with an outside effect is seen at the simulator's boundary, together with panic hook, environment and working directory",
 "Sampled plans. Effects are seen through libc entry points, descriptor use and raw probes; a direct system call instruction in the library would not be seen."),
"C16":("seeded sessions in which allocations fail at seeded depths, one or all from then on; comparison with the same call with enough memory and with later calls",
 "Sampled failure points. An allocation failure that aborts the process by std's choice cannot be told from one that unwinds: the simulator's allocation error hook unwinds."),
"C17":("seeded histories of refused grammars, documents and loads with failing allocations, file faults and threads; comparison with every failure a reference interpreter finds at the farthest place",
 "Sampled grammars and texts. Wording of conversion errors and invalid rules is not compared, and any of several failures at the same place and extent is accepted."),
}
NA={
"C20":"pure function of grammar and document: no schedule, clock, I/O, fault or history for a simulator to decide (C05 and C10 compare with the reference interpreter under faults, which covers part of it)",
"C21":"relation between two pure functions of the input; no nondeterminism or fault to simulate",
"C22":"pure property of one grammar text; no nondeterminism or fault to simulate",
"C23":"pure function of grammar and document; no nondeterminism or fault to simulate",
"C25":"termination and stack use of a pure function; no schedule or fault decides it, and it is known not to hold for left-recursive grammars and empty repeats",
"C26":"pure function of the metadata; writer faults are C06, the rest has nothing to simulate",
"C27":"pure function of the metadata; no nondeterminism or fault to simulate",
}
m={"version":1,"setup_cmd":"bash bin/setup.sh",
 "checks":[{"property":k,"quick_cmd":f"bash bin/check.sh {k} quick","thorough_cmd":f"bash bin/check.sh {k} thorough",
   "evidence_file":f"evidence/{k}.json","technique":T+v[0],"level":"exploration","level_note":v[1]} for k,v in C.items()],
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: all seams (writers, callbacks, libc calls, allocator, compiler instrumentation) exist outside the source. See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
