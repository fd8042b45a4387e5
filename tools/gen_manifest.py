import json
T="deterministic simulation with fault injection: "
SIMNOTE=(" Real code: the whole library, compiled from /repo with a scheduler callback on every basic block, load and store; stubs: SHA-2/3 and BLAKE2 crates (not available offline; SHA-256 is a real implementation), storage, client threads' blocking primitives, time, hash keys."
 " Trusted: the reference model of ISA v1/v0, the simulator, rustc. Sequentially consistent interleavings only (weak memory reorderings are not simulated).")
FSNOTE=(" Real code: the generator binary as built from /repo, run as a process; stub: the kernel's file system, replaced at the libc boundary by a simulated one with page cache, directory entries, durability and faults."
 " Trusted: the file-system model (POSIX semantics, unsynced data and directory entries may be lost in any combination at a power cut), LD_PRELOAD interposition.")
C=[
("C01",T+"seeded interleavings, kills and failing allocations during cold start of the lazily built tables, random hash keys, every observation compared with a reference ISA",
 "Every observer in thousands of seeded cold starts saw exactly the reference tables; a sample of schedules, not all."+SIMNOTE),
("C02",T+"seeded interleavings of first uses with rejected (panicking) requests; deadlock, livelock, poisoning and step-bound detection under a controlled scheduler",
 "No explored schedule deadlocked, exceeded its step budget or failed a valid request; a sample of schedules."+SIMNOTE),
("C03",T+"encoder and decoder threads over a simulated code store with crashes, lost unsynced writes and restarts, checked against a shadow copy and a reference encoder",
 "Every instruction read back in the explored histories was the one written, at the reference bit layout."+SIMNOTE),
("C04",T+"seeded storage damage (bit flips, tears, lost and misplaced words) racing with executor and prover readers, both judged against a reference decoder",
 "Every damaged word read in the explored histories had the reference meaning in both views."+SIMNOTE),
("C05",T+"seeded histories of a mixed-version cluster (boot, upgrade, roll back, restart) compared node against node and with a reference ISA per version",
 "All nodes agreed on every shared index in the explored histories."+SIMNOTE),
("C06",T+"traps injected at every stage between decode and execute, on arbitrary words, under seeded interleavings, against a reference mask and frame check",
 "Every masked instruction in the explored histories was the canonical panic or nop and every illegal one was recognised."+SIMNOTE),
("C07",T+"text rendering into sinks that refuse, shorten, interrupt or fail writes at seeded points",
 "Every rendering in the explored runs delivered a prefix and reported the failure."+SIMNOTE),
("C08",T+"the real generator process on a simulated file system with short writes, EINTR, ENOSPC, EIO, EACCES and EMFILE at seeded calls",
 "No explored fault sequence made the generator claim success for an incomplete file, hang or touch another file."+FSNOTE),
("C09",T+"the real generator processes, interleaved call by call, killed or power-cut at seeded calls on a simulated file system; the visible and durable file is checked after every call",
 "In every explored history the file was wholly old or wholly new at every call boundary and after every crash."+FSNOTE),
("C10",T+"seeded histories of failed, killed, power-cut and concurrent regenerations followed by one undisturbed run, bounded-progress and convergence check",
 "Every explored history converged to the compiled prices in one undisturbed run."+FSNOTE),
("C11",T+"deployments, finalisations and verifications of code records racing with crashes and seeded damage, against a reference record format and SHA-256",
 "Every record read and every verification in the explored histories gave the reference verdict."+SIMNOTE),
("C12",T+"senders and receivers of call, return and precompile words in concurrent threads and successive incarnations, with seeded damage, tearing, duplication, reordering and misdelivery of words in flight, against a reference layout",
 "Every word received in the explored histories unpacked to the reference fields."+SIMNOTE),
("C13",T+"seeded call chains of honest and hostile frames (calls, returns, traps, pointer arithmetic, replayed and damaged words) with a ghost capability per slice as confinement invariant and a reference acceptance rule",
 "No explored call history accepted, refused or dereferenced a slice other than the reference rule allows."+SIMNOTE),
("C14",T+"simulated adversarial transactions (nested calls, transfers, stipends, traps, out-of-ergs faults) executed as real encoded instructions at the real prices; limits checked as invariants after every step",
 "No explored transaction passed a limit; a sample of histories."+SIMNOTE+" The machine that moves ergs between frames is the simulator's; words, decoding, prices, privileges, masks and limits are the crate's."),
("C15",T+"simulated call, trap, memory, queue and routing histories laid out with the published constants; aliasing, ordering and overflow checked as invariants after every step",
 "No explored history aliased; a sample of histories."+SIMNOTE+" The machine that hands out pages and timestamps is the simulator's; what it hands out (constants, address statics, decoded flags, prices) is the crate's."),
]
NA=[]
m={"version":1,"setup_cmd":"bash setup.sh",
"checks":[{"property":p,"quick_cmd":f"VERIF_TIER=quick bash run.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh {p}",
 "evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration","level_note":n} for p,t,n in C],
"not_applicable":[{"property":p,"reason":r} for p,r in NA],
"notes":"No hooks in /repo: the library is instrumented at compile time through RUSTC_WRAPPER (sancov callbacks) and the generator through LD_PRELOAD, so the shipped sources are the tested sources. Replay a violation with: bash replay.sh <file>. Found defects of the original tree and their repairs: known-findings.txt."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
