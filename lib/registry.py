"""What decides each property: module, technique, assurance."""
T = "TLA+ specification (TLC); traces of the real allocator validated against it; operation scripts generated by TLC"
N = ("Design invariants are checked exhaustively by TLC on bounded instances of Mempool.tla; the code is bound by validating logs of the real allocator "
     "(built from /repo, resources interposed at link time) against the same operators. Assurance for the code is that of the explored scripts; trusted: driver projection, TLC.")
REG = {
    "C10": dict(mod="mempool", technique=T, note=N),
    "C11": dict(mod="mempool", technique=T, note=N + " The copy-on-write race K2 is modelled (MempoolCow.tla) and listed as a known finding."),
    "C13": dict(mod="mempool", technique=T + "; systematic misuse of robust pools", note=N),
    "C14": dict(mod="mempool", technique=T, note=N + " The copy-on-write race K2 is modelled and listed as a known finding."),
    "C15": dict(mod="mempool", technique=T + "; configuration matrix over 64-bit values", note=N),
    "C16": dict(mod="mempool", technique=T + "; every resource request of every call made to fail in turn", note=N),
    "C17": dict(mod="mempool", technique=T + "; two-process (fork) traces", note=N),
    "C18": dict(mod="mempool", technique=T, note=N),
    "C19": dict(mod="mempool", technique=T + "; unmap failures injected", note=N),
    "C21": dict(mod="mempool", technique=T + "; populated pages read from the kernel's page map after every call", note=N),
}
TC = "TLA+ specification (TLC) of what a per-CPU helper call may do under any interruption; the compiled helpers single-stepped under a virtual kernel, every log validated against it"
NC = ("RseqCs.tla is checked exhaustively against the published algorithms under an interrupting kernel (RseqCsMC, with faulty variants expected to fail); the code is bound by "
      "executing the helpers compiled from /repo instruction by instruction, interrupting at every boundary: on x86-64 natively, on the other architectures in instruction-set simulators. Trusted: virtual kernel (cross-checked with the real one), simulators, driver.")
REG["C01"] = dict(mod="cs", technique=TC, note=NC)
REG["C02"] = dict(mod="cs", technique=TC + "; operand matrix executed natively", note=NC)
REG["C03"] = dict(mod="cs", technique=TC + "; CPU/mode/order matrix", note=NC + " K1 is listed as a known finding.")
REG["C05"] = dict(mod="cs", technique=TC + "; descriptors scanned; real kernel aborts", note=NC)

TR = "TLA+ specification (TLC) of registration, ownership and queries; logs of the library under a mock and the real kernel and C library validated against it; scripts generated by TLC"
NR = ("RseqReg.tla rules are checked exhaustively on a step-level model of concurrent initialisation and registration (RseqRegMC, faulty variants expected to fail); the code is bound by "
      "validating logs over ownership, kernel feature sizes, failures and thread schedules. Trusted: mock kernel (cross-checked with the running one), driver, TLC.")
REG["C07"] = dict(mod="reg", technique=TR, note=NR)
REG["C08"] = dict(mod="reg", technique=TR, note=NR)
TE = "TLA+ specification (TLC); the library's answers and requests under a made-up operating system validated against it"
REG["C09"] = dict(mod="env", technique=TE, note="CpuListMC checks the detection algorithm for every set of small CPU ids and every split, interruption and failure of the reads; the code is bound by validating its answers for kernel lists up to a page, reads split and failed, fallbacks and repeated calls. Trusted: stand-ins for open/read/readdir/sysconf, TLC.")
REG["C20"] = dict(mod="env", technique=TE, note="NumaMC checks the batching loop for all lengths in bounds; the code is bound by validating the page-move requests it makes (move_pages and numa_node_of_cpu replaced by recording stand-ins).")
REG["C04"] = dict(mod="percpu", technique="TLA+ specification (TLC): linearizability of histories of the compiled helpers, interleaved instruction by instruction under a virtual kernel",
                  note="PercpuMC checks that the retry loops over helpers obeying RseqCs refine Percpu.tla under every interruption (bounded); the code is bound by validating histories from systematic and random schedules of the compiled helpers. Sequentially consistent interleavings, x86-64; trusted: virtual kernel, driver.")

REG["C06"] = dict(mod="mo", technique="TLA+ specification (TLC): x86-TSO executions of the memory accesses recorded from compiled litmus threads must refine the source-level ordering rules; outcomes seen on the hardware and typed values checked against the same spec",
                  note="MoMC checks exhaustively that the intended translation of every pair of small threads to x86-TSO shows only outcomes Mo.tla allows (faulty translations expected to fail); the code is bound by recording, instruction by instruction, the accesses and fences of compiled litmus threads (classical and random, several compilers, levels and types) and letting TLC run x86-TSO on them; plus outcomes on the hardware and typed values; the other architectures by simulators and weak-memory machines (multi-copy atomic). Trusted: the memory models, the recorder's instruction decoding, TLC.")
REG["C12"] = dict(mod="mpconc", technique="TLA+ specification (TLC): linearizability of histories of the allocator, its code interleaved instruction by instruction between threads",
                  note="MempoolConcMC checks exhaustively a step-level model of free list, bump allocation, growth and pool lock (variants without a lock expected to fail); the code is bound by validating call/return histories, with item placement and contents, from systematic and random instruction-level schedules against MempoolLin.tla. Sequentially consistent interleavings of the library's own code; C-library calls are atomic; trusted: scheduler, stand-in mutexes.")
REG["C22"] = dict(mod="area", technique="TLA+ specification (TLC) of the thread's area and of unloading code with critical sections; the headers' accessors executed natively and by simulators of other architectures, and plug-ins unloaded under the running kernel, validated against it",
                  note="AreaMC checks exhaustively (3 threads) that the kernel never follows a reference to unloaded code when threads prepare as documented (3 faulty variants expected to fail); the code is bound by validating the bytes of the area before and after each call, for random areas, on x86-64 and eleven simulated targets, and by unloading plug-ins under the running kernel. Trusted: simulators, TLC.")
