P = "deterministic simulation with fault injection: the compiler itself, rewoven onto a simulated operating system (files, processes, clang, scheduler), seeded search; "
T = {
 "C10": (P + "exit status and diagnostics against the outcome of the fault-free run", "seeded search over command lines, failing operations and failing tools; clang is a stub"),
 "C11": (P + "outputs after a failure: absent, complete or as before", "seeded search over command lines, failing operations and failing tools; clang is a stub"),
 "C12": (P + "residue after every end, against the documented intermediate files", "seeded search over command lines and faults; clang is a stub"),
 "C13": (P + "every change of the file system checked as it happens", "seeded search over command lines, concurrency, faults and kills"),
 "C14": (P + "random interleavings of several commands, each judged against itself alone", "seeded search over schedules; outputs must be distinct"),
 "C15": (P + "kills at random operations, convergence of the rerun", "seeded search over kill points; kill of the process group, not of the machine"),
 "C16": (P + "partial and failing reads of sources against whole delivery", "seeded search over deliveries and read errors"),
 "C17": (P + "map orders, directories, environments, companions and schedules against the plain run", "seeded search over sources of nondeterminism"),
 "C18": (P + "damaged and extreme sources: diagnosis or valid IR, never a crash or hang", "seeded search over damaged sources; the verifier is the real llvm-as"),
 "C19": (P + "every run of clang against the meaning of the command line", "seeded search over command lines and tool failures"),
 "C20": (P + "outputs of joint compilation against each source alone", "seeded search over inputs, orders and failing inputs"),
}
