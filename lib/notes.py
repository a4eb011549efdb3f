FMT = "TLA+ format specification (printer and parser), TLC-generated objects replayed, recorded reads judged by TLC"
ODB = "TLA+ object store specification (TLC), trace validation of recorded histories of the real code"
REF = "TLA+ model of references and their resolution (TLC), trace validation of recorded histories of the real code"
NOTES = {
    "C01": (ODB, "TLC checks ObjectStore and enumerates all sequential histories of four (thorough: five) steps over two objects; they and random longer ones, with real git reading the result, run on the library and are explained by TLC. Bounded: sampled sizes (to 5 MB) and lengths. Trusted: TLC, the harness, git."),
    "C02": (ODB, "TLC checks that the write protocol with crashes and failures refines ObjectStore and refutes writing in place and shared temporary files. The real writer dies and fails at every file operation (interposed libc), also fails and later dies, fails repeatedly, or loses its folder to git; the resulting histories are validated. No power-loss model: what was written before a crash stays."),
    "C03": (ODB, "TLC checks the refinement for concurrent operations; its schedules and all single switches (random further ones) of 18 programs run on real threads under a deterministic scheduler at file operations, and free-running processes; all validated by TLC. Memory-level races inside one file operation are left to free running."),
    "C04": (ODB, "TLC checks that searching packs, loose objects and packs again, twice, never misses a stored object and refutes weaker protocols. git's steps (listed and random sequences, packs of any age) are placed at all (else random) positions of a real read, and TLC's schedules are replayed; all histories validated."),
    "C05": ("TLA+ pack and delta semantics; TLC-enumerated deltas and packs replayed, recorded reads judged by TLC", "Every enumerated delta program and small pack layout, plus random packs with long chains (to 5000), neighbouring bases, sparse packs over 4 GB and large objects, are read from real files and judged byte for byte (large ones by SHA-1 of a computed expectation)."),
    "C06": ("TLA+ index semantics; TLC-enumerated index contents replayed, recorded lookups judged by TLC", "TLC enumerates id sets around fan-out and prefix boundaries in v1/v2 indexes and several packs, refuting an off-by-one fan-out; lookups of present, neighbouring and absent ids are judged."),
    "C07": ("TLA+ model of reads through one shared pack handle (TLC); TLC-generated schedules replayed, recorded reads judged by TLC", "TLC checks that interleaved and failing reads through a shared file and buffer return what the pack says, and refutes five weaker protocols. Its schedules, sequences with injected faults, single switches of two readers, and free-running threads run on the real library; every result is judged by the pack specification. Bounded: sampled packs and schedules."),
    "C08": ("TLA+ delta/pack semantics as oracle for damaged input, recorded reads judged by TLC", "Enumerated contradictory deltas, random damage (lengths, truncation at every byte of small files, trailing data) of loose and packed objects; the specification says which reads must be errors and which intact objects must stay readable."),
    "C09": ("TLA+ model of following declared lengths and links (TLC); TLC-enumerated hostile repositories replayed, outcomes and memory judged by TLC", "TLC checks that reads of every small graph of deltas (loops, dangling, lying lengths) end within bounds and refutes not noticing loops and trusting lengths. These graphs, all pairs of hostile values of the fields of every file (quick: a sample), random damage, and very long chains and lists are read in full on a small stack; any panic, abort, hang or memory beyond what the data justifies is reported. Bounded: sampled damage; wall-clock limit of 40 s per case."),
    "C10": (FMT, "TLC checks printer/parser round trips over enumerated commits, which are replayed into the library stored loose and packed; random and damaged commits are judged byte by byte (git a second reader); commits of 131 073 parents and megabytes part by part. Bounded: sampled inputs beyond the enumeration. Trusted: TLC, the harness' zlib and pack encoder."),
    "C11": (FMT, "As C10 for trees."),
    "C12": (FMT, "As C10 for tags and blobs."),
    "C13": (FMT, "As C10 for identity lines in commits and tags."),
    "C14": (REF, "TLC checks that resolving step by step while references change answers as of some moment of the call. All small reference graphs and all placements of an update among the steps of a lookup, plus random histories (threads, real git as writer, failing calls), run on the library and are validated against Refs. Bounded: 5 names, chains up to the library's limit, sampled beyond."),
    "C15": (REF, "As C14 for listing: TLC checks walking folders against concurrent changes (a reference listed was there at some moment, one there all along is listed), refutes skipping a folder on errors. Directory contents, types, odd names, wide and deep folders, lock files and changes during the walk are replayed and sampled."),
    "C16": (FMT, "TLC checks the reference grammar and enumerates file contents; they and random ones are parsed through all entry points and judged."),
    "C17": ("TLA+ definitions of ids, order and prefix search; TLC-enumerated and random cases judged by TLC", "Every conversion, comparison and search result of the library is compared by TLC with the definitions, including binary search over sorted ids."),
    "C18": ("TLA+ model of buffered reading (TLC); TLC-enumerated read plans replayed below the library, outcomes judged by TLC", "TLC checks that the results of buffered operations do not depend on how reads are cut and interrupted and refutes wrong buffers. All plans of up to three (thorough: four) steps per read call, single cuts (sampled positions in large files) and random segmentation are applied to every read operation, intact and damaged. Bounded: sampled repositories."),
    "C19": ("TLA+ model of searching objects while calls fail (TLC); TLC-enumerated failures replayed below the library, outcomes judged by TLC", "TLC checks that failures never become absence and that the handle recovers, and refutes four ways of hiding failures. Every position, mode and errno of a failure is applied to every read operation with new, warm and old handles, each followed by a retry; reference histories with failures are validated against Refs. Bounded: sampled repositories."),
    "C20": ("TLA+ model of finding a repository and of which calls may change files; TLC-enumerated trees replayed, recorded effects judged by TLC", "TLC enumerates folder trees with and without .git as folder, file or absent, and starting points; each is opened for real, with every file call failing in turn. Histories of all operations with recorded file-system effects are judged by Effects. Bounded: trees of depth 3."),
    "C21": ("TLA+ path normalisation as oracle; TLC-enumerated names replayed with every opened path recorded and judged by TLC", "All names of up to three (thorough: four) components over a hostile alphabet, direct and through symbolic references, and random object reads: every path the library hands to the kernel has to lie below .git."),
    "C22": ("TLA+ model of the files and memory a handle keeps (TLC); TLC-enumerated programs repeated on the real code, recorded resources judged by TLC", "TLC checks that files stay within those of packs and readers, that repeating an operation adds nothing, and that closing releases everything, and refutes six ways of leaking. All programs of up to two (thorough: three) of 37 operations, failures and acts of git, and random longer ones, run 28 times on real handles; after every operation open files are counted, after every round memory and threads. Bounded: one repository."),
    "C23": ("TLA+ model of references and objects together (TLC), trace validation of recorded histories of the real code", "TLC checks that a reader who resolves HEAD and then reads what it leads to always finds it, at a value of some moment of the lookup, while git stores, sets, switches and moves; it refutes four mistakes (references set early, values or absence remembered, one search). git's steps placed between file operations of the library, and real git's commands (commit, merge, reset, switch, branch, gc, repack) between operations of a handle which stays open, are judged by ReachTrace. Bounded: 6 commits, 3 branches, sampled; one move per read."),
}
NA = {}
