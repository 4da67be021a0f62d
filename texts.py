_P2 = 'Seeded sampling of whole two-party runs of the real launcher, protocol and I/O code (up to 80 rows) over a simulated link, scheduler and disk; the link library, OT/VOLE and curve arithmetic are stand-ins with the same message flow; judged against a relational model. Not exhaustive. '
NOTES = {
 'C19': 'Seeded sampling of whole two-party runs of the real operator (up to 120 items) over a simulated link and scheduler, with network failures; sampling rates are judged only where they are off beyond a chance of 1e-13 per run, so a small bias in the sampling would not be seen. Not exhaustive.',
 'C28': _P2 + 'Up to a drawn number of failing allocations (operator new) and thread starts of one or both parties at drawn points. A party whose process dies of a failed allocation (third-party libraries are not exception-safe) counts as failed; what matters is that nobody hangs and nobody reports a wrong result.',
 'C24': 'Seeded sampling of client and server histories of the real Spiral code under its default parameters (up to 32 plaintext blocks, two clients) over a simulated link, scheduler and disk, with network and storage failures; the word arithmetic of SEAL it builds on is a stand-in. Database sizes the default parameters refuse are out of contract; damage inside a dump (not its length) need not be noticed.',
 'C22': 'Seeded sampling of client and server histories of the real schemes (up to 1500 entries, 120 queries, two clients) over a simulated link and scheduler, with network failures; AES, PRG and random bits are stand-ins. What the server may learn is judged only by the shape of the queries and by how often they name the entry, not by a security proof. Not exhaustive.',
 'C18': _P2 + 'Threshold for inner joins; which part is revealed is free, but both parties must get the same part.',
 'C16': 'Seeded sampling of the real reader classes over the simulated disk and scheduler, with system-call storage faults, judged against the generated table; the arrow CSV parser underneath is a stand-in. Not exhaustive.',
 'C15': 'Seeded sampling of histories of the real store classes over the simulated disk, with system-call storage faults and kills (torn last write included; data handed to the kernel survives), judged against in-memory models. Not exhaustive.',
 'C13': 'Seeded sampling of whole runs of the real legacy operators (up to some dozens of items) over a simulated link, scheduler and disk; link library, OT/VOLE and curve arithmetic are stand-ins. Not exhaustive. Duplicate items are judged only where the input check is on (it must refuse them).',
 'C14': 'Seeded sampling of whole runs of the real many-party operators with three to six parties over a simulated link and scheduler; link library, OT and curve arithmetic are stand-ins. Not exhaustive.',
 'C05': _P2 + 'Sequences that regenerate the server cache without transferring it again are left to C17.',
 'C17': _P2 + 'Kill points are simulated system calls and message operations of the victim; at most two faults per run.',
 'C01': _P2, 'C02': _P2, 'C03': _P2,
 'C06': _P2 + 'A kill loses nothing already handed to the kernel (process crash, not power loss); kill points are system calls and message operations; at most four attempts per run.',
 'C07': _P2 + 'A kill loses nothing already handed to the kernel (process crash, not power loss); kill points are system calls and message operations; at most four attempts per run.',
 'C08': _P2 + 'Settings outside the balanced two-party configuration are not varied.',
 'C09': _P2 + 'Observes number and sizes of messages, not their contents: what the group elements themselves give away is a matter of cryptography.',
 'C11': _P2 + 'Faults are injected at system-call level inside the simulated disk; renames and flushes already done stay done. A process that ends with a message through arrow or a stream destructor counts as failing with an error.',
 'C20': _P2 + 'Checked when every party process has returned; runs that end inside the I/O library without returning are inconclusive. Kills are excluded: nothing can clean up after them.',
 'C21': _P2 + 'Two or three balanced tasks at a time, threads interleaved down to memory accesses of the code compiled with the access hooks.',
 'C10': _P2 + 'Kill points are system calls and message operations.',
 'C26': 'Seeded sampling of key sets and interleavings of the real Baxos/Paxos code down to single memory accesses, against a map as oracle; not exhaustive. Encodings that throw are counted as inconclusive.',
 'C04': _P2 + 'Alignment is judged by key, not by which of several equal-key rows face each other.',
 'C12': 'Seeded sampling of interleavings of the real psi/utils/progress.cc down to single memory accesses; not exhaustive. Sub-jobs are added in declared order or with equal weights.',
}
NOT_APPLICABLE = {
 'C23': 'APSI, SEAL and heu (the homomorphic libraries both keyword PIR schemes are built on) are not installed and cannot be fetched; without them none of the code that computes an answer exists, and stubbing them would leave only the stub under test.',
 'C27': 'SEAL is not installed and cannot be fetched, and SealPIR is a thin layer over it: a stand-in would be all that is under test.',
 'C25': 'A pure function of its input (group arithmetic): nothing for a scheduler or fault injector to decide; and the yacl curve library is not installed. The cryptors run inside every other scenario over a stand-in group.',
}
