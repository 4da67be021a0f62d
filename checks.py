"""Per property: binary, weighted scenarios, time budgets (seconds) and texts."""
from build_lists import CORE, EXPT, SPIRAL, SPIRAL_FAST
PSI_STUB = ['simulator core (threads, clock, allocator, network, disk faults)', 'word arithmetic of SEAL (shim)', 'yacl link/crypto/OT/VOLE API (shim)', 'arrow CSV reader/writer (shim)',
            'curve25519/FourQ group (ideal commutative group); SM2 and secp256k1 use the installed OpenSSL', 'absl/perfetto/gflags leftovers (shim)']
STUB_NOTE = {
  'sim_progress': dict(real=['psi/utils/progress.cc'], stub=['simulator core (threads, clock, allocator)']),
  'sim_psi': dict(real=sorted(CORE + EXPT + SPIRAL + SPIRAL_FAST), stub=PSI_STUB),
}
_PSI2 = 'one run = one seed: both complete party processes run RunPsi on generated CSV files; tables, configuration, thread schedule, message delays/drops, throttle window, stalls, clock skew, reader block size are drawn from the seed; '
_UB = 'one run = one seed: server and client processes run RunUbPsi through a drawn sequence of phases on generated CSV files; tables, configuration, schedule, message timings are drawn from the seed; '
_LEG = 'one run = one seed: every party is a process of its own and runs the legacy operators (bucketed PSI, in-memory PSI, n-party, many-party) on generated items; protocol, visibility, tables, schedule, message delays are drawn from the seed; '
RULES = {
  'C19': _LEG.replace('runs the legacy operators (bucketed PSI, in-memory PSI, n-party, many-party) on generated items','runs differentially private PSI (directly, through MemoryPsi or RunLegacyPsi) on generated items') + 'non-trivial = the parties were started with drawn sampling probabilities',
  'C22': 'one run = one seed: scheme (Piano, PPS, SimplePIR), database, parameters, query history (repeats, lost replies), number of clients, schedule, message timings and network failures are drawn from the seed; clients and servers are processes of their own; non-trivial = they were started',
  'C24': 'one run = one seed: database shape and contents, clients, query forms and history, dump and load, replacement, schedule, message timings and network or storage failures',
  'C18': _PSI2.replace('both complete party processes run RunPsi','both complete parties run RunPsi (or RunUbPsi) with a drawn intersection threshold') + 'non-trivial = the parties were started with a drawn threshold',
  'C28': _PSI2 + 'a drawn number of allocations (operator new) and thread starts of one or both parties fail at drawn points; non-trivial = the parties were started with faults armed',
  'C16': 'one run = one seed: one reader class (csv rows, shuffled, in memory, key infos of sorted and unique tables), a generated table, batch and block sizes, pauses of the consumer, schedule of the prefetch threads, an early drop, and storage faults are drawn from the seed; non-trivial = the reader was started',
  'C15': 'one run = one seed: one disk-backed store or cache class, its sizes, a history of writes, flushes, reopenings and reads (with several writer threads where the class allows it), and storage faults or kills are drawn from the seed; non-trivial = the history was started',
  'C13': _LEG + 'non-trivial = the parties were started with a drawn configuration',
  'C14': _LEG + 'non-trivial = three or more parties were started with drawn item sets (possibly empty)',
  'C05': _UB + 'non-trivial = a phase sequence with at least one online (or full) task was started',
  'C17': _UB + 'one or two faults (kill of either side at a drawn point, or a cache file cut short or removed) hit the phases; non-trivial = the faulted sequence was started',
  'C12': 'one run = one seed: job-tree shape, weights, reader and worker threads, scheduler mode and memory-preemption density are drawn from the seed; non-trivial = the tree was built and polled by at least one reader while workers ran',
  'C01': _PSI2 + 'non-trivial = the two parties were started with a drawn table pair',
  'C02': _PSI2 + 'non-trivial = the two parties were started with a drawn table pair',
  'C03': _PSI2 + 'non-trivial = the two parties were started with a drawn table pair',
  'C04': _PSI2 + 'non-trivial = the two parties were started with a drawn table pair and join type',
  'C06': _PSI2 + 'one to three interrupted attempts (either or both parties killed at drawn system calls or message operations, the survivor killed too or left to run into its timeouts) precede the run that must complete; non-trivial = the first attempt was started',
  'C07': _PSI2 + 'one to three interrupted attempts (either or both parties killed at drawn system calls or message operations, the survivor killed too or left to run into its timeouts) precede the run that must complete; non-trivial = the first attempt was started',
  'C08': _PSI2 + 'one or two settings of one party are changed (or only private ones, or none); non-trivial = the two parties were started',
  'C09': _PSI2 + 'the task runs twice, the second time with the entitled party\'s keys renamed so that the overlap changes; non-trivial = the pair of runs was started',
  'C10': _PSI2 + 'one fault is drawn: kill at a crash point or an instant, link cut (one or both ways, for good or healed), slow threads, a peer that never starts; non-trivial = the parties were started with a drawn fault',
  'C11': _PSI2 + 'up to four storage faults (EIO, ENOSPC, short transfers, EINTR, failing or half-done sort/tail/uniq pipelines) hit drawn file operations of one or both parties (balanced: a whole task; unbalanced: a drawn phase, followed by an online task); non-trivial = the task was started with faults armed',
  'C20': _PSI2 + 'the task ends well or through a drawn failure (full disk, missing key column, cut link, empty input, differing settings); non-trivial = the parties were started',
  'C21': 'one run = one seed: two or three tasks (own links, outputs; own or shared inputs), both sides hosted by one process each with one thread per task; one task may fail; schedule, memory-level preemption and message timings are drawn from the seed; non-trivial = both host processes were started',
  'C26': 'one run = one seed: key set, values, parameters, number of worker threads, thread schedule with memory-level preemption are drawn from the seed; non-trivial = an encoding was attempted',
}
CHECKS = {
  'C19': dict(bin='sim_psi', scen='c19_dp:2,c19_net:1', quick=40, thorough=900),
  'C28': dict(bin='sim_psi', scen='c28_psi:4,c28_ub:2,c28_legacy:1', quick=50, thorough=1200),
  'C24': dict(bin='sim_psi', scen='c24_spiral:2,c24_net:1', quick=45, thorough=900),
  'C22': dict(bin='sim_psi', scen='c22_pir:2,c22_net:1', quick=40, thorough=900),
  'C18': dict(bin='sim_psi', scen='c18_ecdh:2,c18_ub:1', quick=45, thorough=1200),
  'C16': dict(bin='sim_psi', scen='c16_reader', quick=40, thorough=900),
  'C15': dict(bin='sim_psi', scen='c15_store', quick=40, thorough=900),
  'C13': dict(bin='sim_psi', scen='c13_legacy', quick=45, thorough=1200),
  'C14': dict(bin='sim_psi', scen='c14_many', quick=45, thorough=1200),
  'C11': dict(bin='sim_psi', scen='c11_storage:4,c11_ub:2,c11_legacy:1', quick=50, thorough=1500),
  'C20': dict(bin='sim_psi', scen='c20_leave:4,c20_ub:2,c20_legacy:1', quick=45, thorough=900),
  'C21': dict(bin='sim_psi', scen='c21_many', quick=50, thorough=1200),
  'C06': dict(bin='sim_psi', scen='c06_resume', quick=50, thorough=1500),
  'C07': dict(bin='sim_psi', scen='c07_resume', quick=50, thorough=1500),
  'C08': dict(bin='sim_psi', scen='c08_config', quick=40, thorough=900),
  'C09': dict(bin='sim_psi', scen='c09_blind', quick=40, thorough=900),
  'C10': dict(bin='sim_psi', scen='c10_net:4,c10_ub:2,c10_legacy:1', quick=50, thorough=1200),
  'C26': dict(bin='sim_psi', scen='c26_baxos:1,c26_paxos:1', quick=40, thorough=900),
  'C05': dict(bin='sim_psi', scen='c05_ub', quick=45, thorough=1200),
  'C17': dict(bin='sim_psi', scen='c17_ub_cache', quick=50, thorough=1200),
  'C12': dict(bin='sim_progress', scen='c12_progress:5,c12_extra:1', quick=60, thorough=900),
  'C01': dict(bin='sim_psi', scen='c01_ecdh:4,c01_quoted:1', quick=45, thorough=1200),
  'C02': dict(bin='sim_psi', scen='c02_kkrt', quick=45, thorough=1200),
  'C03': dict(bin='sim_psi', scen='c03_rr22', quick=45, thorough=1200),
  'C04': dict(bin='sim_psi', scen='c04_join:4,c04_text:1', quick=45, thorough=1200),
}
