#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays readable)."""
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
OUT=["output CSV of each party","the report returned to the caller"]

p("C01","Two-party ECDH PSI returns exactly the intersection",
 "When a two-party ECDH PSI task is reported successful, every party entitled to the result holds exactly its own rows whose key occurs in the other party's input, and its report carries the matching counts; rows of the two parties correspond line by line when both get the result. This holds for every batch size, duplicate layout, thread interleaving and message timing.",
 ["schedules","inputs","configurations"],"all interleavings of the masking/relay/receive threads of both parties, all per-message delays, all inputs, batch sizes, curves and result-visibility settings",
 "psi_test.cc runs a few fixed inputs, on whatever interleaving the machine happens to produce, with an instantaneous in-memory link",
 ["psi/algorithm/ecdh/ecdh_psi.cc","psi/algorithm/ecdh/sender.cc","psi/algorithm/ecdh/receiver.cc","psi/interface.cc","psi/utils/ec_point_store.cc","psi/utils/join_processor.cc"],
 [("three concurrent streams with batch indices on two link contexts","psi/algorithm/ecdh/ecdh_psi.cc"),("hash-bucketed comparison of dual masked items","psi/utils/ec_point_store.cc")],OUT)
p("C02","Two-party KKRT PSI returns exactly the intersection",
 "When a two-party KKRT PSI task is reported successful, every party entitled to the result holds exactly its own rows whose key occurs in the other party's input, with matching counts in its report; when both get the result the two outputs correspond line by line. This holds for every bucketing, duplicate layout, thread interleaving and message timing.",
 ["schedules","inputs","configurations"],"all interleavings and message timings, all inputs and bucket sizes including empty buckets and empty intersections",
 "tests sample a handful of inputs and one schedule",
 ["psi/algorithm/kkrt/kkrt_psi.cc","psi/algorithm/kkrt/sender.cc","psi/algorithm/kkrt/receiver.cc","psi/utils/bucket.cc"],
 [("per bucket OT extension with cuckoo/simple hashing","psi/algorithm/kkrt/kkrt_psi.cc"),("bucket negotiation","psi/utils/bucket.cc")],OUT)
p("C03","Two-party RR22 PSI returns exactly the intersection",
 "When a two-party RR22 PSI task (fast or low-communication, semi-honest or malicious) is reported successful, every party entitled to the result holds exactly its own rows whose key occurs in the other party's input, with matching counts in its report. This holds for every bucketing, duplicate layout, interleaving of the bucket pipeline and message timing.",
 ["schedules","inputs","configurations"],"all interleavings of the three pipeline stages and worker threads of both parties, message timings, inputs, bucket sizes",
 "tests use one or a few buckets and whichever pipeline interleaving occurs",
 ["psi/algorithm/rr22/rr22_psi.cc","psi/algorithm/rr22/rr22_psi.h","psi/algorithm/rr22/rr22_oprf.cc","psi/algorithm/rr22/rr22_utils.cc","psi/algorithm/rr22/sender.cc","psi/algorithm/rr22/receiver.cc","psi/algorithm/rr22/okvs/baxos.cc","psi/algorithm/rr22/okvs/paxos.cc"],
 [("bounded-queue pipeline prepare / oprf / intersect","psi/algorithm/rr22/rr22_psi.h"),("merge of per-thread matches under a lock","psi/algorithm/rr22/rr22_utils.cc")],OUT)
p("C04","Joined outputs follow the requested join, aligned between parties",
 "With any supported join type (inner, left, right, full outer, difference) and with repeated keys on either side, the rows each entitled party writes are exactly those the same relational join of the two inputs produces on its side, placeholder rows included. Unless alignment is disabled, line k of one party's output and line k of the other's always carry the same key, or an unmatched row opposite a placeholder.",
 ["schedules","inputs","configurations"],"all inputs with repeated keys, join types, left-side choices, protocols, schedules",
 "join tests drive the processor with hand-written index files, never the protocols that produce them",
 ["psi/utils/join_processor.cc","psi/utils/table_utils.cc","psi/utils/key.cc","psi/utils/index_store.cc"],
 [("sorted table + duplicate counts + index merge","psi/utils/join_processor.cc")],OUT)
p("C05","Unbalanced PSI returns exactly the intersection, across its phases",
 "After the server's cache is generated and transferred, any number of online rounds give every party entitled to the result exactly its own rows whose key occurs in the other's input, whether the phases run as separate tasks or together. This holds for every batch size, duplicate layout, interleaving and message timing.",
 ["schedules","inputs","configurations","histories"],"all phase histories (generate, transfer, offline, one or more online rounds, full), visibility settings, schedules and timings",
 "tests run each phase once in order with fixed data",
 ["psi/algorithm/ecdh/ub_psi/server.cc","psi/algorithm/ecdh/ub_psi/client.cc","psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc","psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc","psi/utils/ec_point_store.cc"],
 [("shuffled evaluated cache with origin indices","psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"),("blind/evaluate queue","psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc")],OUT)
p("C06","A crashed ECDH PSI task resumes to the uninterrupted result",
 "With recovery enabled, if one or both parties of an ECDH PSI task are killed at any instant (repeatedly, at any progress point) and both are then started again with the same configuration, the task completes and each party ends with exactly the outputs and counts an uninterrupted run gives.",
 ["crash_points","schedules","fault_sequences"],"all kill instants of either or both parties, torn at any system-call boundary, all numbers of restarts, all schedules",
 "the recovery test crashes at two scripted hook points, always both sides, never inside a file write",
 ["psi/checkpoint/recovery.cc","psi/algorithm/ecdh/ecdh_psi.cc","psi/algorithm/ecdh/sender.cc","psi/algorithm/ecdh/receiver.cc","psi/utils/hash_bucket_cache.cc","psi/utils/ec_point_store.cc","psi/utils/table_utils.cc","psi/interface.cc"],
 [("checkpoint file","psi/checkpoint/recovery.cc"),("counted, flushed point stores","psi/utils/ec_point_store.cc")],OUT,
 [("checkpoint","stage and item/bucket counts durable so far","psi/checkpoint/recovery.cc")])
p("C07","A crashed KKRT or RR22 PSI task resumes to the uninterrupted result",
 "With recovery enabled, if one or both parties of a KKRT or RR22 PSI task are killed at any instant and both are then started again with the same configuration, the task completes and each party ends with exactly the outputs and counts an uninterrupted run gives.",
 ["crash_points","schedules","fault_sequences"],"all kill instants of either or both parties at any system-call boundary, any number of restarts",
 "recovery tests crash only between buckets through scripted hooks",
 ["psi/checkpoint/recovery.cc","psi/algorithm/kkrt/sender.cc","psi/algorithm/kkrt/receiver.cc","psi/algorithm/rr22/sender.cc","psi/algorithm/rr22/receiver.cc","psi/utils/index_store.cc","psi/utils/bucket.cc"],
 [("parsed bucket count exchanged on restart","psi/checkpoint/recovery.cc"),("appendable index file","psi/utils/index_store.cc")],OUT)
p("C08","Parties with incompatible configurations never produce a result",
 "If the two parties of a balanced two-party PSI task disagree on a setting both must agree on (protocol, curve, roles, who gets the result, join type and left side, digest check, recovery, threshold, bucket size, batch size or other protocol parameters), neither party writes a result or reports success, and both end with an error within a bounded time. Parties whose settings agree are never refused.",
 ["configurations","schedules"],"all pairs of configurations differing in one or several agreed settings, all message timings",
 "tests cover a few mismatches on one schedule",
 ["psi/interface.cc","psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc","psi/checkpoint/recovery.cc"],
 [("exchange and comparison of a canonical configuration","psi/interface.cc")],OUT)
p("C09","A party not entitled to the result learns nothing from it",
 "When only one party may get the result, the other writes no output file, reports no intersection count, and the number and sizes of the protocol messages it receives do not depend on how large the intersection is, for inputs of the same shape. (Waiting polls, whose number depends on time, are not counted; neither is how keys spread over several buckets, nor the early end both parties are told of when the digest check finds equal key sets.)",
 ["inputs","schedules","configurations"],"all pairs of inputs of equal shape, protocols, schedules",
 "tests compare results of the entitled party only",
 ["psi/algorithm/ecdh/ecdh_psi.cc","psi/algorithm/rr22/rr22_utils.cc","psi/algorithm/kkrt/kkrt_psi.cc","psi/utils/sync.cc","psi/interface.cc"],
 [("result visibility flags","psi/interface.cc")],["messages on the link","output files","report"])
p("C10","A task whose peer or network fails ends with an error, never a hang",
 "If a peer dies, stalls or is cut off at any moment, the surviving party's task ends with an error within a bounded multiple of the configured timeouts, and never reports success with an incomplete result. When a fault heals within the timeouts the task still completes correctly.",
 ["fault_sequences","schedules","crash_points"],"all peer kill instants, partitions, delays and stalls, all schedules",
 "no test kills a peer or cuts the link",
 ["psi/utils/sync.h","psi/algorithm/rr22/rr22_psi.h","psi/algorithm/ecdh/ecdh_psi.cc","psi/algorithm/kkrt/kkrt_psi.cc","psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc"],
 [("polling wait with peer error flag","psi/utils/sync.h"),("exception collection over the three streams","psi/algorithm/ecdh/ecdh_psi.cc")],OUT)
p("C11","Storage errors never turn into a wrong but successful result",
 "If reads, writes, opens, renames or closes of a party's files fail, come up short or hit a full disk, that party's task either reports an error or succeeds with exactly the right output. It never reports success with missing, truncated or wrong rows.",
 ["fault_sequences","inputs"],"all placements of I/O errors, short transfers, interrupted calls and full-disk conditions over the run's file operations",
 "no test injects any I/O error",
 ["psi/utils/io.cc","psi/utils/index_store.cc","psi/utils/hash_bucket_cache.cc","psi/utils/table_utils.cc","psi/utils/join_processor.cc","psi/utils/key.cc","psi/checkpoint/recovery.cc","psi/utils/ec_point_store.cc"],
 [("status checks on streams and writers","psi/utils/io.cc")],OUT)
p("C12","Task progress is consistent, bounded and monotone under concurrency",
 "However many threads advance and read a task's progress at once, a reported percentage lies between 0 and 100 and never exceeds what the finished share of sub-jobs justifies, a later read never shows less than an earlier one, and once everything is done the report says 100%. No update is lost and no combination of calls blocks forever or crashes.",
 ["schedules","histories"],"all interleavings of updating and reading threads, sub-job layouts and weights",
 "progress_test.cc is single-threaded",
 ["psi/utils/progress.cc","psi/utils/progress.h","psi/legacy/bucket_psi.cc"],
 [("reader/writer lock plus atomics","psi/utils/progress.cc")],["Get() results"])
p("C13","The legacy bucketed and in-memory PSI operators return the intersection",
 "For every legacy protocol and visibility setting, a successful bucketed or in-memory run gives each entitled party exactly its own items or rows whose key occurs in the other inputs, in the promised order, with matching counts, and progress callbacks never report decreasing values. This holds for every bucketing, interleaving and message timing.",
 ["schedules","inputs","configurations"],"all protocols, bucket sizes, input orders, schedules and timings",
 "fixed inputs and one schedule per protocol",
 ["psi/legacy/bucket_psi.cc","psi/legacy/memory_psi.cc","psi/legacy/kkrt_2party_psi.cc","psi/legacy/base_operator.cc","psi/algorithm/rr22/rr22_operator.cc","psi/algorithm/ecdh/ecdh_operator.cc","psi/utils/csv_checker.cc","psi/utils/cuckoo_index.cc"],
 [("bucket by bucket operator runs","psi/legacy/bucket_psi.cc")],OUT)
p("C14","Three- and many-party PSI returns the intersection of all inputs",
 "A successful PSI among three or more parties gives each entitled party exactly the items present in every party's input, for every number of parties, size imbalance, interleaving and message timing between the parties.",
 ["schedules","inputs","configurations"],"all party counts, input shapes and receivers, all relative timings of the parties",
 "tests run fixed party counts over an instantaneous link",
 ["psi/algorithm/ecdh/ecdh_3pc_psi.cc","psi/legacy/ecdh_3party_psi.cc","psi/legacy/nparty_psi.cc","psi/algorithm/nty/nty_mp_psi.cc","psi/algorithm/nty/server_aided_psi.cc","experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc"],
 [("master/slave masking, tree of two-party runs, zero sharing","psi/algorithm/ecdh/ecdh_3pc_psi.cc")],OUT)
p("C15","Spill files and stores give back what was put in, once and in order",
 "Every item, index and duplicate count handed to the disk-backed caches, buckets and index files comes back exactly once, from its own bucket, in the documented order, however many there are and however writers and readers interleave; reopening continues where the flushed contents ended.",
 ["histories","schedules","inputs"],"all sequences of writes, flushes, reopenings and reads, all bucket counts and block sizes",
 "tests write once and read once with fixed sizes",
 ["psi/utils/hash_bucket_cache.cc","psi/utils/multiplex_disk_cache.cc","psi/utils/ec_point_store.cc","psi/utils/index_store.cc"],
 [("length/flat record files and counters","psi/utils/hash_bucket_cache.cc")],["read back contents"])
p("C16","Batch readers deliver every row exactly once and in order",
 "Whatever the batch size, file chunking and timing of the background prefetch, a batch reader hands out every input row exactly once, in file order (shuffled readers: as a permutation with correct indices), then signals the end, and the keys and labels of a row stay together. A read error is reported to the consumer, never turned into an early end.",
 ["schedules","inputs","fault_sequences"],"all batch sizes, chunkings, prefetch interleavings and read faults",
 "tests use a few sizes, no delays and no read errors",
 ["psi/utils/arrow_csv_batch_provider.cc","psi/utils/batch_provider_impl.cc","psi/utils/table_utils.cc"],
 [("future-based prefetch under a mutex","psi/utils/arrow_csv_batch_provider.cc")],["batches"])
p("C17","A damaged or incomplete unbalanced-PSI cache is never used silently",
 "If generating or transferring the cache is interrupted at any instant, or its files are left short, a later online task either fails with an error or gives exactly the right result, and regenerating or transferring again afterwards always restores correct results.",
 ["crash_points","histories"],"all kill instants during cache generation, transfer and online phases, followed by any sequence of phases",
 "no test interrupts a phase",
 ["psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc","psi/utils/ec_point_store.cc","psi/algorithm/ecdh/ub_psi/client.cc","psi/algorithm/ecdh/ub_psi/server.cc"],
 [("item counts in metadata checked on open","psi/utils/ec_point_store.cc")],OUT)
p("C18","Threshold PSI reveals the intersection only within its bound",
 "With an intersection threshold configured, a successful balanced or unbalanced threshold PSI gives the entitled parties rows from the true intersection only, all of them when it does not exceed the threshold and never more than the threshold allows, with the true count reported as documented, for every schedule and input.",
 ["schedules","inputs","configurations"],"all thresholds relative to the intersection size, inputs and schedules",
 "tests use one size above and below the threshold",
 ["experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc","experiment/psi/threshold_ecdh_psi/receiver.cc","experiment/psi/threshold_ecdh_psi/sender.cc","experiment/psi/threshold_ub_psi/client.cc","experiment/psi/threshold_ub_psi/server.cc"],
 [("truncation of revealed indices","experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc")],OUT)
p("C19","Differentially private PSI reveals only sampled items, hidden among noise",
 "In differentially private two-party PSI the receiver's result is a subset of its own items without repeats: intersection items that both sub-samplings kept, plus up-sampled noise drawn from its other items; with keep probabilities of 1 and 0 the result is exactly that, and otherwise the numbers fit the configured sub-sampling and epsilon. When no noise item is possible nothing is revealed, the samples are drawn afresh for every task, the sender gets no result, and the sizes both sides announce agree with the result — for every random choice, interleaving and message timing; when the peer or the link fails, a party that reports success still has such a result.",
 ["schedules","inputs","fault_sequences"],"all outcomes of the sub- and up-sampling randomness, all interleavings and network failures",
 "the test looks at precision on one random draw",
 ["psi/legacy/dp_psi/dp_psi.cc","psi/legacy/dp_psi/dp_psi_utils.cc","psi/legacy/dp_2party_psi.cc","psi/legacy/bucket_psi.cc","psi/legacy/memory_psi.cc"],
 [("Bernoulli sub-sampling and up-sampling around ECDH","psi/legacy/dp_psi/dp_psi.cc")],["revealed indices and sizes"])
p("C20","A finished task leaves no temporary data and never touches its inputs",
 "Whether a task succeeds or fails with an error, the temporary files and directories it created are gone when it returns (except the recovery folder when recovery is on), nothing appears next to its inputs, and the input files are unchanged.",
 ["fault_sequences","schedules","configurations"],"all protocols, outcomes, fault placements",
 "tests remove their scratch directories themselves and never look inside",
 ["psi/utils/resource_manager.cc","psi/utils/resource.cc","psi/utils/arrow_helper.cc","psi/interface.cc","psi/utils/key.cc"],
 [("scoped temporary directories","psi/utils/resource.cc")],["directory contents before and after"])
p("C21","Concurrent tasks in one process do not disturb each other",
 "Several tasks run at the same time by threads of one process, on separate links and files, behave as if each ran alone: same results, same cleanup, and an error in one never fails, corrupts or blocks another.",
 ["schedules"],"all interleavings of tasks sharing one process",
 "tests run the two ends of one task in one process, never several tasks",
 ["psi/utils/resource_manager.cc","psi/utils/resource.cc","psi/utils/random_str.h","psi/apps/psi_launcher/launch.cc"],
 [("process-wide resource registry","psi/utils/resource_manager.cc")],OUT)
p("C22","Offline/online PIR answers are the database entry asked for",
 "A query of the single-item PIR schemes with a preprocessing phase (Piano, PPS single- and multi-query, SimplePIR) returns exactly the requested database entry for every index, database size and shape, number of threads and clients, and any history of queries: repeated ones, refreshed hints, and ones whose reply was lost. PPS may say that a query is aborted, but not for ever, and never answers wrongly. What a server gets to see has the same shape whatever is asked (one position of each chunk, a set of fixed size, residues modulo q), is not repeated, and names the requested entry no more often than chance. A peer or link failure ends in an error or a right answer, never a wrong one.",
 ["schedules","inputs","histories","fault_sequences"],"all query histories, database sizes, parameters with a noise bound that allows decoding, and message timings",
 "tests issue a few queries on one schedule with one size",
 ["experiment/pir/piano/client.cc","experiment/pir/piano/server.cc","experiment/pir/piano/util.cc","experiment/pir/pps/client.cc","experiment/pir/pps/server.cc","experiment/pir/pps/ggm_pset.cc","experiment/pir/pps/receiver.cc","experiment/pir/pps/sender.cc","experiment/pir/simplepir/client.cc","experiment/pir/simplepir/server.cc","experiment/pir/simplepir/network_util.cc"],
 [("hint tables refreshed per query","experiment/pir/piano/client.cc"),("punctured pseudorandom sets","experiment/pir/pps/ggm_pset.cc"),("LWE query and recovery","experiment/pir/simplepir/client.cc")],["query answers","query messages"])
p("C23","Keyword PIR (APSI, DK-PIR) returns exactly the matching labels",
 "A keyword PIR query returns, for every queried key, the label stored by the server or the statement that the key is absent, for every input and message timing.",
 ["inputs","schedules"],"all databases, queries and timings",
 "tests use fixed databases",
 ["psi/wrapper/apsi/sender.cc","psi/wrapper/apsi/receiver.cc","psi/algorithm/dkpir/sender.cc","psi/algorithm/dkpir/receiver.cc"],
 [("homomorphic evaluation","psi/wrapper/apsi/sender.cc")],["query answers"])
p("C24","Spiral PIR decodes the requested database block",
 "For every database shape the default parameters accept (several rows per plaintext block, one, or several blocks per row), every index, every form of query and public keys the interface offers, any number of clients with keys of their own and any interleaving of their queries, the decoded answer is the requested row of the database the server holds now: also after the database was replaced, and after it was dumped and loaded in another server. A dump that was cut short is refused.",
 ["inputs","schedules","histories","fault_sequences"],"all databases, indices, query histories, clients and interleavings, dumps and replacements",
 "tests sample one database, one client and one query",
 ["psi/algorithm/spiral/spiral_server.cc","psi/algorithm/spiral/spiral_client.cc","psi/algorithm/pir_interface/pir_db.h"],
 [("query answers","psi/algorithm/spiral/spiral_server.cc"),("database dump","psi/algorithm/spiral/spiral_server.cc")],["decoded row","refused dump"])
p("C27","SealPIR decodes the requested database block",
 "For every database, index and parameter set the decoded SealPIR answer equals the requested database element.",
 ["inputs"],"all databases, indices, parameters",
 "tests sample parameter sets",
 ["psi/algorithm/sealpir/seal_pir.cc"],
 [("lattice encryption","psi/algorithm/sealpir/seal_pir.cc")],["decoded element"])
p("C25","Curve cryptors map, mask and serialise consistently",
 "For every supported curve, masking commutes, serialisation round-trips and hashing to the curve is deterministic and agrees between implementations of the same curve.",
 ["inputs"],"all inputs and keys",
 "tests sample random points",
 ["psi/cryptor/ecc_cryptor.cc","psi/cryptor/hash_to_curve_elligator2.cc","psi/cryptor/sm2_cryptor.cc"],
 [("group arithmetic","psi/cryptor/ecc_cryptor.cc")],["masked points"])
p("C26","Oblivious key-value stores decode every encoded pair",
 "Decoding an encoded key-value store at any inserted key returns the inserted value, whatever the number of worker threads and their interleaving, and any seed for which encoding succeeds.",
 ["schedules","inputs","configurations"],"all key sets, bin sizes, thread counts and interleavings of the bin workers",
 "tests use random keys and one schedule",
 ["psi/algorithm/rr22/okvs/baxos.cc","psi/algorithm/rr22/okvs/paxos.cc","psi/algorithm/rr22/okvs/simple_index.cc"],
 [("bins solved by a worker pool","psi/algorithm/rr22/okvs/baxos.cc")],["decoded values"])
p("C28","A task short of memory or threads fails and never hangs or errs silently",
 "When allocations of a party fail, or threads cannot be started, at any point of a task (balanced, unbalanced or legacy PSI), the task of that party ends with an error or the process ends, every peer ends too, and no party ever reports success with anything but the right result.",
 ["fault_sequences","inputs","schedules","configurations"],"all points at which an allocation or a thread start fails, in all protocols, roles and phases",
 "tests never make an allocation or a thread start fail",
 ["psi/algorithm/rr22/rr22_psi.h","psi/algorithm/kkrt/kkrt_psi.cc","psi/utils/sync.cc","psi/utils/table_utils.cc","psi/utils/join_processor.cc"],
 [("pipeline stages wait for each other","psi/algorithm/rr22/rr22_psi.h"),("asynchronous sender thread","psi/algorithm/kkrt/kkrt_psi.cc"),("rows put together in string streams","psi/utils/table_utils.cc")],["task status of each party","output file"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80,d['id']
print(len(P))
