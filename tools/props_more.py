from spec import P, part

UBF = ["psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/client.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"]

P("C09", "Unbalanced PSI gives the exact join over any history of cached stages",
  "For any history of unbalanced PSI tasks (cache generation, cache transfer, online runs, or the combined modes) over one server cache, every online or full run gives each party entitled to the result exactly the rows the relational model gives for the tables the server had when its cache was made and the client had in that run; a cache may be reused by any number of online runs and clients, and a party not entitled to the result gets no output.",
  ["inputs", "histories", "configurations"], "all tables, mode histories, result-owner flags, server with or without its input file in the online mode",
  "Tests run one fixed sequence of modes over one table pair; stale caches, reuse and cache/input order are history properties.",
  UBF, [("server cache written and re-read", "psi/algorithm/ecdh/ub_psi/server.cc"), ("shuffled exchange and index restoring", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc")],
  ["output CSV files and reports of both parties after each task"],
  [part("h_ub", "ub_history", 1500, 30000, qbudget=60)],
  "A case is a pair of tables and a sequence of modes (offline generation, offline transfer, offline, online, full) with random flags; the client's table may change between online runs. Non-trivial: an online or full run with partly overlapping key sets. Oracle: relational model per run.",
  "Stateful generation over the production server and client classes in one process.")

P("C17", "An intersection threshold caps the released keys and nothing else",
  "With an intersection threshold t, a run releases exactly min(t, real intersection size) distinct common keys, the same set to every party entitled to the result; outputs are the relational result for those keys (rows repeated by the peer's duplicates of the same key), key counts in the report equal the released number, and the count file states the real and the released numbers.",
  ["inputs", "configurations"], "all tables, thresholds, join types and both protocols with thresholds (ECDH and unbalanced)",
  "Tests use inputs without duplicates and few sizes; which duplicate counts follow which released key is never checked.",
  ["experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc", "experiment/psi/threshold_ecdh_psi/sender.cc", "experiment/psi/threshold_ecdh_psi/receiver.cc", "experiment/psi/threshold_ub_psi/"],
  [("cap while intersecting", "experiment/psi/threshold_ecdh_psi/receiver.cc"), ("shuffle restored by the sender", "experiment/psi/threshold_ecdh_psi/sender.cc")],
  ["output files, count files and reports of both parties"],
  [part("h_ub", "threshold_psi", 1500, 30000, qbudget=60), part("h_ub", "threshold_ub", 600, 12000, qbudget=60)],
  "Tables as in C01 with a threshold drawn below, at or above the real intersection size. Non-trivial: the threshold is below the real size. Oracle: the released set must be a subset of the model intersection of the exact size, equal on both sides, and everything else is computed from it.",
  "Whole runs with the production party classes.")

P("C23", "Progress reports are exact sums, monotone, and consistent under concurrency",
  "Over any sequence of operations on a progress tree, every report equals the state computed from the declared modes, weights and leaf percentages: totals, finished and running jobs, the weighted overall percentage (100 exactly when all is done) and the description of the active phase; misuse is refused. With concurrent updates and readers, every report is one that some ordering explains: percentages never go down, stay within 0..100, finished+running never exceed the total, and no data race occurs.",
  ["histories", "schedules"], "all operation sequences over trees of depth up to 4, and all interleavings of updating and reading threads",
  "Tests check two hand-written trees and one thread.",
  ["psi/utils/progress.h", "psi/utils/progress.cc"], [("percentage and phase bookkeeping", "psi/utils/progress.cc")],
  ["Progress::Get, Progress::IsDone and the objects returned"],
  [part("h_progress", "progress_model", 20000, 400000), part("h_progress", "progress_concurrent", 4000, 100000, qbudget=30), part("h_progress", "progress_concurrent", 3000, 60000, qbudget=30, variant="tsan")],
  "A case is a random sequence of declarations, sub-progress creations, updates, completions and reads; the concurrent part runs updaters and readers in threads (also built with ThreadSanitizer). Non-trivial: the tree has at least two levels and several updates between reads. Oracle: an independent recursive model; for concurrency, invariants over each observed history.",
  "Model-based stateful testing; schedules are those the OS and injected yields give.", technique="model-based property testing, concurrent stress with ThreadSanitizer")

P("C24", "DP-PSI keeps its calibrated noise, budget split and sampling laws",
  "The Gaussian noise found for (epsilon, delta) satisfies the analytic Gaussian condition and is the smallest up to the search tolerance, the total budget is split so that its parts compose to no more than the whole, and in a DP-PSI run every index the receiver reports is in the true intersection except for the up-sampled ones, sub-sampling and up-sampling act as the declared rates say, suppressed results are empty, and the sizes both sides record agree.",
  ["inputs", "configurations"], "all privacy parameters in the supported range, all pairs of key sets and batch boundaries",
  "Tests check few parameter points and print counts; laws over ranges of parameters and outputs are not checked.",
  ["psi/legacy/dp_psi/dp_psi.cc", "psi/legacy/dp_psi/dp_psi_utils.cc"], [("noise calibration by root search", "psi/legacy/dp_psi/dp_psi_utils.cc"), ("sub- and up-sampling", "psi/legacy/dp_psi/dp_psi.cc")],
  ["returned sigma and budgets", "indices and sizes returned to both parties"],
  [part("h_dp", "gaussian_calibration", 20000, 400000), part("h_dp", "budget_split", 20000, 400000), part("h_dp", "dp_psi_laws", 500, 12000, qbudget=40), part("h_dp", "dp_psi_batches", 8, 200, qbudget=30)],
  "Random privacy parameters, and random pairs of key sets with sampling rates; one part uses sizes around the message batch of 8192 indexes. Non-trivial: the parameter point is inside the solvable range and not at a bound; the sets overlap partially. Oracle: independent evaluation of the analytic Gaussian condition in long double; set laws over the results of both sides.",
  "Domain: n >= 100, epsilon <= 8, delta in [1e-9, 0.45]; outside of it an unused helper does not terminate (see DESIGN.md).")

P("C18", "Batch providers deliver every row once, in full batches, in declared order",
  "Reading any batch provider to its end gives each input row exactly once: joined keys (and labels) equal the table's columns in the requested order, every batch but the last has exactly the batch size, the stream stays ended, and shuffling providers give a permutation whose reported indices and duplicate counts belong to the items they come with.",
  ["inputs", "configurations"], "all tables, batch sizes, chunkings of the file reader, label and delimiter choices",
  "Tests read small fixed files with one batch size; batch boundaries against file chunks and buffer refills are never varied.",
  ["psi/utils/arrow_csv_batch_provider.cc", "psi/utils/batch_provider_impl.cc", "psi/utils/batch_provider_impl.h"],
  [("chunked reading ahead", "psi/utils/arrow_csv_batch_provider.cc"), ("double-buffered shuffling", "psi/utils/batch_provider_impl.cc")],
  ["batches returned by ReadNextBatch, ReadNextLabeledBatch, ReadNextShuffledBatch, ReadNext, ReadAll"],
  [part("h_utils", "csv_provider", 30000, 500000, qbudget=15), part("h_utils", "memory_provider", 30000, 500000, qbudget=10), part("h_utils", "shuffled_provider", 20000, 400000, qbudget=15), part("h_utils", "memory_provider", 2000, 40000, qbudget=10, variant="asan")],
  "Random tables in random spellings, batch sizes around the row count and its divisors, reader chunks of 1..n rows; providers with uneven inner batches and duplicate counts. Non-trivial: more than one batch or chunk. Oracle: the table held in memory.",
  "Memory errors are caught by an AddressSanitizer build of one part.")

P("C19", "Sorted key tables map every key to its rows and give the exact outputs",
  "Sorting a table by keys is a stable ordering of its rows under byte (or numeric) order for any legal CSV spelling; the key table lists each distinct key once with its first row and duplicate count; and applying any set of matched keys with peer counts writes each matched row (1 + peer duplicates) times to the intersection, every other row once to the difference, with exact statistics. Key digests are equal exactly for equal key sets.",
  ["inputs", "configurations"], "all tables, key lists, spellings, batch sizes and matched sets with peer counts",
  "Tests use three tiny tables; quoting, key columns in other orders, batch boundaries inside runs of duplicates and digest equality are not covered.",
  ["psi/utils/table_utils.cc", "psi/utils/table_utils.h", "psi/utils/key.cc"],
  [("external sort", "psi/utils/key.cc"), ("key runs and index application", "psi/utils/table_utils.cc")],
  ["output CSV files, KeyInfo batches, counts, hash and StatInfo"],
  [part("h_utils", "sort_csv", 15000, 200000, qbudget=20), part("h_utils", "key_info", 15000, 200000, qbudget=25)],
  "Random tables (duplicates, up to 3 keys in any order, 16 spellings of values, CRLF, blank lines, missing final newline) and random matched sets. Non-trivial: more than one batch of keys. Oracle: stable sort and grouping of the rows in memory, digests of permuted and reduced tables.",
  "Values with line breaks inside fields are outside the domain: the external sort works on lines.")

P("C20", "Disk caches return what was written and intersections match keys exactly",
  "Over any history of writes, flushes, truncations and reopenings, bucket caches, client caches and server caches hold each item exactly once with its index and duplicate count, equal items fall into the same bucket, caches that disagree with their description are refused, and intersecting two stores gives exactly the common items with the peer's duplicate counts and totals.",
  ["histories", "inputs", "crash_points"], "all operation histories, item values, bucket numbers, batch sizes, and cuts inside the last record",
  "Tests write a few items once; reopening, truncation and items with separators or zero bytes are history properties.",
  ["psi/utils/hash_bucket_cache.cc", "psi/utils/hash_bucket_cache.h", "psi/utils/ec_point_store.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/bucket.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc", "experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc"],
  [("bucket files", "psi/utils/hash_bucket_cache.cc"), ("parallel comparison of batches", "psi/utils/ec_point_store.cc"), ("bucket results between parties", "psi/utils/bucket.cc")],
  ["items loaded from buckets and providers, indices and counts of intersections, files left behind"],
  [part("h_stores", "bucket_cache", 20000, 300000, qbudget=12), part("h_stores", "bucket_cache_sources", 10000, 100000, qbudget=6), part("h_stores", "store_intersection", 20000, 300000, qbudget=10), part("h_stores", "client_cache_store", 10000, 150000, qbudget=12), part("h_stores", "indices_by_items", 8000, 100000, qbudget=6), part("h_stores", "ub_cache", 20000, 300000, qbudget=6), part("h_stores", "bucket_results", 10000, 100000, qbudget=10), part("h_stores", "disk_cache", 10000, 100000, qbudget=6)],
  "Random histories over the stores against vectors in memory. Non-trivial: several items and more than one bucket or batch.",
  "A crash is simulated by cutting the last record of a bucket file; whole-run crashes are checked in C06.", technique="model-based property testing")

P("C21", "Index files hold each committed index once, in order, over any history",
  "After any sequence of cached writes, commits, closings, reopenings (appending or truncating) and a cut inside the last line, reading an index file gives exactly the committed (index, peer count) pairs in the order written, an index already committed is not written again by a repeated batch, and the in-memory reader gives its pairs in index order.",
  ["histories", "crash_points"], "all writer histories, cache sizes, reader chunkings and cut positions",
  "Tests write once and read once.",
  ["psi/utils/index_store.cc", "psi/utils/index_store.h"], [("append with recovery of committed entries", "psi/utils/index_store.cc")],
  ["pairs given by FileIndexReader and MemoryIndexReader, counts returned by the writer"],
  [part("h_stores", "index_store", 40000, 600000, qbudget=20)],
  "Random writer histories against a list of pairs. Non-trivial: more than two entries and three steps.",
  "", technique="model-based property testing")

P("C22", "CSV checking refuses bad files and digests exactly the selected columns",
  "The CSV checker accepts a file exactly when it has no byte order mark, no empty selected value and (unless skipped) no repeated selected key; it then reports the exact row count and a digest that depends on the selected values in order and on nothing else, and leaves no temporary file behind, whether it accepts or refuses.",
  ["inputs", "configurations"], "all tables, selected columns and skip flags",
  "Tests check one good and a few bad files.",
  ["psi/utils/csv_checker.cc"], [("external duplicate detection", "psi/utils/csv_checker.cc")],
  ["acceptance, data_count, hash_digest, files in the working folder"],
  [part("h_utils", "csv_checker", 12000, 150000, qbudget=30)],
  "Random tables with or without duplicates, empty values and byte order marks; metamorphic changes of selected and unselected columns for the digest. Non-trivial: several rows and one of the refusal reasons or several columns.",
  "Values without quotes, commas and line breaks (the checker's reader belongs to yacl).")

P("C30", "APSI table conversion loses nothing: merge, query and extract round-trip",
  "Merging rows and label columns per key gives one value per key that holds every row of that key in order, the count file states their numbers, and extracting the answer for any subset of keys gives back exactly the rows of those keys; extracted queries are the key column in order; a wrong number of label names is refused.",
  ["inputs", "configurations"], "all tables, label lists and queried subsets without the reserved separators",
  "Tests convert one table of four rows.",
  ["psi/utils/csv_converter.cc", "psi/utils/csv_converter.h"], [("row and column separators", "psi/utils/csv_converter.cc")],
  ["converted CSV files and returned row counts"],
  [part("h_utils", "apsi_converter", 30000, 400000, qbudget=20)],
  "Random tables with repeated keys and empty labels, any column order. Non-trivial: repeated keys and several labels. Oracle: grouping in memory and the round trip.",
  "Domain: values without commas, quotes, line breaks, 0x1E and 0x1F, which the converter does not escape.")

P("C10", "ECDH-OPRF obeys its identities and its PSI steps match equal items exactly",
  "For every curve, server key, client blinding and item, finalizing the evaluated blinded item equals the server's own evaluation, results are equal exactly for equal items under one key, fresh clients blind one item differently, and batched calls equal item-wise calls; and over two linked parties, for every batching, window and shuffling, the client's stored values meet the server's exactly on common items, with the duplicate counts and index mappings of the right items on both sides.",
  ["inputs", "configurations", "schedules"], "all items, keys, curves (FourQ, SM2, secp256k1), batch splits, windows, with or without shuffling and cache",
  "Tests check one curve setting over a few generated items; uneven batches, duplicate counts over several batches and shuffled answers are not covered.",
  ["psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_selector.cc"],
  [("blind, evaluate, unblind", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc"), ("batched exchange and shuffle", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc")],
  ["OPRF values, stored points, duplicate counts and indexes of both parties"],
  [part("h_oprf", "oprf_laws", 2500, 40000, qbudget=15), part("h_oprf", "oprf_psi", 2500, 40000, qbudget=15)],
  "Random curves, keys and items; for the PSI steps two parties in threads with uneven batches. Non-trivial: several items, and overlapping sets. Oracle: the OPRF identities, a reference evaluation with the server's key, and set operations over the items.",
  "")

P("C11", "Curve masks commute, follow equality, use the chosen curve, ignore batching",
  "For every supported curve cryptor, masking with two keys in either order gives one value for an item, masks are equal exactly for equal items, depend only on key and item (not on the batch, the thread or the object), have the stated length and survive serialization; and the curve is the configured one.",
  ["inputs", "configurations"], "all items, keys, batch sizes and curve types",
  "Tests check one batch per curve.",
  ["psi/cryptor/cryptor_selector.cc", "psi/cryptor/ecc_cryptor.cc", "psi/cryptor/ecc_cryptor.h", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/fourq_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc"],
  [("parallel masking of batches", "psi/cryptor/ecc_cryptor.cc")],
  ["HashInputs, EccMask, SerializeEcPoints, DeserializeEcPoints, GetMaskLength, GetPrivateKey"],
  [part("h_oprf", "ecc_cryptor", 3000, 50000, qbudget=20)],
  "Random items (empty, binary, long, repeated) and keys. Non-trivial: several items. Oracle: commutativity and metamorphic relations between calls.",
  "The IPP cryptors need AVX512-IFMA and are not run here; group arithmetic below the cryptors is yacl's and is replaced by OpenSSL/libsodium-style code of this framework.")

P("C12", "Hashing to Curve25519 is the RFC 9380 map for every message and tag",
  "For every message and every domain separation tag of 16 to 255 bytes the returned coordinate is that of curve25519_XMD:SHA-512_ELL2_RO_ of RFC 9380; other tag lengths are refused.",
  ["inputs"], "all messages and tags",
  "The test has the three vectors of the RFC, which reach neither all branches of the square-root selection nor padded field elements, long messages or long tags.",
  ["psi/cryptor/hash_to_curve_elligator2.cc"], [("expand, map, add and clear the cofactor", "psi/cryptor/hash_to_curve_elligator2.cc")],
  ["HashToCurveElligator2"],
  [part("h_oprf", "elligator2", 60000, 1500000, qbudget=15)],
  "Random messages (up to 70000 bytes) and tags. Non-trivial: the message is not empty. Oracle: a reference of the RFC's definition over OpenSSL big numbers, written from the text of the RFC.",
  "", technique="differential property testing against a reference implementation")

OK = "psi/algorithm/rr22/okvs/"
P("C13", "OKVS encodings decode to exactly the encoded values, for any items and threads",
  "For any set of distinct items and any values, the RR22 OKVS (Paxos, and Baxos with bins and threads) produces an encoding of the announced size that decodes every item to its value - one value or a row of values, with one or several threads, with or without randomization, for every index width and dense type, in place or on top of existing output; randomized encodings of the same items decode the same but differ; the row hash gives distinct sorted sparse indices within range; and the bin size covers the balls thrown.",
  ["inputs", "configurations", "schedules"], "all item sets, value matrices, index widths, dense types, bin sizes and thread counts",
  "Tests encode a few sizes with zero or sequential values; gap rows, boundary sizes of the index types, uneven bins per thread and randomized tails need particular sizes and draws.",
  [OK + "paxos.cc", OK + "paxos.h", OK + "baxos.cc", OK + "baxos.h", OK + "paxos_hash.h", OK + "simple_index.cc", OK + "dense_mtx.h", OK + "paxos_utils.h"],
  [("triangulation and back-substitution", OK + "paxos.cc"), ("bins built and solved by threads", OK + "baxos.cc"), ("row hashing", OK + "paxos_hash.cc")],
  ["Paxos/Baxos Solve and Decode outputs", "rows of PaxosHash", "bin sizes"],
  [part("h_okvs", "okvs_rows", 30000, 600000, qbudget=6), part("h_okvs", "okvs_paxos", 20000, 400000, qbudget=12), part("h_okvs", "okvs_baxos", 4000, 100000, qbudget=12), part("h_okvs", "bin_size", 15000, 300000, qbudget=6), part("h_okvs", "okvs_baxos", 250, 8000, qbudget=20, variant="asan")],
  "Random items (including small and structured ones), values, parameters and threads. Non-trivial: several items (Paxos), several bins (Baxos). Oracle: the decoded value must be the encoded one; the row hash and the bin-size bound are recomputed independently (the exact bound with high precision sums).",
  "Items of one encoding are distinct, as the protocols guarantee. A random linear system may be unsolvable with the configured small probability; such cases are retried, and only repeated failure counts.")

P("C14", "GF(2^128) algebra, binary matrices and code hashes obey their definitions",
  "For all operands, GF(2^128) multiplication, inversion, powers and matrix operations satisfy the field and linear-algebra laws of the reference field; binary dense matrices multiply, transpose, invert and copy as matrices over GF(2); and the AES-based code hashes are functions of key and item only, the same in every batch shape.",
  ["inputs"], "all field elements, matrix shapes up to the ones used, keys and items",
  "Tests check a handful of fixed values.",
  [OK + "galois128.cc", OK + "galois128.h", OK + "dense_mtx.cc", OK + "dense_mtx.h", OK + "aes_crhash.cc"],
  [("carry-less multiplication and reduction", OK + "galois128.cc"), ("row reduction", OK + "dense_mtx.cc")],
  ["Galois128 results, DenseMtx contents, AesCrHash outputs"],
  [part("h_okvs", "gf128", 200000, 4000000, qbudget=6), part("h_okvs", "dense_mtx", 60000, 1200000, qbudget=6), part("h_okvs", "hashes", 60000, 1200000, qbudget=6)],
  "Random and structured operands. Non-trivial: both operands differ from 0 and 1, matrices of more than one row. Oracle: a bitwise reference multiplication, naive matrix arithmetic and metamorphic relations.",
  "", technique="differential property testing against a reference implementation")

P("C15", "RR22 OPRF and bucketed RR22-PSI give each party exactly the common items",
  "For any item sets on both sides, mode (fast, low communication, malicious), bin size and thread count, receiver and sender evaluate the RR22 OPRF to equal values exactly on equal items; over any series of buckets and in sequential, pipelined or parallel order, started at any bucket, each entitled party gets for each bucket, once, the indexes of exactly the common items with the peer's duplicate counts; and the mocked VOLE correlations satisfy their equation.",
  ["inputs", "configurations", "schedules"], "all item sets, bucket contents (empty included), modes, run orders and start buckets",
  "Tests run a few equal-size sets in sequence; sizes at index-type boundaries, empty buckets, uneven sides and concurrency of the bucket pipeline are not covered.",
  ["psi/algorithm/rr22/rr22_oprf.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_utils.h"],
  [("OPRF over OKVS and VOLE", "psi/algorithm/rr22/rr22_oprf.cc"), ("pipeline of buckets", "psi/algorithm/rr22/rr22_psi.cc")],
  ["OPRF values of both parties", "calls of the post-processing function per bucket"],
  [part("h_okvs", "vole", 20000, 300000, qbudget=5), part("h_okvs", "rr22_oprf", 5000, 100000, qbudget=15), part("h_okvs", "rr22_psi", 8000, 200000, qbudget=15), part("h_okvs", "rr22_psi", 5000, 60000, qbudget=15, variant="tsan")],
  "Random bucket sizes (some empty) and overlaps, random modes. Non-trivial: an overlap that is neither empty nor full. Oracle: set operations over the items.",
  "The VOLE of yacl (Silent VOLE) is an external dependency that is absent offline; the framework's stand-in gives correct correlations, so yacl's own correctness is not judged.")

P("C31", "Cuckoo hashing loses no item: every one is in a bin of its hashes or the stash",
  "After any sequence of insertions into a cuckoo index, every inserted item is in exactly one bin that one of its hashes names, or in the stash; the reported smallest colliding hash is right; parameters chosen for an empty stash are large enough for nearly all inputs; and items that cannot be placed, or more hash functions than a code holds, are refused.",
  ["inputs", "histories", "configurations"], "all codes, parameters and splits of the insertions",
  "Tests insert random codes at once with five parameter sets and only check for duplicates.",
  ["psi/utils/cuckoo_index.cc", "psi/utils/cuckoo_index.h"], [("eviction and stash", "psi/utils/cuckoo_index.cc")],
  ["bins, stash, hashes and MinCollidingHashIdx of CuckooIndex"],
  [part("h_okvs", "cuckoo", 20000, 400000, qbudget=10), part("h_okvs", "cuckoo_reject", 20000, 400000, qbudget=5), part("h_okvs", "cuckoo", 15000, 300000, qbudget=10, variant="asan")],
  "Random numbers of inputs (with the boundaries of powers of two), parameters, and insertions at once or in several calls. Non-trivial: more than one input. Oracle: placement recomputed from the codes.",
  "For a few hundred inputs the parameters chosen for an empty stash fail with probability near 2^-16, explicitly and with no wrong result; a case counts as a violation only if fresh inputs fail repeatedly as well.")

P("C16", "KKRT-PSI gives exactly the common items with the sender's duplicate counts",
  "For any two sets of item hashes, message batch size and sequence of OT batches, the KKRT receiver gets the index of every one of its items that the sender has, once, and of no other, each with the number of times the sender holds it; every call form gives the same; an empty set on either side is refused by both parties.",
  ["inputs", "configurations"], "all item sets (sizes across the OT store refill of 512 and the cuckoo bins), duplicate counts, batch sizes",
  "Tests run a few sizes with sequential items and no duplicate counts; a wrong bin offset, hash index, refill or count shows only at certain sizes.",
  ["psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/kkrt/kkrt_psi.h"], [("cuckoo bins, OPRF refills and encodings in batches", "psi/algorithm/kkrt/kkrt_psi.cc")],
  ["KkrtPsiRecv and KkrtPsiRecvIndices results", "exceptions of both parties"],
  [part("h_mp", "kkrt", 12000, 250000, qbudget=20), part("h_mp", "kkrt", 2500, 50000, qbudget=15, variant="asan")],
  "Random set sizes on both sides (0 to some hundred, some thousand at times), overlaps, duplicate counts and batch sizes. Non-trivial: an overlap that is neither empty nor full. Oracle: set operations over the items.",
  "The OT extension underneath (IKNP/KKRT of yacl) is an external dependency that is absent offline; the framework's stand-in gives correct correlations. An item that fits into neither bins nor stash is an explicit error of small probability and is not counted.")

P("C25", "Multi-party PSI gives the receiver exactly the items all parties hold",
  "For any number of parties and any sets, every multi-party protocol (ECDH with three and n parties, KKRT and ECDH n-party trees, NTY aided and unaided, KMPRT17) gives the receiver exactly the items held by all parties, whatever the roles, the receiver rank and the curve, and the others the same items if and only if broadcasting was asked for.",
  ["inputs", "configurations", "schedules"], "2 to 6 parties, all set sizes (very small and uneven ones included), overlaps, roles, curves",
  "Tests run equal-size sets with a constant overlap and fixed roles.",
  ["psi/legacy/memory_psi.cc", "psi/legacy/factory.h", "psi/algorithm/ecdh/ecdh_3pc_psi.cc", "psi/algorithm/nty/nty_mp_psi.cc", "psi/algorithm/nty/server_aided_psi.cc", "experiment/psi/kmprt17_mp_psi/"],
  [("pairwise reductions of n parties", "psi/legacy/memory_psi.cc"), ("zero sharing over OKVS", "psi/algorithm/nty/nty_mp_psi.cc"), ("conditional zero sharing and OPPRF", "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc")],
  ["items returned to every party"],
  [part("h_mp", "mem_psi", 3000, 60000, qbudget=18), part("h_mp", "nty", 30000, 600000, qbudget=10), part("h_mp", "kmprt", 2500, 50000, qbudget=12), part("h_mp", "nty", 2500, 50000, qbudget=8, variant="asan"), part("h_mp", "kmprt", 500, 10000, qbudget=8, variant="asan")],
  "Random parties, sizes and overlaps of all pairs (an item may be held by some parties only). Non-trivial: the intersection of all is neither empty nor one whole set. Oracle: set operations over the items.",
  "KMPRT17 says explicitly when a very small set does not fit into its cuckoo table; such a run gives no result and is not counted.")

P("C26", "Legacy bucket PSI writes the exact join of plain files for every protocol",
  "For any plain CSV files, selected keys, protocol, bucket size, receiver rank, broadcast and sorting options, the legacy file-to-file PSI writes for every entitled party exactly its rows whose keys all parties hold, in sorted key order or input order as asked, reports the exact original and intersection counts, and gives the others no rows; files it refuses are refused by all parties.",
  ["inputs", "configurations"], "all tables, 1 to 3 key columns, bucket sizes from one row up, 2 to 4 parties",
  "Tests check one pair of generated files per protocol with one bucket size.",
  ["psi/legacy/bucket_psi.cc", "psi/legacy/bucket_psi.h"], [("bucket by bucket intersection and filtering by index", "psi/legacy/bucket_psi.cc")],
  ["output CSV files and reports of every party"],
  [part("h_mp", "bucket_psi", 3500, 70000, qbudget=25)],
  "Random tables and options; whole runs with all parties in threads. Non-trivial: the intersection is neither empty nor one whole set. Oracle: the relational model over the tables.",
  "Domain: values without quotes, commas and line breaks; repeated and empty keys are refused by the precheck, which C22 checks.")

P("C33", "PSI operators deliver each bucket's common items once, with counts, then finish",
  "For every operator of the plug-in interface (ECDH, KKRT, RR22), any stores of buckets (empty ones included), receiver rank and broadcast flag, the entitled parties' result receivers get for each bucket exactly the indexes of the common items with the number of times the peer holds them, each once and before the bucket is finished, and a party that is not entitled gets none.",
  ["inputs", "configurations"], "all bucket contents, numbers of buckets, ranks and broadcast flags",
  "Tests run one small data set per operator without duplicates or empty buckets.",
  ["psi/algorithm/ecdh/ecdh_operator.cc", "psi/algorithm/kkrt/kkrt_operator.cc", "psi/algorithm/rr22/rr22_operator.cc", "psi/interface.h"],
  [("operator over data and result stores", "psi/algorithm/rr22/rr22_operator.cc"), ("operator over data and result stores", "psi/algorithm/kkrt/kkrt_operator.cc")],
  ["indexes and counts added to the result receivers, calls of Finish"],
  [part("h_mp", "operators", 6000, 120000, qbudget=22), part("h_mp", "operators", 1000, 20000, qbudget=10, variant="tsan")],
  "Random buckets of random items for both parties. Non-trivial: an overlap that is neither empty nor full. Oracle: set operations per bucket.",
  "KKRT refuses an empty bucket on either side, by both parties.")

P("C27", "Spiral PIR answers every query with exactly the database row asked for",
  "For any database (row count, row length, contents), any supported modulus-switching sizes and any index, the client recovers from the server's response exactly the bytes of the row asked for, after any wire or file round trip of keys, queries, responses and databases; the parameters chosen fit the database; index-to-plaintext arithmetic covers all rows; indexes out of range are refused.",
  ["inputs", "configurations"], "all database shapes and contents, modulus-switching sizes, indexes, restarts of the server from a dumped database",
  "Tests query a handful of indexes on a few large databases with one modulus size and random contents.",
  ["psi/algorithm/spiral/spiral_client.cc", "psi/algorithm/spiral/spiral_server.cc", "psi/algorithm/spiral/params.cc", "psi/algorithm/spiral/util.cc", "psi/algorithm/spiral/serialize.cc"],
  [("query generation and response decoding", "psi/algorithm/spiral/spiral_client.cc"), ("expansion, first dimension and folding", "psi/algorithm/spiral/spiral_server.cc"), ("parameters for a database", "psi/algorithm/spiral/params.cc")],
  ["rows recovered by the client", "sizes chosen and offsets for an index", "objects after a wire round trip"],
  [part("h_spiral", "e2e", 1500, 60000, qbudget=22), part("h_spiral", "sizing", 20000, 400000, qbudget=5), part("h_spiral", "raw_db", 40000, 400000, qbudget=5), part("h_spiral", "convert", 60000, 600000, qbudget=4), part("h_spiral", "wire", 30000, 300000, qbudget=6), part("h_spiral", "e2e", 60, 3000, qbudget=15, variant="asan")],
  "Random database shapes with random and extreme contents, several queries each (first and last rows included), three ways to set the server up. Non-trivial: more than one row. Oracle: the database itself.",
  "The decryption noise is random; parameters leave a failure probability below 2^-40 per coefficient, so no wrong row is tolerated. Domain: one instance, the toy and default parameter families of the repository.")

P("C36", "Spiral's ring arithmetic and samplers agree with plain number theory",
  "For any operands, modular and ring arithmetic (Barrett reduction, CRT, NTT, additions, products, automorphisms, gadget decomposition) agrees with a schoolbook reference over the integers; noise and secret samplers follow their stated distribution; secret keys depend on all 128 bits of their seed.",
  ["inputs"], "all polynomials and 64/128-bit operands (extreme ones included), matrix shapes, gadget dimensions, seeds",
  "Tests compare a few random polynomials; edge operands, non-square shapes, transposed entries and weak seeding go unnoticed.",
  ["psi/algorithm/spiral/poly_matrix.cc", "psi/algorithm/spiral/poly_matrix_utils.cc", "psi/algorithm/spiral/gadget.cc", "psi/algorithm/spiral/arith/ntt.cc", "psi/algorithm/spiral/arith/", "psi/algorithm/spiral/discrete_gaussian.cc"],
  [("matrix operations in both forms", "psi/algorithm/spiral/poly_matrix_utils.cc"), ("gadget decomposition", "psi/algorithm/spiral/gadget.cc"), ("negacyclic NTT", "psi/algorithm/spiral/arith/ntt.cc"), ("modular arithmetic", "psi/algorithm/spiral/arith/")],
  ["coefficients of results", "samples"],
  [part("h_spiral", "arith", 200000, 4000000, qbudget=5), part("h_spiral", "ring", 6000, 120000, qbudget=10), part("h_spiral", "ntt_big", 400, 8000, qbudget=5), part("h_spiral", "gadget", 4000, 80000, qbudget=6), part("h_spiral", "gauss", 200, 4000, qbudget=5), part("h_spiral", "ternary", 200, 4000, qbudget=5), part("h_spiral", "key_entropy", 1, 4, qbudget=15), part("h_spiral", "ring", 800, 20000, qbudget=8, variant="asan"), part("h_spiral", "gadget", 800, 20000, qbudget=5, variant="asan")],
  "Random and boundary operands; small ring degrees for the schoolbook reference and full ones for the NTT. Non-trivial: operands that are not all zero. Oracle: schoolbook integer arithmetic with unsigned 128-bit numbers; moments and tail bounds for samplers with a false-alarm probability below 1e-9.",
  "The key-entropy check looks for two of 200000 seeds with equal keys, which would show that only 32 bits of the seed are used.")

P("C28", "SimplePIR, Piano and PPS lookups return exactly the database entry asked for",
  "For any database, parameters, sequence of queries (repeated ones included) and number of threads, SimplePIR recovers exactly the value asked for (whatever the modulus and noise within the parameters' budget), Piano returns exactly the entry for every query of its budget, and PPS returns exactly the bit or says explicitly that its hints do not cover the index; puncturable sets contain what they say, their keys survive a wire round trip, and SimplePIR queries carry errors of the requested distribution.",
  ["inputs", "histories", "configurations"], "all databases, moduli, dimensions, noise widths, set sizes, query sequences and thread counts",
  "Tests query a few indexes of one random database with one modulus (a power of two) and stop there.",
  ["experiment/pir/simplepir/client.cc", "experiment/pir/simplepir/server.cc", "experiment/pir/piano/client.cc", "experiment/pir/piano/server.cc", "experiment/pir/pps/client.cc", "experiment/pir/pps/server.cc", "experiment/pir/pps/ggm_pset.cc"],
  [("query noise and recovery", "experiment/pir/simplepir/client.cc"), ("hints, refresh and puncturing over a query history", "experiment/pir/piano/client.cc"), ("punctured sets and multi-query refresh", "experiment/pir/pps/client.cc"), ("puncturable pseudorandom sets", "experiment/pir/pps/ggm_pset.cc")],
  ["recovered values", "punctured keys and offsets sent to the server", "membership of sets"],
  [part("h_pir", "simplepir", 250000, 5000000, qbudget=9), part("h_pir", "simplepir_noise", 60000, 1000000, qbudget=6), part("h_pir", "piano", 12000, 300000, qbudget=10), part("h_pir", "pps_set", 300000, 5000000, qbudget=5),
   part("h_pir", "pps_single", 60000, 1000000, qbudget=6), part("h_pir", "pps_multi", 30000, 500000, qbudget=7), part("h_pir", "pps_coin", 6000, 100000, qbudget=6), part("h_pir", "pps_multi", 1500, 30000, qbudget=6, variant="asan"), part("h_pir", "piano", 400, 8000, qbudget=6, variant="asan")],
  "Random databases of every shape and sequences of distinct and repeated queries over one set of hints. Non-trivial: more than one entry and a query that is not the first entry. Oracle: the database; for the noise the decoded error of each query against its bound and sign balance; for sets a direct evaluation of the pseudorandom function.",
  "PPS is probabilistic: a query that its hints do not cover fails explicitly, and the share of such failures is bounded by the protocol's. Piano allows a bounded number of queries per set of hints; more are outside the domain.")

P("C05", "A party's messages expose nothing of its table but sizes and the agreed result",
  "In every PSI and unbalanced-PSI run, whatever the tables and options, no message contains a key outside the intersection, a value of another column, or a guessable form of either (its hash, encoding, digest or point under a known key); blinding is fresh in every run; message sizes depend only on the sizes of the tables and of the result; with ECDH a party that is not entitled to the result is sent nothing from which it could compute it, nor how often the other party's keys occur; and with KKRT no two encodings of the sender are equal.",
  ["inputs", "configurations", "programs"], "all tables with secret tokens as keys and values, protocols, curves, bucket sizes, joins, broadcast options and pairs of runs that differ only in secrets",
  "Tests look at outputs only; nothing looks at the traffic.",
  ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/cryptor/ecc_cryptor.h", "psi/interface.cc"],
  [("masked items, in both directions", "psi/algorithm/ecdh/ecdh_psi.cc"), ("fresh private keys", "psi/cryptor/ecc_cryptor.h"), ("evaluated masks of the sender", "psi/algorithm/rr22/rr22_psi.cc"), ("what is exchanged around the protocol", "psi/interface.cc")],
  ["every payload both parties send, in order and with its destination"],
  [part("h_priv", "wire_secrets", 2600, 60000, qbudget=14), part("h_priv", "fresh_blinding", 1200, 30000, qbudget=9), part("h_priv", "size_only", 1300, 30000, qbudget=10), part("h_priv", "ecdh_one_way", 800, 20000, qbudget=9), part("h_priv", "kkrt_encodings", 3000, 60000, qbudget=6), part("h_ub", "ub_secrets", 1200, 30000, qbudget=11)],
  "Tables with long random tokens, all traffic recorded. Non-trivial: secrets exist on both sides and some keys are common. Oracle: search of the traffic for every form of every secret (raw, hex, base64, the usual digests, and the points the peer could compute); comparison of two runs with the same tables (no common ciphertexts) and of two runs with other secrets of the same shape (same message sizes); for a party without entitlement, the masked items it receives against all pairs it could compare.",
  "The check covers what a passive party can recompute with the hash functions in the code; it is no proof of indistinguishability. Oblivious transfer and VOLE of yacl are stand-ins offline, and their own traffic is left out. The key digest both parties exchange when check_hash_digest is on is a designed exchange and only has to be equal for equal key sets.")

P("C35", "A run leaves only its outputs behind and disturbs neither files nor other runs",
  "For any task, finished or failed at any step, the input files and every other file beside inputs and outputs keep their contents, all temporary data is gone once the resources are released, and the only new files are the output, the count file, the trace and the recovery folder the task names; tasks that run at the same time in one process, over shared inputs too, each give the result they give alone.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "all tasks, steps of failure, bystander files, and sets of tasks side by side",
  "Tests never look at other files, and never run two tasks over one input at the same time.",
  ["psi/utils/arrow_helper.cc", "psi/utils/resource_manager.cc", "psi/utils/resource.cc", "psi/utils/join_processor.cc", "psi/interface.cc"],
  [("columns of an input", "psi/utils/arrow_helper.cc"), ("temporary folders", "psi/utils/resource.cc"), ("joined output", "psi/utils/join_processor.cc")],
  ["all files below the task's folders before and after", "outputs of tasks that run side by side"],
  [part("h_files", "footprint", 5000, 120000, qbudget=20), part("h_files", "side_by_side", 2000, 50000, qbudget=18), part("h_files", "side_by_side", 500, 12000, qbudget=16, variant="tsan")],
  "Random tasks with bystander files whose names resemble the program's own temporary names; one third of the runs are killed at a random step. Non-trivial: every case. Oracle: the snapshot before the run; for several tasks the relational model of each.",
  "Temporary folders are released by ResourceManager::RemoveAllResource, as the command line program does at its end.")

P("C29", "A task reaches the protocol exactly as described, by API, launcher or Kuscia",
  "For every task description, PsiExecute, UbPsiExecute, RunPsi, RunUbPsi, RunLegacyPsi, RunPir and RunDkPir start exactly the run described (protocol, role by rank, curve, sizes, keys, paths, join type and side, recovery, alignment, progress reporting) and return its report or failure unchanged; unknown protocols, roles, modes and logging levels are refused before anything runs; and every party of a Kuscia task derives the same parties in the same order with its own port and configuration.",
  ["inputs", "configurations"], "all combinations of the fields of the API structures, the launch messages and Kuscia task documents",
  "Tests call the API with one or two configurations; a field that is dropped, swapped or mapped to a neighbour shows only for values the tests do not use.",
  ["psi/apps/psi_launcher/launch.cc", "psi/apps/psi_launcher/kuscia_adapter.cc", "psi/config/psi.h", "psi/config/ub_psi.h", "psi/config/protocol.h"],
  [("API structures to protocol configuration", "psi/apps/psi_launcher/launch.cc"), ("Kuscia task to launch configuration", "psi/apps/psi_launcher/kuscia_adapter.cc")],
  ["the configuration the party is created with", "options passed to keyword PIR", "report and exceptions", "outputs of whole runs through the API"],
  [part("h_launch", "psi_execute", 60000, 1000000, qbudget=6), part("h_launch", "ub_execute", 60000, 1000000, qbudget=4), part("h_launch", "direct", 60000, 1000000, qbudget=4), part("h_launch", "pir_options", 60000, 1000000, qbudget=4), part("h_launch", "kuscia", 30000, 400000, qbudget=8),
   part("h_api", "psi_api", 4000, 100000, qbudget=14), part("h_api", "ub_api", 4000, 100000, qbudget=12)],
  "Random values for every field. Parties, the bucket PSI driver and keyword PIR are recorders, so every field of what would run is compared; further parts run whole PSI and unbalanced PSI tasks through the API. Non-trivial: a task that is started and does not fail by design. Oracle: the field-by-field meaning of the description; the relational model for whole runs.",
  "Keyword PIR itself (APSI over SEAL) is absent offline: only the options it is started with are checked. Fields that the chosen protocol does not use are not compared. The stand-in tracer writes a marker instead of a trace.")

P("C32", "A damaged message never makes a party read or write outside its buffers",
  "Whatever bytes a peer sends in place of a message of any protocol (cut, extended, emptied, doubled, with flipped bits or other contents, and with any count, size or index inside), the receiving party either refuses with an error or goes on with some result; it never reads or writes outside its buffers, indexes outside its own items or dies.",
  ["inputs", "fault_sequences", "configurations"], "all protocols, message positions, damages and inputs of the honest party",
  "Tests only run with an honest peer; a count or index that is taken from the wire unchecked shows only with a peer that lies or a link that damages.",
  ["psi/algorithm/rr22/rr22_utils.cc", "psi/algorithm/rr22/rr22_utils.h", "psi/algorithm/ecdh/ecdh_psi.cc", "psi/utils/serialize.h", "psi/utils/sync.cc", "psi/legacy/dp_psi/dp_psi.cc", "psi/algorithm/nty/nty_mp_psi.cc", "experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc", "experiment/psi/threshold_ecdh_psi/sender.cc", "experiment/pir/simplepir/network_util.cc", "experiment/pir/pps/receiver.cc", "experiment/pir/piano/client.cc", "psi/algorithm/spiral/spiral_server.cc", "psi/algorithm/sealpir/seal_pir.cc"],
  [("indices and chunks of masks", "psi/algorithm/rr22/rr22_utils.cc"), ("peer configuration", "psi/algorithm/ecdh/ecdh_psi.cc"), ("encodings", "psi/utils/serialize.h"), ("serialized keys and hints", "experiment/pir/pps/receiver.cc")],
  ["sanitizer reports, signals and exits of the parties"],
  [part("h_wire", "psi_damaged", 20000, 400000, qbudget=9, variant="asan")]
  + [part(h, p + "_damaged", n, n * 30, qbudget=q, variant="asan") for h, p, n, q in [
    ("h_mp", "kkrt", 20000, 4), ("h_mp", "operators", 20000, 5), ("h_mp", "mem_psi", 20000, 5), ("h_mp", "nty", 20000, 4), ("h_mp", "kmprt", 20000, 5), ("h_mp", "bucket_psi", 20000, 5),
    ("h_ub", "ub_history", 20000, 7), ("h_ub", "threshold_psi", 20000, 5), ("h_ub", "threshold_ub", 20000, 5), ("h_oprf", "oprf_psi", 20000, 5),
    ("h_pir", "simplepir", 20000, 3), ("h_pir", "piano", 20000, 4), ("h_spiral", "spiral", 20000, 6), ("h_sealpir", "sealpir", 4000, 6), ("h_pir", "pps_set", 20000, 2), ("h_pir", "pps_single", 20000, 4), ("h_pir", "pps_multi", 20000, 4), ("h_dp", "dp_psi_laws", 20000, 5)]],
  "Runs of every protocol in which one message of one party is damaged on its way (position, kind and bytes generated), under AddressSanitizer and UndefinedBehaviorSanitizer's memory checks, with abseil's and libstdc++'s bounds assertions. Non-trivial: the message was reached. Oracle: no sanitizer report, failed bounds assertion, signal or exit.",
  "The claim is about memory safety only: a damaged message may change the result. Requests for more than 1 GB of memory or 64 MB of file fail, as on a small machine; a case that only takes long (a damaged count) is set aside. Messages of yacl's oblivious transfer and VOLE, which are stand-ins offline, are not damaged, and receive time-outs are capped.")

P("C37", "Messages decode to what was encoded, and collectives deliver what was said",
  "Sizes, index lists, item lists with duplicate counts, and masked batches decode to exactly the value that was encoded, for all values, item bytes and counts; bytes that are no encoding are refused; gathered sizes and flags, broadcast results and pair channels deliver to every party exactly what each party contributed, for any number of parties; and a synchronised step returns its value everywhere or fails everywhere.",
  ["inputs", "schedules", "configurations"], "all values of the message types, damages of their encodings, party counts, holders and delays",
  "Tests send a handful of short ASCII items between two parties; items that are not text, 64-bit counts and more parties never appear.",
  ["psi/utils/serialize.h", "psi/utils/communication.h", "psi/utils/communication.cc", "psi/utils/sync.cc", "psi/utils/sync.h", "psi/utils/serializable.proto"],
  [("encoders and decoders", "psi/utils/serialize.h"), ("batches", "psi/utils/communication.h"), ("collectives", "psi/utils/sync.cc"), ("message formats", "psi/utils/serializable.proto")],
  ["decoded values", "return values and exceptions of the collectives at every party"],
  [part("h_wire", "encodings", 200000, 6000000, qbudget=10), part("h_wire", "encodings", 60000, 1000000, qbudget=8, variant="asan"), part("h_wire", "collectives", 8000, 200000, qbudget=10)],
  "Random values with boundary numbers, arbitrary bytes, empty and large items. Non-trivial: more than one entry (or a size above 127). Oracle: the value itself (round trip); for damaged encodings the protobuf library's verdict, and the round trip of what is decoded; for collectives the contributions.",
  "Links are the in-memory stand-in.")

P("C38", "SealPIR answers every query with exactly the database row asked for",
  "For any database (rows of any length, rows packed into one plaintext or split over several), number of dimensions and plaintext size, however the database was loaded (raw rows, views, hash-table form, dumped and read back) and in whatever form query, keys and response travel, the client decodes exactly the row it asked for, for every index and any number of clients with keys of their own; every ciphertext of a query is fresh, and the size of a query does not depend on the index.",
  ["inputs", "configurations", "histories"], "all row counts and lengths, dimensions, plaintext moduli, ways to load, indexes, message forms and sequences of queries of several clients",
  "Tests query one random index of a database of 256-byte rows with two dimensions; packing boundaries, split rows, whole hypercubes, other dimensions and the seeded string forms never appear.",
  ["psi/algorithm/sealpir/seal_pir.cc", "psi/algorithm/sealpir/seal_pir.h", "psi/algorithm/sealpir/seal_pir_utils.cc", "psi/algorithm/sealpir/seal_pir_utils.h", "psi/algorithm/sealpir/serializable.proto", "psi/algorithm/pir_interface/pir_db.cc"],
  [("packing of rows, query expansion, recursion", "psi/algorithm/sealpir/seal_pir.cc"), ("plaintext store", "psi/algorithm/sealpir/seal_pir_utils.cc"), ("rows split over plaintexts", "psi/algorithm/pir_interface/pir_db.cc")],
  ["decoded rows", "sizes and ciphertexts of the queries", "parameters derived from the database's shape"],
  [part("h_sealpir", "sealpir", 1500, 60000, qbudget=24), part("h_sealpir", "sealpir_lists", 1500, 30000, qbudget=5), part("h_sealpir", "sealpir", 60, 2000, qbudget=12, variant="asan")],
  "Random shapes around the packing boundaries (rows of a few bits less or more than a plaintext, its halves and multiples; whole hypercubes of plaintexts and their neighbours), databases of zeros, ones, sparse and random bytes, one to three queries of two clients over four message forms. Non-trivial: more than one row and a query that is not the first. Oracle: the database.",
  "SEAL is not available offline. A stand-in provides genuine BFV ciphertexts (uniform masks, errors, RNS form, rounding and modulus switching as in SEAL), so everything that SealPIR itself computes on coefficients is real; key switching is computed with the secret key and adds no noise, and SEAL's refusal of transparent ciphertexts is not modelled.")

APSI_NOTE = ("APSI and SEAL are not available offline. A functional double keeps their interfaces, message objects, stream formats, cuckoo table, bin bundles, polynomials over the plain modulus and power DAG; ciphertexts carry their slots in the clear, with SEAL's rules on NTT form, parameter levels and relinearisation checked. What is inside APSI is therefore trusted; everything the repository's own wrapper does with it is real. Queries are kept few enough for the cuckoo table, for which APSI refuses by chance.")
P("C39", "Keyword PIR returns exactly the stored labels of the queried keys",
  "For any key or key-label table, any valid parameters and any set of queried keys, the result file and match count hold exactly the queried keys that are stored, each with its own label, once: whether the database is one or split into buckets and groups, generated by any number of processes, in memory or saved and loaded again, streamed or not, driven by the command line, through the message API or through its C functions; a bucket without rows matches nothing, and fields with commas, quotes or line breaks survive.",
  ["inputs", "configurations", "histories"], "all tables, query sets, valid parameter files, bucket and group counts, process and thread counts, save/load and API histories",
  "Tests query one example table with fixed parameters and compare one file; several labelled matches, empty buckets, quoting, Paterson-Stockmeyer degrees and reloaded databases never appear.",
  ["psi/wrapper/apsi/receiver.cc", "psi/wrapper/apsi/sender.cc", "psi/wrapper/apsi/yacl_channel.cc", "psi/wrapper/apsi/utils/common.cc", "psi/wrapper/apsi/utils/csv_reader.cc", "psi/wrapper/apsi/utils/sender_db.cc", "psi/wrapper/apsi/utils/group_db.cc", "psi/wrapper/apsi/cli/entry.cc", "psi/wrapper/apsi/cli/sender_dispatcher.cc", "psi/wrapper/apsi/api/sender.cc", "psi/wrapper/apsi/api/receiver.cc", "psi/wrapper/apsi/api/sender_c_wrapper.cc", "psi/wrapper/apsi/api/receiver_c_wrapper.cc", "psi/wrapper/apsi/api/wrapper_util.cc"],
  [("queries and results of the receiver", "psi/wrapper/apsi/receiver.cc"), ("evaluation at the sender", "psi/wrapper/apsi/sender.cc"), ("buckets and groups", "psi/wrapper/apsi/utils/group_db.cc"), ("offline API", "psi/wrapper/apsi/api/receiver.cc")],
  ["the receiver's result file and match count", "keys and values returned by the API"],
  [part("h_apsi", "apsi_single", 4000, 100000, qbudget=12), part("h_apsi", "apsi_bucket", 2000, 50000, qbudget=10), part("h_apsi", "apsi_api", 2000, 50000, qbudget=10),
   part("h_apsi", "apsi_single", 600, 20000, qbudget=8, variant="asan"), part("h_apsi", "apsi_api", 300, 10000, qbudget=6, variant="asan"),
   part("h_apsi", "apsi_capi", 1000, 30000, qbudget=6), part("h_apsi", "apsi_capi", 300, 10000, qbudget=5, variant="asan")],
  "Random parameter files (degree, item width, table size, hash functions, bin size, query powers with and without Paterson-Stockmeyer), tables with 13 key spellings and plain, special and UTF-8 labels, queries mixing stored and absent keys. Non-trivial: at least one match, and a key that does not match. Oracle: the join of the two tables.",
  APSI_NOTE)
P("C40", "Duplicate-key PIR returns every row of the queried keys and counts them",
  "For any table in which keys repeat, any number of label columns and any queried keys, the receiver's result holds exactly all rows of those keys with the labels in their columns; with the count check, the sender's stored number is that number of rows, the true order is restored after the shuffle (of which every sender draws its own seed), and a receiver that states another number or leaves queried keys out of the count is refused: no number is stored and the order is not revealed to it.",
  ["inputs", "configurations", "fault_sequences"], "all tables, label sets, queries, modes and false counts",
  "The test runs one example in which every key has the same number of rows; uneven rows, no match, unused columns, quoting and lying receivers never appear.",
  ["psi/algorithm/dkpir/entry.cc", "psi/algorithm/dkpir/sender.cc", "psi/algorithm/dkpir/receiver.cc", "psi/algorithm/dkpir/sender_cnt_db.cc", "psi/algorithm/dkpir/common.cc", "psi/algorithm/dkpir/oprf_receiver.cc", "psi/utils/csv_converter.cc"],
  [("shuffled OPRF and count check", "psi/algorithm/dkpir/sender.cc"), ("results and their order", "psi/algorithm/dkpir/receiver.cc"), ("encrypted counts", "psi/algorithm/dkpir/sender_cnt_db.cc")],
  ["the receiver's result file", "the sender's count file", "return values"],
  [part("h_apsi", "dkpir", 3000, 80000, qbudget=16), part("h_apsi", "dkpir_count", 1500, 40000, qbudget=8), part("h_apsi", "dkpir_omit", 800, 20000, qbudget=6), part("h_apsi", "dkpir", 400, 10000, qbudget=8, variant="asan")],
  "Random tables of up to 40 keys with one to six rows each, one to three label columns in any order beside unused ones, both modes; in the second part the stated number of rows is changed on its way. Non-trivial: a key with several rows or several matches (result); the number was changed (count). Oracle: the rows of the table.",
  APSI_NOTE + " Only SM2 is run, as the stand-in for FourQ has no addition. With the count check all queried keys are stored (a documented precondition).")
P("C41", "A keyword PIR bucket database that is said to be done holds every row",
  "Whenever the building of a bucket database is interrupted, at any write and with any part of that write on disk, running it again gives a database with every row of the source file exactly once, or an error; and a source file with a repeated key is refused at building, also when worker processes build.",
  ["crash_points", "histories", "inputs"], "all write positions and torn writes of the building, tables, bucket and group counts",
  "Tests build once without interruption; a database left by a stopped process never appears.",
  ["psi/wrapper/apsi/utils/group_db.cc", "psi/wrapper/apsi/utils/group_db.h", "psi/wrapper/apsi/utils/csv_reader.cc", "psi/wrapper/apsi/api/sender.cc", "psi/utils/multiplex_disk_cache.cc"],
  [("division, groups, status", "psi/wrapper/apsi/utils/group_db.cc"), ("bucketing", "psi/wrapper/apsi/utils/csv_reader.cc")],
  ["number of rows of the built buckets", "results of a query of them", "errors of the building"],
  [part("h_apsi", "apsi_resume", 4000, 100000, qbudget=14), part("h_apsi", "apsi_dups", 4000, 60000, qbudget=6)],
  "Random tables, one to ten buckets in one to four groups; the building process ends at a generated file-system effect (and within it, after a generated share of the bytes). Non-trivial: the building was interrupted and completed by the second run. Oracle: the source table.",
  APSI_NOTE + " The model of a stop is the end of the process, not of the machine. An unreadable status file is an error and may be left.")
