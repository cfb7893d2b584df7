from spec import P, part

APP = ["psi/interface.cc", "psi/apps/psi_launcher/factory.cc", "psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/utils/index_store.cc"]
ALG = ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_oprf.cc", "psi/utils/hash_bucket_cache.cc"]
SCN = ("A case is a pair of CSV inputs (1-3 key columns under independent names and column orders, key values from 11 styles incl. quotes, commas, spaces, unicode, leading zeros, "
       "duplicated keys and rows) and a configuration (protocol, curve or bucket size, batch size, ranks, broadcast, keys_unique, digest check, recovery, null text, join type and left side, reader batch size). ")

P("C01", "Inner join output is exactly the rows whose key the peer also has",
  "After a two-party PSI run on valid inputs with an inner (or unspecified) join, the output file of every party entitled to the result has the same columns as its input and holds, as a multiset, exactly its input rows whose key the peer also has, each repeated once per peer row with that key. This holds for every protocol (ECDH on each curve, KKRT, RR22), key count, duplication pattern, batch or bucket size, reader chunking and party ranking.",
  ["inputs", "configurations"], "all pairs of input tables with the selected key columns, all supported protocol settings",
  "The end-to-end tests run a few hand-written tables per protocol; wrong results that depend on sizes around batch or bucket limits, on duplicates, on key values or on parameter combinations are never sampled.",
  APP + ALG, [("intersection indices translated into rows", "psi/utils/join_processor.cc"), ("per-protocol intersection", "psi/algorithm/")],
  ["output CSV files of both parties"],
  [part("h_e2e", "inner_join", 6000, 60000)],
  SCN + "Non-trivial: the two key sets overlap and neither the intersection nor the difference is empty. Oracle: relational inner join computed directly on the generated tables.",
  "Random search over whole two-party runs with the production party classes; both parties are threads of one process over an in-memory link.")

P("C02", "Left, right, full and difference joins match relational semantics",
  "With an advanced join type, each party's output holds, as a multiset, its matched rows (repeated per peer duplicate; none for a difference join), its own unmatched rows where the join type and left side keep them, and one row made only of the configured null text for every peer row the join keeps without a match.",
  ["inputs", "configurations"], "all pairs of tables x join types x left side x protocol settings",
  "Tests use a handful of tables per join type; combinations of join type, side, duplicates, null text and protocol are not covered.",
  APP, [("result assembly per join type", "psi/utils/join_processor.cc"), ("null row writing", "psi/utils/table_utils.cc")],
  ["output CSV files of both parties"],
  [part("h_e2e", "advanced_join", 6000, 60000)],
  SCN + "Always one of left/right/full/difference. Non-trivial: the key sets overlap partially. Oracle: relational joins computed on the generated tables.",
  "Random search over whole two-party runs against a relational model.")

P("C03", "Both parties' outputs are aligned line by line",
  "When both parties receive the result and neither disabled alignment, the two output files have the same number of lines and line i of both belongs to the same key, except that one of the two may be a null row in joins that keep unmatched rows.",
  ["inputs", "configurations"], "all pairs of tables, join types, protocols, key uniqueness declarations and column orders",
  "Tests compare against fixed files for sorted ASCII keys; alignment rests on both parties sorting and enumerating independently, which only varied key values, column orders and key names expose.",
  APP, [("independent sorting of both outputs by the join keys", "psi/utils/join_processor.cc"), ("external sort of the input", "psi/utils/key.cc")],
  ["output CSV files of both parties"],
  [part("h_e2e", "alignment", 6000, 60000)],
  SCN + "Broadcast is always on. Non-trivial: the key sets overlap partially.",
  "Random search over whole two-party runs; line-by-line comparison of both outputs.")

P("C04", "Reported row and key counts equal the true counts",
  "The report of a finished run states the party's own input row count and distinct key count, and, for a party entitled to the result, the number of its rows and of distinct keys that are in the intersection; a party not entitled gets -1 and 0 instead of intersection figures.",
  ["inputs", "configurations"], "all pairs of tables and configurations",
  "Tests assert counts for a few fixed tables only.",
  APP + ["psi/apps/psi_launcher/report.h"], [("statistics gathered while exchanging duplicate counts", "psi/utils/join_processor.cc"), ("report filling", "psi/interface.cc")],
  ["report returned by the run"],
  [part("h_e2e", "reports", 6000, 60000)],
  SCN + "Non-trivial: the key sets overlap partially. Oracle: counts computed on the generated tables.",
  "Random search over whole two-party runs against directly computed counts.")

CRASH = ["psi/checkpoint/recovery.cc", "psi/utils/index_store.cc", "psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.cc"]
P("C06", "Invalid or mismatched task configurations are refused by both parties",
  "If a required setting is missing or invalid on one side (no or repeated keys, a key column that is not in the input, a missing or empty input file, rows with the wrong number of fields, unspecified protocol, curve or file types) or the two parties disagree on a setting that both must share (protocol and its parameters, join type, left side, broadcast, digest check, recovery, null text, threshold, roles), then both parties end with an error, promptly and without waiting for a network timeout, and neither writes an output file.",
  ["inputs", "configurations"], "every single-point corruption of a valid pair of configurations",
  "Tests check a few refusals on one party; that both parties refuse, before any output and without a hang, depends on the exchange between them.",
  APP + ["psi/config/psi.h", "psi/config/protocol.h", "psi/utils/arrow_csv_batch_provider.cc"], [("self and peer config checks", "psi/interface.cc"), ("exchange of the configuration", "psi/interface.cc")],
  ["error of each party's run", "presence of output files"],
  [part("h_config", "config_refused", 6000, 80000, qbudget=60)],
  "A case is a valid random scenario (see C01) with one of 20 defects put into one party's configuration or input. Non-trivial: all (each case has a defect). Oracle: both runs throw, no output exists, no timeout is reported.",
  "Mutation of valid configurations; metamorphic oracle (must be refused).")

P("C07", "A run resumed after any failure gives the result of an uninterrupted run",
  "With recovery enabled, if a run fails at any point (an error return in any link operation, the death of either or both hosts at any link or file operation, including a torn write, or the loss of only one party's progress), running the same tasks again on the surviving recovery folders completes with exactly the output rows, alignment and report figures of a run that never failed.",
  ["inputs", "crash_points", "histories"], "all inputs, protocols, crash points, and sequences of up to three failures before the final run",
  "Unit tests resume from one fixed state; the crash points and the mixes of progress of the two parties are unboundedly many.",
  APP + ALG + CRASH, [("checkpoint file", "psi/checkpoint/recovery.cc"), ("index writer reopening", "psi/utils/index_store.cc"), ("reuse of stored EC points", "psi/algorithm/ecdh/ecdh_psi.cc")],
  ["output files and reports of both parties after the final run"],
  [part("h_crash", "crash_recovery", 1500, 40000, qbudget=90), part("h_crash", "crash_recovery_threshold", 500, 10000, qbudget=60)],
  SCN + "Recovery is on; one or more faults are injected at random operation counts: link errors, host death at a link operation, host death at a write/rename/fopen (with torn write), or one party reset to an earlier snapshot. Non-trivial: a fault really interrupted a run and the key sets overlap partially. Oracle: relational model, as C01-C04.",
  "Fault injection by interposed file operations and link hooks; the process state is dropped and only the recovery folder survives.",
  state=[("RecoveryCheckpoint", "stage and counters of the interrupted run", "psi/checkpoint/checkpoint.proto")])

P("C08", "A checkpoint of a different task is never reused",
  "With recovery enabled, if a recovery folder holds the state of an interrupted run and the task is started again with a different configuration, different selected keys, or different key sets in the input, then either both parties refuse, or the outputs are the correct result of the new task; rows of the old task never appear.",
  ["inputs", "histories"], "all pairs of tasks (old, new) that differ in configuration or data, and all interruption points",
  "Tests do not mix checkpoints across tasks.",
  APP + CRASH, [("comparison of the stored configuration and input digest", "psi/checkpoint/recovery.cc")],
  ["outputs and errors of both parties"],
  [part("h_crash", "resume_mismatch", 2400, 40000, qbudget=60)],
  "A case interrupts one task at a random operation and starts another task that differs in one respect (protocol, curve or bucket size, broadcast, join type, keys, rows) on the same folders. Non-trivial: the first run was really interrupted. Oracle: refusal by both, or the relational result of the new task.",
  "Two-task histories over whole runs against the relational model.")

P("C34", "A failing peer leads to an error, never to a hang or a wrong result",
  "When a party's link fails or its peer disappears at any point of a run, the party returns with an error within the link timeout plus a bounded time, it does not loop or wait for ever, and it does not report success with an incomplete output; if it does report success, the output is the complete correct result.",
  ["inputs", "crash_points", "schedules"], "all protocols, inputs and failing link operations on either side",
  "The tests never fail the link; each stage of the pipelines has its own waits and locks.",
  APP + ALG, [("pipelines with futures and condition variables", "psi/algorithm/rr22/rr22_psi.cc"), ("receive loops", "psi/algorithm/kkrt/kkrt_psi.cc")],
  ["return or exception of each party", "output files"],
  [part("h_crash", "peer_failure", 2400, 40000, qbudget=45), part("h_oprf", "oprf_failure", 3000, 60000, qbudget=10)],
  SCN + "The link of one side fails at a random operation. Non-trivial: the fault occurred before the run had completed. Oracle: both threads return within the time limit; a party that reports success has the correct output.",
  "Fault injection over whole runs with a watchdog.")
