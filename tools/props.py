"""What is run for each claimed property: scenarios, budgets, coverage expectations, honesty notes."""


def S(bin, h, quick, thorough, cpu=20, heavy=False, **p):
    sc = {"bin": bin, "h": h, "p": p, "cpu": cpu, "quick": quick, "thorough": thorough}
    if heavy:  # gigabytes of memory per run: one at a time
        sc["heavy"] = True
    return sc


SIM = [
    "threads, mutexes, condition variables, clock, sleeps: simulator (one real thread; every switch is a seeded choice)",
    "operating system sockets: simulated network (delays, segmentation, bounded buffers, resets, refusals)",
    "OS entropy and rdseed: seeded generator",
]
TRUST = [
    "preemption happens at calls that leave the code under test (locks, condition variables, thread, socket, file, "
    "clock, entropy and allocation-free library calls), not between arbitrary machine instructions, unless the "
    "scenario says it uses the instrumented build",
    "sampling: a clean batch is evidence over the runs counted here, not a proof",
]
NET = ["the embedding program ignores SIGPIPE", "the operating system reports a dead peer machine within about two minutes (TCP timeouts)"]
BIG = 10 ** 9
PROGREAL = [
    "fbpcf/scheduler (eager, lazy, plaintext, networked plaintext; gates, wires)", "fbpcf/engine (secret sharing, tuple generators, "
    "oblivious transfer, PRGs)", "fbpcf/engine/communication", "OpenSSL",
]

IOREAL = ["fbpcf/io (readers, writers, buffers, wrappers, file managers, uploaders)", "fbpcf/aws, fbpcf/gcp", "libstdc++ file streams over real files"]
IOSTUB = ["threads and clock: simulator", "file system calls: real, with injected failures and short transfers",
          "AWS and Google Cloud client libraries: stand-ins over one simulated object store (requests take time and can be refused)"]

PROPS = {
    "C01": {
        "scenarios": [
            S("prog", "prog", (BIG, 6), (BIG, 120), eng=0, net=4),
            S("prog", "prog", (BIG, 5), (BIG, 120), eng=1, net=4, ops=30),
            S("prog", "prog", (BIG, 6), (BIG, 120), eng=2, net=4, ops=25),
            S("front", "front", (BIG, 8), (BIG, 250), eng=0, net=4),
            S("front", "front", (BIG, 4), (BIG, 150), eng=2, net=4),
            S("prog", "prog", (BIG, 4), (BIG, 250), cpu=200, full=9, net=4, ops=20),
        ],
        "must_probe": ["final_values_verified", "opened_values_verified", "deferred_runs", "immediate_runs", "production_size_runs", "streaks", "out_of_range_refused", "signed_casts", "unsigned_casts", "strings_joined"],
        "real": ["fbpcf/frontend (Bit, Int, BitString)"] + PROGREAL, "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation of random Boolean programs run by 1..4 parties on every back end; oracle: direct evaluation",
        "note": "Each revealed value in each run is compared with direct evaluation of the same program.",
    },
    "C02": {
        "scenarios": [
            S("prog", "prog", (BIG, 12), (BIG, 300), eng=0, sched=1, arith=60, net=4),
            S("prog", "prog", (BIG, 4), (BIG, 100), eng=0, sched=0, arith=60, net=4),
            S("prog", "prog", (BIG, 8), (BIG, 200), eng=2, sched=1, arith=20, net=4, ops=25),
            S("front", "front", (BIG, 6), (BIG, 150), eng=0, net=4),
        ],
        "must_probe": ["batch_sizes_verified", "final_values_verified", "bursts_beyond_deferral_limit"],
        "real": PROGREAL, "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation; the same random programs on the deferring and the immediate scheduler against one direct evaluation",
        "note": "Batch sizes are asked for after operations chosen at random, so pending values are queried at every stage.",
    },
    "C03": {
        "scenarios": [
            S("prog", "prog", (BIG, 10), (BIG, 250), eng=0, bool=5, arith=100, net=4),
            S("prog", "prog", (BIG, 14), (BIG, 350), eng=2, bool=0, arith=100, net=4, ops=20),
            S("prog", "prog", (BIG, 4), (BIG, 200), cpu=200, full=9, bool=0, arith=100, net=4, ops=20),
            S("prog", "prog", (BIG, 4), (BIG, 150), cpu=200, full=9, arith=50, net=4, ops=20),
        ],
        "must_probe": ["final_values_verified", "opened_values_verified", "deferred_runs", "immediate_runs", "production_size_runs", "streaks"],
        "real": PROGREAL, "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation of random integer programs run by 1..4 parties on every back end; oracle: arithmetic modulo 2^64",
        "note": "Values include 0, 1, 2^32 and 2^63 boundaries.",
    },
    "C04": {
        "scenarios": [
            S("front", "front", (BIG, 9), (BIG, 300), eng=0, net=4, hist=1, ops=80),
            S("front", "front", (BIG, 6), (BIG, 150), eng=0, net=4),
            S("prog", "prog", (BIG, 6), (BIG, 150), eng=0, arith=30, net=4),
            S("prog", "prog", (BIG, 5), (BIG, 100), eng=2, arith=20, net=4, ops=25),
            S("prog", "wires", (BIG, 2), (BIG, 60)),
        ],
        "must_probe": ["freed_values_refused", "places_reused", "self_assignments", "handle_moves", "storage_counts_verified", "wire_counts_verified", "final_values_verified"],
        "real": ["fbpcf/frontend (Bit, Int, BitString)"] + PROGREAL, "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation of random histories of copying, moving, assigning and dropping values; oracle: a reference count per live value",
        "note": "Live storage is asked for during and after each history and must equal what the live handles need.",
    },
    "C05": {
        "scenarios": [
            S("ot", "tuples", (BIG, 6), (BIG, 250), eng=1, net=4),
            S("ot", "tuples", (BIG, 7), (BIG, 250), eng=2, net=4),
            S("ot", "tuples", (BIG, 5), (BIG, 100), eng=2, net=1, fault=1),
            S("ot", "psg", (BIG, 5), (BIG, 150), net=4),
            S("ot", "masks", (BIG, 4), (BIG, 150), eng=0),
            S("ot", "masks", (BIG, 4), (BIG, 150), eng=1),
            S("ot", "masks", (BIG, 4), (BIG, 150), eng=2),
            S("oti", "tuples", (BIG, 6), (BIG, 200)),
        ],
        "must_probe": ["mem_preemptions", "bit_tuples", "composite_tuples", "integer_tuples", "messages_examined", "product_shares_verified", "large_buffers"],
        "real": ["tuple generators, product share generators, bidirectional OT, RCOT, PRG", "secret sharing engine (masks)", "communication agents"],
        "stub": SIM + ["base transfers in part of the runs: a dealer handing out fresh random messages"], "assumptions": TRUST,
        "tech": "seeded simulation; items drawn by all parties are joined and checked for the product relation, reuse and alignment",
        "note": "Requests differ in size and order in every run; all items of all parties are recorded and joined.",
    },
    "C06": {
        "scenarios": [
            S("ot", "rcot", (BIG, 9), (BIG, 300), net=4),
            S("ot", "baseot", (BIG, 8), (BIG, 200), net=4),
            S("ot", "biot", (BIG, 9), (BIG, 300), net=4),
            S("oti", "biot", (BIG, 4), (BIG, 120)),
        ],
        "must_probe": ["base_strings_examined", "mem_preemptions", "correlated_transfers", "several_batches", "base_transfers", "chosen_transfers"],
        "real": ["oblivious transfer protocols (IKNP, Ferret extension, Naor-Pinkas, bidirectional)", "communication agents"],
        "stub": SIM + ["base transfers in part of the runs: a dealer handing out fresh random messages"], "assumptions": TRUST,
        "tech": "seeded simulation of sender and receiver; both outputs joined and checked against the transfer relation",
        "note": "Batch sizes and batch sequences are drawn; the difference must be the same in all batches of a session.",
    },
    "C07": {
        "scenarios": [
            S("ot", "masks", (BIG, 9), (BIG, 300), eng=0),
            S("ot", "masks", (BIG, 8), (BIG, 300), eng=1),
            S("ot", "masks", (BIG, 8), (BIG, 300), eng=2),
            S("ot", "psg", (BIG, 5), (BIG, 150), net=4),
            S("leaks", "leaks", (BIG, 14), (BIG, 350), eng=1, net=4, triples=1, cpu=60),
            S("leaks", "leaks", (BIG, 14), (BIG, 350), eng=2, net=4, triples=1, cpu=60),
        ],
        "must_probe": ["view_bits_examined", "openings_examined", "opened_triples_examined", "messages_examined", "bystander_views_checked", "traffic_compared", "integer_masks_examined", "product_shares_verified"],
        "real": PROGREAL, "stub": SIM + ["base transfers in part of the runs: a dealer handing out fresh random messages"],
        "assumptions": TRUST + ["independence is judged by necessary conditions on the messages of each run (below), not by a proof"],
        "tech": "seeded simulation with every channel tapped; statistical and structural checks over all messages each party receives",
        "note": "Checked: no 16-byte window repeats, no input or input share visible, unbiased masked openings, "
                "opened shares reach only the designated party, message sizes independent of inputs; over 96 sessions, no bit, "
                "pair or triple of the bits a party sees equals a private bit of another one, no mask is constant or used twice.",
    },
    "C13": {
        "scenarios": [
            S("ot", "prg", (BIG, 25), (BIG, 500)),
            S("oti", "prg", (BIG, 6), (BIG, 200)),
        ],
        "must_probe": ["mem_preemptions", "stream_bytes"],
        "real": ["AesPrg, AsyncBuffer, PRG factories, AES key schedule"], "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation of consumer and background refill threads; compared with one directly computed stream",
        "note": "Buffer sizes, request sizes and schedules are drawn; streams are compared byte by byte.",
    },
    "C14": {
        "scenarios": [
            S("perm", "perm", (BIG, 11), (BIG, 300), eng=0, net=4, bigsizes=1),
            S("perm", "perm", (BIG, 6), (BIG, 150), eng=1, net=4),
            S("perm", "perm", (BIG, 8), (BIG, 250), eng=2, net=4),
        ],
        "must_probe": ["permutations_verified", "shuffles_verified", "shuffles_moving_rows", "compactions_verified",
                       "empty_compactions", "deferred_runs", "immediate_runs"],
        "real": ["fbpcf/mpc_std_lib/permuter, shuffler, compactor, util (permutations, value types)", "fbpcf/frontend"] + PROGREAL,
        "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation of two parties permuting, shuffling and compacting drawn rows; oracle: the permutation itself, row multisets, labelled rows",
        "note": "Sizes, permutations, labelings and data types are drawn; rows carry identities so that a torn row is recognised.",
    },
    "C15": {
        "scenarios": [
            S("oram", "oram", (BIG, 9), (BIG, 300), eng=0, net=4),
            S("oram", "oram", (BIG, 5), (BIG, 150), eng=1, net=4),
            S("oram", "oram", (BIG, 9), (BIG, 250), eng=2, net=4),
        ],
        "must_probe": ["batches_added", "buckets_verified", "shared_reads_verified", "rows_encoded", "deferred_runs", "immediate_runs"],
        "real": ["fbpcf/mpc_std_lib/oram (write-only and linear structures, encoders)", "fbpcf/frontend"] + PROGREAL,
        "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation of two parties adding drawn batches of secret pairs; oracle: a plain array of sums modulo the value range",
        "note": "Bucket counts, value widths, batch splits and read positions are drawn.",
    },
    "C16": {
        "scenarios": [
            S("udp", "udp", (BIG, 14), (BIG, 400), eng=0, net=4),
            S("udp", "udp", (BIG, 5), (BIG, 150), eng=1, net=4),
            S("udp", "udp", (BIG, 8), (BIG, 250), eng=2, net=4),
        ],
        "must_probe": ["rows_verified", "matchings_verified", "cipher_blocks_verified", "local_rows_verified", "handed_over_by_file", "deferred_runs",
                       "immediate_runs"],
        "real": ["fbpcf/mpc_std_lib/unified_data_process (encryption, decryption, data processor, adapter, hand-over by file)",
                 "fbpcf/mpc_std_lib/aes_circuit", "fbpcf/primitive/mac", "fbpcf/io", "fbpcf/frontend"] + PROGREAL,
        "stub": SIM, "assumptions": TRUST + ["at least one row is matched where rows are decrypted (the engine has no empty batches)",
                                             "every identifier asked for is among the owner's rows, once"],
        "tech": "seeded simulation of two parties encrypting, matching and jointly decrypting drawn rows; oracle: the rows themselves, the matching, OpenSSL's AES",
        "note": "Identifiers (including ones that differ only in high bits), chunking, interleaving of both directions, repeated sessions, sharding and hand-over by file are drawn.",
    },
    "C26": {
        "scenarios": [
            S("udp", "rows", (BIG, 12), (BIG, 300), eng=0, net=4),
            S("udp", "rows", (BIG, 4), (BIG, 100), eng=1, net=4),
            S("udp", "rows", (BIG, 4), (BIG, 100), eng=2, net=4),
        ],
        "must_probe": ["bits_verified", "integers_verified", "array_elements_verified", "rows_through_matching", "refused", "deferred_runs", "immediate_runs"],
        "real": ["fbpcf/mpc_std_lib/unified_data_process/serialization", "fbpcf/mpc_std_lib/unified_data_process (data processor)", "fbpcf/frontend"] + PROGREAL,
        "stub": SIM + ["unordered_map::contains, which the row layout asks of the library, is spelled count for this compiler"],
        "assumptions": TRUST,
        "tech": "seeded simulation of the parties laying out, carrying, matching and taking apart drawn rows; oracle: the drawn columns",
        "note": "Column names, kinds, order, paddings, values (including extreme ones), batch sizes, owners, readers, and whether rows pass through encryption and matching are drawn; data that do not fit the layout must be refused.",
    },
    "C28": {
        "scenarios": [
            S("chan", "release", (BIG, 10), (BIG, 300), net=1),
            S("chan", "release", (BIG, 10), (BIG, 300), net=2, cpu=40),
            S("io", "bufio", (BIG, 4), (BIG, 100), left=1),
            S("io", "fileops", (BIG, 4), (BIG, 100), left=1),
        ],
        "must_probe": ["released_after_use", "released_after_error", "runs_without_open_files", "resets_losing_unsent_data"],
        "real": ["socket and TLS agents and factories", "OpenSSL"] + IOREAL,
        "stub": SIM + IOSTUB, "assumptions": TRUST + NET + ["memory (as opposed to descriptors) is not accounted for"],
        "tech": "seeded simulation of parties that open, use, drop and give up channels and live on, and of file users, with failing calls; the simulator counts what stays open",
        "note": "After every step the descriptors a party holds are compared with the channels it has; at the end nothing may be open and no peer may wait.",
    },
    "C29": {
        "scenarios": [
            S("joint", "pubseed", (BIG, 6), (BIG, 150), net=4),
            S("joint", "pubseed", (BIG, 4), (BIG, 100), net=1, fault=1),
            S("joint", "pubseed", (BIG, 3), (BIG, 100), net=2, fault=1, cpu=40),
            S("joint", "draworder", (BIG, 4), (BIG, 100)),
            S("joint", "shuffled", (BIG, 6), (BIG, 200), eng=0, net=0),
            S("joint", "shuffled", (BIG, 3), (BIG, 100), eng=1, net=0),
            S("joint", "shuffled", (BIG, 3), (BIG, 100), eng=2, net=4, cpu=40),
        ],
        "must_probe": ["seeds_agreed", "cheats_found_out", "parties_reporting_error", "crashes", "orders_counted", "large_orders_counted",
                       "shuffles_counted", "shuffles_against_a_stubborn_party"],
        "real": ["fbpcf/mpc_std_lib/util/secureSamplePublicSeed, secureRandomPermutation", "fbpcf/mpc_std_lib/shuffler, permuter"] + PROGREAL,
        "stub": SIM, "assumptions": TRUST + NET + ["uniformity is judged by frequencies within a run (thresholds beyond eight standard deviations)", "a dishonest party only changes bytes of its messages"],
        "tech": "seeded simulation of sessions of joint draws with dishonest first parties, crashes and lost links; recorded messages checked for order, binding and freshness, outcomes for agreement and by frequency against the uniform distribution",
        "note": "Roles, transports, changed bytes, fault times, numbers of rows, engines and whose part of a shuffle is constant are drawn.",
    },
    "C30": {
        "scenarios": [
            S("ot", "baseot", (BIG, 8), (BIG, 200), np=1, crypt=1),
            S("joint", "draworder", (BIG, 2), (BIG, 60), crypt=1),
            S("joint", "pubseed", (BIG, 2), (BIG, 60), crypt=2),
            S("joint", "shuffled", (BIG, 2), (BIG, 60), eng=0, crypt=1),
            S("chan", "tlscall", (BIG, 4), (BIG, 100), crypt=3, cpu=40),
            S("ot", "rcot", (BIG, 2), (BIG, 100), crypt=1, rcot=2),
            S("ot", "rcot", (BIG, 2), (BIG, 100), crypt=2),
            S("ot", "biot", (BIG, 2), (BIG, 60), crypt=2),
            S("ot", "psg", (BIG, 2), (BIG, 60), crypt=2),
            S("ot", "tuples", (BIG, 2), (BIG, 100), crypt=2),
            S("front", "front", (BIG, 3), (BIG, 100), crypt=2),
            S("perm", "perm", (BIG, 2), (BIG, 60), crypt=2),
            S("oram", "oram", (BIG, 3), (BIG, 100), crypt=2, cpu=40),
            S("udp", "udp", (BIG, 3), (BIG, 100), crypt=2, eng=0, cpu=40),
            S("walr", "walr", (BIG, 2), (BIG, 60), crypt=2, cpu=40),
        ],
        "must_probe": ["failures_reported", "runs_without_failing_calls", "base_transfers", "tls_messages_verified"],
        "real": ["fbpcf/engine/tuple_generator", "fbpcf/mpc_std_lib", "fbpcf/engine/communication"] + PROGREAL,
        "stub": SIM, "assumptions": TRUST + NET + ["a failed call leaves its output as it was", "a failure inside a background producer whose output is never used need not be reported"],
        "tech": "seeded simulation of every layer over simulated sockets with one failing call for randomness or into the cryptographic library at a drawn position; the caller must report an error, peers must end, library objects must be freed",
        "note": "The function, the party and the number of the failing call are drawn, as are roles, sizes, engines and schedules.",
    },
    "C17": {
        "scenarios": [
            S("walr", "walr", (BIG, 14), (BIG, 400), eng=0, net=4),
            S("walr", "walr", (BIG, 5), (BIG, 150), eng=1, net=4),
            S("walr", "walr", (BIG, 6), (BIG, 200), eng=2, net=4),
        ],
        "must_probe": ["products_verified", "masked_words", "masked_choices", "deferred_runs", "immediate_runs", "large_sizes"],
        "real": ["fbpcf/mpc_std_lib/walr_multiplication", "fbpcf/frontend"] + PROGREAL, "stub": SIM,
        "assumptions": TRUST + ["sums stay inside the fixed-point range"],
        "tech": "seeded simulation of feature and label owner; oracle: the product in extended precision; recorded messages checked for unmasked or reused content",
        "note": "Dimensions, precision, transfers, the way labels come about and several products per object are drawn.",
    },
    "C25": {
        "scenarios": [
            S("ex", "billionaire", (BIG, 5), (BIG, 100), net=4),
            S("ex", "ascii", (BIG, 8), (BIG, 200), net=4),
            S("ex", "editdist", (BIG, 8), (BIG, 250), eng=0, net=4, cpu=40),
            S("ex", "editdist", (BIG, 5), (BIG, 150), net=4, cpu=40),
        ],
        "must_probe": ["comparisons_verified", "strings_verified", "lengths_verified", "shares_joined", "distances_verified", "disagreements_reported",
                       "deferred_runs", "immediate_runs"],
        "real": ["example/billionaire_problem", "example/edit_distance (game, input reader, results, validator)", "fbpcf/frontend", "fbpcf/io"] + PROGREAL,
        "stub": SIM, "assumptions": TRUST + ["distances and costs fit 32 bits; characters are 7-bit"],
        "tech": "seeded simulation of the example games over every back end, each party reading its own files; oracle: the plaintext definition",
        "note": "Inputs, costs, thresholds around the decision points, batching, engine and transport are drawn; disagreeing inputs have to be reported by both.",
    },
    "C22": {
        "scenarios": [
            S("exec", "exec", (BIG, 8), (BIG, 200)),
            S("exec", "shards", (BIG, 10), (BIG, 250), eng=0, net=4),
            S("exec", "shards", (BIG, 7), (BIG, 250), net=4),
            S("execi", "exec", (BIG, 5), (BIG, 120)),
            S("execi", "shards", (BIG, 4), (BIG, 120)),
        ],
        "must_probe": ["mem_preemptions", "shards_run", "concurrent_runs", "limit_reached", "outputs_verified", "shard_results_verified"],
        "real": ["fbpcf/mpc (MpcAppExecutor, EmpApp, IMpcGame)", "fbpcf/perf", "example/billionaire_problem", "fbpcf/frontend"] + PROGREAL,
        "stub": SIM + ["folly::CPUThreadPoolExecutor: behavioural stand-in", "emp-sh2pc: stand-in that records what it is given"],
        "assumptions": TRUST + ["a pool that was joined runs nothing more, so an executor is used for one list"],
        "tech": "seeded simulation of the executor's workers under drawn limits, durations and failures, and of two parties running lists of shards",
        "note": "Starts, ends, concurrency and outputs are recorded; the state is checked at the moment the call returns.",
    },
    "C23": {
        "scenarios": [
            S("exec", "queueio", (BIG, 20), (BIG, 400)),
            S("execi", "queueio", (BIG, 6), (BIG, 150)),
        ],
        "must_probe": ["mem_preemptions", "bytes_verified", "games_verified"],
        "real": ["fbpcf/mpc/QueueIO", "fbpcf/mpc/EmpTestUtil.h"], "stub": SIM[:1] + ["folly::Synchronized: stand-in (reader-writer lock)", "emp-tool's channel base class"],
        "assumptions": TRUST,
        "tech": "seeded simulation of the threads at both ends of the queues; byte-exact FIFO oracle",
        "note": "Streams are split into sends and receives independently of each other, with two or four threads.",
    },
    "C24": {
        "scenarios": [
            S("exec", "clients", (BIG, 20), (BIG, 400)),
            S("execi", "clients", (BIG, 6), (BIG, 150)),
        ],
        "must_probe": ["mem_preemptions", "clients_verified", "configurations_verified", "library_acquired", "objects_read", "failures_reported"],
        "real": ["fbpcf/io/cloud_util/S3Client", "fbpcf/io/cloud_util/CloudFileUtil", "fbpcf/aws"],
        "stub": SIM[:1] + ["AWS SDK: stand-in over the simulated store, records clients and initialisation", "folly::Synchronized, folly::Singleton: stand-ins"],
        "assumptions": TRUST + ["the client factory is set before the first use"],
        "tech": "seeded simulation of threads asking for clients of several regions and for the library at once, with failing creations",
        "note": "Identity of clients per region, number of creations, order of initialisation, region and configuration are compared.",
    },
    "C08": {
        "scenarios": [
            S("chan", "chan", (BIG, 18), (BIG, 420), net=3),
            S("chan", "chan", (BIG, 8), (BIG, 200), net=2, cpu=40),
            S("chani", "chan", (BIG, 5), (BIG, 150)),
            S("chan", "huge", (1, 30), (3, 100), cpu=200, heavy=True, net=1),
            S("chan", "huge", (1, 30), (3, 100), cpu=200, heavy=True, net=2),
            S("chan", "huge", (0, 1), (2, 100), cpu=200, heavy=True, net=0),
        ],
        "must_probe": ["mem_preemptions", "payload_bytes_verified", "huge_messages_verified"],
        "real": ["fbpcf/engine/communication (in-memory, TCP and TLS agents and factories)", "OpenSSL"],
        "stub": SIM, "assumptions": TRUST + NET,
        "tech": "seeded simulation of 2..4 parties exchanging scripted messages over simulated sockets; byte-exact FIFO oracle",
        "note": "Every byte received in every run is compared with the byte sent at the same position of the same channel.",
    },
    "C09": {
        "scenarios": [
            S("chan", "conn", (BIG, 8), (BIG, 200), mode=0, net=1),
            S("chan", "conn", (BIG, 5), (BIG, 100), mode=0, net=2, cpu=40),
            S("chan", "conn", (BIG, 8), (BIG, 200), mode=1, net=1),
            S("chan", "conn", (BIG, 5), (BIG, 100), mode=1, net=2, cpu=40),
            S("chan", "impostor", (BIG, 4), (BIG, 60), cpu=40),
        ],
        "must_probe": ["strangers_refused", "impostors_refused", "channels_verified", "parties_reporting_error", "runs_with_taken_ports"],
        "real": ["socket factory and agent set-up code", "OpenSSL handshakes"],
        "stub": SIM, "assumptions": TRUST + NET,
        "tech": "seeded simulation of party start-up with late and absent parties, refused connects, taken ports, failing calls",
        "note": "Channel identity is checked by tokens over every channel; the time bound is checked on the simulated clock.",
    },
    "C10": {
        "scenarios": [
            S("chan", "chancrash", (BIG, 8), (BIG, 300), net=1),
            S("chan", "chancrash", (BIG, 8), (BIG, 150), net=2, cpu=40),
            S("prog", "prog", (BIG, 8), (BIG, 250), eng=1, fault=1, net=1, arith=20),
            S("prog", "prog", (BIG, 8), (BIG, 250), eng=2, fault=1, net=1, arith=20),
            S("prog", "prog", (BIG, 3), (BIG, 250), eng=2, fault=1, net=1, arith=20, losses=1),
        ],
        "must_probe": ["messages_verified", "parties_reporting_error"],
        "real": ["socket and TLS agents", "OpenSSL"],
        "stub": SIM, "assumptions": TRUST + NET,
        "tech": "seeded simulation with process and machine crashes, resets, silent link loss and failing socket calls",
        "note": "Fault times are sampled over the whole exchange; survivors must report an error or get the exact data.",
    },
    "C11": {
        "scenarios": [
            S("prog", "prog", (BIG, 10), (BIG, 250), eng=1, arith=40, smallbuf=1, net=1),
            S("prog", "prog", (BIG, 10), (BIG, 250), eng=2, arith=40, smallbuf=1, net=1),
            S("prog", "prog", (BIG, 6), (BIG, 200), arith=30, net=4, ops=6),
            S("progi", "prog", (BIG, 6), (BIG, 200)),
            S("chani", "chan", (BIG, 3), (BIG, 60)),
        ],
        "must_probe": ["mem_preemptions", "send_buffer_full", "wire_counts_verified", "stalls"],
        "real": PROGREAL, "stub": SIM, "assumptions": TRUST,
        "tech": "seeded simulation with transport buffers from 64 bytes, stalls and starving schedules; deadlock and step-bound detection",
        "note": "A run that blocks for ever or exceeds its step bound is reported with who waits for what.",
    },
    "C12": {
        "scenarios": [
            S("chan", "chan", (BIG, 5), (BIG, 300), net=3, stats=1),
            S("chan", "chan", (BIG, 6), (BIG, 100), net=2, stats=1, cpu=40),
            S("chan", "huge", (1, 30), (3, 100), cpu=200, heavy=True, net=0, total=1),
            S("chan", "huge", (1, 30), (3, 100), cpu=200, heavy=True, net=1, total=1),
            S("chan", "huge", (0, 1), (2, 100), cpu=200, heavy=True, net=2, total=1),
            S("prog", "prog", (BIG, 5), (BIG, 150), eng=0, stats=1, arith=50, net=4),
            S("prog", "prog", (BIG, 5), (BIG, 150), eng=1, stats=1, arith=30, net=4),
            S("prog", "prog", (BIG, 5), (BIG, 150), eng=2, stats=1, arith=30, net=4),
            S("prog", "prog", (BIG, 3), (BIG, 100), cpu=200, full=9, stats=1, arith=30, net=4, ops=20),
            S("ot", "tuples", (BIG, 2), (BIG, 60), eng=0, stats=1, net=4),
            S("ot", "tuples", (BIG, 4), (BIG, 100), eng=1, stats=1, net=4),
            S("ot", "tuples", (BIG, 3), (BIG, 60), eng=2, stats=1, net=4),
            S("oram", "oram", (BIG, 4), (BIG, 80), stats=1, net=4),
            S("walr", "walr", (BIG, 4), (BIG, 80), stats=1, net=4),
        ],
        "must_probe": ["aggregation_traffic_verified", "product_traffic_verified", "plaintext_traffic_verified", "tuple_counts_verified", "channels_counted", "gate_counts_verified", "wire_counts_verified", "idle_engine_traffic_verified"],
        "real": PROGREAL + ["traffic recorders and metric collector of the communication agents"],
        "stub": SIM, "assumptions": TRUST + NET,
        "tech": "seeded simulation; reported counts compared with an independent ledger of what crossed each simulated channel",
        "note": "Counts are compared exactly at the end of each run.",
    },
    "C18": {
        "scenarios": [
            S("io", "bufio", (BIG, 14), (BIG, 400)),
            S("io", "bufio", (BIG, 10), (BIG, 200), cloud=0),
        ],
        "must_probe": ["files_read_to_the_end", "files_written_verified", "failures_reported"],
        "real": IOREAL, "stub": IOSTUB, "assumptions": TRUST,
        "tech": "seeded simulation of buffered readers and writers over files and objects with short transfers and failures; oracle: the content",
        "note": "Every byte and line handed out, and every end-of-file answer, is compared with the prepared content.",
    },
    "C19": {
        "scenarios": [
            S("io", "fileops", (BIG, 24), (BIG, 500)),
        ],
        "must_probe": ["operations_verified", "failures_reported", "FileIOWrappers::writeFile", "FileIOWrappers::transferFileInParts",
                       "file manager write", "file manager copy", "io::write", "file writer"],
        "real": IOREAL, "stub": IOSTUB,
        "assumptions": TRUST + ["power loss is not modelled: data handed to the operating system counts as stored"],
        "tech": "seeded simulation of whole-file operations with failing opens, reads, writes, closes and service requests",
        "note": "Each operation either throws, or the destination (read past the code under test) holds exactly the intended content.",
    },
    "C20": {
        "scenarios": [
            S("io", "upload", (BIG, 24), (BIG, 500)),
        ],
        "must_probe": ["uploads_succeeded", "uploads_failed", "looks_at_store", "uploader_crashed"],
        "real": IOREAL, "stub": IOSTUB, "assumptions": TRUST,
        "tech": "seeded simulation of uploads in parts against a simulated object store with refused requests, lost answers and crashes",
        "note": "An observer looks at the store during the whole run; success, visibility and cancellation are compared at the end.",
    },
    "C21": {
        "scenarios": [
            S("io", "ranged", (BIG, 24), (BIG, 500)),
        ],
        "must_probe": ["ranges_verified", "objects_read_in_pieces", "failures_reported"],
        "real": IOREAL, "stub": IOSTUB, "assumptions": TRUST,
        "tech": "seeded simulation of ranged and piecewise reads of objects and files with failing and interrupted responses",
        "note": "Ranges include empty ones and ones that start or end past the end.",
    },
}
NOT_APPLICABLE = {
    "C27": "Block ciphers, key schedules and MAC circuits are pure functions of key and block; no schedule, clock, I/O or fault takes part.",
}
