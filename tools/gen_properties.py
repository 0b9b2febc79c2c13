import json
P=[]
E="fbpcf/engine/"; S="fbpcf/scheduler/"; T=E+"tuple_generator/"; O=T+"oblivious_transfer/"; C=E+"communication/"; M="fbpcf/mpc_std_lib/"; IO="fbpcf/io/"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","A secure Boolean program reveals exactly what the plaintext program computes",
 "For any program over secret and public bits, integers and bit strings (single values or batches), run by two or more parties on any of the provided execution back ends, every value revealed to a party equals the value the same program yields on the plaintext inputs. This holds whatever the relative speed of the parties, the order in which their background threads run, and the way the transport splits and delays messages.",
 ["programs","inputs","schedules","configurations"],
 "every program over the public frontend operations x every input x eager/lazy/plaintext/networked-plaintext execution x 2..4 parties x every tuple back end x every thread schedule and message timing",
 "The existing tests run a few fixed expressions over in-memory agents under whatever schedule the OS happens to choose; most of them are not even built by the stable build.",
 ["fbpcf/frontend/Bit_impl.h","fbpcf/frontend/Int_impl.h","fbpcf/frontend/BitString_impl.h",S+"EagerScheduler.cpp",S+"LazyScheduler.cpp",S+"PlaintextScheduler.cpp",S+"NetworkPlaintextScheduler.cpp",S+"gate_keeper/GateKeeper.cpp",S+"gate_keeper/NormalGate.h",S+"gate_keeper/BatchNormalGate.h",S+"gate_keeper/CompositeGate.h",S+"gate_keeper/BatchCompositeGate.h",E+"SecretShareEngine.cpp",C+"SecretShareEngineCommunicationAgent.cpp"],
 [("gate evaluation order by level",S+"gate_keeper/GateKeeper.cpp"),("secret-share AND via opened masked operands",E+"SecretShareEngine.cpp"),("input sharing through pairwise generators",E+"SecretShareEngine.cpp")],
 [("wire value","this party's share or the public value of a wire",S+"WireKeeper.h"),("unexecuted gates per level","what a lazy scheduler still owes",S+"gate_keeper/GateKeeper.h")],
 ["getValue() of values opened to a party, on every party"])

p("C02","Deferring execution changes when work happens, never results or batch shapes",
 "Any program gives the same revealed values, the same reported batch sizes and the same result of splitting and joining batches whether its operations run immediately or are deferred until a value is needed. Asking for a value or a batch size early, late or repeatedly does not change any other result.",
 ["programs","histories","configurations"],
 "every program (including splitting, joining, empty and single-element batches, early partial reveals, more pending operations than the deferral limit) x eager vs deferred execution",
 "Unit tests check eager and deferred schedulers separately on hand-written gates; they do not vary the history in which reveals and batch-size queries interleave with deferred work.",
 [S+"LazyScheduler.cpp",S+"EagerScheduler.cpp",S+"gate_keeper/GateKeeper.cpp",S+"gate_keeper/RebatchingGate.h",S+"WireKeeper.cpp"],
 [("rebatching gates",S+"gate_keeper/RebatchingGate.h"),("maximum number of pending operations",S+"gate_keeper/GateKeeper.h")],
 [("batch size of a wire","known or expected number of elements",S+"WireKeeper.h")],["getBatchSize()/rebatchingUp()/unbatching() results, opened values"])

p("C03","Secret integer arithmetic equals arithmetic on 64-bit integers",
 "For any program of additions, subtractions, negations and multiplications over secret and public 64-bit integers, single or batched, run by two or more parties, each revealed value equals the plaintext result modulo 2^64. Timing, thread interleaving and message fragmentation do not influence it.",
 ["programs","inputs","schedules"],
 "every arithmetic program x inputs incl. extremes x 2..3 parties x eager/lazy x every schedule",
 "Tests cover single operations with dummy correlated randomness under one schedule.",
 [E+"SecretShareEngine.cpp",S+"gate_keeper/ArithmeticGate.h",S+"gate_keeper/BatchArithmeticGate.h",T+"ArithmeticTupleGenerator.cpp",T+"ProductShareGenerator.cpp",S+"PlaintextScheduler.cpp"],
 [("multiplication through opened masked operands",E+"SecretShareEngine.cpp"),("integer tuple generation",T+"ArithmeticTupleGenerator.cpp")],
 [("integer tuple","(a,b,ab) shared additively",T+"IArithmeticTupleGenerator.h")],["values opened through the arithmetic scheduler"])

p("C04","Values live exactly as long as some handle refers to them",
 "A secret or public value can be used as long as any copy of its handle exists, through copying, moving, assigning (also to itself), splitting and joining, and its storage is released once the last handle is gone. Storage reported as live always equals what reachable handles account for, and reused storage never shows through an older handle; the checked storages report every use of a value that is gone.",
 ["histories","programs","configurations"],
 "every history of creating, copying, moving, self-assigning, overwriting and destroying handles x safe/unsafe storage x eager/lazy execution",
 "Tests check single increments and decrements, not arbitrary handle histories combined with deferred execution and storage reuse.",
 ["fbpcf/frontend/Bit_impl.h","fbpcf/frontend/Int_impl.h","fbpcf/frontend/BitString_impl.h",S+"WireKeeper.cpp",S+"VectorArenaAllocator.h",S+"UnorderedMapAllocator.h"],
 [("reference counts",S+"WireKeeper.cpp"),("slot reuse",S+"VectorArenaAllocator.h")],
 [("reference count","handles plus pending operations holding a wire",S+"WireKeeper.h")],["wire statistics, values opened after handle churn"])

p("C05","Correlated randomness handed to all parties is valid, aligned and never reused",
 "In any sequence of requests for multiplication material (bit, composite and integer), the k-th items handed to the parties jointly satisfy the product relation, whichever back end produced them. No item is handed out twice, and none depends on how requests are sized or on how fast any party or background producer runs.",
 ["histories","schedules","configurations"],
 "every request sequence x buffer sizes x 2..4 parties x dummy/IKNP/FERRET back ends x every interleaving of background producers and consumers",
 "Tests draw a few hundred tuples with fixed sizes under one arbitrary schedule, so producer/consumer interleavings and buffer-boundary alignments are not covered.",
 [T+"TwoPartyTupleGenerator.cpp",T+"TupleGenerator.cpp",T+"ArithmeticTupleGenerator.cpp",T+"ProductShareGenerator.cpp",E+"util/AsyncBuffer.h",O+"RcotBasedBidirectionObliviousTransfer.cpp"],
 [("producer queue guarded by mutex and condition variable",T+"TwoPartyTupleGenerator.cpp"),("double-buffered background generation",E+"util/AsyncBuffer.h")],
 [("order in which background generations run","must be the same on both parties",T+"TwoPartyTupleGenerator.h")],["tuples returned on every party"])

p("C06","Oblivious transfer gives the receiver exactly its choice in every batch",
 "For every batch of random correlated transfers, the receiver's string equals the sender's string when its choice bit is 0 and the sender's string offset by the session-wide difference when it is 1, for all provided protocols and any sequence of batch sizes. A chosen-message transfer gives the receiver exactly the message it chose, in order, in both directions at once.",
 ["inputs","histories","schedules","configurations"],
 "every batch-size sequence x IKNP, silent-extension and dummy back ends x both roles x every message timing",
 "Tests draw one or two batches of fixed size with one schedule.",
 [O+"IknpShRandomCorrelatedObliviousTransfer.cpp",O+"ExtenderBasedRandomCorrelatedObliviousTransfer.cpp",O+"ferret/RcotExtender.cpp",O+"ferret/RegularErrorMultiPointCot.cpp",O+"ferret/SinglePointCot.cpp",O+"ferret/TenLocalLinearMatrixMultiplier.cpp",O+"NpBaseObliviousTransfer.cpp",O+"RcotBasedBidirectionObliviousTransfer.cpp",M+"walr_multiplication/util/COTWithRandomMessage.h"],
 [("base transfers",O+"NpBaseObliviousTransfer.cpp"),("extension with buffered leftovers",O+"ExtenderBasedRandomCorrelatedObliviousTransfer.cpp")],
 [("leftover correlations","carried between batches",O+"ExtenderBasedRandomCorrelatedObliviousTransfer.h")],["strings returned on both sides"])

p("C07","Received messages reveal nothing about others' inputs until values are opened",
 "Apart from values deliberately opened to it, the distribution of every message a party receives is independent of the other parties' private inputs. A value opened to one designated party is not sent in reconstructable form to any other.",
 ["inputs","programs","configurations"],
 "every program and every pair of private inputs x every party's view x opening to any designated party",
 "Unit tests compare results only; none looks at the distribution of transmitted bytes.",
 [E+"SecretShareEngine.cpp",C+"SecretShareEngineCommunicationAgent.cpp",O+"RcotBasedBidirectionObliviousTransfer.cpp",E+"util/Masker_impl.h"],
 [("fresh masks from correlated randomness",E+"SecretShareEngine.cpp"),("opening only to the designated party",C+"SecretShareEngineCommunicationAgent.cpp")],
 [("share","one-time-padded secret",E+"SecretShareEngine.h")],["bytes on the wire per ordered pair of parties"])

p("C08","Party-to-party channels deliver exactly the bytes sent, in order",
 "Whatever one party sends to another over any provided channel (in-memory, plain socket, encrypted socket), the other receives the same bytes, in the same order, for every message size and for every way the network delays, splits and coalesces data. Different channels between the same or other parties never exchange data with one another.",
 ["inputs","schedules","fault_sequences"],
 "every sequence of message sizes (0 bytes to several transport buffers) x every segmentation, delay and short transfer x several simultaneous channels",
 "Tests send small fixed messages over the loopback interface, which neither splits, delays nor fills its buffers.",
 [C+"SocketPartyCommunicationAgent.cpp",C+"InMemoryPartyCommunicationAgentHost.cpp",C+"IPartyCommunicationAgent.h"],
 [("full-length loops and stream buffering",C+"SocketPartyCommunicationAgent.cpp"),("locked queue",C+"InMemoryPartyCommunicationAgentHost.cpp")],
 [("undelivered bytes","sent and not yet received",C+"InMemoryPartyCommunicationAgentHost.h")],["receive() return values"])

p("C09","Parties started in any order connect correctly or fail in bounded time",
 "If all parties start within the configured waiting time, every pair obtains as many distinct channels as it asks for, each joining the intended two parties, irrespective of start order, transient refusals and which further ports other programs hold (the configured rendezvous ports themselves must be free). If a peer never appears, the waiting party reports an error within a time bounded by its configuration rather than waiting for ever. Over encrypted channels with a configured root certificate, a server that cannot prove to be the configured host is refused.",
 ["schedules","fault_sequences","configurations"],
 "every start order and delay x 2..4 parties x number of channels x plain and encrypted sockets x refused, delayed and reset connection attempts x occupied ports",
 "Tests start both sides at once on an idle loopback interface.",
 [C+"SocketPartyCommunicationAgentFactory.cpp",C+"SocketPartyCommunicationAgentFactory.h",C+"SocketPartyCommunicationAgent.cpp"],
 [("retry loop of the connecting side",C+"SocketPartyCommunicationAgent.cpp"),("bounded accept",C+"SocketPartyCommunicationAgent.cpp"),("port agreement over the first channel",C+"SocketPartyCommunicationAgentFactory.cpp")],
 [("listening port","agreed per pair and channel",C+"SocketPartyCommunicationAgentFactory.h")],["agents returned, data exchanged over them, time to error"])

p("C10","After a crash or broken link survivors report an error, never made-up data",
 "If a party crashes or a connection is lost at any point of any computation, each surviving party within bounded time either finishes with the correct result or reports an error to its caller. It never returns data its peer did not send, never continues with a wrong value, and neither hangs nor is torn down by an unhandled failure.",
 ["crash_points","fault_sequences","schedules"],
 "every instant at which a party crashes or a link is reset or closed x every computation x plain and encrypted sockets x every schedule",
 "No test injects a crash, a reset, an end of stream or a failing write.",
 [C+"SocketPartyCommunicationAgent.cpp",T+"TwoPartyTupleGenerator.cpp",E+"util/AsyncBuffer.h",T+"TupleGenerator.cpp"],
 [("error checks on transport calls",C+"SocketPartyCommunicationAgent.cpp"),("propagation of failures out of background work",E+"util/AsyncBuffer.h")],
 [("stream state","open, closed or failed",C+"SocketPartyCommunicationAgent.h")],["return values or exceptions seen by the survivor, elapsed simulated time"])

p("C11","Without faults every computation and every teardown finishes",
 "As long as parties keep running and the network eventually delivers, every computation completes and every engine, generator, channel and background producer can be destroyed at any moment without hanging or aborting, for every thread schedule. This does not depend on the transport being able to hold more than a bounded amount of undelivered data.",
 ["schedules","configurations","histories"],
 "every thread schedule x every finite transport buffer size x stalls of any party x destruction at any point, including right after construction",
 "Tests observe a single schedule with loopback or unbounded in-memory buffers.",
 [T+"TwoPartyTupleGenerator.cpp",T+"TupleGenerator.cpp",O+"RcotBasedBidirectionObliviousTransfer.cpp",C+"SecretShareEngineCommunicationAgent.cpp",E+"util/AsyncBuffer.h"],
 [("order of send and receive between two parties",C+"SecretShareEngineCommunicationAgent.cpp"),("hand-over between background producers",T+"TwoPartyTupleGenerator.cpp")],
 [("who may use the shared channel next","queue of pending generations",T+"TwoPartyTupleGenerator.h")],["completion of all simulated threads"])

p("C12","Reported traffic, operation and storage counts are what actually happened",
 "The bytes a party reports as sent to a peer equal the bytes that peer reports as received, and both equal the payload that crossed the channel; reported operation counts equal the operations the program performed, and allocations minus releases equal live values. This holds after any program and under any schedule.",
 ["programs","schedules"],
 "every program x every schedule and background activity x 2..4 parties",
 "Tests check counters after one or two operations with no background activity.",
 [C+"IPartyCommunicationAgent.h",C+"SocketPartyCommunicationAgent.cpp",C+"InMemoryPartyCommunicationAgentHost.cpp",E+"SecretShareEngine.cpp",S+"WireKeeper.cpp","fbpcf/util/MetricCollector.h"],
 [("traffic recorder",C+"IPartyCommunicationAgent.h"),("gate statistics",S+"IScheduler.h")],
 [("counters","sent, received, gates, wires","fbpcf/util/MetricCollector.h")],["getTrafficStatistics(), getGateStatistics(), getWireStatistics(), metric records"])

p("C13","Expanded randomness depends only on the seed and the position in the stream",
 "The pseudo-random stream obtained from a seed is the same on every party and for every internal buffer size, request size and schedule: consecutive requests return consecutive, non-overlapping parts of one stream. Background refilling neither drops, repeats nor reorders any part.",
 ["histories","schedules","configurations"],
 "every sequence of request sizes x every buffer size x every interleaving of consumer and refilling thread",
 "Tests compare two generators with equal parameters for a few requests.",
 [E+"util/AesPrg.cpp",E+"util/AesPrg.h",E+"util/AsyncBuffer.h",E+"util/aes.cpp"],
 [("double buffering with a background refill",E+"util/AsyncBuffer.h"),("counter-mode expansion",E+"util/AesPrg.h")],
 [("position","index into the current buffer",E+"util/AsyncBuffer.h")],["bytes, bits and integers returned"])

p("C14","Oblivious permuting, shuffling and compaction keep exactly the input elements",
 "Permuting applies precisely the permutation chosen by the permuting party, shuffling outputs some rearrangement of its inputs with rows intact, and compaction outputs exactly the labelled rows first, with the revealed count. This holds for every size, every data type supported and every schedule, on all parties.",
 ["inputs","schedules","configurations"],
 "every size (0, 1, powers of two and their neighbours, others) x every permutation and labelling x supported data types x eager/lazy x every schedule",
 "Tests use a handful of sizes and random permutations on a single schedule.",
 [M+"permuter/AsWaksmanPermuter_impl.h",M+"permuter/AsWaksmanPermuterForBitString_impl.h",M+"shuffler/PermuteBasedShuffler.h",M+"compactor/ShuffleBasedCompactor.h",M+"util/secureRandomPermutation.h"],
 [("switching network",M+"permuter/AsWaksmanPermuter_impl.h"),("two-party shuffle",M+"shuffler/PermuteBasedShuffler.h")],
 [("switch settings","derived from the permutation",M+"permuter/AsWaksmanPermuter_impl.h")],["opened outputs"])

p("C15","Oblivious aggregation adds every value to exactly its bucket",
 "After any sequence of batches of (bucket, value) pairs supplied in secret-shared form, each bucket read out equals the sum, in the stated value range, of the values added to it; nothing is lost, duplicated or moved to another bucket. This holds for each of the provided aggregation structures, any number of buckets and any batch split.",
 ["inputs","histories","schedules"],
 "every sequence of batches x bucket counts x value widths x both structures x every schedule",
 "Tests use fixed sizes with mostly dummy components.",
 [M+"oram/WriteOnlyOram_impl.h",M+"oram/LinearOram_impl.h",M+"oram/SinglePointArrayGenerator.cpp",M+"oram/DifferenceCalculator_impl.h",M+"oram/ObliviousDeltaCalculator_impl.h"],
 [("secret unit vectors",M+"oram/SinglePointArrayGenerator.cpp"),("conversion between share types",M+"oram/DifferenceCalculator_impl.h")],
 [("memory","additive shares of the buckets",M+"oram/WriteOnlyOram.h")],["publicRead/secretRead results"])

p("C16","Records survive encryption, matching and decryption between parties unchanged",
 "Rows encrypted by their owner and processed jointly come out, for exactly the matched identifiers and in the agreed order, equal to the original rows; encryption inside the joint computation equals the standard cipher. It does not matter in how many chunks and in which order rows and identifiers are supplied, nor how the key material is handed over between processes.",
 ["inputs","histories","schedules"],
 "every set of rows and identifiers (any 64-bit identifier) x chunking and order x repeated sessions x row sizes x every schedule",
 "Tests use small consecutive identifiers in one or two chunks.",
 [M+"unified_data_process/data_processor/UdpEncryption.cpp",M+"unified_data_process/data_processor/UdpDecryption.h",M+"unified_data_process/data_processor/UdpUtil.cpp",M+"unified_data_process/data_processor/DataProcessor_impl.h",M+"unified_data_process/adapter/Adapter_impl.h",M+"aes_circuit/AesCircuit_impl.h",M+"aes_circuit/AesCircuitCtr_impl.h"],
 [("collecting only matched rows",M+"unified_data_process/data_processor/UdpEncryption.cpp"),("joint counter-mode decryption",M+"unified_data_process/data_processor/UdpDecryption.h")],
 [("identifier to position map","which rows to keep",M+"unified_data_process/data_processor/UdpEncryption.h")],["opened rows"])

p("C17","Label-private gradients equal the plaintext product",
 "The joint product of one party's feature matrix with secret-shared labels equals the plaintext product up to the stated fixed-point precision when no noise is requested, and only the designated party learns it. This holds for any dimensions, any batching of the labels and any schedule.",
 ["inputs","schedules","configurations"],
 "every matrix, label vector and dimension x eager/lazy label shapes x every schedule",
 "Tests use one random matrix per configuration.",
 [M+"walr_multiplication/OTBasedMatrixMultiplication_impl.h",M+"walr_multiplication/util/COTWithRandomMessage.h",M+"walr_multiplication/util/NumberMapper.h"],
 [("transfer-based products",M+"walr_multiplication/OTBasedMatrixMultiplication_impl.h")],
 [],["vector returned to the feature owner"])

p("C18","Buffered readers and writers are transparent",
 "Any mix of byte reads and line reads through a buffer of any size returns exactly the file's content in order and signals the end exactly once it is reached; any mix of writes through a buffer puts exactly the written bytes into the file, in order. Short transfers of the underlying storage change nothing, and an underlying error is reported to the caller, never turned into missing or altered data.",
 ["inputs","histories","fault_sequences"],
 "every file content x buffer size x sequence of reads, line reads and writes x short and failing underlying transfers (local and cloud)",
 "Tests use one file and few buffer sizes with a never-failing file system.",
 [IO+"api/BufferedReader.cpp",IO+"api/BufferedWriter.cpp",IO+"api/LocalFileReader.cpp",IO+"api/LocalFileWriter.cpp",IO+"api/CloudFileReader.cpp",IO+"api/FileReader.cpp",IO+"api/FileWriter.cpp",IO+"api/FileIOWrappers.cpp"],
 [("refill loop",IO+"api/BufferedReader.cpp"),("flush on full buffer and on close",IO+"api/BufferedWriter.cpp")],
 [("buffer position","next unread or unwritten byte",IO+"api/BufferedReader.h")],["bytes returned, file content after close"])

p("C19","A file operation that reports success has durably done it",
 "When writing, copying or transferring a local or cloud file returns without an error, the destination holds exactly the intended content; when storage fails (disk full, I/O error, failed close, failed upload) the caller is told. Failures never escape as a process abort.",
 ["fault_sequences","crash_points","inputs"],
 "every storage failure at every call of every operation x content incl. zero bytes and multi-part sizes x local and cloud destinations",
 "Tests never make a file system or cloud call fail inside these operations.",
 [IO+"api/FileIOWrappers.cpp",IO+"api/BufferedWriter.cpp",IO+"api/LocalFileWriter.cpp",IO+"LocalFileManager.cpp",IO+"S3FileManager.cpp",IO+"GCSFileManager.h",IO+"LocalInputStream.h"],
 [("return codes of close",IO+"api/BufferedWriter.cpp"),("stream state checks",IO+"api/LocalFileWriter.cpp")],
 [("stream state","good or failed",IO+"api/LocalFileWriter.h")],["result of the call against the stored content"])

p("C20","A cloud upload is all-or-nothing",
 "An object written in parts becomes visible only when all its parts were stored in order, with exactly the written content, and success is reported exactly in that case. If any part or the completion cannot be stored after the bounded number of retries, the caller is told, nothing becomes visible and the upload is cancelled.",
 ["fault_sequences","crash_points","inputs"],
 "every sequence of failing, timing-out and duplicated service calls x content sizes around part boundaries x crash of the writer at any call",
 "Tests mock a single failing call each.",
 [IO+"cloud_util/S3FileUploader.cpp",IO+"cloud_util/GCSFileUploader.cpp",IO+"api/CloudFileWriter.cpp",IO+"cloud_util/CloudFileUtil.cpp"],
 [("retry and cancel",IO+"cloud_util/S3FileUploader.cpp")],
 [("part list","numbers and tags of stored parts",IO+"cloud_util/S3FileUploader.h")],["objects visible in the simulated service, return codes"])

p("C21","Ranged reads of cloud objects and files return exactly the requested bytes or an error",
 "Reading a range of a cloud object or local file, or the whole piecewise through any provided reader at any chunk size, yields exactly its bytes, and a failing or truncated service response is reported as an error rather than returned as data.",
 ["inputs","fault_sequences"],
 "every object size x chunk size x failing or short service responses",
 "Tests mock one successful and one failing response.",
 [IO+"cloud_util/S3FileReader.cpp",IO+"cloud_util/GCSFileReader.cpp",IO+"api/CloudFileReader.cpp",IO+"S3FileManager.cpp",IO+"api/BufferedReader.cpp"],
 [("byte ranges",IO+"cloud_util/S3FileReader.cpp")],[("current position","next byte to fetch",IO+"api/CloudFileReader.h")],["bytes returned"])

p("C22","Sharded execution runs every shard exactly once and joins them all",
 "Given any list of applications (shards) and any concurrency limit, one call of the executor runs every application exactly once with its own input, address and output, no more than the limit at a time, and returns only when all have ended; a shard that fails does not keep the others from running. Two parties that run the same list under different limits and schedules complete every shard with the right result.",
 ["schedules","fault_sequences","configurations"],
 "every number of shards x concurrency limit x schedule of workers x failing shards",
 "No test controls the worker schedule.",
 ["fbpcf/mpc/MpcAppExecutor.h","fbpcf/mpc/EmpApp.h","fbpcf/mpc/QueueIO.h"],
 [("thread pool join","fbpcf/mpc/MpcAppExecutor.h")],
 [("pool","workers and queued shards","fbpcf/mpc/MpcAppExecutor.h")],["set of executed shards"])

p("C23","In-process message queues deliver every byte in order between threads",
 "Bytes sent through the in-process queue channel arrive unchanged, in order and exactly once, whatever the sizes of individual sends and receives and the interleaving of the two threads; a receiver waiting for data is always woken when it arrives.",
 ["schedules","inputs"],
 "every split of the stream into sends and receives x every interleaving",
 "The only test sends a few values under one schedule.",
 ["fbpcf/mpc/QueueIO.h"],[("synchronised queues","fbpcf/mpc/QueueIO.h")],[("queue","bytes in flight","fbpcf/mpc/QueueIO.h")],["bytes received"])

p("C24","Cloud clients and shared registries are safe to use from several threads",
 "Concurrent first uses of a cloud region or of the cloud library all obtain a working client for the requested region, with initialisation done exactly once and configuration honoured.",
 ["schedules"],
 "every interleaving of concurrent first uses x regions",
 "Tests call it from one thread.",
 [IO+"cloud_util/S3Client.cpp","fbpcf/aws/AwsSdk.h","fbpcf/aws/S3Util.cpp"],
 [("locked map",IO+"cloud_util/S3Client.cpp")],[("per-region clients","cache",IO+"cloud_util/S3Client.cpp")],["client returned"])

p("C25","Example computations on secret data equal their plaintext versions",
 "The provided example computations (edit distance over ASCII strings, comparing fortunes) give the same result as their plaintext definitions for all inputs in range, on every execution back end and schedule.",
 ["inputs","programs","schedules"],
 "every pair of inputs in range x every schedule",
 "Tests check a few pairs.",
 ["example/edit_distance/EditDistanceCalculator_impl.h","example/edit_distance/AsciiString_impl.h","example/billionaire_problem/BillionaireProblemGame_impl.h"],
 [("dynamic programming over secret values","example/edit_distance/EditDistanceCalculator_impl.h")],[],["revealed results"])

p("C26","Row layouts carry every column through the joint computation unchanged",
 "Rows that their owner serialises with a row structure, carried into the joint computation (directly or through encryption and matching) and taken apart there by all parties, yield for every column the values that went in, for the rows that were matched, whatever the column names, types, array lengths, values and batch sizes; the stated row size is the size of the rows; data that do not fit the structure (columns missing or of another name, type, number of rows or array length) are refused.",
 ["inputs","schedules","programs"],
 "every row structure, every value, every number of rows x every schedule of the parties",
 "Tests check one structure with fixed values.",
 [M+"unified_data_process/serialization/RowStructureDefinition.h",M+"unified_data_process/serialization/IntegerColumn.h",M+"unified_data_process/serialization/PackedBitFieldColumn.h",M+"unified_data_process/serialization/FixedSizeArrayColumn.h"],
 [("column offsets",M+"unified_data_process/serialization/RowStructureDefinition.h")],[],["deserialised values"])

p("C27","Deterministic ciphers and MACs agree with their standards",
 "The block cipher, the MAC and the synthetic-IV vector function produce the standard output for every key and input.",
 ["inputs"],"every key and message","Tests check published vectors.",
 [E+"util/aes.cpp","fbpcf/primitive/mac/AesCmac.cpp","fbpcf/primitive/mac/S2v.cpp"],
 [("AES-NI rounds",E+"util/aes.cpp")],[],["digest or ciphertext"])

p("C28","Channels, readers and writers that are given up leave nothing open",
 "When a channel or its factory, a file reader or a file writer is destroyed, or cannot be set up, every connection, listening port and file it had opened is closed by then, and name-resolution results are freed; so a party that gives up after an error but lives on is noticed by its peers, who report an error in bounded time instead of waiting for ever. Data sent before an orderly destruction still arrive.",
 ["schedules","fault_sequences","histories"],
 "every order of opening, using and destroying channels, plain and encrypted x every failing call while setting up or transferring x absent and late peers; readers and writers of local files with failing opens, reads, writes and closes",
 "Tests let the process end right after use and never count descriptors.",
 [E+"communication/SocketPartyCommunicationAgent.cpp",E+"communication/SocketPartyCommunicationAgentFactory.cpp","fbpcf/io/api/LocalFileReader.cpp","fbpcf/io/api/LocalFileWriter.cpp"],
 [("open descriptors",E+"communication/SocketPartyCommunicationAgent.cpp")],[],["descriptors held by the process","error or data seen by the peer"])
p("C29","Random choices made by two parties together are common, uniform and in neither party's hands",
 "When two parties draw a public seed together, both obtain the same value, made of fresh randomness of both: the first party is bound by its first message, neither contribution leaves its owner before the other's is fixed, and a first party that reveals anything else than it claimed is found out (the other reports an error and gets no seed). The order into which a shuffle brings n rows is uniform over all n! orders as long as at least one of the two parties draws its part at random, even if the other's part is constant, for every shuffle anew. A lost connection or a crash yields an error, never a seed that is not the combination of both contributions.",
 ["inputs","schedules","fault_sequences","histories"],
 "every sequence of joint draws with changing roles x every byte a dishonest first party changes x every schedule, transport and crash point; every number of rows",
 "Tests run one honest draw each and cannot look at distributions or at the order of messages.",
 [M+"util/secureSamplePublicSeed.cpp",M+"util/secureRandomPermutation.cpp",M+"shuffler/PermuteBasedShuffler.h",M+"shuffler/PermuteBasedShufflerFactory.h"],
 [("commitment and its verification",M+"util/secureSamplePublicSeed.cpp"),("each party's part of the order",M+"shuffler/PermuteBasedShuffler.h")],[],["seeds returned","messages and their order","order of opened rows"])
p("C30","A failing source of randomness or cryptographic call ends in an error, never in a weak or wrong result",
 "When a call for fresh randomness or into the cryptographic library fails (no entropy, no memory for a number or point, a failing operation on numbers, points or digests, a failing step of setting up or using an encrypted channel), the operation that needed it reports an error to its caller: no key, mask, contribution, string or order is made from what the failed call left behind, no encrypted channel comes up with weaker checks than configured, and nothing goes on as if the call had worked. The process does not crash, whatever the operation had allocated in the library is freed, and the other parties end with an error or with correct results in bounded time.",
 ["fault_sequences","schedules","histories"],
 "every call for randomness or into the library, made by any party at any point of base and extended oblivious transfers, tuple generation, games, shuffles, aggregation, matching, joint draws, encrypted channels x every schedule",
 "The calls practically never fail in tests, so none of the error branches is ever executed.",
 [E+"util/util.h",E+"tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp",M+"util/secureRandomPermutation.cpp",M+"util/secureSamplePublicSeed.cpp",E+"communication/SocketPartyCommunicationAgent.cpp"],
 [("checks of the library's return values",E+"tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp"),("seeds from system noise",E+"util/util.h")],[],["error reported by the party whose call failed","results and errors of the others","library objects alive at the end"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
