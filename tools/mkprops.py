#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


SCH = "fbpcf/scheduler/"
ENG = "fbpcf/engine/"
TG = ENG + "tuple_generator/"
OT = TG + "oblivious_transfer/"
STD = "fbpcf/mpc_std_lib/"

p("S01", "A boolean circuit opens to its plaintext value under every scheduler",
  "Whatever AND/XOR/NOT/composite-AND/batching/unbatching circuit the parties build over private, public and recovered inputs, opening a wire gives its recipient exactly the value plaintext evaluation gives, with the plaintext, network-plaintext, eager and lazy schedulers alike and for any number of parties; the extracted shares of a wire always combine to that value and batch sizes are reported as the circuit defines them. "
  "With a secret-sharing scheduler the parties a value is not opened to receive only a dummy, and the dummy inputs of non-owners are ignored. Unbatching a batch into more values than it holds is refused.",
  ["programs", "inputs", "configurations"],
  "All circuits over the scheduler API (batch and single, any mix of private/public operands), all input values, all interleavings of building, reading and releasing, parties N>=1.",
  "Tests run a few fixed circuits of one shape per gate; lazy evaluation depends on the order of building, reading and releasing, which they do not vary, and no test compares the four schedulers on the same program.",
  [SCH + "IScheduler.h", SCH + "LazyScheduler.cpp", SCH + "EagerScheduler.cpp", SCH + "PlaintextScheduler.cpp", SCH + "NetworkPlaintextScheduler.cpp", SCH + "gate_keeper/GateKeeper.cpp", SCH + "WireKeeper.cpp", ENG + "SecretShareEngine.cpp"],
  [("gates evaluated level by level", SCH + "LazyScheduler.cpp executeOneLevel"), ("immediate evaluation", SCH + "EagerScheduler.cpp"), ("share-level gates", ENG + "SecretShareEngine.cpp")],
  [("wire value", "share or plaintext carried by a wire", SCH + "WireKeeper.h")],
  ["IScheduler::getBooleanValue*", "IScheduler::extractBooleanSecretShare*", "IScheduler::getBatchSize"])

p("S02", "An arithmetic circuit opens to its value modulo 2^64 under every scheduler",
  "Whatever plus/mult/neg circuit the parties build over private, public and recovered 64-bit inputs (mixed with boolean wires in one program), opening a wire gives its recipient the plaintext value modulo 2^64, with the plaintext, network-plaintext, eager and lazy schedulers alike and for any number of parties. "
  "The extracted additive shares of a wire always sum to its value modulo 2^64, and parties a value is not opened to receive only a dummy.",
  ["programs", "inputs", "configurations"],
  "All circuits over the arithmetic scheduler API, all 64-bit inputs including the wrap-around corners, batches of any size, N>=1 parties.",
  "Tests exercise one gate at a time with small numbers, so carries past 2^64, mixed boolean/integer reveals of one level, and empty batches are never reached.",
  [SCH + "IArithmeticScheduler.h", SCH + "LazyScheduler.cpp", SCH + "gate_keeper/ArithmeticGate.h", SCH + "gate_keeper/BatchArithmeticGate.h", ENG + "SecretShareEngine.cpp"],
  [("additive sharing, multiplication triples", ENG + "SecretShareEngine.cpp"), ("arithmetic gates", SCH + "gate_keeper/ArithmeticGate.h")],
  (), ["IArithmeticScheduler::getIntegerValue*", "IArithmeticScheduler::extractIntegerSecretShare*"])

p("S03", "A wire lives exactly as long as it is referenced",
  "A wire starts with one reference and stays readable, with its value, until its references have all been released, no matter how many other wires were created and released meanwhile or whether the work that uses it has been done yet. "
  "Every wire is released exactly once: the reported numbers of allocated and released wires follow the references, and once everything is released and executed they are equal. A checking allocator refuses to read a released wire.",
  ["histories", "configurations"],
  "All sequences of wire creation, use, reference increase/decrease and forcing, for each scheduler and each wire store (vector arena safe/unsafe, hash map).",
  "Leaks, double frees and reuse of a live slot depend on long histories; tests look at single wires and never check the counters after a lazy program with releases before execution.",
  [SCH + "WireKeeper.h", SCH + "WireKeeper.cpp", SCH + "VectorArenaAllocator.h", SCH + "UnorderedMapAllocator.h", SCH + "gate_keeper/NormalGate.h", SCH + "gate_keeper/RebatchingGate.h"],
  [("reference counts in wire records", SCH + "WireKeeper.h"), ("free list of the arena", SCH + "VectorArenaAllocator.h"), ("gates hold references to operands and results until executed", SCH + "gate_keeper/")],
  [("referenceCount", "holders of a wire", SCH + "WireKeeper.h")], ["IScheduler::getWireStatistics"])

p("S04", "Lazy execution runs in dependency order with one exchange per AND-depth",
  "A lazy scheduler does no communication while a circuit is being built; when a value is asked for, it executes what the value depends on in dependency order, independent non-free gates of the same depth share one exchange, and the number of exchanges is the multiplicative depth (plus one for an opening), not the number of gates. "
  "Each gate is executed exactly once, all parties execute the same sequence of exchanges, and the number of gates waiting for execution stays bounded.",
  ["programs", "schedules"],
  "All circuits and all points at which values are forced, including programs longer than the limit on unexecuted gates.",
  "Tests only check final values, which stay right when gates are executed in more rounds, twice, or too early.",
  [SCH + "LazyScheduler.cpp", SCH + "gate_keeper/GateKeeper.cpp", SCH + "gate_keeper/IGateKeeper.h"],
  [("levels alternate free / non-free", SCH + "gate_keeper/IGateKeeper.h"), ("executeTillLevel", SCH + "LazyScheduler.cpp")],
  [("firstUnexecutedLevel", "levels below it are done", SCH + "gate_keeper/GateKeeper.h")], ["calls on ISecretShareEngine"])

p("S05", "Gate statistics count each computed element exactly once",
  "The reported gate statistics count every element a gate computes exactly once: as non-free if it is a multiplication/AND of two secrets or an opening, as free otherwise, per element of a batch and per output of a composite gate; re-batching counts nothing. "
  "The counts do not depend on the scheduler, and a lazy scheduler's counts never exceed what has been asked for and agree once everything has executed.",
  ["programs", "configurations"],
  "All programs over the scheduler API, all batch sizes, all four schedulers.",
  "Tests compare the counters for a handful of single-gate programs, not across schedulers or after partial execution.",
  [SCH + "IScheduler.h", SCH + "LazyScheduler.cpp", SCH + "EagerScheduler.cpp", SCH + "PlaintextScheduler.cpp", SCH + "gate_keeper/ICompositeGate.h"],
  [("freeGates_/nonFreeGates_", SCH + "IScheduler.h"), ("getNumberOfResults", SCH + "gate_keeper/")],
  (), ["IScheduler::getGateStatistics"])

p("F01", "Bit and bit-string expressions mean what the plaintext expressions mean",
  "Any expression over secret and public bits and bit strings (logical operators, equality, selection of bit-string members, assignment, copying, moving, batching and unbatching, conversion to and from extracted shares) opens to the value of the same expression over plaintext booleans, for single values and for batches element by element. "
  "Copying, assigning (also to itself) and moving a value neither changes its meaning nor leaks or prematurely releases its wires.",
  ["programs", "inputs", "histories"],
  "All programs over the frontend bit types, any aliasing of operands, batches of any size.",
  "Tests apply each operator once to fresh operands; aliasing, self-assignment, moved-from objects and long assignment histories are not explored.",
  ["fbpcf/frontend/Bit.h", "fbpcf/frontend/Bit_impl.h", "fbpcf/frontend/BitString.h", "fbpcf/frontend/BitString_impl.h", "fbpcf/frontend/mpcGame.h"],
  [("operators over scheduler gates", "fbpcf/frontend/Bit_impl.h"), ("wire reference management in copy/assign/destroy", "fbpcf/frontend/Bit_impl.h")],
  (), ["Bit::openToParty/getValue", "SchedulerKeeper::getWireStatistics"])

p("F02", "Secret integers behave like width-w two's-complement machine integers",
  "Signed and unsigned secret and public integers of every width from 1 to 64 bits add, subtract, negate, compare, mux, batch and unbatch exactly as w-bit machine integers do (wrapping modulo 2^w, comparisons by signedness), for every mix of secret and public operands, single or batched. "
  "Values outside the range of the width are refused when an integer is built.",
  ["inputs", "configurations", "programs"],
  "All widths 1..64, both signednesses, all operand values including the extremes, secret/public mixes, batches.",
  "Tests use a few widths and small random values; sign and carry corners at unusual widths are not reached.",
  ["fbpcf/frontend/Int.h", "fbpcf/frontend/Int_impl.h", "fbpcf/frontend/util.h"],
  [("ripple-carry adder/subtractor and comparator", "fbpcf/frontend/Int_impl.h"), ("range check of inputs", "fbpcf/frontend/Int_impl.h")],
  (), ["Int::openToParty/getValue"])

p("E01", "Share-level gates keep the reconstructed value right at every party count",
  "For any number of parties, every operation of the secret-share engine - inputs, XOR/NOT/plus/neg in their symmetric and asymmetric forms, free and non-free AND/mult, single, batch and composite, scheduled in any number before one execution - yields shares that combine (XOR, or sum modulo 2^64) to the plaintext result. "
  "Results of a scheduled operation are returned for the index it was scheduled under, with the shape of its inputs; malformed batches are refused.",
  ["programs", "inputs", "configurations"],
  "All sequences of scheduled operations mixing normal, batch and composite gates of both kinds; N in 2..4 and all values.",
  "Tests schedule one kind of gate at a time for a fixed party count, so index mix-ups between kinds or shapes stay unseen.",
  [ENG + "SecretShareEngine.h", ENG + "SecretShareEngine.cpp", ENG + "DummySecretShareEngine.h"],
  [("opened masked operands with multiplication triples", ENG + "SecretShareEngine.cpp computeExecutionResultsFromOpenedShares*")],
  [("scheduled gates", "operations waiting for execution", ENG + "SecretShareEngine.h")], ["ISecretShareEngine results at all parties"])

p("E02", "Every non-free gate is masked by fresh tuples and only the result is opened",
  "The engine consumes exactly one fresh multiplication tuple per non-free element and never uses one twice, every value it puts on the wire for a gate is an operand share masked by that gate's own tuple, and no operation other than opening to a party reveals an unmasked share. "
  "When a value is opened to one party, only that party receives shares; nobody sends it anything but its own share and the others receive nothing. "
  "An input is split into fresh shares: no party's share is the value itself, another party's share or one used before.",
  ["programs", "inputs", "schedules"],
  "All mixes of scheduled gates and openings, N in 2..4, all tuples the generator can deliver.",
  "Secrecy-relevant reuse does not change any result, so no value-checking test can see it.",
  [ENG + "SecretShareEngine.cpp", TG + "ITupleGenerator.h"],
  [("requests of tuples per execution", ENG + "SecretShareEngine.cpp executeScheduledOperations"), ("reveal to one party", ENG + "SecretShareEngine.cpp revealToParty")],
  (), ["bytes sent by the communication agents", "requests seen by the tuple generator"])

p("E03", "Opening values never deadlocks and delivers every share, for any N",
  "Whatever the number of parties, exchanging the opened shares completes under every interleaving even when a send blocks until the peer receives, and every party ends with the same opened values. "
  "The same holds for the exchanges of the network-plaintext scheduler.",
  ["schedules", "configurations"],
  "All interleavings of the parties' sends and receives over unbuffered channels, N in 2..5.",
  "In-memory test channels buffer everything and tests use at most a few parties, so a wait cycle cannot show.",
  [ENG + "SecretShareEngine.cpp", SCH + "NetworkPlaintextScheduler.cpp"],
  [("order of send and receive by party id", ENG + "SecretShareEngine.cpp openSecretsToAll")], (), ["agent calls per party"])

p("E04", "Reported traffic is what went over the party's connections",
  "At any point of a session, the bytes a scheduler reports as sent and received by its party are exactly those that crossed the party's connections for this engine: for opening values, and for making tuples of both kinds with every other party (for a generator working ahead, once its work is done). "
  "A kind of tuple the engine was not configured with costs nothing and does not keep it from reporting. Once the engine is given up, the traffic it had reported and the values already worked out can still be read.",
  ["programs", "configurations", "schedules", "histories"],
  "All programs over every scheduler, every engine the library offers (boolean, integer, both; classic and FERRET) and 1..4 parties, asked at any point, also after deleteEngine.",
  "Tests check that the numbers agree between two parties or are not zero; a part that all parties leave out, or count twice, agrees as well.",
  [ENG + "SecretShareEngine.h", SCH + "LazyScheduler.cpp", SCH + "EagerScheduler.cpp", SCH + "NetworkPlaintextScheduler.cpp", TG + "TupleGenerator.cpp", TG + "TwoPartyTupleGenerator.cpp", TG + "ArithmeticTupleGenerator.cpp", TG + "NullTupleGenerator.h"],
  [("sum over the connections", ENG + "SecretShareEngine.h getTrafficStatistics"), ("statistics kept when the engine goes", SCH + "LazyScheduler.cpp deleteEngine")],
  [("traffic of the engine given up", "what it had reported", SCH + "LazyScheduler.h engineTrafficStatisticsBuffer_")], ["IScheduler::getTrafficStatistics", "bytes passed to the communication agents"])

p("C01", "A communication channel delivers exactly what was sent, in order",
  "What a party receives over an agent is exactly the sequence of bytes, bits, integers or records its peer sent, in order, independent of how either side splits them into calls and of scheduling; the two directions and different channels do not disturb each other. "
  "A packed bit sequence of any length arrives unchanged, and the reported traffic equals the bytes that crossed the channel.",
  ["inputs", "schedules", "histories"],
  "All sequences of typed sends with matching receives, any chunking, any interleaving, over in-memory, socket and TLS-less/TLS agents.",
  "Tests send fixed-size messages in lock step and never vary chunking or lengths that are not multiples of eight.",
  [ENG + "communication/IPartyCommunicationAgent.h", ENG + "communication/InMemoryPartyCommunicationAgentHost.cpp", ENG + "communication/SocketPartyCommunicationAgent.cpp"],
  [("bit packing", ENG + "communication/IPartyCommunicationAgent.h compressToBytes"), ("queue with condition variable", ENG + "communication/InMemoryPartyCommunicationAgentHost.cpp")],
  [("in-flight bytes", "sent and not yet received", ENG + "communication/InMemoryPartyCommunicationAgentHost.h")], ["send/receive of IPartyCommunicationAgent", "getTrafficStatistics"])

p("C02", "A broken connection is reported, never turned into data",
  "If the peer closes or the connection breaks before a message has arrived completely, the receiver gets an error and never a message padded with invented bytes; a message that arrived completely before the break is still delivered. "
  "Sending into a broken connection is reported as an error rather than silently dropped.",
  ["fault_sequences", "crash_points"],
  "A close or reset of the peer at every byte position of a message sequence, plain and TLS.",
  "No test closes a connection in the middle of a message.",
  [ENG + "communication/SocketPartyCommunicationAgent.cpp", ENG + "communication/SocketPartyCommunicationAgentFactory.h"],
  [("checks of read/write results", ENG + "communication/SocketPartyCommunicationAgent.cpp")], (), ["receive/send of the socket agent"])

p("C03", "Agent factories pair the k-th channels of every two parties with each other",
  "When all parties create agents towards each other, the k-th agent a party creates for a peer is connected to the k-th agent the peer creates for it - in memory for any order of creation at each party and any scheduling, with sockets (plain or TLS, also when assigned ports are taken) for any order of pairs the parties agree on - with any number of parties. "
  "Creating an agent for an unknown party or for oneself is refused, and a peer that does not come within the configured time is reported as an error.",
  ["schedules", "configurations"],
  "All orders of creation, all interleavings of the parties, N in 2..5, occupied ports.",
  "Tests create one or two agents in one fixed order.",
  [ENG + "communication/InMemoryPartyCommunicationAgentFactory.h", ENG + "communication/SocketPartyCommunicationAgentFactory.cpp", ENG + "communication/SocketPartyCommunicationAgentFactory.h"],
  [("per-peer counters under a lock", ENG + "communication/InMemoryPartyCommunicationAgentFactory.h"), ("port synchronisation", ENG + "communication/SocketPartyCommunicationAgentFactory.cpp")], (), ["tokens exchanged over created agents"])

p("C04", "A TLS agent talks only to the peer its authority vouches for, in private",
  "A client agent configured with a root authority completes a connection exactly when the server proves a certificate of that authority for the address that was dialled, over TLS 1.3; any other peer (foreign or no authority, self-signed, expired or not yet valid certificate, other address, older protocol, no TLS) is refused with an error before any data is exchanged. This holds for agents made directly and for those a factory creates. A server agent refuses clients that do not speak TLS 1.3. "
  "Data sent over an established TLS agent arrives unchanged and never crosses the network in clear.",
  ["configurations", "fault_sequences"],
  "All combinations of certificate issuer, trusted authority, dialled address, protocol version and role.",
  "Tests only connect matching parties; they pass just as well when verification is switched off.",
  [ENG + "communication/SocketPartyCommunicationAgent.cpp"],
  [("verification of certificate and host", ENG + "communication/SocketPartyCommunicationAgent.cpp openClientPortWithTls")], (), ["construction of agents", "bytes seen by a relay"])

p("T01", "The asynchronous buffer hands out the generated stream once, in order",
  "Data taken from an asynchronous buffer is exactly the concatenation of the chunks its generator produced, each element once and in order, for any sequence of request sizes (smaller, equal to, or larger than the buffer) and any timing of the background generation. "
  "The generator never runs concurrently with itself and destruction waits for a generation in progress.",
  ["schedules", "histories"],
  "All request-size sequences, buffer sizes and timings of the background task.",
  "The tests use a fast generator, so generation never overlaps a request and large requests rarely cross several chunks.",
  [ENG + "util/AsyncBuffer.h"], [("one generation ahead in a future", ENG + "util/AsyncBuffer.h getData")],
  [("index, buffer, future", "what has been handed out and what is being produced", ENG + "util/AsyncBuffer.h")], ["AsyncBuffer::getData"])

p("T02", "Multiplication tuples satisfy a*b=c across the parties for every request history",
  "Every boolean, composite and arithmetic tuple delivered to the parties satisfies (combined a) times (combined b) = combined c - for composite tuples with every b of the group - for any number of parties and any sequence of requests mixing kinds, sizes and order, as long as all parties make the same requests. "
  "The requested numbers and shapes are delivered exactly and no tuple is delivered twice. A party's own shares of boolean and arithmetic tuples are random: no bit of its a, b or c stays the same, or follows another, at any place of the session.",
  ["histories", "configurations", "inputs"],
  "All request sequences (normal/composite/mixed, sizes around buffer boundaries and the expansion threshold), N in 2..4, dummy and OT-based generators.",
  "Tests issue one request per generator; buffer refill boundaries and mixtures of kinds are not crossed.",
  [TG + "TupleGenerator.cpp", TG + "TwoPartyTupleGenerator.cpp", TG + "ArithmeticTupleGenerator.cpp", TG + "ProductShareGenerator.cpp", TG + "DummyTupleGenerator.h"],
  [("RCOT-based two-party tuples", TG + "TwoPartyTupleGenerator.cpp"), ("pairwise product shares", TG + "TupleGenerator.cpp")], (), ["getBooleanTuple/getCompositeTuple/getNormalAndCompositeBooleanTuples/getIntegerTuple at all parties"])

p("T03", "Oblivious transfer gives the receiver exactly the chosen message",
  "For every choice sequence and batch size, the base OT, the extended OTs and the bidirectional OT give the receiver the sender's message selected by its choice bit at that position; random correlated OT satisfies: receiver key = sender key XOR (choice times delta), with the choice in the key's last bit and the same delta throughout a session. "
  "Sessions can be continued with further calls of any size. What the sender of a single-point transfer says gives away no half of its keys: every message stands under a hashed key of its own. "
  "The public matrix that spreads the base keys is the same for the same seed and another one for every other seed, and mixes ten places drawn from all of them into every row.",
  ["inputs", "histories", "configurations"],
  "All choice vectors, message contents and sequences of batch sizes, including sizes crossing one extension round.",
  "Tests run one batch per object with one fixed size.",
  [OT + "NpBaseObliviousTransfer.cpp", OT + "RcotBasedBidirectionObliviousTransfer.h", OT + "IknpShRandomCorrelatedObliviousTransfer.cpp", OT + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", OT + "ferret/"],
  [("Naor-Pinkas base OT", OT + "NpBaseObliviousTransfer.cpp"), ("hash-based derandomisation", OT + "RcotBasedBidirectionObliviousTransfer.h"), ("ferret extension", OT + "ferret/")], (), ["OT outputs of both parties"])

p("T04", "Every correlated key is used once",
  "In an extended random correlated OT session of either side, whatever sizes are asked for, no key is delivered twice and the keys kept back to start the next extension are never delivered and start exactly one extension; both sides deliver the same keys at the same places. "
  "Within an extension the base keys are divided without overlap between the public-matrix part and the multi-point part, whose single-point transfers get keys of their own; the public matrix has a new seed, agreed by both sides, for every extension. "
  "Bidirectional OT uses fresh, hashed keys for every transfer (equal messages never give equal cipher texts, nor pairs of cipher texts that differ the same way) and the two-party tuple generator a fresh key for every tuple, boolean or composite, with no place of a composite vector constant.",
  ["inputs", "histories", "configurations"],
  "All sequences of request sizes across any number of extensions, all session parameters, all mixes of boolean and composite requests.",
  "A key used twice still passes every correctness test; tests ask once per object.",
  [OT + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", OT + "ExtenderBasedRandomCorrelatedObliviousTransferFactory.h", OT + "ferret/RcotExtender.cpp", OT + "ferret/RegularErrorMultiPointCot.cpp", OT + "RcotBasedBidirectionObliviousTransfer.cpp", "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp"],
  [("keys kept back", OT + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp"), ("dividing the base keys", OT + "ferret/RcotExtender.cpp"), ("consumers", "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp")], (), ["keys handed between the layers", "cipher texts on the wire"])

p("T05", "The pseudo-random generator is the AES-128 counter stream of its seed",
  "A generator delivers the AES-128 encryptions, under its seed, of the block numbers 0, 1, 2, ... as one byte stream: whatever mix of bit, byte, integer and in-place requests of whatever sizes is made, each request continues where the previous one ended (bit requests at the next byte, in-place requests at the next block) and no stream byte is repeated or skipped, with or without the asynchronous buffer; a generator without a buffer refuses buffered requests. "
  "The primitives under it - AES encryption and hashing, both key expansions, the doubling key expander, bit extraction and shifts of blocks, reduction of long numbers, masking for oblivious transfer - compute their defined functions for every input.",
  ["histories", "configurations"],
  "All interleavings of request kinds and sizes, buffer sizes, and seeds.",
  "Tests compare two generators under the same requests only.",
  [ENG + "util/AesPrg.h", ENG + "util/AesPrg.cpp", ENG + "util/AsyncBuffer.h", ENG + "util/IPrg.h", ENG + "util/aes.cpp", ENG + "util/util.h"],
  [("counter-mode AES", ENG + "util/AesPrg.cpp"), ("buffered generation", ENG + "util/AsyncBuffer.h")], (), ["IPrg::getRandomBits/getRandomBytes/getRandomUInt64"])

p("M01", "Permuting and shuffling keep the multiset and follow the agreed order",
  "A permuter returns result[i] = source[order[i]] for every order known to only one party, of every length, for secret bits, integers, pairs and bit strings in batches; a shuffler returns a permutation of its input, keeps paired columns together and applies one order drawn by each party, every order being equally likely.",
  ["inputs", "configurations"],
  "All permutations for small sizes, random ones for larger sizes including sizes that are not powers of two; both parties as permutation owner.",
  "Tests use one random permutation per size, at few sizes.",
  [STD + "permuter/AsWaksmanPermuter_impl.h", STD + "permuter/AsWaksmanPermuter.h", STD + "permuter/DummyPermuter.h", STD + "shuffler/PermuteBasedShuffler.h", STD + "shuffler/NonShuffler.h"],
  [("AS-Waksman network control bits", STD + "permuter/AsWaksmanPermuter_impl.h"), ("two successive permutations", STD + "shuffler/PermuteBasedShuffler.h")], (), ["opened results"])

p("M02", "Compaction returns exactly the labelled items, with their labels",
  "A compactor that may reveal the number of items returns exactly the items whose secret label is 1, each as often as it occurs and together with its label, for every pattern of labels; the chosen items come out in any order equally likely, whatever their places were; a request not to reveal the number is refused by the shuffling compactor. As there are no empty columns, a pattern without any 1 is an error at both parties, never a result.",
  ["inputs"],
  "All label patterns for small sizes, random ones for larger sizes.",
  "Tests use one random label pattern.",
  [STD + "compactor/ShuffleBasedCompactor.h", STD + "compactor/DummyCompactor.h"],
  [("shuffle, open labels, pick", STD + "compactor/ShuffleBasedCompactor.h")], (), ["opened results"])

p("M03", "Oblivious RAM answers like an array",
  "Write-only ORAM and linear ORAM hold exactly what an array would after the same additions, for every sequence of batches of secret writes (with repeated indexes within and across batches), every size, element type and choice of roles: a read reveals the cell to the chosen party only, or to both as additive shares. Malformed batches and reads beyond the size are refused. "
  "Their parts keep their own contracts: the two parties' point arrays differ exactly at the secret index, and the difference comes out with the right sign at both parties.",
  ["histories", "inputs", "configurations"],
  "All operation sequences, ORAM sizes (including sizes that are not powers of two), batch sizes and indexes.",
  "Tests run one batch of writes per ORAM of a fixed size.",
  [STD + "oram/WriteOnlyOram_impl.h", STD + "oram/LinearOram_impl.h", STD + "oram/ObliviousDeltaCalculator_impl.h", STD + "oram/SinglePointArrayGenerator.cpp"],
  [("distributed point function expansion", STD + "oram/SinglePointArrayGenerator.cpp"), ("linear scan", STD + "oram/LinearOram_impl.h")],
  [("memory", "cell contents", STD + "oram/")], ["publicRead/secretRead/obliviousAddBatch"])

p("M04", "ORAM index encoding gives each group one index and round-trips",
  "The encoder maps each distinct combination of breakdown values that passes its filters to one index of its own and keeps doing so across batches, all rejected rows share one further index, the indexes in use are exactly 0 up to the announced size, and decoding an index (also with a mapping written to a file or string and read back) returns the combination it stands for, the empty combination for the rejected rows, and an error for an index that was never given. "
  "Filters compare as unsigned numbers and sets; a filter kind of the wrong class, or a row too short for a filter, is refused.",
  ["inputs", "histories"],
  "All sequences of batches of breakdown keys with repetitions.",
  "Tests encode one fixed batch.",
  [STD + "oram/encoder/OramEncoder.h", STD + "oram/encoder/OramEncoder.cpp", STD + "oram/encoder/OramDecoder.cpp", STD + "oram/encoder/OramMappingConfig.h", STD + "oram/encoder/IFilter.h"],
  [("mapping table extended on first sight", STD + "oram/encoder/OramEncoder.cpp")], (), ["generateORAMIndexes", "exportMappingConfig"])

p("M05", "Unified data processing gives both parties shares of exactly the chosen rows",
  "After one party encrypts its rows and the other picks the indexes of the intersection, both hold shares which combine to exactly the picked rows in the picked order, for any number, width and repetition-free choice of rows, whether delivered in one batch or many, across sessions of the same objects. "
  "Nothing of an earlier session appears in a later one; row indexes are 64-bit numbers. Status misuse and malformed rows (no rows, a row of another width anywhere in the batch, other than one index per row) are refused, and serialised results split into shards and read back give the same rows.",
  ["inputs", "histories", "configurations"],
  "All row counts and widths, all selections, all splits into processing batches, repeated sessions.",
  "Tests process one batch with one fixed selection.",
  [STD + "unified_data_process/data_processor/UdpEncryption.cpp", STD + "unified_data_process/data_processor/UdpDecryption.h", STD + "unified_data_process/data_processor/DataProcessor_impl.h", STD + "unified_data_process/data_processor/UdpUtil.cpp"],
  [("AES-CTR per row with nonce and index", STD + "unified_data_process/data_processor/UdpEncryption.cpp"), ("decryption inside MPC", STD + "unified_data_process/data_processor/UdpDecryption.h")],
  [("session status", "idle or in progress per direction", STD + "unified_data_process/data_processor/UdpEncryption.h")], ["opened rows", "exceptions"])

p("M06", "The intersection adapter aligns both parties' rows of the same matched ids",
  "Given both parties' maps from the union to their own rows, the adapter outputs for both parties lists of the same length in which position i stands for the same union member at both parties, each list giving the member's row at the peer, covering every member present at both exactly once and no other, in an order which, with the secure shuffler, is as likely as any other. Empty maps, entries out of range and entries that repeat are refused.",
  ["inputs"],
  "All pairs of union maps (including empty and full intersections) for small sizes, random larger ones.",
  "Tests use one fixed pair of maps.",
  [STD + "unified_data_process/adapter/Adapter_impl.h", STD + "unified_data_process/adapter/AdapterFactory.h"],
  [("shuffle then compact on presence flags", STD + "unified_data_process/adapter/Adapter_impl.h")], (), ["adapt() at both parties"])

p("M07", "Row serialisation and deserialisation are inverse for every row structure",
  "For every row structure (bits, integers of both signednesses and widths, fixed arrays) and every row contents, what is serialised at the owner and deserialised from shares inside MPC opens to the same columns; every row has the announced size, in which up to eight bit columns share a byte. Missing or additional columns, columns of another type, wrong row counts and wrong array lengths are refused.",
  ["inputs", "configurations"],
  "All combinations of column types and paddings, more than eight bit columns, extreme values.",
  "Tests use one structure.",
  [STD + "unified_data_process/serialization/RowStructureDefinition.h", STD + "unified_data_process/serialization/IColumnDefinition.h", STD + "unified_data_process/serialization/FixedSizeArrayColumn.h", STD + "unified_data_process/serialization/PackedBitFieldColumn.h", STD + "unified_data_process/serialization/IntegerColumn.h"],
  [("column layout", STD + "unified_data_process/serialization/RowStructureDefinition.h")], (), ["serializeDataAsBytesInRowMajor / deserializeUDPOutputIntoMPCTypes"])

p("M08", "Secure matrix multiplication returns the product of the labelled rows",
  "For every feature matrix and secret label vector, the party holding the features obtains the sum of the feature rows whose label is 1, per column, plus exactly the noise the other party added; dimensions that do not match are refused.",
  ["inputs", "configurations"],
  "All matrix shapes and label patterns, values within the fixed-point range.",
  "Tests multiply two matrices of fixed shape.",
  [STD + "walr_multiplication/OTBasedMatrixMultiplication_impl.h", STD + "walr_multiplication/OTBasedMatrixMultiplication.h", STD + "walr_multiplication/DummyMatrixMultiplication.h", STD + "walr_multiplication/util/"],
  [("correlated OT per label with random messages", STD + "walr_multiplication/OTBasedMatrixMultiplication_impl.h")], (), ["matrixVectorMultiplication at both parties"])

p("M09", "The AES circuit and the MAC primitives compute the standard functions",
  "Encrypting and decrypting with the in-MPC AES circuit gives exactly AES-128 of every plaintext under every key (also in counter mode and for several blocks and batches), decryption inverts encryption, and the CMAC and S2V primitives give the values their RFCs define for every message length (S2V without associated data). Inputs that are no multiple of a block, keys that are not expanded and counters of another length are refused.",
  ["inputs"],
  "All keys and blocks; message lengths around block boundaries.",
  "Tests use one or two vectors.",
  [STD + "aes_circuit/AesCircuit_impl.h", STD + "aes_circuit/AesCircuitCtr_impl.h", STD + "aes_circuit/AesCircuit.h", "fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"],
  [("boolean AES round circuit", STD + "aes_circuit/AesCircuit_impl.h"), ("CMAC/S2V", "fbpcf/primitive/mac/")], (), ["opened blocks", "MAC bytes"])

p("M10", "Typed MPC containers convert between batches, items and plaintext without loss",
  "Converting secret columns between a batch and per-item form, packing and unpacking, swapping selected items and drawing random permutations behave as the plaintext operations do for every supported type (bits, integers, aggregation values, pairs, bit strings, vectors), every batch size and every value.",
  ["inputs", "configurations"],
  "All supported types, batch sizes and values.",
  "Tests cover each conversion once with one size.",
  [STD + "util/util.h", STD + "util/bitstring_impl.h", STD + "util/pair_impl.h", STD + "util/uint32_impl.h", STD + "util/aggregationValue_impl.h", STD + "util/Intp_impl.h", STD + "util/secureRandomPermutation.cpp"],
  [("MpcAdapters", STD + "util/")], (), ["opened values"])

p("I01", "Buffered file I/O reads and writes the exact byte stream",
  "Whatever mixture of reads by length and by line is made, with any buffer size, a buffered reader delivers exactly the bytes of the file in order and reports the end exactly when all bytes are delivered; a buffered writer puts exactly the written bytes into the file, in order, once closed. "
  "The file functions (read, write, copy in parts) preserve the content, adding a final newline where the last line has none, and the CSV reader delivers header and rows with the cells trimmed. "
  "A missing source, a failing write and a failing close surface as errors: success means that the content is in the file.",
  ["inputs", "histories"],
  "All file contents (empty, no trailing newline, long lines, CR/LF), buffer sizes and call mixtures.",
  "Tests use one file with two buffer sizes.",
  ["fbpcf/io/api/BufferedReader.cpp", "fbpcf/io/api/BufferedWriter.cpp", "fbpcf/io/api/FileIOWrappers.cpp", "fbpcf/io/api/LocalFileReader.cpp", "fbpcf/io/api/LocalFileWriter.cpp", "fbpcf/io/api/FileReader.cpp", "fbpcf/io/api/FileWriter.cpp"],
  [("chunk buffer with positions", "fbpcf/io/api/BufferedReader.cpp")],
  [("buffer position", "bytes delivered or pending", "fbpcf/io/api/BufferedReader.h")], ["read/readLine/eof/writeString/flush/close"])

p("I02", "Cloud uploads and downloads are complete or reported as failed",
  "A cloud writer whose writes and close all succeed leaves an object that consists of exactly the written bytes in order, whatever sequence of part-upload failures and retries happened; up to three failures in a row of one S3 part request do not matter. "
  "If a part or the completion fails for good, the write or the close reports it, no truncated object appears under the name (not even when the caller carries on writing, or the abort request fails as well), and the upload is aborted unless the abort itself fails. "
  "The file functions built on it report the failure too. A cloud reader delivers exactly the object's bytes for any chunking, also when the service returns less than asked for, passes a failing request on as an error without losing its place, and stops at the end.",
  ["fault_sequences", "inputs"],
  "All sequences of service failures during initiation, part upload, completion and abort; all chunkings.",
  "The tests mock the client with one success path and one failure.",
  ["fbpcf/io/cloud_util/S3FileUploader.cpp", "fbpcf/io/cloud_util/GCSFileUploader.cpp", "fbpcf/io/cloud_util/S3FileReader.cpp", "fbpcf/io/cloud_util/GCSFileReader.cpp", "fbpcf/io/api/CloudFileWriter.cpp", "fbpcf/io/api/CloudFileReader.cpp"],
  [("multipart protocol with bounded retries", "fbpcf/io/cloud_util/S3FileUploader.cpp")],
  [("uploaded parts", "part numbers and tags", "fbpcf/io/cloud_util/S3FileUploader.h")], ["calls on the storage client", "object contents"])

p("I03", "File managers address the object they are given and move bytes unchanged",
  "Reading, writing, copying and ranged reads (of at least one byte) through the local, S3 and GCS file managers return or store exactly the bytes of the addressed object (ranges clipped to its end, any byte values), a missing object or source is an error, and a refused or failing request is reported and changes nothing. "
  "Every address of the documented S3 and GCS forms resolves to its bucket, region and key (bucket names may contain dots), an address without a key or of another form is refused, and the storage kind is inferred from the address alone. S3 clients take each setting from the caller, else from the environment, and there is one shared client per region.",
  ["inputs", "histories"],
  "All contents including NUL bytes, all ranges, all address forms the systems document.",
  "Tests use one text content and a few addresses.",
  ["fbpcf/io/LocalFileManager.cpp", "fbpcf/io/S3FileManager.cpp", "fbpcf/io/GCSFileManager.h", "fbpcf/aws/S3Util.cpp", "fbpcf/gcp/GCSUtil.cpp", "fbpcf/io/FileManagerUtil.cpp", "fbpcf/io/cloud_util/CloudFileUtil.cpp"],
  [("address parsing", "fbpcf/aws/S3Util.cpp, fbpcf/gcp/GCSUtil.cpp"), ("ranged reads", "fbpcf/io/")], (), ["IFileManager calls", "uriToObjectReference"])

p("U01", "Metric collection reports every recorder once and aggregates exactly",
  "A collector reports every registered recorder exactly once, with the recorder's current values, under the collector's prefix and the name it was registered with (recorders registered under a name already taken are kept as well, under a key of their own). The aggregate holds, for every metric with numeric values in any recorder, the exact sum under the prefix and the metric's name, and nothing else. The map/reduce and element-wise vector helpers apply their function to every element in order and refuse vectors of different lengths and the reduction of an empty one.",
  ["inputs", "histories"],
  "All sets of recorders with any metrics, all histories of registrations and changes, all vectors.",
  "Tests use one collector with fixed recorders.",
  ["fbpcf/util/MetricCollector.h", "fbpcf/util/IMetricRecorder.h", "fbpcf/common/FunctionalUtil.h", "fbpcf/common/VectorUtil.h"],
  [("collect and aggregate", "fbpcf/util/MetricCollector.h")], (), ["collectMetrics / aggregateMetrics"])

p("G01", "The bundled games compute their plaintext functions",
  "The edit-distance application outputs, for every pair of words and every weights, the plaintext weighted edit distance and the winners its threshold defines, and the billionaire application says which side owns more, for every input including totals beyond 32 bits, both parties obtaining only the outputs assigned to them. Inputs that disagree (rows, threshold, costs) or are too long are refused at both parties, the validator accepts exactly the results the shares hold, and the string type keeps sizes, case conversion, choice and opening exact.",
  ["inputs", "configurations"],
  "All word pairs of the supported length and character set, all weights; all asset lists.",
  "Tests run one or two fixed examples.",
  ["example/edit_distance/EditDistanceCalculator_impl.h", "example/edit_distance/MPCTypes.h", "example/edit_distance/Validator.h", "example/billionaire_problem/BillionaireProblemGame_impl.h"],
  [("dynamic programming over secret characters", "example/edit_distance/")], (), ["game outputs"])

p("X01", "Shares and protocol messages reveal nothing computationally",
  "The distribution of every message a party receives, other than an opened result, is computationally independent of the other parties' inputs.",
  ["inputs", "schedules"],
  "All inputs and all computationally bounded observers of one party's view.",
  "A statement about distributions and hardness assumptions cannot be tested.",
  [ENG + "SecretShareEngine.cpp", OT + "NpBaseObliviousTransfer.cpp"],
  [("one-time masks, OT, AES", ENG)], (), ["protocol transcripts"])

if __name__ == "__main__":
    import glob
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    for x in P:
        for a in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + a):
                print(x["id"], "missing", a)
