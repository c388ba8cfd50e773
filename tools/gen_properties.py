#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Encryption and decryption are inverse, whatever was decrypted before",
  "For every key pair and every integer in the supported range (absolute value below 100000), encrypting it and decrypting the result with the matching private key returns that integer: non-negative integers with the plain decryption, integers of either sign with the sign-aware one, and zero/non-zero with the zero test. This holds for scalars, single values and vectors of any length element by element, and does not depend on which other values were decrypted earlier, in what order, with which of the decryption functions, or by how many goroutines at the same time. A group key made of several servers' keys decrypts with the sum of their private keys, and a split scalar's shares always add up to it without altering the caller's scalar.",
  ["inputs", "histories", "schedules"],
  "all key pairs, all integers in range, all vector lengths (including 0, 1 and those around the internal work-chunk size), all sequences of earlier and concurrent decryptions",
  "The tests encrypt a handful of small values under one key and decrypt in one fixed order; the lookup table that decryption grows is shared state, so the result for one value depends on the whole history of earlier decryptions.",
  ["lib/crypto.go"],
  [("ElGamal encryption", "lib/crypto.go encryptPoint, EncryptIntVector*"), ("incremental discrete-log table", "lib/crypto.go discreteLog"), ("key handling", "lib/crypto.go GenKeys, SplitScalar")],
  ["integers returned by the decryption functions"],
  state=[("decryption table", "process-wide map from curve points to integers, grown by every decryption")])

p("C02", "Homomorphic operations compute the right plaintexts and leave inputs alone",
  "Adding, subtracting, accumulating or multiplying by a scalar any ciphertexts or ciphertext vectors of any length yields ciphertexts whose decryption equals the same operation on the plaintexts, element by element, also when the result is stored over one of the operands. Operands that are not the destination are never changed, and equality of ciphertexts and vectors is true exactly when both have the same length and the same components. Merging a response into a table of groups adds its aggregates to that group's entry, keeps its group attributes and touches no other group.",
  ["inputs", "programs"],
  "all sequences of operations over all plaintexts in range, all vector lengths, all aliasing patterns of destination and operands",
  "The tests check one addition and one multiplication on short fixed vectors; vector code is split into parallel chunks that the test vectors never fill.",
  ["lib/crypto.go", "lib/structs.go"],
  [("vector add/sub/mul", "lib/crypto.go CipherText.Add/Sub/MulCipherTextbyScalar, CipherVector.Add/Sub/Acum/Equal"), ("group merge", "lib/structs.go FilteredResponse.Add, AddInMap")],
  ["decrypted results", "bytes of the operands before and after"])

p("C03", "Everything that is serialised decodes to the same value",
  "Encoding and then decoding any value the system exchanges or stores - ciphertexts, vectors and lists of vectors (including empty ones), points, scalars, text encodings, data-provider responses, intermediate and final responses with their group and filter tags, protocol messages, proofs, precomputed shuffling material, clear group keys and integer lists - returns a value equal to the original, with the same lengths and order, whatever else is encoded or decoded in between or at the same time. Encoding does not modify the value, and the encoding of a decoded value equals the first encoding.",
  ["inputs"],
  "all well-formed values: any number of elements per component (including none), any integers (several digits, negative) in keys, tags of any text without the separator",
  "The tests round-trip one or two hand-picked values per type with single-digit keys and non-empty components; many types and components have no round-trip test at all.",
  ["lib/crypto.go", "lib/structs.go", "lib/tools/tools.go", "lib/shuffle/shuffle.go", "lib/shuffle/structs.go", "lib/key_switch/key_switch_proofs.go", "lib/aggregation/aggregation_proofs.go", "lib/deterministic_tag/deterministic_tag_proofs.go", "lib/add_rm/add_rm_proofs.go", "protocols/tools_protocol.go", "protocols/collective_aggregation_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling_protocol.go"],
  [("byte codecs", "ToBytes/FromBytes methods in lib and protocols"), ("base64 codecs", "lib/crypto.go Serialize*/Deserialize*"), ("group keys", "lib/structs.go Key/UnKey"), ("gob precompute file", "lib/tools/tools.go WriteToGobFile/ReadFromGobFile, lib/shuffle/shuffle.go")],
  ["decoded values compared with the originals"])

p("C04", "Malformed encodings are refused with an error, never with a crash",
  "Decoding any byte string or text - truncated, extended, bit-flipped, random, empty, or accompanied by lengths that do not fit it - either succeeds or returns an error: it never crashes the process and never reads outside the input. Input that is shorter than its announced lengths require is always refused. A server refuses an upload with such a value as a whole: none of its responses becomes part of the survey, which goes on unharmed.",
  ["inputs", "fault_sequences"],
  "all byte strings and all length vectors, in particular every truncation and mutation of a valid encoding, for every decoder reachable from the network, from files or from the command line",
  "The tests only decode what the matching encoder produced (and one invalid base64 string); a crash needs bytes a well-behaved peer never sends.",
  ["lib/crypto.go", "lib/structs.go", "lib/tools/tools.go", "lib/key_switch/key_switch_proofs.go", "lib/shuffle/shuffle_proofs.go", "protocols/collective_aggregation_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling_protocol.go", "protocols/tools_protocol.go"],
  [("decoders", "FromBytes/Deserialize*/FromBytesTo* in lib and protocols"), ("uploads", "Service.PushData in services/service.go")],
  ["error or value; a panic is a violation"])

p("C05", "Key switching re-encrypts the same values for the querier",
  "After the servers have run key switching on any ciphertext vector under their collective key, decrypting the result with the querier's private key gives the original plaintexts in the original order, for any number of servers, any tree shape, any vector length including none and any querier key. The result no longer depends on any server's key, and every server's contribution is blinded with fresh randomness.",
  ["inputs", "configurations", "schedules"],
  "all plaintext vectors and lengths, all numbers of servers from one upwards, all tree shapes and message arrival orders, all querier keys",
  "The tests use one fixed roster, one fixed vector and one arrival order; the single-server deployment and long vectors are never run.",
  ["lib/key_switch/key_switch.go", "protocols/key_switching_protocol.go", "protocols/tools_protocol.go"],
  [("per-server contribution", "lib/key_switch/key_switch.go KeySwitchSequence"), ("tree protocol", "protocols/key_switching_protocol.go announce, ascending aggregation")],
  ["protocol feedback channel, decrypted with the querier's key"])

p("C06", "Shuffling outputs a re-randomised permutation of whole rows",
  "The output of shuffling any list of rows of equal length is, after decryption, exactly the multiset of the input rows: no row is lost, duplicated or altered, and the values of one row stay together in their column order. Every ciphertext of the output differs from every ciphertext of the input and carries fresh randomness, the order follows the generated permutation (a true permutation of all positions, which varies between runs: every row can come to every place), and the input is left unchanged. This holds with and without precomputed randomness, whatever that was prepared for or left in a file by earlier surveys, for one shuffle as for the chain over any number of servers.",
  ["inputs", "configurations", "histories"],
  "all matrices of at least one row, any row width, any plaintexts including equal rows, any number of servers and tree, any precomputation length relative to the row width, any earlier content of the precomputation file",
  "The tests shuffle tiny fixed matrices and mostly compare sums; repeated rows, wide rows, large row counts, and precomputed lines that have to be reused are not covered.",
  ["lib/shuffle/shuffle.go", "lib/shuffle/structs.go", "protocols/shuffling_protocol.go", "protocols/shuffling+ddt_protocol.go", "lib/crypto.go"],
  [("shuffle sequence", "lib/shuffle/shuffle.go ShuffleSequence, PrecomputeForShuffling, PrecomputationWritingForShuffling"), ("permutation", "lib/crypto.go RandomPermutation"), ("ring protocol", "protocols/shuffling_protocol.go")],
  ["decrypted rows of the output", "ciphertexts of input and output"])

p("C07", "Deterministic tags are equal exactly when the plaintexts are equal",
  "Within one tagging run the tags produced for a list of ciphertexts have the length and order of the list, and two positions get equal tags if and only if their plaintexts are equal, whatever randomness the encryptions used, for any number of servers, any tree and any list length. Two runs with the same server secrets give the same tag to the same plaintext, also when they are started at different servers or tag different lists, so groups can be matched across servers; changing any server's secret changes the tags. The combined shuffle-and-tag protocol takes a list of rows and returns one row of tags per input row, in any order: over all its rows the tags are equal exactly for equal plaintexts, the tags of one row stay together in column order, and runs that visit the same servers in the same order with the same secrets tag the same plaintext equally.",
  ["inputs", "configurations"],
  "all plaintext lists with arbitrary equality patterns, all numbers of servers, roots, trees and survey secrets, all list lengths including those around the work-chunk size",
  "The tests tag short fixed lists in one tree; equality across runs, roots and long lists is not sampled.",
  ["lib/deterministic_tag/deterministic_tag.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling+ddt_protocol.go", "protocols/tools_protocol.go"],
  [("tag step", "lib/deterministic_tag/deterministic_tag.go DeterministicTagSequence"), ("ring protocol", "protocols/deterministic_tagging_protocol.go"), ("shuffle+tag", "protocols/shuffling+ddt_protocol.go")],
  ["tags returned on the feedback channels"])

p("C08", "Collective aggregation sums every group over all servers exactly once",
  "The result of collective aggregation contains exactly the groups that occur at some server, and each group's aggregates decrypt to the sum over all servers of that group's local aggregates, with its group attributes preserved. This holds for any number of servers and any tree, when servers hold different, overlapping or no groups, when vectors have different lengths (the shorter is padded with zeros), for grouped and for plain data, and for every order in which the children's messages arrive.",
  ["inputs", "configurations", "schedules"],
  "all assignments of group-to-vector maps to servers (empty, disjoint, overlapping, different vector lengths across servers), all tree shapes, all interleavings of the children's length and data messages, proofs on or off",
  "The tests use fixed small maps on one tree and one machine, where children's messages practically always arrive in lock-step order.",
  ["protocols/collective_aggregation_protocol.go", "lib/structs.go", "protocols/tools_protocol.go"],
  [("ascending aggregation", "protocols/collective_aggregation_protocol.go"), ("group merge", "lib/structs.go AddInMap"), ("message encoding", "protocols/collective_aggregation_protocol.go ChildAggregatedDataMessage")],
  ["protocol feedback channel, decrypted"])

p("C09", "A survey's store keeps every response until it is pulled, exactly once",
  "For every sequence of insertions and pulls, also when several data providers insert at once, each inserted response is reflected in exactly one later pull: unencrypted-attribute responses as the sum per group and filter value, encrypted ones individually, tagged ones as the sum per tag. What a pull returned never changes afterwards, nothing is delivered twice or lost, and the store reports pending data exactly when there is some. When obfuscation noise is requested at a pull, every returned aggregate is shifted by exactly that noise and nothing else changes.",
  ["histories", "inputs", "schedules"],
  "all interleavings of the store's operations with any responses (clear, encrypted, mixed, missing and extra attributes) and any group/filter/sum selection; concurrent insertions",
  "The tests insert one or two responses and pull once; what the second pull returns, and whether an earlier result changes under later insertions, is not observed.",
  ["lib/store/store.go", "lib/structs.go"],
  [("store", "lib/store/store.go Insert*/Push*/Pull*/HasNext*"), ("group merge", "lib/structs.go AddInMap")],
  ["values returned by the pulls, decrypted", "HasNext* answers"],
  state=[("store tables", "pending data-provider responses, shuffled rows, local and collective groups, deliverable results")])

p("C10", "A survey returns the exact answer of the clear-text query",
  "For every survey, the result the querier decrypts contains each group among the records that satisfy the where-predicate exactly once, with the exact sums (and count) over all records of all data providers, as computed directly on the clear data. This holds for any number of servers, for any distribution of data providers and records over them including servers without any, for clear, encrypted or mixed attributes, with and without proofs, group-by, where and count, and independently of who sends the query. Operations on an unknown survey are answered with an error.",
  ["inputs", "configurations"],
  "all rosters, assignments of data providers to servers, data sets, attribute splits between clear and encrypted, queries (sum, count, where, predicate, group by) and entry servers",
  "The tests run a few fixed scenarios with 2-3 servers and check fixed sums; the space of query shapes times data distributions is not explored.",
  ["services/service.go", "services/api.go", "lib/store/store.go", "protocols/tools_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/collective_aggregation_protocol.go", "protocols/key_switching_protocol.go"],
  [("survey phases", "services/service.go StartService and phases"), ("client", "services/api.go"), ("row formatting", "protocols/tools_protocol.go")],
  ["groups and aggregates returned to the client"])

p("C11", "Concurrent work is isolated: nothing is mixed up or lost",
  "Several surveys running at the same time on the same servers, several data providers uploading to the same server at once, and several instances of the same protocol running at once in one process each give the result they would give alone. No upload is lost or counted twice, no instance receives another instance's result, and no run blocks forever because another one is in progress.",
  ["schedules", "histories", "configurations"],
  "all numbers of concurrent surveys, uploads and protocol instances and all interleavings of their steps, including more uploads to one server than its internal queues hold",
  "The tests run two surveys at once once per run; the interleavings that lose an update or deliver to the wrong instance are rare and not provoked.",
  ["services/service.go", "lib/store/store.go", "protocols/utils/addrm_server_protocol.go", "protocols/utils/local_aggregation_protocol.go", "protocols/utils/local_clear_aggregation_protocol.go", "protocols/utils/proofs_verification_protocol.go"],
  [("survey table", "services/service.go getSurvey/putSurvey/PushData"), ("result channels", "protocols/utils/*.go FeedbackChannel")],
  ["results of each survey and each protocol instance"],
  state=[("survey map", "surveys by id, copied in and out by concurrent handlers"), ("feedback channels", "where protocol instances deliver results")])

def proofprop(id, kind, title, st, text, files, mech, why):
    p(id, title, st, ["inputs", "fault_sequences"], text, why, files, mech, ["verdicts of the verification functions"])

proofprop("C12", "ks", "Key-switch proofs: honest ones verify, tampered ones do not",
  "A proof created for an honestly computed key-switch contribution verifies, alone, in a list of any length and after being serialised and deserialised, including the proofs the servers publish during the protocol. If any published component - a key, an input, the contribution or the proof itself - is altered, exchanged with another element's, or was computed with a wrong secret or a wrong target key, verification fails, for the single proof and for any list containing it when the whole list is verified.",
  "all key pairs, values and list lengths; every component of the proof and every way of altering it (other point, identity, negation, swap, bit flip)",
  ["lib/key_switch/key_switch_proofs.go", "lib/key_switch/key_switch.go", "protocols/key_switching_protocol.go"],
  [("creation/verification", "lib/key_switch/key_switch_proofs.go")],
  "The tests verify one honest proof and one or two hand-made false ones; which component the verifier ignores can only be found by altering all of them.")
proofprop("C13", "shuffle", "Shuffle proofs: honest ones verify, tampered ones do not",
  "A proof created for an honest shuffle of any matrix of at least two rows (fewer are refused with an error) verifies under the collective key, alone, in a list, after serialisation and with precomputed randomness, including the proofs the servers publish during the protocol. If an output row is dropped, duplicated, replaced or altered, values are moved between rows or columns, or the proof, the inputs or the key are changed, verification fails (and does not crash).",
  "all matrices (rows, widths, values), keys and permutations; all single and multi-element alterations of outputs, inputs, keys and proof bytes",
  ["lib/shuffle/shuffle_proofs.go", "lib/shuffle/structs.go", "protocols/shuffling_protocol.go"],
  [("creation/verification", "lib/shuffle/shuffle_proofs.go")],
  "The tests check one honest proof and a wrong-matrix proof; soundness against the many ways of cheating on one row or one column is not sampled.")
proofprop("C14", "ddt", "Tagging proofs: honest ones verify, tampered ones do not",
  "Proofs created for an honest deterministic-tagging step (the key-removal and multiplication step, and the secret addition) verify for every element of lists of any length and content, alone, in the list and after their points travelled through serialisation. If any component - ciphertext before or after, key, secret commitment, result or proof - is altered or belongs to another element, or was computed with another secret, verification fails for that proof and for any fully verified list that contains it.",
  "all ciphertext lists, secrets and keys; every component and every way of altering it",
  ["lib/deterministic_tag/deterministic_tag_proofs.go", "lib/deterministic_tag/deterministic_tag.go"],
  [("creation/verification", "lib/deterministic_tag/deterministic_tag_proofs.go")],
  "The tests use lists whose elements are alike or verify a single element, so mixing up elements of a list or ignoring a component goes unnoticed.")
proofprop("C15", "aggr", "Aggregation proofs: honest ones verify, tampered ones do not",
  "A proof for an honest aggregation verifies for any number of aggregated vectors and any vector length, alone, in a list, and when published by the local or collective aggregation of a run. If the claimed sum, or any aggregated ciphertext, is altered, dropped, duplicated or exchanged, verification fails for that proof and for any fully verified list that contains it.",
  "all lists of vectors of any size and content; all alterations of data and result",
  ["lib/aggregation/aggregation_proofs.go", "lib/structs.go", "protocols/collective_aggregation_protocol.go", "lib/store/store.go"],
  [("creation/verification", "lib/aggregation/aggregation_proofs.go"), ("proof data", "lib/structs.go FormatAggregationProofs")],
  "The tests verify one honest and one false aggregation of fixed data.")
proofprop("C16", "addrm", "Add/remove-server proofs: honest ones verify, tampered ones do not",
  "A proof created for an honest re-encryption when a server joins or leaves verifies for lists of any length, for both directions. If the ciphertext before or after (either component), the key or the proof is altered, the direction is swapped, or another secret was used, verification fails for that proof and for any fully verified list that contains it.",
  "all ciphertext lists, keys and both directions; every component and every way of altering it",
  ["lib/add_rm/add_rm_proofs.go", "protocols/utils/addrm_server_protocol.go"],
  [("creation/verification", "lib/add_rm/add_rm_proofs.go")],
  "The tests check one honest and one false list per direction.")

p("C17", "Adding or removing a server re-keys stored data without changing it",
  "When a server joins, data encrypted under the collective key becomes data encrypted under the collective key including the new server; when it leaves, the reverse; in both cases every stored value decrypts to what it was, in order, under the new key and not under the old one. Adding and then removing the same server gives back exactly the original ciphertexts. This holds for data sets of any size, and any sequence of servers joining and leaving.",
  ["inputs", "histories"],
  "all ciphertext vectors (including long ones), keys, and sequences of joins and departures",
  "The test runs one addition and one removal on a fixed short vector.",
  ["protocols/utils/addrm_server_protocol.go"],
  [("re-keying", "protocols/utils/addrm_server_protocol.go changeEncryption")],
  ["protocol feedback channel, decrypted under old and new keys"])

p("C18", "The where-filter keeps exactly the records that satisfy the predicate",
  "Filtering tagged records by a predicate over query and record attributes keeps, in order and unaltered, exactly those for which the predicate is true, for any boolean combination of equalities and inequalities over any number of attributes (operators separated as the predicate language requires). Without a predicate every record is kept; an invalid predicate, or one that is not boolean, never crashes the server and keeps no record. The number of data providers of a query is the sum over its servers.",
  ["inputs", "programs"],
  "all predicates built from ==, !=, &&, ||, ! and parentheses over any number of attributes; all tag assignments; malformed predicates",
  "The tests use one or two fixed predicates with two attributes.",
  ["services/service.go"],
  [("predicate filter", "services/service.go FilterResponses, FilterNone, CountDPs")],
  ["filtered list"])

p("C19", "Test-data files and the clear-text reference result are faithful",
  "Generated data has the requested number of providers, records and attributes with values in the requested ranges (every group exactly once per provider when all groups are requested), writing data to a file and reading it back gives the same data, and the computed expected result is the exact per-group sum of the records that pass the filter (those none of whose filter attributes is 0), for any integers. Computing it does not change the data it is computed from, and comparing two results is true exactly when they contain the same records in any order.",
  ["inputs", "configurations"],
  "all generation parameters, all data sets (any integers, missing parts, repetitions), all pairs of results",
  "The tests generate one small configuration with 0/1 values and compare it once.",
  ["data/handle_data.go", "lib/store/store.go", "lib/tools/tools.go"],
  [("generation and files", "data/handle_data.go"), ("clear aggregation", "lib/store/store.go AddInClear"), ("int list text form", "lib/tools/tools.go")],
  ["returned data sets and file contents"])

p("C20", "Differential-privacy noise lists have the requested size and distribution",
  "For every valid parameter set the generated noise list has exactly the requested number of values; values come as symmetric pairs around zero in order of increasing magnitude and are multiples of the scaled step, and the number of copies of each value follows the Laplace density divided by the quantum, rounded up, up to truncation at the requested size. Generation is deterministic.",
  ["inputs"],
  "all sizes, scale parameters, quanta, scales and limits",
  "The tests print a few lists or check one length.",
  ["lib/differential_privacy/diff_privacy.go"],
  [("noise list", "lib/differential_privacy/diff_privacy.go GenerateNoiseValuesScale")],
  ["returned list"])

p("C21", "The command line sends exactly the query the user wrote",
  "For every syntactically valid sum, where, predicate and group-by option, the survey the client sends contains exactly those attribute names in order, the count flag and the proofs flag exactly when requested, each where value encrypted under the collective key of the group file's servers, the given predicate, those servers in order, and one data provider per server; where and group-by may be left out. Options that do not follow the syntax, a where option without predicate or the reverse, a count query without the count attribute, and unusable group files are refused with an error, without a crash, and no query is sent. The client then asks for the results of the survey it created and (at debug level 1) prints exactly the decrypted groups and aggregates the server answered, in order.",
  ["inputs", "programs"],
  "all option strings of the documented grammar (any number of attributes and digits, optional spaces), their syntactic mutations, and all answers",
  "There are no tests of the command line beyond its help text.",
  ["cmd/unlynx/client.go", "cmd/unlynx/main.go", "services/api.go"],
  [("option parsing", "cmd/unlynx/client.go parseQuery, checkRegex"), ("query and results", "cmd/unlynx/client.go startQuery, runUnLynx"), ("group file", "cmd/unlynx/client.go openGroupToml")],
  ["the query received by the server", "the output and exit status of the program"])

p("C22", "Batch proof verification checks what it promises, in order",
  "Verifying a list of proofs for a given fraction accepts exactly when all of the first ceil(fraction * n) proofs are valid, for every list length and every fraction from 0 to 1, and never crashes. The verification protocol returns one verdict per kind of proof in a fixed order, each true exactly when all proofs of that kind are valid.",
  ["inputs", "configurations"],
  "all list lengths, fractions and positions of invalid proofs, for all kinds of proofs",
  "The tests verify full lists of valid proofs, or lists with everything invalid.",
  ["lib/key_switch/key_switch_proofs.go", "lib/shuffle/shuffle_proofs.go", "lib/deterministic_tag/deterministic_tag_proofs.go", "lib/aggregation/aggregation_proofs.go", "lib/add_rm/add_rm_proofs.go", "protocols/utils/proofs_verification_protocol.go"],
  [("list verification", "*ListProofVerification in lib"), ("verification protocol", "protocols/utils/proofs_verification_protocol.go")],
  ["boolean verdicts"])

p("C23", "Fresh randomness: equal values never produce related ciphertexts",
  "Each encryption, re-randomisation (unless lines precomputed for it are reused on purpose), key-switch contribution and proof uses its own fresh randomness: encrypting the same value twice, in one vector or in separate calls, never gives the same ciphertext or the same ephemeral point, and shuffling or key switching the same input twice never gives a common ciphertext. The randomness a function reports is the one it used, random scalars and permutations vary, and precomputed randomness is never zero.",
  ["inputs", "histories"],
  "all vectors (in particular with repeated values and lengths beyond one work chunk) and all repeated calls",
  "The tests only check that decryption works, which reused randomness does not disturb.",
  ["lib/crypto.go", "lib/shuffle/shuffle.go", "lib/key_switch/key_switch.go", "lib/key_switch/key_switch_proofs.go"],
  [("ephemeral keys", "lib/crypto.go encryptPoint"), ("re-randomisation", "lib/shuffle/shuffle.go"), ("blinding", "lib/key_switch/key_switch.go")],
  ["ephemeral points of all produced ciphertexts"])

p("C24", "Local aggregation by tag gives exact sums per group",
  "Aggregating any list of tagged responses at one server yields exactly one entry per distinct tag, whose aggregates decrypt to the element-wise sum over all responses with that tag and whose group attributes are those of its responses; the clear-text variant gives the same sums on clear data. The conversions between response lists, ciphertext matrices and flat vectors used between phases lose nothing: converting there and back returns the same responses in the same order (a single response is accompanied by a dummy with the same attributes and all-zero aggregates, so that it can be shuffled, which changes no sum).",
  ["inputs"],
  "all lists of responses (any number of groups, repetitions, vector widths, empty components)",
  "The tests aggregate two or three fixed responses.",
  ["protocols/utils/local_aggregation_protocol.go", "protocols/utils/local_clear_aggregation_protocol.go", "protocols/tools_protocol.go", "lib/structs.go", "lib/store/store.go"],
  [("local aggregation", "protocols/utils/local_aggregation_protocol.go"), ("format conversions", "protocols/tools_protocol.go")],
  ["aggregated map, decrypted", "converted values"])

p("C25", "Simulation timing tables are parsed without loss",
  "Reading a simulation's timing table collects, for every requested step and every run, the wall-clock totals of all columns of that step in column order, and reading its setup returns exactly the parameters of the requested run. The report written from them contains every requested step once per run with its value.",
  ["inputs"],
  "all tables with any number of columns, servers, steps and runs; all setup files and run numbers",
  "The tests parse one recorded file and only check that no error is returned.",
  ["simul/test_data/time_data/parse_time_data.go"],
  [("csv/toml reading and report", "simul/test_data/time_data/parse_time_data.go")],
  ["returned maps and report file"])

p("C26", "A faulty or silent server never turns into a wrong answer or a crash",
  "If, during a run of key switching, shuffling, deterministic tagging, shuffling with tagging or collective aggregation, another server stays silent, sends only a part of its messages, or sends a message that cannot be decoded, has wrong lengths or holds another number of elements than the run is about, the run delivers no result, never a wrong or partial one, and no correct server crashes, whatever the tree, the place of the faulty server and the time-out; runs that do not include the faulty message are not disturbed. Likewise a survey for which a data provider that was announced never sends its data gives no answer, and a survey that a server forgets, for good or for a while, at any moment gives an error, no answer or the exact answer.",
  ["inputs", "configurations", "fault_sequences", "crash_points"],
  "all protocols, trees, places and kinds of faults, rounds in which they happen and moments of the loss",
  "The tests run correct servers only; what a run does about a missing or malformed message, and after the time-out, is never exercised.",
  ["protocols/key_switching_protocol.go", "protocols/shuffling_protocol.go", "protocols/shuffling+ddt_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/collective_aggregation_protocol.go", "services/service.go", "lib/crypto.go"],
  [("reception of messages, time-outs", "protocols/*_protocol.go Dispatch"), ("phases and waiting for providers and servers", "services/service.go StartService and the phases")],
  ["results delivered to the root", "the survey's answer", "panics and the end of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
