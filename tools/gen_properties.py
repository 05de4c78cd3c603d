#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the single place the properties are edited)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- secure aggregation
prop("S01", "Secret shares reconstruct exactly the shared secret",
     "Splitting a key into n shares with threshold t and reconstructing from any t or more of those shares (the others missing) returns exactly the original key, for every key, every choice of random polynomial coefficients and every surviving subset. "
     "Reconstruction from fewer than t shares, or from shares of inconsistent length, is refused with an error instead of returning a key.",
     ["inputs", "fault_sequences"], "every secret, every vector of random coefficients, every subset of surviving shares, n<=4",
     "The arithmetic is modulo a prime just above 2^31 in 32-bit words; a carry error shows up for about one share vector in 2^50, and the subsets grow exponentially.",
     ["fcp/secagg/shared/shamir_secret_sharing.cc", "fcp/secagg/shared/shamir_secret_sharing.h", "fcp/secagg/shared/math.h"],
     [("Share / Reconstruct", "ShamirSecretSharing::Share, ShamirSecretSharing::Reconstruct"), ("modular arithmetic", "AddModOpt/SubtractModOpt/MultiplyMod/InverseModPrime")])
prop("S02", "Vector packing is lossless and rejects what it cannot represent",
     "A vector of values below its modulus, packed into its wire encoding and unpacked with the same length and modulus, yields the same values in the same order, for every modulus from 2 to 2^62 and both packing implementations, which agree bit for bit. "
     "The packed form always has exactly the advertised number of bytes, reads never leave the packed buffer, and adding packed vectors yields the element-wise sum modulo the modulus.",
     ["inputs"], "every modulus/bit width, every vector content, lengths up to 5",
     "The encoders have word-boundary special cases that depend on bit width, length and position together; 61 widths x lengths x contents cannot be enumerated.",
     ["fcp/secagg/shared/secagg_vector.cc", "fcp/secagg/shared/secagg_vector.h", "fcp/secagg/shared/math.h"],
     [("packing", "SecAggVector::PackUsing / Coder"), ("unpacking", "SecAggVector::Decoder")])
prop("S03", "Pairwise masks cancel exactly and stay inside the modulus",
     "For any set of vectors and any pairwise keys, the mask one side adds for a key and the mask the other side subtracts for the same key cancel exactly modulo each vector's modulus, so combining masks over a set of keys is the modular sum of the individual key masks with their signs. "
     "Every mask element lies in [0, modulus), masks depend on the key, the session and the vector's description and on nothing else, and both mask implementations agree.",
     ["inputs", "configurations"], "every pseudo-random stream content, every modulus, up to 2 vectors and 3 keys",
     "Rejection sampling and sign conventions interact with stream contents that a fixed test key never produces.",
     ["fcp/secagg/shared/map_of_masks.cc", "fcp/secagg/shared/prng.h", "fcp/secagg/shared/secagg_vector.cc"],
     [("mask expansion", "MapOfMasks / MapOfMasksV3 / UnpackedMapOfMasks"), ("addition", "AddVectors, AddMaps")])
prop("S04", "Neighbour graphs are symmetric, in range and antisymmetric in direction",
     "In every graph that assigns peers to clients, two clients are each other's neighbours or neither is, each client's list of neighbours has no duplicates and the declared degree, and looking up a neighbour and looking up its position are mutually inverse. "
     "For every pair of distinct neighbours exactly one of the two directions counts as outgoing, so that one side adds the shared mask and the other subtracts it.",
     ["inputs", "configurations"], "all node counts up to 8, all legal degrees, every permutation of the nodes for small sizes",
     "Masks only fail to cancel for particular (size, degree, permutation, pair) combinations; tests check a few sizes.",
     ["fcp/secagg/server/secret_sharing_harary_graph.cc", "fcp/secagg/server/secret_sharing_complete_graph.h", "fcp/secagg/server/secret_sharing_graph_factory.h"],
     [("Harary graph", "SecretSharingHararyGraph"), ("complete graph", "SecretSharingCompleteGraph")])
prop("S05", "The aggregate equals the sum of the included clients' inputs",
     "Whenever the secure-aggregation server completes a session with a result, that result is, for every vector and element, the sum modulo the modulus of exactly the inputs of the clients whose masked input it accepted, whichever clients dropped out and at whichever step. "
     "The number of included inputs it reports is the number of those clients. "
     "A session whose remaining contributions do not suffice to remove the masks ends with an error; one in which at least the minimum number of clients follow the protocol to the end completes.",
     ["inputs", "fault_sequences", "histories"], "every client input, every mask content, every choice of dropout step per client, 3-4 clients, complete and ring graphs",
     "There are (rounds+1)^clients dropout schedules and the sum is only wrong for particular ones; tests run a handful.",
     ["fcp/secagg/server/secagg_server.cc", "fcp/secagg/server/aes/aes_secagg_server_protocol_impl.cc", "fcp/secagg/server/secagg_server_prng_running_state.cc", "fcp/secagg/server/secagg_server_r2_masked_input_coll_state.cc", "fcp/secagg/server/secagg_server_r3_unmasking_state.cc", "fcp/secagg/server/secagg_server_protocol_impl.cc"],
     [("mask removal", "SecAggServerProtocolImpl::HandleUnmaskingResponse / SetUpShamirSharesTables / ReconstructKeys"), ("state machine", "SecAggServerR*State")])
prop("S06", "A client never reveals both kinds of share for the same peer",
     "In the unmasking round a client discloses, for each peer, at most one of the peer's pairwise-key share and the peer's self-mask share: the pairwise-key share only for peers the server reports as dead and the self-mask share only for peers it treats as alive. "
     "It discloses nothing and aborts when fewer than the minimum number of surviving clients remain or when the server names a client twice, names the client itself as dead, or names an unknown client.",
     ["inputs", "histories"], "every unmasking request, every set of previously known dead peers, up to 4 clients",
     "A malicious server may send any request; privacy fails on a single crafted combination.",
     ["fcp/secagg/client/secagg_client_r3_unmasking_state.cc", "fcp/secagg/client/secagg_client_alive_base_state.cc"],
     [("unmasking round", "SecAggClientR3UnmaskingState::HandleMessage")])
prop("S07", "A client only ever sends masked input and stops for good once finished",
     "The input a client uploads is the sum modulo the modulus of its true input, its own self mask and the signed pairwise masks of exactly the peers that completed key sharing, and it is sent only if at least the minimum number of clients completed key sharing. "
     "Once a client has aborted or completed, it stays in that state whatever arrives, and sends nothing more that depends on its input.",
     ["inputs", "histories"], "every server message sequence up to the protocol's length, every order of providing the input, up to 4 clients",
     "The message orders and dead-peer combinations multiply; one missing mask leaks the input.",
     ["fcp/secagg/client/secagg_client_r2_masked_input_coll_base_state.cc", "fcp/secagg/client/secagg_client_r2_masked_input_coll_input_set_state.cc", "fcp/secagg/client/secagg_client.cc", "fcp/secagg/client/secagg_client_aborted_state.cc", "fcp/secagg/client/secagg_client_completed_state.cc", "fcp/secagg/client/secagg_client_state.cc"],
     [("masked input", "SecAggClientR2MaskedInputCollBaseState::HandleMaskedInputCollectionRequest"), ("terminal states", "SecAggClientAbortedState / SecAggClientCompletedState")])
prop("S08", "A client survives any server message",
     "Whatever message the server sends in whatever round, the client neither crashes nor reads outside its data: it either accepts the message or ends in the aborted state with an explanation. "
     "In the key exchange round it refuses requests whose number of peer keys is inconsistent, that lack the client's own key, or that leave fewer live peers than the threshold.",
     ["inputs", "histories"], "every bounded server message content in every round",
     "The message space is unbounded and a crash needs one malformed field combination.",
     ["fcp/secagg/client/secagg_client_r1_share_keys_base_state.cc", "fcp/secagg/client/secagg_client_r2_masked_input_coll_base_state.cc", "fcp/secagg/client/secagg_client_r3_unmasking_state.cc"],
     [("key exchange round", "SecAggClientR1ShareKeysBaseState::HandleShareKeysRequest")])
prop("S09", "A malformed or misplaced client message costs only that client",
     "Whatever message a client sends to the aggregation server in whatever round, the server does not crash or read outside its data, and the effect is confined to that client: either the message is accepted, or it is rejected with an error or that client is aborted, while every other client stays in the session, is sent nothing because of it, and has its own keys and shares passed on unchanged. "
     "A well-formed session still ends with a result or an error after it; key shares of unusable sizes end it with an error.",
     ["inputs", "histories"], "every bounded client message content in every round, 3-4 clients",
     "A single client can pick any bytes; tests send a few malformed examples.",
     ["fcp/secagg/server/secagg_server_protocol_impl.cc", "fcp/secagg/server/secagg_server_state.cc", "fcp/secagg/server/secagg_server_r0_advertise_keys_state.cc", "fcp/secagg/server/secagg_server_r1_share_keys_state.cc", "fcp/secagg/server/secagg_server_r2_masked_input_coll_state.cc", "fcp/secagg/server/secagg_server_r3_unmasking_state.cc"],
     [("message handling", "SecAggServerState::HandleMessage and the per-round overrides"), ("share tables", "SecAggServerProtocolImpl::HandleUnmaskingResponse")])
prop("S10", "The server never unmasks below its threshold and its counters add up",
     "At every point of a session the clients counted as alive, failed, aborted, pending and completed add up consistently to the total, the number needed to proceed is honoured, and the session is aborted as soon as fewer clients than the minimum survive. "
     "A result is never produced with fewer surviving unmasking contributions than the minimum, and rounds cannot be advanced early.",
     ["histories", "fault_sequences"], "every interleaving of client messages, client aborts and round advances up to the stated depth, 3-4 clients",
     "Counter and threshold errors appear only for specific interleavings of dropouts and round advances.",
     ["fcp/secagg/server/secagg_server.cc", "fcp/secagg/server/secagg_server_state.cc", "fcp/secagg/server/secagg_server_r1_share_keys_state.cc", "fcp/secagg/server/secagg_server_r2_masked_input_coll_state.cc", "fcp/secagg/server/secagg_server_r3_unmasking_state.cc"],
     [("counters", "SecAggServerState::NumberOf*"), ("round advance", "ReadyForNextRound / ProceedToNextRound")])
prop("S11", "Parallel aggregation work is counted exactly once and cancellable",
     "Every partial result scheduled on the aggregation work scheduler is folded into the total exactly once in every interleaving, completion is signalled exactly once and only after all scheduled work ran, and the total handed out equals the combination of all partial results. "
     "Cancellation waits for work that is running, and once it has returned no further partial result is computed or folded in.",
     ["schedules"], "every interleaving of 2 worker threads and the owner at synchronisation points",
     "Lost updates and double completions depend on thread timing.",
     ["fcp/secagg/server/secagg_scheduler.h", "fcp/secagg/server/secagg_scheduler.cc"],
     [("accumulator", "Accumulator<T>"), ("scheduler", "SecAggScheduler")])
prop("S12", "Peer-to-peer encryption accepts only untampered messages of its own key",
     "Decrypting an encrypted message with the same key returns the original bytes, and decrypting anything that was not produced for that key, including truncated or empty input, is refused with an error. "
     "Each encryption uses a fresh nonce that travels with the ciphertext. Two peers that exchange public keys derive the same key, and malformed or missing keys are refused with an error.",
     ["inputs"], "every plaintext and tampered ciphertext up to the bound, with an ideal cipher in place of AES-GCM",
     "Framing errors only show for particular lengths and offsets.",
     ["fcp/secagg/shared/aes_gcm_encryption.cc", "fcp/secagg/shared/aes_key.cc", "fcp/secagg/shared/ecdh_key_agreement.cc"],
     [("key agreement", "EcdhKeyAgreement::ComputeSharedSecret"), ("framing", "AesGcmEncryption::Encrypt / Decrypt")])

# ---------------------------------------------------------------- base library
prop("B01", "Scheduled tasks run exactly once and workers keep their order",
     "Every task handed to the thread-pool scheduler runs exactly once, tasks handed to one worker run one after another in submission order and never overlap, and waiting for idleness returns only when nothing is queued or running, in every interleaving.",
     ["schedules"], "every interleaving at synchronisation points of up to 2 pool threads and 3 tasks",
     "Ordering and loss bugs depend on thread timing.",
     ["fcp/base/scheduler.cc", "fcp/base/scheduler.h"],
     [("pool", "ThreadPoolScheduler"), ("worker", "WorkerImpl")])
prop("B02", "A future delivers its one value, or reports abandonment, exactly once",
     "A future yields exactly the value its promise was given, no matter which of the two sides acts first or on which thread, and waiting with a timeout reports readiness correctly. "
     "If the promise disappears without a value, taking from the future reports that no value will come instead of blocking forever; a value computed on a scheduler is delivered the same way.",
     ["schedules"], "every interleaving of producer and consumer at synchronisation points",
     "Races between setting, waiting and destruction need specific timings.",
     ["fcp/base/future.h"], [("promise/future", "FutureState, Promise, Future, MakeFuture")])
prop("B03", "Timers fire once, never early, in deadline order",
     "A callback registered for a deadline is invoked exactly once, not before its deadline and no later than the first time at which the clock has reached it, in order of deadlines, and callbacks registered from inside callbacks obey the same rule. "
     "Advancing the clock never moves it backwards.",
     ["inputs", "histories"], "every set of up to 3 deadlines and clock advances, re-entrant registrations included",
     "Ordering of equal and re-entrant deadlines has more cases than tests sample.",
     ["fcp/base/clock.cc", "fcp/base/simulated_clock.cc"],
     [("wakeups", "Clock::WakeupWithDeadline / DispatchWakeups")])
prop("B04", "Checked integer and address conversions never truncate",
     "A checked integer conversion succeeds exactly when the value is representable in the target type and then preserves it, the product of two 32-bit quantities is exact, and mapping an address range out of an embedded address space succeeds exactly when the whole range lies inside that space, returning the corresponding address.",
     ["inputs"], "all values of all fixed-width integer type pairs; all address-space layouts",
     "The failing values sit at type boundaries across all type pairs.",
     ["fcp/base/bounds.h"], [("casts", "TryCastInteger, CastIntegerChecked, SafeMultiply"), ("mapping", "MapOutOfAddressSpace")])
prop("B05", "Time values survive conversion",
     "Converting a time or duration to its message form and back yields the same instant or span to the resolution of the message form, for negative and fractional values alike, and the message form is normalised.",
     ["inputs"], "all representable seconds/nanoseconds within the message range",
     "Negative fractions and boundary nanoseconds are rarely sampled.",
     ["fcp/base/time_util.cc"], [("conversions", "TimeUtil::Convert*")])
prop("B06", "Status codes keep their meaning across every boundary",
     "Translating a status between the RPC library, the wire representation and the internal representation preserves code and message in both directions for every code, unknown codes become the unknown error, success never turns into failure or failure into success, and HTTP response codes map to the documented status class.",
     ["inputs"], "all 32-bit status and HTTP code values",
     "Only a handful of the codes are exercised by tests; one swapped case misroutes retries.",
     ["fcp/base/status_converters.cc", "fcp/client/http/http_client_util.cc"],
     [("RPC library", "ToGrpcStatus / FromGrpcStatus"), ("wire", "ConvertRpcStatusToAbslStatus / ConvertAbslStatusToRpcStatus / ConvertHttpCodeToStatus")])
prop("B07", "Identifiers are unique and convert without loss",
     "Process-wide identifiers handed out to concurrent callers are all different and increase, and a random token converted to bytes or text and back compares equal to the original while different tokens stay different.",
     ["schedules", "inputs"], "every interleaving of 3 allocating threads; all 16-byte token contents",
     "Duplicate identifiers need a race; token bytes span 2^128 values.",
     ["fcp/base/process_unique_id.cc", "fcp/base/random_token.cc", "fcp/base/random_token.h"],
     [("ids", "ProcessUniqueId::GetNextId"), ("tokens", "RandomToken")])
prop("B08", "Elapsed time is accumulated correctly over nested and repeated timing",
     "The total reported by a stopwatch equals the time during which at least one timing scope was open, for every nesting and repetition of scopes, and querying it does not change it.",
     ["inputs", "histories"], "every sequence of up to 6 start/stop/query operations and clock readings",
     "Nesting patterns and query points multiply.",
     ["fcp/base/wall_clock_stopwatch.cc"], [("stopwatch", "WallClockStopwatch")])
prop("B09", "Result combinators propagate values and errors faithfully",
     "Chaining computations over a result passes a value on exactly once and returns the first error unchanged without running later steps, for every combination of outcomes, and the expectation helpers turn exactly the unexpected alternatives into errors.",
     ["inputs"], "all combinations of outcomes for up to 3 chained steps and symbolic payloads",
     "Combinations of steps and alternatives multiply.",
     ["fcp/base/result.h", "fcp/base/result.cc"], [("combinators", "Result<T>::Then, ExpectIs, ExpectTrue, ...")])

prop("B10", "File helpers store everything or report failure",
     "Writing a string or cord to a file either returns success and the file then holds exactly those bytes, or returns an error; it never reports success for a write that was lost, even if the loss only shows when the file is closed. "
     "Reading returns exactly the file's bytes or an error if it cannot be opened, existence is reported correctly, and joining or stripping paths yields exactly one separator between parts and none at the end.",
     ["inputs", "fault_sequences"], "all contents of up to 3 bytes, all paths of up to 3 characters, every failing open, write or close",
     "Tests never make a write fail.",
     ["fcp/base/platform.cc", "fcp/base/platform.h"], [("files", "WriteStringToFile, WriteCordToFile, ReadFileToString, ReadFileToCord, FileExists"), ("paths", "ConcatPath, StripTrailingPathSeparator")])
# ---------------------------------------------------------------- HTTP client
prop("H01", "Names survive URI encoding and cannot escape their place in the path",
     "Percent-decoding an encoded path segment yields the original name, and the encoded segment consists only of unreserved characters and well-formed percent escapes, so no name can introduce a slash, query or fragment delimiter; multi-segment encoding keeps only the slashes. "
     "Joining a base address and a suffix puts exactly one slash between them.",
     ["inputs"], "all byte strings up to the bound",
     "Control and non-ASCII bytes are not sampled by tests.",
     ["fcp/client/http/http_client_util.cc"],
     [("encoding", "EncodeUriSinglePathSegment / EncodeUriMultiplePathSegments"), ("joining", "JoinBaseUriWithSuffix, CreateByteStreamUploadUriSuffix")])
prop("H02", "Requests are only built when they are well formed",
     "A request is created only for an https address (or a local one for tests), never with a body on a bodiless method, and never with a caller-chosen content length; when it has a body, the announced length equals the number of bytes the body delivers. "
     "Reading the body in chunks of any sizes delivers exactly the body bytes in order and then reports the end.",
     ["inputs", "histories"], "all short addresses, headers and bodies, every sequence of read sizes",
     "Chunking patterns and header spellings multiply.",
     ["fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc"],
     [("request", "InMemoryHttpRequest::Create / ReadBody")])
prop("H03", "A response is delivered only if it is complete and undamaged",
     "A response body is handed to the caller only when the response code means success, its content length (when announced) equals the number of bytes received and is never exceeded, and no unsupported encoding is present; otherwise an error is returned. "
     "The delivered body is exactly the concatenation of the received pieces.",
     ["inputs", "histories", "fault_sequences"], "all response codes, announced lengths, chunkings and error callbacks up to the bound",
     "Truncated and over-long responses come in many chunkings.",
     ["fcp/client/http/in_memory_request_response.cc"],
     [("response", "InMemoryHttpRequestCallback::On*")])
prop("H04", "Fetched resources come back in order, each with its own outcome",
     "Fetching a list of resources returns one outcome per requested resource in request order, inline data without network traffic and each address fetched from the cache when present and otherwise from the network, and one failing resource does not affect the others. "
     "The traffic counters grow by exactly the bytes sent and received, including when requests fail.",
     ["inputs", "fault_sequences"], "every mix of inline/remote/cached resources, every failure pattern, up to 3 resources",
     "The index juggling fails only for particular mixes.",
     ["fcp/client/http/in_memory_request_response.cc"],
     [("fetch", "FetchResourcesInMemory"), ("batch", "PerformMultipleRequestsInMemory")])
prop("H05", "Received header lines are interpreted faithfully",
     "Feeding a response's header lines to the header parser yields the last status code and the header list of the final response with the full values as sent, trimmed of surrounding white space, and headers of superseded responses are discarded. "
     "No header line, however malformed, causes a crash or an out-of-range read.",
     ["inputs", "histories"], "all sequences of up to 3 short header lines",
     "Arbitrary bytes from the network; tests use well-formed lines.",
     ["fcp/client/http/curl/curl_header_parser.cc"],
     [("parser", "CurlHeaderParser::ParseHeader")])
prop("H06", "Long-running operations are polled until done, at a bounded rate",
     "Polling returns only a finished operation or an error, stops at the first failure, waits between polls for the server-suggested interval limited to at most one minute and never negative, and always asks for the operation the server last named. "
     "Operation names without the expected prefix are rejected.",
     ["inputs", "histories"], "every sequence of up to 3 server replies and every metadata interval",
     "Server replies are arbitrary; negative and huge intervals are rarely sampled.",
     ["fcp/client/http/protocol_request_helper.cc"],
     [("polling", "ProtocolRequestHelper::PollOperationResponseUntilDone, GetPollingInterval, ExtractOperationName")])
prop("H07", "Retry delays stay inside their window",
     "A retry delay picked from a server-given range is never negative, never below the range's lower bound nor above its upper bound, and a window generated from a target delay lies within the configured jitter fraction of it, with equal minimum and maximum. "
     "A retry time already past gives a zero delay.",
     ["inputs"], "all delay ranges (including inverted and negative ones) and all random draws",
     "Inverted and negative windows and extreme draws are not sampled.",
     ["fcp/client/federated_protocol_util.cc"],
     [("retry", "PickRetryTimeFromRange, GenerateRetryWindowFromTargetDelay, GenerateRetryWindowFromRetryTime")])
prop("H08", "The protocol session advises the right retry time for how it ended",
     "After any sequence of protocol steps, the advised retry window is the server's accepted window once work was assigned (or, for several tasks, fully reported), the server's rejected window after a rejection, a partial success or a transient failure, and the configured permanent-error or transient-error delay otherwise. "
     "Errors of a step are reported to the caller with the code that caused them.",
     ["histories", "fault_sequences", "inputs"], "every sequence of check-in, assignment and report steps with every outcome per request",
     "Many step/outcome combinations; only some are sampled.",
     ["fcp/client/http/http_federated_protocol.cc"],
     [("state", "HttpFederatedProtocol::GetLatestRetryWindow / GetTheLatestStateFromAllTasks / UpdateObjectStateIfPermanentError")])
prop("H09", "Requests carry the session's address, credentials and parameters",
     "Every protocol request is sent to the currently designated server address with exactly one joining slash, carries the API key and the server-supplied headers, asks for the binary message format, and encodes its query parameters; a missing server address is an error. "
     "Each secure-aggregation round message is sent to its own endpoint and its reply is turned into the next round's message.",
     ["inputs", "configurations"], "all short addresses, parameters and headers",
     "Parameter and header combinations multiply.",
     ["fcp/client/http/protocol_request_helper.cc", "fcp/client/http/http_secagg_send_to_server_impl.cc"],
     [("request creation", "ProtocolRequestCreator::CreateProtocolRequest / Create")])

# ---------------------------------------------------------------- device-side state and policy
prop("H10", "Results leave the device only in the way their task prescribes",
     "A completed result is uploaded at most once, only after the server agreed to receive it and only to the address it gave; it is submitted only after a successful upload, and a failed upload is aborted with its reason. "
     "Results of a confidential task are uploaded only encrypted for a recipient key that passed verification against the task's own policy and bound to that policy; vectors of a secure aggregation task go only through secure aggregation; a task that did not complete uploads nothing. Every task's end is reported exactly once with its own identifiers, and unknown tasks are refused.",
     ["histories", "fault_sequences", "inputs"], "every session of up to 3 tasks with every outcome per request and every error code",
     "What leaves the device depends on combinations of aggregation kind, settings and failures at any step.",
     ["fcp/client/http/http_federated_protocol.cc"],
     [("report", "HttpFederatedProtocol::ReportCompleted / ReportNotCompleted / ReportViaSimpleOrConfidentialAggregation / EncryptPayloadForConfidentialAggregation")])
prop("D01", "The resource cache never serves wrong content and respects its size",
     "A cache hit returns exactly the bytes last stored under that identifier with the metadata stored with it, never a partial or foreign resource, under any sequence of stores, lookups, restarts, expirations and storage failures. "
     "Resources too large for the cache are refused, after each successful store the stored resources fit in the configured size, expired resources are dropped at the next start or store, and the least recently used ones are evicted first.",
     ["histories", "fault_sequences", "inputs"], "every sequence of up to 4 operations over 3 identifiers with symbolic sizes, times and failing storage calls",
     "Failures in the middle of a store and eviction orders need specific sequences.",
     ["fcp/client/cache/file_backed_resource_cache.cc", "fcp/client/cache/file_backed_resource_cache.h"],
     [("cache", "FileBackedResourceCache::Put / Get / CleanUp")])
prop("D02", "Operational history is kept within its age and size limits",
     "After any committed update the stored history contains only entries within the retention period, fits the configured size by dropping the oldest entries first, and records a time since which it is complete: no entry with an event after that time has been dropped. "
     "A second process cannot open the history while the first has it open, and an unreadable history is replaced by an empty one instead of being misread.",
     ["histories", "inputs", "fault_sequences"], "every sequence of up to 3 updates with symbolic timestamps and sizes, every failure of the storage calls",
     "Limits interact: age, size and trust time together.",
     ["fcp/client/opstats/pds_backed_opstats_db.cc"],
     [("store", "PdsBackedOpStatsDb::Create / Read / Transform")])
prop("D03", "The run log written to history reflects what was logged",
     "The entry committed for a run contains the events in the order they were logged with the right phase, the network and data statistics as last set for their phase, and the first error message of each phase; repeated commits of one run replace that run's entry instead of adding another, and entries of earlier runs are left alone.",
     ["histories"], "every sequence of up to 5 logging calls followed by commits",
     "Orders of calls around phase changes and commits multiply.",
     ["fcp/client/opstats/opstats_logger_impl.cc"],
     [("logger", "OpStatsLoggerImpl")])
prop("D04", "The last successful contribution is found however it was recorded",
     "Looking up the last contribution of a task returns the most recent run in which that task's upload was started and not aborted by the server, with its time and policy index, whether the run was recorded in the old or the per-phase format, and nothing when there was none. "
     "Converting a run to per-task form keeps each task's events, sums and outcome.",
     ["inputs", "histories"], "all histories of up to 3 runs with symbolic events, times and task names in both formats",
     "Event orders and formats combine in more ways than tests list.",
     ["fcp/client/opstats/opstats_utils.cc"],
     [("lookup", "GetLastSuccessfulContribution*"), ("conversion", "GeneratePerTaskStats and legacy conversion")])
prop("D05", "A device is only eligible for tasks all of whose policies allow it",
     "A task is reported eligible exactly when every policy attached to it is supported by the client and allows it: the sampling-without-replacement period has passed since the last contribution (of the task or of its group) and is covered by trustworthy history, the required index separation is exceeded, and the required number of examples is available. "
     "A policy that cannot be evaluated makes its tasks ineligible and no others, and every task gets exactly one weight.",
     ["inputs", "configurations", "fault_sequences"], "all assignments of up to 2 policies to 2 tasks, all histories, times and iterator outcomes within the bound",
     "Policy combinations, versions and histories multiply; one wrong comparison breaks the privacy policy.",
     ["fcp/client/eligibility_decider.cc", "fcp/client/opstats/opstats_utils.cc"],
     [("decision", "ComputeEligibility and the per-policy helpers")])
prop("D06", "Interrupting work waits for the work to stop and reports cancellation",
     "Running an interruptible piece of work returns its own status if it is not interrupted and a cancellation error if it is, and control never returns to the caller while the work is still running. "
     "The abort action is invoked at most once and only when an interruption was requested while the work was unfinished.",
     ["schedules"], "every interleaving of worker, caller and interruption request at synchronisation points",
     "The outcome depends on thread timing.",
     ["fcp/client/interruptible_runner.cc"], [("runner", "InterruptibleRunner::Run / WaitUntilDone / Abort")])
prop("D07", "Only valid inputs enter secure aggregation, unchanged",
     "The device hands a vector to secure aggregation only if its modulus is legal, its length matches its declared dimensions and every value is below the modulus; otherwise the run fails before any protocol message is sent. "
     "The vector handed over holds exactly the computed values, and a protocol failure or abort by either side is reported as an error, never as success.",
     ["inputs", "histories"], "all small tensors, moduli and server reply sequences",
     "Boundary values and reply sequences are not sampled.",
     ["fcp/client/secagg_runner.cc"], [("runner", "SecAggRunnerImpl::Run")])
prop("D08", "Per-key model slices are delivered in the requested order or not at all",
     "Requesting slices fetches exactly one address per requested key, built from the template with the key and the serving id, and iterating delivers the slices in the requested order followed by the end; if any slice cannot be fetched, an error is returned instead of a partial result. "
     "Traffic is counted whether or not the fetch succeeds, and the scratch file is removed when the iteration ends.",
     ["inputs", "fault_sequences"], "all key lists of up to 3 keys, every failure pattern",
     "Failure patterns by position are not all sampled.",
     ["fcp/client/federated_select.cc"], [("slices", "FetchSlicesViaHttp, InMemoryFederatedSelectExampleIterator")])
prop("D09", "Token dictionaries map tokens and ids consistently",
     "Every vocabulary token maps to an id and that id maps back to the token, ids of tokens come after the special ids in vocabulary order, unknown tokens map to the unknown id, out-of-range ids map to the empty token, and the size covers special and ordinary ids. "
     "Block lists that are unsorted, duplicated or overlap special ids are rejected.",
     ["inputs", "configurations"], "all vocabularies of up to 3 short tokens, all special ids and block lists within the bound",
     "Offsets depend on which special ids are set.",
     ["fcp/dictionary/dictionary.cc"], [("dictionary", "Dictionary::Create, DictionaryImpl")])
prop("D10", "Example query statistics count exactly what was read",
     "The recorded statistics of each example query name its collection and criteria and equal the number of examples counted for it since it was last finished, listed in the order the queries were recorded together with the selection context, for every interleaving of several iterators and threads; finishing starts over.",
     ["histories", "schedules"], "every sequence of up to 5 operations on 2 recorders",
     "Interleavings of several iterators are not sampled.",
     ["fcp/client/example_iterator_query_recorder.cc"], [("recorder", "SingleExampleIteratorQueryRecorder / ExampleIteratorQueryRecorderImpl")])

prop("D11", "Temporary files are new, contained and cleared",
     "Every temporary file handed out is newly created and empty, carries the requested prefix and suffix and lies in the temporary directory; a file that already exists is never handed out or altered. "
     "Creating the manager clears what earlier runs left in that directory, destroying it removes its files, files elsewhere are untouched, and relative directories are refused.",
     ["inputs", "fault_sequences", "histories"], "every sequence of up to 3 file requests, every random name with collisions, every failing file operation, leftovers of earlier runs",
     "Name collisions and failing file operations do not occur in ordinary test runs.",
     ["fcp/client/cache/temp_files.cc"], [("temporary files", "TempFiles::Create, CreateTempFile, ~TempFiles")])

# ---------------------------------------------------------------- confidential computing
prop("E01", "Nonces never repeat within a session and replays are refused",
     "Within a session the nonce generator never returns the same nonce twice and stops with an error when its counter is exhausted, and the checker accepts a message only if it belongs to this session and its counter is exactly the next expected one, so a replayed, reordered, skipped or foreign message is refused.",
     ["histories", "inputs"], "every sequence of up to 4 generate/check operations from every counter value, with arbitrary presented nonces",
     "Counter wrap-around needs 2^32 messages to reach by testing.",
     ["fcp/confidentialcompute/crypto.cc"], [("nonces", "NonceChecker::CheckBlobNonce, NonceGenerator::GetNextBlobNonce")])
prop("E02", "Upload payloads round-trip and malformed ones are rejected",
     "Decoding an encoded upload payload returns the same header fields and leaves exactly the ciphertext, for every header and ciphertext, and decoding any other byte string either fails with an error or consumes only bytes of that string.",
     ["inputs"], "all header contents and ciphertexts up to the bound, and all byte strings up to the bound",
     "Arbitrary bytes arrive at the decoder.",
     ["fcp/confidentialcompute/client_payload.cc"], [("payload", "EncodeClientPayload / DecodeAndConsumeClientPayload")])
prop("E03", "Keys and tokens survive encoding and malformed ones are refused",
     "Decoding an encoded key or signed token returns the same fields, the structure verified for a token's signature is the one that was signed, and decoding any malformed structure returns an error without crashing, whatever types and sizes its elements have.",
     ["inputs"], "all structures of bounded depth and size with arbitrary element types, over a model of the CBOR library",
     "Malformed structures come in unbounded variety; one unchecked element crashes the process.",
     ["fcp/confidentialcompute/cose.cc"], [("keys", "OkpKey, SymmetricKey"), ("tokens", "OkpCwt")])
prop("E04", "Encrypted messages open only with the right key and associated data",
     "A message encrypted for a public key is recovered exactly by the holder of the private key when the same associated data is presented, also after the symmetric key was re-wrapped for another recipient, and is refused when the associated data, the key or any part of the message differs. "
     "Signatures are accepted only for the exact data and key they were made with and only at their fixed length.",
     ["inputs"], "all short messages and associated data, over ideal (uninterpreted) cryptographic primitives",
     "Argument mix-ups between the many byte strings only show for particular combinations.",
     ["fcp/confidentialcompute/crypto.cc"], [("messages", "MessageEncryptor / MessageDecryptor"), ("signatures", "EcdsaP256R1Signer / EcdsaP256R1SignatureVerifier")])

# ---------------------------------------------------------------- demo server (Python)
prop("P01", "Uploads are single-use and downloads are confined to their group",
     "Data can be uploaded only under a name that was handed out, once, and is returned exactly once by finalisation; a file is downloadable exactly while its group exists, with exactly the bytes and type it was added with, and adding a second file of the same name to a group is refused.",
     ["histories", "inputs"], "every sequence of up to 5 operations with symbolic names and data",
     "Orders of operations multiply.",
     ["fcp/demo/media.py"], [("media service", "Service.upload / finalize_upload / download / create_download_group")])
prop("P02", "Aggregates are released only above the minimum number of clients",
     "An aggregation session yields a result only if at least the required minimum of client inputs was included, each client token admits one contribution, unknown sessions and tokens are refused, and once a session is completed or aborted it accepts no further contribution and everyone waiting on it is notified.",
     ["histories", "inputs"], "every sequence of up to 5 service operations with symbolic counts and outcomes",
     "Orders of operations and protocol outcomes multiply.",
     ["fcp/demo/aggregations.py"], [("aggregation service", "Service.complete_session / start_aggregation_data_upload / submit_aggregation_result / wait")])
prop("P03", "Clients are only assigned existing tasks of their population, in order",
     "A client of another population is refused; a client asking for one task gets the oldest not yet removed single-assignment task together with a fresh authorization for that task's session, or a rejection if there is none; a client asking for several gets exactly the named multiple-assignment tasks that exist.",
     ["histories", "inputs"], "every sequence of up to 4 add/remove/assign operations with symbolic names",
     "Orders of adding and removing tasks multiply.",
     ["fcp/demo/task_assignments.py"], [("task service", "Service.start_task_assignment / perform_multiple_task_assignments / remove_task")])
prop("P04", "HTTP requests reach exactly the matching action with decoded parameters",
     "A request is dispatched only to an action registered for its method whose pattern matches the whole path, with each placeholder bound to the decoded text of one path segment, and anything else gets a not-found error; undecodable bodies yield a client error, never an unhandled failure.",
     ["inputs"], "all short paths against the registered patterns",
     "Paths are arbitrary strings.",
     ["fcp/demo/http_actions.py"], [("routing", "create_handler, _convert_pattern, proto_action")])
# ---------------------------------------------------------------- tracing
prop("T01", "Trace spans keep their identity and nesting",
     "Every trace span gets an identifier different from every other span's, a span created inside another records that span as its parent, and leaving a span restores the enclosing one, for every nesting.",
     ["histories", "schedules"], "every nesting sequence of up to 4 spans; every interleaving of 2 allocating threads",
     "Nesting orders multiply and identifier clashes need a race.",
     ["fcp/tracing/tracing_span_id.cc", "fcp/tracing/tracing_recorder_impl.cc", "fcp/tracing/tracing_context_utils.cc"],
     [("span ids", "TracingSpanId::NextUniqueId"), ("recorder", "TracingRecorderImpl")])
# ---------------------------------------------------------------- outside reach
prop("N01", "Compressed payloads decompress to the original bytes",
     "Decompressing a gzip-compressed payload returns exactly the original bytes for every payload.",
     ["inputs"], "all payloads", "All byte strings.",
     ["fcp/base/compression.cc"], [("gzip", "CompressWithGzip / UncompressWithGzip")])
prop("N02", "Generated graph parameters meet the security and correctness error bounds",
     "The neighbour count and threshold chosen for a requested number of clients keep the probability of privacy or correctness failure below the configured bounds.",
     ["inputs", "configurations"], "all requested sizes and rates", "The probabilities are computed numerically in floating point.",
     ["fcp/secagg/server/graph_parameter_finder.cc", "fcp/secagg/server/distribution_utilities.cc"], [("parameters", "ComputeHararyGraphParameters")])
prop("N03", "Plans execute their computation on the device's examples only",
     "Running a plan feeds the configured example queries to the computation and returns its declared outputs.",
     ["inputs", "programs"], "all plans", "Plans are arbitrary programs.",
     ["fcp/client/engine/simple_plan_engine.cc", "fcp/client/engine/tf_wrapper.cc", "fcp/tensorflow"], [("execution", "SimplePlanEngine::RunPlan")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
