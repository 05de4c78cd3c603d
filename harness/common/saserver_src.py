from saclient_src import CLIENT, SHARED, BASE
S = "fcp/secagg/server/"
SERVER = [S + s + ".cc" for s in ("secagg_server", "secagg_server_aborted_state", "secagg_server_completed_state", "secagg_server_prng_running_state", "secagg_server_protocol_impl", "secagg_server_r0_advertise_keys_state", "secagg_server_r1_share_keys_state", "secagg_server_r2_masked_input_coll_state", "secagg_server_r3_unmasking_state", "secagg_server_state", "secagg_trace_utility", "secagg_scheduler", "secret_sharing_harary_graph", "graph_parameter_finder", "distribution_utilities", "ssl_bit_gen", "aes/aes_secagg_server_protocol_impl")] + ["fcp/base/scheduler.cc", "fcp/base/clock.cc", "fcp/base/simulated_clock.cc"]
SRC = SERVER + SHARED + BASE
ALL = SERVER + CLIENT + SHARED + BASE
QUIET = ["quiet"]
