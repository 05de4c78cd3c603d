C = "fcp/secagg/client/secagg_client"
CLIENT = [C + s + ".cc" for s in ("", "_aborted_state", "_alive_base_state", "_completed_state", "_r0_advertise_keys_input_not_set_state", "_r0_advertise_keys_input_set_state", "_r1_share_keys_base_state", "_r1_share_keys_input_not_set_state", "_r1_share_keys_input_set_state", "_r2_masked_input_coll_base_state", "_r2_masked_input_coll_input_not_set_state", "_r2_masked_input_coll_input_set_state", "_r2_masked_input_coll_waiting_for_input_state", "_r3_unmasking_state", "_state")]
SHARED = ["fcp/secagg/shared/" + s + ".cc" for s in ("aes_ctr_prng", "aes_ctr_prng_factory", "aes_gcm_encryption", "aes_key", "compute_session_id", "ecdh_key_agreement", "input_vector_specification", "map_of_masks", "secagg_vector", "shamir_secret_sharing")]
BASE = ["fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
SRC = CLIENT + SHARED + BASE
