BOUNDS = "one tensor of up to 3 arbitrary 64-bit values with 11 moduli (every modulus for refused inputs) and up to 2 dimensions of 0 to 5, or two tensors; up to 3 protocol messages with every effect and failure"
OUTSIDE = "dimensions whose product overflows; longer vectors and message histories; interruption while the protocol runs (D06)"
ASSUMPTIONS = ["the protocol client is played by the harness: any effect its interface allows for each message (the real client is S04-S08)", "the interruptible runner is replaced by one that runs in the caller's thread (the real one is D06)"]
UNITS = {"r": dict(harness=["run.cc", "../common/runner.cc"], sources=["fcp/client/secagg_runner.cc", "fcp/secagg/client/secagg_client_state.cc", "fcp/secagg/shared/secagg_vector.cc", "fcp/secagg/shared/input_vector_specification.cc", "fcp/secagg/shared/aes_ctr_prng.cc", "fcp/secagg/shared/aes_ctr_prng_factory.cc", "fcp/secagg/shared/aes_key.cc", "fcp/secagg/shared/crypto_rand_prng.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["crypto.cc"])}
A = ["invalid", "interrupted", "cannot start", "completed", "failed"]
JOBS = [dict(unit="r", name="one tensor", params=dict(tensors=1, replies=1), reach=A), dict(unit="r", name="one tensor, any modulus, refused", params=dict(tensors=1, replies=1, any_modulus=1), reach=["invalid"]), dict(unit="r", name="no tensor", params=dict(tensors=0, replies=2), reach=A[1:]), dict(unit="r", name="two tensors", params=dict(tensors=2, replies=1, odd=1), reach=A), dict(unit="r", name="long protocol", params=dict(tensors=1, replies=3, odd=9), reach=A)]
