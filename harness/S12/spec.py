BOUNDS = "plaintexts of 0, 1, 3 and 17 bytes (up to 40 in the thorough check); any one byte of the ciphertext changed, any prefix or suffix cut, one byte added, any other key, any string of up to 33 bytes; three encryptions in a row of any texts, 600 of one text; three key pairs, any prefix and edge bytes of a public key"
OUTSIDE = "changes to several bytes at once other than those listed; longer messages"
ASSUMPTIONS = ["AES-GCM, P-256 and the random generator are ideal (tables of opaque values); a ciphertext opens only with the key, nonce and bytes it was sealed with"]
UNITS = {"enc": dict(harness="enc.cc", rt=["crypto.cc"], sources=["fcp/secagg/shared/aes_gcm_encryption.cc", "fcp/secagg/shared/aes_key.cc", "fcp/secagg/shared/ecdh_key_agreement.cc", "fcp/secagg/shared/shamir_secret_sharing.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
JOBS = []
for n in [0, 1, 3, 17, 40]:
    t = "both" if n <= 17 else "thorough"
    JOBS.append(dict(unit="enc", name="tampering %d bytes" % n, params=dict(mode=0, len=n), reach=["roundtrip", "refused"], tier=t))
    JOBS.append(dict(unit="enc", name="foreign %d bytes" % n, params=dict(mode=1, len=n), reach=["otherkey", "garbage"], tier=t))
JOBS.append(dict(unit="enc", name="nonces", params=dict(mode=2), reach=["fresh"]))
JOBS.append(dict(unit="enc", name="key agreement", params=dict(mode=3), reach=["agreed", "malformed"]))
JOBS.append(dict(unit="enc", name="many nonces", params=dict(mode=4), reach=["fresh"]))
