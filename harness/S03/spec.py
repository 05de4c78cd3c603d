BOUNDS = "all powers of two up to 2^62 and 28 other moduli; up to 3 keys in every tried order and sign; 1..3 elements with the first 16..24 bytes of every key stream symbolic, and vectors that cross the 1680-byte refill with a symbolic window around it; two vectors at a time"
OUTSIDE = "other moduli; more than one refill of the pseudo-random buffer; rejection sampling that rejects more often than the symbolic part of the stream allows"
ASSUMPTIONS = ["AES-CTR key streams are arbitrary bytes that depend only on key and IV", "SHA-256 gives different digests for different inputs"]
SRC = ["fcp/secagg/shared/secagg_vector.cc", "fcp/secagg/shared/map_of_masks.cc", "fcp/secagg/shared/input_vector_specification.cc", "fcp/secagg/shared/aes_key.cc", "fcp/secagg/shared/aes_ctr_prng.cc", "fcp/secagg/shared/aes_ctr_prng_factory.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
UNITS = {"masks": dict(harness="masks.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
FLAGS = {0: ['--int', '--no-mod']}
def add(name, reach, tier="both", weight=1, **p):
    JOBS.append(dict(unit="masks", name=name, params=p, reach=[reach], tier=tier, flags=FLAGS.get(p.get('pow2',0),[]), timeout=400 if tier == "both" else 3000, weight=weight))
for w in range(1, 63, 4):
    c = min(4, 63 - w)
    add("combination, powers of two from 2^%d" % w, "combined", mode=0, pow2=1, first=w, count=c, len=1)
    add("cancellation, powers of two from 2^%d" % w, "cancelled", mode=1, pow2=1, first=w, count=c, len=2)
    add("separation, powers of two from 2^%d" % w, "separate", mode=2, pow2=1, first=w, count=c, len=2)
MODULI = [3, 5, 6, 7, 9, 10, 100, 127, 129, 200, 255, 257, 1000, 4097, 32767, 32769, 65535, 65537, 1000003, 2**24 + 1, 2**31 - 1, 2**32 - 5, 2**33 + 9, 2**40 + 15, 2**48 - 59, 2**56 + 81, 2**61 - 1, 2**62 - 57]
for i, m in enumerate(MODULI):
    n = ((m - 1).bit_length() + 7) // 8
    add("combination, modulus %d" % m, "combined", mode=0, first=i, len=1, hi=min(n, 3), adds=4, subs=3, impl=2)
    add("combination, low bytes, modulus %d" % m, "combined", mode=0, first=i, len=1, lo=max(0, n - 2), hi=n, adds=4, subs=4, impl=2)
    add("implementations, modulus %d" % m, "combined", mode=0, first=i, len=1, lo=max(0, n - 2), hi=n, adds=2, subs=1)
    add("implementations, two keys, modulus %d" % m, "combined", mode=0, first=i, len=1, lo=n - 1, hi=n, adds=2, subs=2)
    add("rejection, modulus %d" % m, "combined", mode=0, first=i, len=1, hi=2 * n if n < 5 else n + 2, adds=2, subs=2, impl=2)
    add("cancellation, modulus %d" % m, "cancelled", mode=1, first=i, len=1, hi=n, impl=2)
    add("cancellation, packed, modulus %d" % m, "cancelled", mode=1, first=i, len=1, lo=max(0, n - 1), hi=n)
    add("cancellation of two, modulus %d" % m, "cancelled", "thorough", mode=1, first=i, len=2, hi=24)
    add("separation, modulus %d" % m, "separate", mode=2, first=i, len=2, hi=0)
for w in (1, 8, 9, 16, 17, 24, 25, 32, 33, 40, 41, 48, 49, 56, 57, 62):
    n = (w + 7) // 8
    add("refill, 2^%d" % w, "long", mode=3, pow2=1, first=w, count=1, len=1680 // n + 2, lo=1672, hi=1688, to=0)
