// The checker of a session accepts exactly the nonces its generator hands out, in that order.
#include <string>
#include <vector>
#include "fcp/confidentialcompute/crypto.h"
#include "vf.h"
using namespace fcp::confidential_compute;
using fcp::confidentialcompute::BlobMetadata;
// Where the counter is reachable, sessions start late in their life.
template <class T> auto start(T& t, uint32_t v, int) -> decltype((void)(t.counter_ = v), true) { t.counter_ = v; return true; }
template <class T> bool start(T&, uint32_t, long) { return false; }
static BlobMetadata blob(const std::string& n) { BlobMetadata m; m.mutable_hpke_plus_aead_data()->mutable_rewrapped_symmetric_key_associated_data()->set_nonce(n); return m; }
extern "C" void vf_main() {
  int mode = vf_param("mode", 0), steps = vf_param("steps", 3), from = vf_param("from", 0);
  NonceChecker c; std::string session = c.GetSessionNonce(); NonceGenerator g(session);
  vf_assert(session.size() >= 12, "session nonces are long enough not to repeat");
  uint32_t at = 0;
  if (from) { at = vf_u32("messages so far"); if (from == 2) vf_assume(at >= 0xffffffffu - 2); if (!start(c, at, 0) || !start(g, at, 0)) { vf_reach("accepted"); vf_reach("refused"); vf_reach("exhausted"); vf_reach("end"); vf_end(); } }
  if (mode == 0) {
    // nonces of a session differ, and stop when the counter is used up
    std::vector<std::string> all; bool over = false;
    for (int i = 0; i < steps; i++) {
      auto n = g.GetNextBlobNonce();
      if (!n.ok()) { over = true; vf_assert((uint64_t)at + i >= 0xffffffffu - 1, "nonces are not refused early"); vf_reach("exhausted"); continue; }
      vf_assert(!over, "no nonce after the counter was used up");
      vf_assert(n->size() > session.size() && n->compare(0, session.size(), session) == 0, "nonces belong to their session");
      for (auto& o : all) vf_assert(o != *n, "nonces do not repeat");
      all.push_back(*n);
      if (from < 2 || (uint64_t)at + i < 0xffffffffu) { auto s = c.CheckBlobNonce(blob(*n)); vf_assert(s.ok(), "the next nonce is accepted"); vf_reach("accepted"); }
      vf_assert(!c.CheckBlobNonce(blob(*n)).ok(), "a replayed nonce is refused");
    }
  } else if (mode == 1) {
    // any nonce at all
    std::vector<std::string> next; for (int i = 0; i < 2 * steps; i++) { auto n = g.GetNextBlobNonce(); if (!n.ok()) break; next.push_back(*n); }
    size_t done = 0;
    for (int i = 0; i < steps; i++) {
      int k = vf_choice(5, "kind"); std::string n;
      if (k == 0) { BlobMetadata m; m.mutable_unencrypted(); if (vf::flag("nonce too")) { m = blob("x"); m.mutable_unencrypted(); } vf_assert(c.CheckBlobNonce(m).ok(), "unencrypted messages need no nonce"); continue; }
      if (k == 1) { int lens[] = {0, 1, (int)session.size(), (int)session.size() + 3, (int)session.size() + 5}; int L = lens[vf_choice(5, "length")]; n = std::string(L, '\0'); if (L) vf_bytes(&n[0], L, "nonce"); }
      else if (k == 2) { n = std::string(session.size() + 4, '\0'); vf_bytes(&n[0], n.size(), "nonce"); }
      else if (k == 3) { size_t j = vf_choice(2 * steps, "other"); if (j >= next.size()) vf_end(); n = next[j]; }
      auto s = c.CheckBlobNonce(k == 4 && vf::flag("no nonce at all") ? BlobMetadata() : blob(n));
      bool want = done < next.size() && n == next[done];
      vf_assert(s.ok() == want, "exactly the next nonce of this session is accepted");
      if (s.ok()) { done++; vf_reach("accepted"); } else vf_reach("refused");
    }
  } else {
    // nonces of another session
    std::string other(session.size(), '\0'); vf_bytes(&other[0], other.size(), "other session"); vf_assume(other != session);
    NonceGenerator h(other); if (from) start(h, at, 0);
    auto a = g.GetNextBlobNonce(), b = h.GetNextBlobNonce(); if (!a.ok() || !b.ok()) vf_end();
    vf_assert(*a != *b, "sessions do not share nonces"); vf_assert(!c.CheckBlobNonce(blob(*b)).ok(), "nonces of another session are refused"); vf_assert(c.CheckBlobNonce(blob(*a)).ok(), "the next nonce is accepted"); vf_reach("refused");
  }
  vf_reach("end");
}
