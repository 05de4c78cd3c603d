// One client of a session sends whatever it likes; the others follow the protocol.
#include "../common/safake.h"
typedef SecAggServerStateKind Kind;
// A string of some length out of a few around the expected one, with any first and last byte.
static std::string odd(int expected, const char* name) {
  int pick = vf_choice(7, "length"); int lens[7] = {expected, 0, 1, expected - 1, expected + 1, 20, expected + 4};
  std::string s(lens[pick] < 0 ? 0 : lens[pick], '\2'); if (!s.empty()) { s[0] = (char)vf_u8(name); s[s.size() - 1] = (char)vf_u8(name); }
  return s;
}
extern "C" void vf_main() {
  vfc::concrete = 1; vfc::concrete_streams = 1;
  int n = vf_param("n", 3), t = vf_param("t", 2), at = vf_param("round", 0), kind = vf_param("kind", 0), late = vf_param("late", 0); bool async = vf_param("async", 0);
  VfServer w(n, t, {InputVectorSpecification("v", 2, vf_param("mod", 256)), InputVectorSpecification("u", 1, 10)}, false, async); VfFake f(w);
  int bad = vf_choice(n, "hostile client"), lost = vf_param("lost", 0) ? (bad + 1 + vf_choice(n - 1, "lost client")) % n : -1, lost_at = vf_param("lost_at", 2);
  std::vector<bool> first(n, true); std::vector<int> kinds(n, 1); bool out = false; 
  auto message = [&](int i, int r) { return r == 0 ? f.Keys(i) : r == 1 ? f.Shares(i, first) : r == 2 ? f.Input(i) : f.Unmask(i, kinds); };
  for (int r = 0; r < 5; r++) {
    if (r == 4) { if (at != 4) break; w.par.q.size(); }
    for (int turn = 0; turn < n && r < 4; turn++) {
      int i = (bad + (late ? 1 : 0) + turn) % n; if (i == lost && r >= lost_at) continue; if (i == bad && (out || r == at)) { if (r == at) goto hostile; continue; }
    honest:
      { auto x = w.Put(i, message(i, r)); vf_assert(x.ok(), "other clients are heard as before"); vf_assert(!w.Gone(i), "other clients go on"); }
      continue;
    hostile: {
        ClientToServerWrapperMessage m; bool fits = false;
        switch (kind) {
          case 1: { auto* p = m.mutable_advertise_keys()->mutable_pair_of_public_keys(); int k = vf_choice(6, "size"); int sz[6] = {33, 0, 32, 64, 65, 100}; int k2 = vf_choice(6, "size"); std::string a(sz[k], '\2'), b(sz[k2], '\3'); if (sz[k]) a[0] = (char)vf_u8("key"); if (sz[k2]) b[0] = (char)vf_u8("key"); p->set_enc_pk(a); p->set_noise_pk(b); break; }
          case 2: { auto* q = m.mutable_share_keys_response(); int k = vf_choice(n + 2, "shares"); for (int j = 0; j < k; j++) q->add_encrypted_key_shares(vf::flag("given") ? vf::str(1, 1, "share") : ""); break; }
          case 3: { auto* v = m.mutable_masked_input_response()->mutable_vectors(); int k = vf_choice(4, "vectors"); if (k & 1) (*v)["v"].set_encoded_vector(vf::str(0, 4, "masked")); if (k & 2) (*v)["u"].set_encoded_vector(vf::str(0, 2, "masked")); if (vf::flag("another")) (*v)["w"].set_encoded_vector("zz"); break; }
          case 4: { auto* q = m.mutable_unmasking_response(); int k = vf_choice(n + 2, "shares"), o = vf_choice(n, "odd one"); for (int j = 0; j < k; j++) { auto* s = q->add_noise_or_prf_key_shares(); int g = j == o ? vf_choice(3, "kind of share") : j < n ? kinds[j] : 1; std::string d = j == o ? odd(36, "share") : std::string(36, '\4'); if (g == 1) s->set_prf_sk_share(d); else if (g == 2) s->set_noise_sk_share(d); } break; }
          case 5: m.mutable_abort()->set_diagnostic_info(vf::str(0, 1, "info")); break;
          default: break;
        }
        auto ids = w.s->AbortedClientIds(); std::vector<size_t> mail; for (auto& b : w.net.box) mail.push_back(b.size());
        auto x = w.s->ReceiveMessage(bad, std::make_unique<ClientToServerWrapperMessage>(m)); (void)x;
        for (int j = 0; j < n; j++) if (j != bad) { vf_assert(w.Gone(j) == ids.contains(j), "other clients keep their state"); vf_assert(w.net.box[j].size() == mail[j], "other clients hear nothing of it"); }
        out = w.Gone(bad); vf_reach(out ? "dropped" : "accepted"); (void)fits;
        if (!out && kind == at + 1 && r == 3 && vf_param("twice", 0)) { w.Put(bad, m); }
      }
    }
    if (r == 4) break;
    if (async) w.Work();
    if (w.s->IsAborted()) break;
    auto y = w.s->ReadyForNextRound(); vf_assert(y.ok(), "the session can be asked"); if (!*y) { vf_reach("waiting"); vf_end(); }
    std::vector<size_t> mail; for (auto& b : w.net.box) mail.push_back(b.size());
    vf_assert(w.s->ProceedToNextRound().ok(), "the session goes on"); if (w.s->IsAborted()) break;
    for (int j = 0; j < n; j++) {
      if (j == bad || (j == lost && r >= lost_at)) continue;
      if (r == 3) continue;
      vf_assert(w.net.box[j].size() == mail[j] + 1, "other clients get their next request"); auto& m = w.net.box[j].back();
      if (r == 0) { auto& q = m.share_keys_request(); vf_assert(q.pairs_of_public_keys_size() == n, "one pair of keys per client"); for (int k = 0; k < n; k++) if (k != bad && !(k == lost && lost_at == 0)) vf_assert(q.pairs_of_public_keys(k).noise_pk() == VfFake::Key(k, 'n') && q.pairs_of_public_keys(k).enc_pk() == VfFake::Key(k, 'e'), "keys of the other clients are passed on"); if (out) vf_assert(q.pairs_of_public_keys(bad).noise_pk().empty(), "keys of a dropped client are not passed on"); }
      if (r == 1) { auto& q = m.masked_input_request(); vf_assert(q.encrypted_key_shares_size() == n, "one share per client"); for (int k = 0; k < n; k++) if (k != bad && k != j && !(k == lost && lost_at <= 1)) vf_assert(q.encrypted_key_shares(k) == VfFake::Share(k, j), "shares of the other clients are passed on"); if (out && bad != j) vf_assert(q.encrypted_key_shares(bad).empty(), "shares of a dropped client are not passed on"); }
    }
    if (r == 0) { for (int k = 0; k < n; k++) first[k] = !w.Gone(k); for (int k = 0; k < n; k++) if (!first[k]) kinds[k] = 0; }
    if (r == 1) for (int k = 0; k < n; k++) if (w.Gone(k)) kinds[k] = 0;
    if (r == 2) for (int k = 0; k < n; k++) if (kinds[k] && w.Gone(k)) kinds[k] = 2;
  }
  if (!w.s->IsAborted()) {
    vf_assert(w.s->State() == Kind::PRNG_RUNNING, "the last step is reached");
    if (at == 4) { ClientToServerWrapperMessage m; if (kind == 5) m.mutable_abort(); else if (kind == 4) m.mutable_unmasking_response(); w.Put(bad, m); out = w.Gone(bad); vf_reach(out ? "dropped" : "accepted"); }
    w.Work(); vf_assert(w.s->ProceedToNextRound().ok(), "the session ends");
    vf_assert(w.s->IsAborted() || w.s->Result().ok(), "the session ends with a result or an error"); vf_reach(w.s->IsAborted() ? "failed" : "completed");
  } else vf_reach("aborted");
}
