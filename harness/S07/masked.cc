// What a real client uploads, and when.
#include <thread>
#include "../common/saclient.h"
static uint64_t add(uint64_t a, uint64_t b, uint64_t m) { uint64_t s = a + b; return s < m ? s : s - m; }
static uint64_t sub(uint64_t a, uint64_t b, uint64_t m) { return a >= b ? a - b : a + m - b; }
static std::vector<std::string> kNames = {"v", "w"};
static std::vector<std::vector<uint64_t>> inputs; static std::vector<InputVectorSpecification> specs;
static std::unique_ptr<SecAggVectorMap> Input() { auto in = std::make_unique<SecAggVectorMap>(); for (size_t i = 0; i < specs.size(); i++) in->emplace(specs[i].name(), SecAggVector(absl::MakeConstSpan(inputs[i]), specs[i].modulus(), true)); return in; }
static void Describe() {
  uint64_t m = vf_param("pow2", 1) ? 1ull << vf_param("modulus", 8) : (uint64_t)vf_param("modulus", 10);
  int nv = vf_param("vectors", 1), len = vf_param("len", 1);
  for (int i = 0; i < nv; i++) { specs.emplace_back(kNames[i], len + i, m); std::vector<uint64_t> v; for (int j = 0; j < len + i; j++) { uint64_t x = vf_u64("input"); vf_assume(x < m); v.push_back(x); } inputs.push_back(v); }
}
static std::vector<uint64_t> Mask(const AesKey& k, const SessionId& id, size_t v) { AesCtrPrngFactory f; auto r = UnpackedMapOfMasks({k}, {}, specs, id, f); return std::vector<uint64_t>(r->at(specs[v].name()).begin(), r->at(specs[v].name()).end()); }
// The upload equals the input plus its own mask plus the signed masks of the peers that shared keys.
static void upload() {
  vfc::concrete = 1; vfc::stream_lo = vf_param("lo", 0); vfc::stream_hi = vf_param("hi", 8);
  Describe();
  int n = vf_param("n", 3), me = vf_choice(n, "own position"), t = vf_param("t", 2);
  VfClient w(n, me, t, specs);
  int when = vf_choice(4, "input is set");
  if (when == 0) vf_assert(w.c->SetInput(Input()).ok(), "input is accepted before the start");
  w.Start();
  if (when == 1) vf_assert(w.c->SetInput(Input()).ok(), "input is accepted after the start");
  for (int i = 0; i < n; i++) if (i != me) { int d = vf_choice(3, "gone before"); w.dead1[i] = d == 1; w.dead2[i] = d == 2; w.noise_share[i] = "n"; w.self_share[i] = "p"; }
  auto r = w.c->ReceiveMessage(w.KeysRequest());
  int a1 = 0; for (int i = 0; i < n; i++) a1 += i == me || !w.dead1[i];
  if (a1 < t) { vf_assert(w.c->IsAborted() && w.sent.all.size() == 2 && w.sent.all[1].has_abort(), "a client without enough peers aborts"); vf_reach("few keys"); return; }
  vf_assert(r.ok() && *r && w.sent.all.size() == 2, "the keys are accepted");
  w.ReadShares(w.sent.all[1]);
  std::string self_key = w.Secret(w.out_self), noise_key = w.Secret(w.out_noise);
  if (a1 - 1 >= t) {
    vf_assert(self_key.size() == 32 && noise_key.size() == 32, "the shares stand for keys");
    if (a1 - 1 > t) vf_assert(w.Secret(w.out_self, 1) == self_key && w.Secret(w.out_noise, 1) == noise_key, "any threshold of shares stands for the same keys");
    auto ka = EcdhKeyAgreement::CreateFromPrivateKey(EcdhPrivateKey((const uint8_t*)noise_key.data()));
    vf_assert(ka.ok(), "the shares stand for a private key");
    for (int i = 0; i < n; i++) if (i != me && !w.dead1[i]) { auto k = (*ka)->ComputeSharedSecret(w.peers[i].noise->PublicKey()); vf_assert(k.ok() && *k == w.NoiseKey(i), "the shared private key gives the pairwise keys"); }
    vf_reach("shared");
  }
  if (when == 2) vf_assert(w.c->SetInput(Input()).ok(), "input is accepted after the key exchange");
  auto r2 = w.c->ReceiveMessage(w.InputRequest());
  if (w.Alive() < t) { vf_assert(w.c->IsAborted() && w.sent.all.size() == 3 && w.sent.all[2].has_abort(), "a client without enough peers aborts"); vf_reach("few shares"); return; }
  vf_assert(r2.ok() && *r2, "the shares are accepted");
  if (when == 3) {
    vf_assert(w.sent.all.size() == 2, "nothing is uploaded before there is an input");
    vf_assert(w.c->SetInput(Input()).ok(), "input is accepted while it is waited for");
  }
  vf_assert(w.sent.all.size() == 3 && w.sent.all[2].has_masked_input_response(), "the masked input is uploaded once");
  auto again = w.c->SetInput(Input()); vf_assert(!again.ok() && w.sent.all.size() == 3, "a second input is refused");
  auto& vecs = w.sent.all[2].masked_input_response().vectors();
  vf_assert(vecs.size() == specs.size(), "one upload per vector");
  if (self_key.empty()) {
    // too few peers hold shares of the self mask to recover it here: take the client's own share from the unmasking round
    ServerToClientWrapperMessage m; m.mutable_unmasking_request();
    vf_assert(w.c->ReceiveMessage(m).ok() && w.sent.all.size() == 4 && w.sent.all[3].has_unmasking_response(), "the client unmasks");
    std::vector<ShamirShare> s(n); int have = 0;
    for (int i = 0; i < n; i++) { if (i == me) s[i].data = w.sent.all[3].unmasking_response().noise_or_prf_key_shares(i).prf_sk_share(); else if (!w.dead1[i]) s[i].data = w.out_self[i]; have += !s[i].data.empty(); }
    vf_assert(have >= t, "enough shares");
    auto k = ShamirSecretSharing().Reconstruct(t, s, 32); vf_assert(k.ok(), "the shares stand for a key"); self_key = *k;
    vf_reach("own share");
  }
  for (size_t v = 0; v < specs.size(); v++) {
    auto it = vecs.find(specs[v].name()); vf_assert(it != vecs.end(), "one upload per vector");
    uint64_t m = specs[v].modulus();
    std::vector<uint64_t> want = inputs[v], self = Mask(AesKey((const uint8_t*)self_key.data()), {w.session}, v);
    for (size_t j = 0; j < want.size(); j++) want[j] = add(want[j], self[j], m);
    for (int i = 0; i < n; i++) if (i != me && !w.Gone(i)) { auto k = Mask(w.NoiseKey(i), {w.session}, v); for (size_t j = 0; j < want.size(); j++) want[j] = i < me ? add(want[j], k[j], m) : sub(want[j], k[j], m); }
    std::vector<uint64_t> got = SecAggVector(std::string(it->second.encoded_vector()), m, want.size()).GetAsUint64Vector();
    uint64_t bad = 0; for (size_t j = 0; j < want.size(); j++) bad |= got[j] ^ want[j];
    vf_assert(bad == 0, "the upload is the input plus the self mask and the signed masks of the peers that shared keys");
  }
  vf_reach("uploaded");
}
// Any order of events; what is sent, and that the end is final.
static void order() {
  vfc::concrete = 1; vfc::concrete_streams = 1;
  int n = 3, me = 1, t = 2, steps = vf_param("steps", 5);
  specs.emplace_back("v", 1, 16); inputs = {{5}};
  VfClient w(n, me, t, specs);
  bool started = false, input = false, ended = false, aborted = false; int round = 0; size_t allowed = 0; std::string how;
  w.enc_pk = w.noise_pk = std::string(33, '\2');
  for (int i = 0; i < steps; i++) {
    int ev = i == 0 ? (int)vf_param("first", 0) : i == 1 ? (int)vf_param("second", 0) : (int)vf_choice(9, "event");
    size_t before = w.sent.all.size();
    Status s; bool msg = false; absl::StatusOr<bool> r = true;
    if (ev == 0) { s = w.c->Start(); if (s.ok()) { vf_assert(!started && !ended, "a client starts once"); started = true; round = 1; w.enc_pk = w.sent.all.back().advertise_keys().pair_of_public_keys().enc_pk(); w.noise_pk = w.sent.all.back().advertise_keys().pair_of_public_keys().noise_pk(); } else vf_assert(started || ended, "an idle client can be started"); }
    else if (ev == 1) { s = w.c->SetInput(Input()); if (s.ok()) { vf_assert(!input && !ended, "input is set once"); input = true; } else vf_assert(input || ended, "the first input is accepted"); }
    else if (ev == 2) { auto bad = std::make_unique<SecAggVectorMap>(); if (vf::flag("longer")) bad->emplace("v", SecAggVector(std::vector<uint64_t>{1, 2}, 16)); else if (vf::flag("other name")) bad->emplace("x", SecAggVector(std::vector<uint64_t>{1}, 16)); else if (vf::flag("other modulus")) bad->emplace("v", SecAggVector(std::vector<uint64_t>{1}, 32)); vf_assert(!w.c->SetInput(std::move(bad)).ok(), "input of another shape is refused"); }
    else if (ev == 3) { s = w.c->Abort("stop"); vf_assert(s.ok(), "a client can be aborted at any time"); if (!ended) { ended = aborted = true; } }
    else {
      ServerToClientWrapperMessage m; msg = true;
      if (ev == 4) m = w.KeysRequest(); else if (ev == 5) { for (int j = 0; j < n; j++) { w.noise_share[j] = "n"; w.self_share[j] = "p"; } if (started) m = w.InputRequest(); else m.mutable_masked_input_request(); } else if (ev == 6) m.mutable_unmasking_request(); else if (ev == 7) m.mutable_abort(); else m.mutable_abort()->set_early_success(true);
      r = w.c->ReceiveMessage(m);
      if (ended) vf_assert(!r.ok() || !*r, "a finished client does not carry on");
      else if (ev == 7) { ended = aborted = true; vf_assert(r.ok() && !*r, "an abort from the server ends the session"); }
      else if (ev == 8) { ended = true; vf_assert(r.ok() && !*r, "early success ends the session"); }
      else if (ev == 4 && round == 1) { vf_assert(r.ok() && *r, "the keys are accepted"); round = 2; }
      else if (ev == 5 && round == 2) { vf_assert(r.ok() && *r, "the shares are accepted"); round = 3; }
      else if (ev == 6 && round == 3 && input) { vf_assert(r.ok() && !*r, "unmasking completes the session"); ended = true; round = 4; }
      else { vf_assert(!r.ok(), "a message out of turn is refused"); }
    }
    // what may have been sent so far
    size_t keys = 0, shares = 0, in = 0, un = 0, ab = 0;
    for (auto& x : w.sent.all) { keys += x.has_advertise_keys(); shares += x.has_share_keys_response(); in += x.has_masked_input_response(); un += x.has_unmasking_response(); ab += x.has_abort(); }
    vf_assert(keys + shares + in + un + ab == w.sent.all.size(), "only protocol messages are sent");
    vf_assert(keys == (started ? 1u : 0u) && shares == (round >= 2 ? 1u : 0u), "keys and shares are sent once, in turn");
    vf_assert(un == (round == 4 ? 1u : 0u), "shares are disclosed once, in turn");
    vf_assert(in <= (round >= 3 && input ? 1u : 0u), "the masked input is sent once, in turn");
    if (!ended && round >= 3 && input) { vf_assert(in == 1, "the masked input is sent when it and the shares are there"); vf_reach("uploaded"); }
    vf_assert(ab <= 1, "the server is told at most once");
    vf_assert(w.c->IsAborted() == aborted && w.c->IsCompletedSuccessfully() == (ended && !aborted), "the state follows the events, and the end is final");
    if (aborted) { auto e = w.c->ErrorMessage(); vf_assert(e.ok() && !e->empty(), "an aborted client has an explanation"); }
    if (ended) { vf_reach(aborted ? "aborted" : "completed"); if (allowed && before != w.sent.all.size()) vf_fail("a finished client sends nothing"); allowed = 1; }
  }
}
// An abort from another thread while a message is handled.
static void race() {
  vfc::concrete = 1; vfc::concrete_streams = 1;
  int n = 3, me = 1, t = 2, at = vf_param("at", 2);
  specs.emplace_back("v", 1, 16); inputs = {{5}};
  VfClient w(n, me, t, specs);
  w.Start();
  for (int j = 0; j < n; j++) { w.noise_share[j] = "n"; w.self_share[j] = "p"; }
  w.c->SetInput(Input());
  if (at >= 2) w.c->ReceiveMessage(w.KeysRequest());
  if (at >= 3) w.c->ReceiveMessage(w.InputRequest());
  ServerToClientWrapperMessage m = at == 1 ? w.KeysRequest() : at == 2 ? w.InputRequest() : ServerToClientWrapperMessage(); if (at == 3) m.mutable_unmasking_request();
  size_t before = w.sent.all.size();
  std::thread th([&] { vf_assert(w.c->Abort("stop").ok(), "abort succeeds"); });
  auto r = w.c->ReceiveMessage(m);
  th.join();
  bool done = w.c->IsCompletedSuccessfully();
  vf_assert(w.c->IsAborted() != done, "the client ends aborted, or completed before the abort");
  vf_assert(!done || at == 3, "only the last message completes");
  int ab = 0, other = 0; for (size_t i = before; i < w.sent.all.size(); i++) { if (w.sent.all[i].has_abort()) { ab++; } else { other++; vf_assert(ab == 0, "nothing follows the abort"); } }
  vf_assert(ab == (done ? 0 : 1), "the server is told exactly once"); vf_assert(other <= 1, "at most one answer");
  vf_reach(other ? "answered" : "stopped");
}
extern "C" void vf_main() { switch (vf_param("mode", 0)) { case 0: upload(); break; case 1: order(); break; default: race(); } }
