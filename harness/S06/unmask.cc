// The unmasking round of a real client against any request.
#include "../common/saclient.h"
extern "C" void vf_main() {
  vfc::concrete = 1; vfc::concrete_streams = 1;
  int n = vf_param("n", 3), ids = vf_param("ids", 1);
  int me = vf_choice(n, "own position"), t = 2 + vf_choice(n - 1, "threshold");
  VfClient w(n, me, t, {InputVectorSpecification("v", 1, 16)});
  w.Start();
  int ndead = 0;
  for (int i = 0; i < n; i++) if (i != me) { int d = vf_choice(vf_param("early", 1) ? 3 : 1, "gone before"); w.dead1[i] = d == 1; w.dead2[i] = d == 2; ndead += d != 0; }
  if (w.Alive() < t) vf_end();
  auto in = std::make_unique<SecAggVectorMap>(); in->emplace("v", SecAggVector(std::vector<uint64_t>{3}, 16)); vf_assert(w.c->SetInput(std::move(in)).ok(), "input is accepted");
  vf_assert(w.c->ReceiveMessage(w.KeysRequest()).ok(), "the keys are accepted");
  w.ReadShares(w.sent.all.back());
  for (int i = 0; i < n; i++) if (i != me) { w.noise_share[i] = std::string(36, 'n'); w.self_share[i] = std::string(36, 'p'); vf_bytes(&w.noise_share[i][1], 2, "pairwise share"); vf_bytes(&w.self_share[i][1], 2, "self share"); w.noise_share[i][0] = w.self_share[i][0] = (char)i; }
  vf_assert(w.c->ReceiveMessage(w.InputRequest()).ok(), "the shares are accepted");
  vf_assert(w.sent.all.back().has_masked_input_response(), "the masked input is sent");
  size_t before = w.sent.all.size();
  ServerToClientWrapperMessage m; auto* q = m.mutable_unmasking_request();
  std::vector<uint32_t> dead; int k = vf_choice(ids + 1, "named clients");
  for (int i = 0; i < k; i++) { dead.push_back(vf_u32("client")); q->add_dead_3_client_ids(dead[i]); }
  auto r = w.c->ReceiveMessage(m);
  std::vector<bool> d3(n, false); bool refuse = false, odd = false; int alive = w.Alive();
  for (uint32_t x : dead) {
    uint32_t id = x - 1;
    if (id >= (uint32_t)n || id == (uint32_t)me) { refuse = true; break; }
    for (int i = 0; i < n; i++) if (id == (uint32_t)i) { if (d3[i]) refuse = true; else if (w.Gone(i)) odd = true; else { d3[i] = true; alive--; } }
  }
  if (alive < t) refuse = true;
  // a second request, whatever it names, must not be answered
  for (int round = 0; round < 2; round++) {
    int answers = 0;
    for (size_t i = before; i < w.sent.all.size(); i++) {
      auto& s = w.sent.all[i];
      vf_assert(s.has_unmasking_response() || s.has_abort(), "only the response or an abort is sent");
      if (!s.has_unmasking_response()) continue;
      answers++;
      vf_assert(!refuse, "nothing is disclosed for such a request");
      auto& u = s.unmasking_response();
      vf_assert(u.noise_or_prf_key_shares_size() == n, "one entry per client");
      for (int j = 0; j < n; j++) {
        auto& e = u.noise_or_prf_key_shares(j);
        std::string ns = e.noise_sk_share(), ps = e.prf_sk_share();
        vf_assert(ns.empty() || ps.empty(), "at most one kind of share per peer");
        if (w.Gone(j)) { vf_assert(ns.empty() && ps.empty(), "nothing is disclosed for clients that left earlier"); continue; }
        if (d3[j]) { vf_assert(ns == w.noise_share[j], "the pairwise-key share of a dead peer is disclosed"); vf_assert(ps.empty(), "the self-mask share of a dead peer stays secret"); vf_reach("dead"); }
        else { vf_assert(ns.empty(), "the pairwise-key share of a live peer stays secret"); if (j != me) vf_assert(ps == w.self_share[j], "the self-mask share of a live peer is disclosed"); vf_reach("live"); }
      }
    }
    vf_assert(answers <= 1, "at most one response per session");
    if (round == 0) {
      if (refuse) { vf_assert(answers == 0 && w.c->IsAborted() && !w.c->IsCompletedSuccessfully(), "the client aborts on such a request"); vf_assert(w.sent.all.back().has_abort(), "the server is told"); vf_reach("refused"); }
      else if (!odd) { vf_assert(answers == 1 && w.c->IsCompletedSuccessfully() && r.ok() && !*r, "a valid request is answered and completes the session"); }
    } else break;
    ServerToClientWrapperMessage m2; auto* q2 = m2.mutable_unmasking_request();
    for (int i = vf_choice(2, "named again"); i > 0; i--) q2->add_dead_3_client_ids(vf_u32("client"));
    bool was_aborted = w.c->IsAborted();
    auto r2 = w.c->ReceiveMessage(m2); (void)r2;
    vf_assert(w.c->IsAborted() == was_aborted, "a finished client stays finished");
  }
}
