// Hostile server messages in every round of a real client.
#include "../common/saclient.h"
static void finish(VfClient& w, size_t before) {
  // whatever happened, the client is in a defined state
  if (w.c->IsAborted()) { auto e = w.c->ErrorMessage(); vf_assert(e.ok() && !e->empty(), "an aborted client has an explanation"); vf_assert(!w.c->IsCompletedSuccessfully(), "an aborted client is not complete"); }
  vf_assert(!w.c->State().empty(), "the state has a name");
}
static std::unique_ptr<SecAggVectorMap> Input() { auto in = std::make_unique<SecAggVectorMap>(); in->emplace("v", SecAggVector(std::vector<uint64_t>{5}, 16)); return in; }
// Key exchange: any number of keys, each valid, missing, of another size, repeated, or arbitrary bytes.
static void keys() {
  int n = vf_param("n", 3), t = 2 + vf_choice(2, "threshold"), max = 2 + vf_choice(3, "most clients");
  VfClient w(n, n - 1, t, {InputVectorSpecification("v", 1, 16)}, max);
  if (vf::flag("input set")) w.c->SetInput(Input());
  w.Start();
  ServerToClientWrapperMessage m; auto* r = m.mutable_share_keys_request();
  int sl = vf_choice(4, "session id"); std::string sid(sl == 0 ? 0 : sl == 1 ? 31 : sl == 2 ? 33 : 32, 's'); if (sl) { sid[0] = (char)vf_u8("session byte"); r->set_session_id(sid); }
  int own = 0, alive = 0, bad = 0, k = n;
  if (vf_param("extra", 0)) k = vf_choice(n + 2, "number of keys");
  bool arbitrary = false; int odd = vf_choice(k ? k : 1, "odd entry");  // this entry is anything, the others are valid or missing
  for (int i = 0; i < k; i++) {
    auto* p = r->add_pairs_of_public_keys();
    int what = vf_choice(i == odd ? 7 : 3, "keys");
    if (what == 0) { w.Keys(p, i < n - 1 ? i : 0); alive++; }
    else if (what == 1) { w.Keys(p, n - 1); own++; alive++; }
    else if (what == 2) { int half = vf_choice(3, "missing"); if (half == 1) p->set_enc_pk(std::string(33, '\2')); if (half == 2) p->set_noise_pk(std::string(33, '\2')); }
    else if (what == 3) { bool first = vf::flag("first"); int len = vf_choice(3, "length"); std::string len33(len == 0 ? 1 : len == 1 ? 32 : 65, '\2'), good(33, '\2'); p->set_enc_pk(first ? len33 : good); p->set_noise_pk(first ? good : len33); bad++; }
    else if (what == 4) { std::string a(33, '\5'), b(33, '\2'); a[0] = (char)vf_u8("key prefix"); a[32] = (char)vf_u8("key byte"); bool first = vf::flag("first"); p->set_enc_pk(first ? a : b); p->set_noise_pk(first ? b : a); arbitrary = true; alive++; }
    else if (what == 5) { p->set_enc_pk(w.enc_pk); p->set_noise_pk(w.peers[0].noise->PublicKey().AsString()); alive++; }
    else { p->set_enc_pk(w.noise_pk); p->set_noise_pk(w.enc_pk); alive++; }
  }
  size_t before = w.sent.all.size();
  auto res = w.c->ReceiveMessage(m);
  finish(w, before);
  vf_assert(res.ok(), "the message is handled");
  bool must = k < t || k > max || sl != 3 || own != 1 || alive < t || bad;
  if (must) { vf_assert(w.c->IsAborted() && !*res, "an inconsistent request is refused"); vf_reach("refused"); }
  if (w.c->IsAborted()) { vf_assert(w.sent.all.size() == before + 1 && w.sent.all.back().has_abort(), "a client that aborts tells the server and sends nothing else"); }
  else { vf_assert(*res && w.sent.all.size() == before + 1 && w.sent.all.back().has_share_keys_response() && w.sent.all.back().share_keys_response().encrypted_key_shares_size() == k, "an accepted request is answered for every client"); vf_reach("accepted"); }
  if (!must && !arbitrary) vf_assert(!w.c->IsAborted(), "a consistent request is accepted");
}
// Share distribution: any number of ciphertexts; valid, empty, damaged, or of arbitrary contents.
static void shares() {
  int n = vf_param("n", 3), me = vf_choice(n, "own position"), t = 2;
  VfClient w(n, me, t, {InputVectorSpecification("v", 1, 16)});
  bool input = vf::flag("input set"); if (input) w.c->SetInput(Input());
  w.Start();
  if (n > 2) w.dead1[me == 0 ? 1 : 0] = vf::flag("one peer gone");
  w.c->ReceiveMessage(w.KeysRequest());
  ServerToClientWrapperMessage m; auto* r = m.mutable_masked_input_request();
  int k = vf_param("extra", 0) ? vf_choice(n + 2, "number of shares") : n; bool must = k != n; int alive = 0, odd = vf_choice(k ? k : 1, "odd entry");
  for (int i = 0; i < k; i++) {
    bool gone = i < n && w.dead1[i] && i != me; int what = vf_choice(i == odd ? 5 : 2, "shares");
    int from = i < n && i != me ? i : (me == 0 ? 1 : 0);
    std::string s;
    if (what == 1) { PairOfKeyShares p; p.set_noise_sk_share(vf::str(i == odd ? 0 : 1, 1, "pairwise share")); p.set_prf_sk_share(vf::str(i == odd ? 0 : 1, i == odd ? 2 : 1, "self share")); s = AesGcmEncryption().Encrypt(w.EncKey(from), p.SerializeAsString()); }
    else if (what == 2) { int len = vf_choice(3, "garbage"); s = std::string(len == 0 ? 1 : len == 1 ? 27 : 40, 'g'); s[0] = (char)vf_u8("garbage"); }
    else if (what == 3) { std::string pt(vf_choice(5, "plaintext length"), '\0'); if (pt.size()) vf_bytes(&pt[0], pt.size(), "plaintext"); s = AesGcmEncryption().Encrypt(w.EncKey(from), pt); }
    else if (what == 4) s = AesGcmEncryption().Encrypt(w.EncKey(n > 2 && from == (me == 2 ? 1 : 2) ? (me == 0 ? 1 : 0) : n > 2 ? (me == 2 ? 1 : 2) : from), "");
    if (i == me) { alive++; } else if (i < n) { if (gone && !s.empty()) must = true; if (!gone && what == 2) must = true; if (!gone && what == 4 && n > 2) must = true; if (!gone && what) alive++; }
    r->add_encrypted_key_shares(s);
  }
  if (alive < t) must = true;
  size_t before = w.sent.all.size();
  auto res = w.c->ReceiveMessage(m);
  finish(w, before);
  vf_assert(res.ok(), "the message is handled");
  if (must) { vf_assert(w.c->IsAborted(), "inconsistent shares are refused"); vf_reach("refused"); }
  if (w.c->IsAborted()) vf_assert(!*res && w.sent.all.size() == before + 1 && w.sent.all.back().has_abort(), "a client that aborts tells the server and sends nothing else");
  else { vf_assert(*res, "the session goes on"); vf_assert(w.sent.all.size() == before + (input ? 1 : 0), "the input is sent when it is there"); vf_reach("accepted");
    ServerToClientWrapperMessage u; auto* q = u.mutable_unmasking_request(); for (int i = vf_choice(2, "named"); i > 0; i--) q->add_dead_3_client_ids(vf_u32("client"));
    auto r3 = w.c->ReceiveMessage(u); finish(w, before); vf_assert(r3.ok() == input, "unmasking follows the input"); }
}
// Messages of any type, with arbitrary small contents, in any round.
static void any() {
  int n = 3, round = vf_param("round", 0), steps = vf_param("steps", 2);
  VfClient w(n, 1, 2, {InputVectorSpecification("v", 1, 16)});
  bool input = vf::flag("input set"); if (input) w.c->SetInput(Input());
  for (int j = 0; j < n; j++) { w.noise_share[j] = "n"; w.self_share[j] = "p"; }
  if (round >= 1) w.Start();
  if (round >= 2) w.c->ReceiveMessage(w.KeysRequest());
  if (round >= 3) w.c->ReceiveMessage(w.InputRequest());
  for (int s = 0; s < steps; s++) {
    ServerToClientWrapperMessage m; int type = vf_choice(5, "type");
    if (type == 1) { auto* a = m.mutable_abort(); if (vf::flag("early")) a->set_early_success(true); a->set_diagnostic_info(vf::str(0, 1, "diagnostics")); }
    if (type == 2) { auto* r = m.mutable_share_keys_request(); r->set_session_id(std::string(vf::flag("id") ? 32 : 0, 'i')); r->set_sec_agg_execution_logging_id((int64_t)vf_u64("logging id")); for (int i = vf_choice(4, "keys"); i > 0; i--) { auto* p = r->add_pairs_of_public_keys(); p->set_enc_pk(vf::str(0, 1, "key")); p->set_noise_pk(vf::str(0, 1, "key")); } }
    if (type == 3) { auto* r = m.mutable_masked_input_request(); for (int i = vf_choice(5, "shares"); i > 0; i--) r->add_encrypted_key_shares(vf::str(0, 1, "share")); }
    if (type == 4) { auto* r = m.mutable_unmasking_request(); for (int i = vf_choice(3, "named"); i > 0; i--) r->add_dead_3_client_ids(vf_u32("client")); }
    bool done = w.c->IsAborted() || w.c->IsCompletedSuccessfully(); std::string was = w.c->State(); size_t before = w.sent.all.size();
    auto r = w.c->ReceiveMessage(m);
    finish(w, before);
    if (!r.ok()) { vf_assert(w.c->State() == was && w.sent.all.size() == before, "a refused message changes nothing"); vf_reach("out of turn"); }
    else { vf_assert(!done, "a finished client accepts nothing"); vf_assert(*r == !(w.c->IsAborted() || w.c->IsCompletedSuccessfully()), "the result says whether the session goes on"); vf_reach("handled"); }
    for (size_t i = before; i < w.sent.all.size(); i++) vf_assert(!done, "a finished client sends nothing");
  }
}
extern "C" void vf_main() { vfc::concrete = 1; vfc::concrete_streams = 1; switch (vf_param("mode", 0)) { case 0: keys(); break; case 1: shares(); break; default: any(); } }
