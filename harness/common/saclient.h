// One real secure-aggregation client, its server and its peers played by the harness.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "fcp/secagg/client/send_to_server_interface.h"
#include "fcp/secagg/client/state_transition_listener_interface.h"
#include "openssl/vfssl.h"
#include "vf.h"
using namespace fcp; using namespace fcp::secagg;
struct VfSent { std::vector<ClientToServerWrapperMessage> all; };
struct VfSender : SendToServerInterface { VfSent* s; explicit VfSender(VfSent* s) : s(s) {} void Send(ClientToServerWrapperMessage* m) override { s->all.push_back(*m); } };
struct VfListener : StateTransitionListenerInterface { void Transition(ClientState) override {} void Started(ClientState) override {} void Stopped(ClientState) override {} void set_execution_session_id(int64_t) override {} };
struct VfPrng : SecurePrng { uint8_t Rand8() override { return (uint8_t)vfc::fresh(8, "rand8")[5]; } uint64_t Rand64() override { uint64_t v; memcpy(&v, vfc::fresh(8, "rand64").data(), 8); return v; } };
struct VfPeer { std::unique_ptr<EcdhKeyAgreement> enc, noise; };
struct VfClient {
  int n, me, t; VfSent sent; std::unique_ptr<SecAggClient> c; std::vector<VfPeer> peers;
  std::string enc_pk, noise_pk, session; std::vector<InputVectorSpecification> specs;
  std::vector<bool> dead1, dead2;
  std::vector<std::string> noise_share, self_share;  // what each peer gave this client
  std::vector<std::string> out_noise, out_self;      // what this client gave each peer
  VfClient(int n, int me, int t, std::vector<InputVectorSpecification> sp, int max = -1) : n(n), me(me), t(t), session(32, 's'), specs(sp), dead1(n, false), dead2(n, false), noise_share(n), self_share(n), out_noise(n), out_self(n) {
    c = std::make_unique<SecAggClient>(max < 0 ? n : max, t, sp, std::make_unique<VfPrng>(), std::make_unique<VfSender>(&sent), std::make_unique<VfListener>(), std::make_unique<AesCtrPrngFactory>());
    for (int i = 0; i < n; i++) { peers.emplace_back(); if (i != me) { peers[i].enc = std::move(*EcdhKeyAgreement::CreateFromRandomKeys()); peers[i].noise = std::move(*EcdhKeyAgreement::CreateFromRandomKeys()); } }
  }
  void Start() {
    vf_assert(c->Start().ok(), "a client can be started"); vf_assert(sent.all.size() == 1 && sent.all[0].has_advertise_keys(), "a started client advertises its keys");
    enc_pk = sent.all[0].advertise_keys().pair_of_public_keys().enc_pk(); noise_pk = sent.all[0].advertise_keys().pair_of_public_keys().noise_pk();
  }
  bool Gone(int i) const { return i != me && (dead1[i] || dead2[i]); }
  int Alive() const { int k = 0; for (int i = 0; i < n; i++) k += !Gone(i); return k; }
  void Keys(PairOfPublicKeys* k, int i) const {
    if (i == me) { k->set_enc_pk(enc_pk); k->set_noise_pk(noise_pk); }
    else if (!dead1[i]) { k->set_enc_pk(peers[i].enc->PublicKey().AsString()); k->set_noise_pk(peers[i].noise->PublicKey().AsString()); }
  }
  ServerToClientWrapperMessage KeysRequest() const {
    ServerToClientWrapperMessage m; auto* r = m.mutable_share_keys_request(); r->set_session_id(session); r->set_sec_agg_execution_logging_id(7);
    for (int i = 0; i < n; i++) Keys(r->add_pairs_of_public_keys(), i);
    return m;
  }
  static EcdhPublicKey Pk(const std::string& s) { return EcdhPublicKey((const uint8_t*)s.data()); }
  AesKey EncKey(int i) const { return *peers[i].enc->ComputeSharedSecret(Pk(enc_pk)); }
  AesKey NoiseKey(int i) const { return *peers[i].noise->ComputeSharedSecret(Pk(noise_pk)); }
  // Reads the shares this client sent to its peers.
  void ReadShares(const ClientToServerWrapperMessage& m) {
    vf_assert(m.has_share_keys_response(), "the client answers the keys with shares");
    auto& r = m.share_keys_response(); vf_assert(r.encrypted_key_shares_size() == n, "one entry per client");
    for (int i = 0; i < n; i++) {
      if (i == me || dead1[i]) { vf_assert(r.encrypted_key_shares(i).empty(), "nothing is sent to absent clients"); continue; }
      auto d = AesGcmEncryption().Decrypt(EncKey(i), r.encrypted_key_shares(i)); vf_assert(d.ok(), "each peer can open its shares");
      PairOfKeyShares p; vf_assert(p.ParseFromString(*d), "shares parse"); out_noise[i] = p.noise_sk_share(); out_self[i] = p.prf_sk_share();
    }
  }
  std::string Pair(int i) const { PairOfKeyShares p; p.set_noise_sk_share(noise_share[i]); p.set_prf_sk_share(self_share[i]); return p.SerializeAsString(); }
  ServerToClientWrapperMessage InputRequest() const {
    ServerToClientWrapperMessage m; auto* r = m.mutable_masked_input_request();
    for (int i = 0; i < n; i++) { if (i == me || Gone(i)) r->add_encrypted_key_shares(""); else r->add_encrypted_key_shares(AesGcmEncryption().Encrypt(EncKey(i), Pair(i))); }
    return m;
  }
  // The secret that any threshold of the given shares stands for.
  std::string Secret(const std::vector<std::string>& shares, int skip = 0) const {
    std::vector<ShamirShare> s(n); int have = 0, drop = skip;
    for (int i = 0; i < n; i++) { if (i == me || dead1[i]) continue; if (drop) { drop--; continue; } if (have < t) { s[i].data = shares[i]; have++; } }
    if (have < t) return "";
    auto r = ShamirSecretSharing().Reconstruct(t, s, 32); return r.ok() ? *r : "";
  }
};
