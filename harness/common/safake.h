// Messages of clients as far as the server looks at them, for checks in which their contents do not matter.
#pragma once
#include "saserver.h"
struct VfFake {
  VfServer& w; explicit VfFake(VfServer& w) : w(w) {}
  static std::string Key(int i, char kind) { std::string k(33, '\2'); k[1] = (char)i; k[2] = kind; return k; }
  ClientToServerWrapperMessage Keys(int i) { ClientToServerWrapperMessage m; auto* p = m.mutable_advertise_keys()->mutable_pair_of_public_keys(); p->set_enc_pk(Key(i, 'e')); p->set_noise_pk(Key(i, 'n')); return m; }
  // Shares for the neighbours named by `to`.
  static std::string Share(int from, int to) { std::string s = "share ?>?"; s[6] = (char)('0' + from); s[8] = (char)('0' + to); return s; }
  ClientToServerWrapperMessage Shares(int i, const std::vector<bool>& to) { ClientToServerWrapperMessage m; auto* r = m.mutable_share_keys_response(); for (int j = 0; j < w.n; j++) r->add_encrypted_key_shares(j != i && to[j] ? Share(i, j) : ""); return m; }
  ClientToServerWrapperMessage Input(int i) { ClientToServerWrapperMessage m; for (auto& s : w.specs) { std::string e((s.length() * SecAggVector::GetBitWidth(s.modulus()) + 7) / 8, (char)i); (*m.mutable_masked_input_response()->mutable_vectors())[s.name()].set_encoded_vector(e); } return m; }
  // kinds: 0 nothing, 1 self-mask share, 2 pairwise share
  ClientToServerWrapperMessage Unmask(int i, const std::vector<int>& kinds) {
    ClientToServerWrapperMessage m; auto* r = m.mutable_unmasking_response();
    for (int j = 0; j < w.n; j++) { auto* s = r->add_noise_or_prf_key_shares(); std::string d(36, '\0'); d[3] = (char)(1 + i + j); if (kinds[j] == 1) s->set_prf_sk_share(d); else if (kinds[j] == 2) s->set_noise_sk_share(d); }
    return m;
  }
};
