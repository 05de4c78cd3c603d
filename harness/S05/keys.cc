// Removal of many masks: the server's own work on more keys than fit into one batch.
#include "../common/saclient.h"
#include "../common/saserver.h"
static AesKey key(int i) { uint8_t k[AesKey::kSize]; memset(k, 0, sizeof k); k[0] = 9; k[30] = (uint8_t)(i >> 8); k[31] = (uint8_t)i; return AesKey(k); }
extern "C" void vf_main() {
  vfc::concrete = 1; vfc::stream_lo = 0; vfc::stream_hi = 1;
  int add = (int)vf_param("add", 0), sub = (int)vf_param("sub", 0), n = 3; uint64_t mod = 256;
  std::vector<InputVectorSpecification> specs = {InputVectorSpecification("a", 1, mod)};
  VfServer w(n, 2, specs);
  auto* impl = w.s->state_->impl();
  SessionId id{std::string(32, 's')}; impl->set_session_id(std::make_unique<SessionId>(id));
  impl->SetupMaskedInputCollection();
  auto in = std::make_unique<MaskedInputCollectionResponse>(); uint8_t first = vf_u8("masked input");
  (*in->mutable_vectors())["a"].set_encoded_vector(std::string(1, (char)first));
  vf_assert(impl->HandleMaskedInputCollectionResponse(std::move(in)).ok(), "a masked input that fits is accepted");
  SecAggServerProtocolImpl::PrngWorkItems items; AesCtrPrngFactory f; uint64_t want = first;
  for (int i = 0; i < add + sub; i++) {
    (i < add ? items.prng_keys_to_add : items.prng_keys_to_subtract).push_back(key(i));
    auto m = UnpackedMapOfMasks({key(i)}, {}, specs, id, f); uint64_t v = *m->at("a").begin();
    want = i < add ? want + v : want - v;
  }
  bool done = false; Status st = absl::UnknownError("");
  auto token = impl->StartPrng(items, [&](Status s) { vf_assert(!done, "completion is signalled once"); done = true; st = s; });
  w.Work();
  vf_assert(done && st.ok(), "the work finishes");
  auto r = impl->TakeResult(); vf_assert(r && r->size() == 1, "every vector is in the result");
  vf_assert(r->at("a").GetAsUint64Vector()[0] == (want & 255), "every mask is removed exactly once");
  vf_reach("removed");
}
