// Upload payload headers.
#include "fcp/confidentialcompute/client_payload.h"
#include "vf.h"
using namespace fcp::confidential_compute;
static std::string field(const char* n, int big) { if (big) { std::string s(big, '\0'); vf_bytes(&s[0], big, n); return s; } return vf::str(0, 2, n); }
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), len = (int)vf_param("len", 5), big = (int)vf_param("big", 0);
  if (mode == 0) {
    int which = big ? (int)vf_choice(3, "long field") : -1;
    ClientPayloadHeader h; h.encrypted_symmetric_key = field("key", which == 0 ? big : 0); h.encapsulated_public_key = field("public key", which == 1 ? big : 0); h.serialized_blob_header = field("blob header", which == 2 ? big : 0); h.is_gzip_compressed = vf::flag("compressed");
    std::string ct = vf::str(0, 3, "ciphertext"); std::string enc = EncodeClientPayload(h, ct);
    vf_assert(enc.compare(0, 4, "CAv1") == 0, "payloads carry their mark");
    absl::string_view v = enc; auto d = DecodeAndConsumeClientPayloadHeader(v); vf_assert(d.ok(), "an encoded payload can be decoded");
    vf_assert(d->encrypted_symmetric_key == h.encrypted_symmetric_key && d->encapsulated_public_key == h.encapsulated_public_key && d->serialized_blob_header == h.serialized_blob_header && d->is_gzip_compressed == h.is_gzip_compressed, "the header fields are kept");
    vf_assert(v == ct, "exactly the ciphertext is left"); vf_assert(v.data() + v.size() == enc.data() + enc.size(), "the ciphertext is a view of the payload"); vf_reach("round trip");
  } else if (mode == 1) {
    std::string s = vf::flag("marked") ? "CAv1" + vf::str(0, len, "data") : vf::str(0, 4, "data");
    absl::string_view v = s; auto d = DecodeAndConsumeClientPayloadHeader(v);
    if (!d.ok()) { vf_reach("refused"); return; }
    vf_assert(s.compare(0, 4, "CAv1") == 0, "unmarked data is refused"); vf_assert(v.size() + 5 <= s.size() && v.data() + v.size() == s.data() + s.size(), "what is left is a suffix of the data"); 
    vf_assert(d->encrypted_symmetric_key.size() + d->encapsulated_public_key.size() + d->serialized_blob_header.size() <= s.size() - v.size(), "the header comes from the consumed bytes"); vf_reach("accepted");
  } else {
    ClientPayloadHeader h; h.encrypted_symmetric_key = vf::str(1, 1, "key"); h.encapsulated_public_key = vf::str(1, 1, "public key"); h.serialized_blob_header = "b"; h.is_gzip_compressed = true;
    std::string enc = EncodeClientPayload(h, "ct"); size_t cut = vf_choice((uint32_t)enc.size(), "cut"); std::string s = enc.substr(0, cut);
    absl::string_view v = s; auto d = DecodeAndConsumeClientPayloadHeader(v);
    if (d.ok()) { vf_assert(v.size() <= 2 && v.data() + v.size() == s.data() + s.size(), "what is left is a suffix of the data"); vf_reach("accepted"); } else vf_reach("refused");
  }
}
