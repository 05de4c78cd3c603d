// Keys and tokens: what is encoded decodes to the same, anything else is refused without harm.
#include <optional>
#include <string>
#include <vector>
#include "fcp/confidentialcompute/cose.h"
#include "libcppbor/include/cppbor/cppbor.h"
#include "vf.h"
using namespace fcp::confidential_compute;
using namespace cppbor;
typedef std::unique_ptr<Item> I;
static int64_t num(const char* n) {
  int64_t v = (int64_t)vf_u64(n);
  if (vf_param("wide", 1) == 0) vf_assume(v >= -200 && v <= 200);
  return v;
}
static std::optional<int64_t> maybe(const char* n) { if (vf::flag("given")) return num(n); return std::nullopt; }
static OkpKey key() { OkpKey k; k.key_id = vf::str(0, vf_param("len", 2), "key id"); k.algorithm = maybe("algorithm"); k.curve = maybe("curve"); k.x = vf::str(0, vf_param("len", 2), "x"); return k; }
static bool same(const OkpKey& a, const OkpKey& b) { return a.key_id == b.key_id && a.algorithm == b.algorithm && a.curve == b.curve && a.x == b.x; }
static std::optional<absl::Time> when(const char* n) { if (!vf::flag("given")) return std::nullopt; int64_t s = (int64_t)vf_u64(n); int w = vf_param("wide", 1); if (w == 0) vf_assume(s >= 0 && s <= 200); else vf_assume(s > -(1ll << 50) && s < (1ll << 50)); return absl::FromUnixSeconds(s); }
static OkpCwt token(int fields) {
  OkpCwt c; if (fields & 1) c.algorithm = maybe("signature algorithm"); if (fields & 2) c.issued_at = when("issued at"); if (fields & 4) c.expiration_time = when("expires");
  if (fields & 8) { if (vf::flag("given")) { OkpKey k; k.x = vf::str(0, 1, "x"); k.curve = maybe("curve"); k.key_id = vf::str(0, 1, "key id"); c.public_key = k; } }
  if (fields & 16) { int k = vf_choice(3, "properties"); if (k) (*c.config_properties.mutable_fields())[k == 1 ? "a" : "b"].set_bool_value(vf::flag("value")); }
  if (fields & 32) c.signature = vf::str(0, 2, "signature");
  return c;
}
static bool same_props(const OkpCwt& a, const OkpCwt& b) {
  auto &x = a.config_properties.fields(), &y = b.config_properties.fields(); if (x.size() != y.size()) return false;
  for (auto& [k, v] : x) { auto i = y.find(k); if (i == y.end() || i->second.bool_value() != v.bool_value()) return false; } return true;
}
static bool same_claims(const OkpCwt& a, const OkpCwt& b) {
  return a.algorithm == b.algorithm && a.issued_at == b.issued_at && a.expiration_time == b.expiration_time && a.public_key.has_value() == b.public_key.has_value() && (!a.public_key || same(*a.public_key, *b.public_key)) && same_props(a, b);
}
// An item of any type; containers have up to `width` items of any simple type.
static I leaf(const char* n) {
  switch (vf_choice(5, n)) {
    case 0: return details::makeItem((int64_t)(int8_t)vf_u8("value"));
    case 1: return std::make_unique<Bstr>(vf::str(0, 1, "bytes"));
    case 2: return std::make_unique<Tstr>(std::string(vf_choice(2, "length"), 't'));
    case 3: return std::make_unique<Simple>(20 + vf_choice(3, "simple"));
    default: return vf::flag("map") ? I(std::make_unique<Map>()) : I(std::make_unique<Array>());
  }
}
static I list(int lo, int hi) { auto a = std::make_unique<Array>(); int n = lo + vf_choice(hi - lo + 1, "elements"); for (int i = 0; i < n; i++) a->add(leaf("element")); return a; }
// A byte string that is not the encoding of a map.
static void other(const I& i) { if (auto* b = i->asBstr()) if (!b->value().empty()) vf_assume(b->value()[0] != 0xa0); }
static std::string bytes(const Map& m) { return m.toString(); }
static std::string str(const Item* i) { return i->toString(); }
static std::string damaged(std::string s) {
  switch (vf_choice(3, "damage")) {
    case 0: s += vf::str(1, 1, "extra"); return s;
    default: { size_t n = vf_choice(s.size(), "cut"); return s.substr(0, n); }
  }
}
static void okp(const std::string& e, bool valid, const OkpKey& want) { auto k = OkpKey::Decode(e); vf_assert(k.ok() == valid, "a key is accepted exactly when it is well-formed"); if (k.ok()) vf_assert(same(*k, want), "fields of the key"); vf_reach(valid ? "accepted" : "refused"); }
extern "C" void vf_main() {
  int mode = vf_param("mode", 0);
  if (mode == 0) { OkpKey k = key(); auto e = k.Encode(); vf_assert(e.ok(), "keys can be encoded"); okp(*e, true, k); if (vf_param("damage", 0)) okp(damaged(*e), false, k); }
  if (mode == 1) {
    SymmetricKey k; k.algorithm = maybe("algorithm"); k.k = vf::str(0, 3, "k"); auto e = k.Encode(); vf_assert(e.ok(), "keys can be encoded"); auto d = SymmetricKey::Decode(*e);
    vf_assert(d.ok() && d->algorithm == k.algorithm && d->k == k.k, "symmetric keys survive"); vf_reach("accepted");
    if (vf_param("damage", 0)) vf_assert(!SymmetricKey::Decode(damaged(*e)).ok(), "damaged keys are refused");
    vf_assert(!OkpKey::Decode(*e).ok(), "a symmetric key is no public key");
    OkpKey o; o.x = "x"; auto f = o.Encode(); vf_assert(!SymmetricKey::Decode(*f).ok(), "a public key is no symmetric key");
  }
  if (mode == 2) {
    OkpCwt c = token(vf_param("fields", 63)); auto e = c.Encode(); vf_assert(e.ok(), "tokens can be encoded"); auto d = OkpCwt::Decode(*e);
    vf_assert(d.ok(), "tokens can be decoded"); vf_assert(same_claims(*d, c) && d->signature == c.signature, "tokens survive"); vf_reach("accepted");
    std::string aad = vf::str(0, 1, "aad"); auto s = c.BuildSigStructureForSigning(aad), v = OkpCwt::GetSigStructureForVerifying(*e, aad);
    vf_assert(s.ok() && v.ok() && *s == *v, "what is verified is what was signed");
    if (vf_param("damage", 0)) { std::string b = damaged(*e); vf_assert(!OkpCwt::Decode(b).ok(), "damaged tokens are refused"); vf_assert(!OkpCwt::GetSigStructureForVerifying(b, aad).ok(), "damaged tokens have no signed part"); }
  }
  if (mode == 3) {
    // two tokens with the same signed part are the same token
    OkpCwt a = token(vf_param("fields", 31)), b = token(vf_param("fields", 31)); std::string x = vf::str(0, 1, "aad"), y = vf::str(0, 1, "aad");
    auto s = a.BuildSigStructureForSigning(x), t = b.BuildSigStructureForSigning(y); vf_assert(s.ok() && t.ok(), "signed parts exist"); bool eq = s->size() == t->size() && *s == *t;
    vf_assert(eq == (x == y && same_claims(a, b)), "the signed part covers every field and the associated data"); vf_reach(eq ? "equal" : "different");
  }
  if (mode == 4) {
    // keys with arbitrary entries
    bool sym = vf_param("sym", 0); int top = vf_choice(3, "top level");
    if (top == 2) { I i = leaf("top"); std::string s = str(i.get()); vf_assert(!OkpKey::Decode(s).ok() && !SymmetricKey::Decode(s).ok() && !OkpCwt::Decode(s).ok(), "anything but a map is no key"); vf_reach("refused"); return; }
    Map m; int n = vf_choice(vf_param("entries", 2) + 1, "entries"); bool valid = true; std::optional<int64_t> kty, alg, crv; std::string id, x;
    for (int i = 0; i < n; i++) {
      static const int labels[] = {1, 2, 3, -1, -2, 5}; int w = vf_choice(8, "label"); I v = leaf("value"); Int* in = v->asInt(); Bstr* bs = v->asBstr(); std::string bv = bs ? std::string(bs->value().begin(), bs->value().end()) : "";
      int l = w < 6 ? labels[w] : 0;
      if (w < 6) {
        if (l == 1) { if (!in) valid = false; else kty = in->value(); }
        if (l == 3) { if (!in) valid = false; else alg = in->value(); }
        if (!sym && l == 2) { if (!bs) valid = false; else id = bv; }
        if (!sym && l == -1) { if (!in) valid = false; else crv = in->value(); }
        if (!sym && l == -2) { if (!bs) valid = false; else x = bv; }
        if (sym && l == -1) { if (!bs) valid = false; else x = bv; }
      }
      I lab = w < 6 ? details::makeItem((int64_t)l) : w == 6 ? I(std::make_unique<Tstr>("k")) : I(std::make_unique<Bstr>(std::string("\1")));
      m.add(std::move(lab), std::move(v));
    }
    valid = valid && kty && *kty == (sym ? 4 : 1); std::string s = bytes(m);
    if (!sym) { OkpKey k; k.key_id = id; k.algorithm = alg; k.curve = crv; k.x = x; okp(s, valid, k); }
    else { auto k = SymmetricKey::Decode(s); vf_assert(k.ok() == valid, "a key is accepted exactly when it is well-formed"); if (k.ok()) vf_assert(k->algorithm == alg && k->k == x, "fields of the key"); vf_reach(valid ? "accepted" : "refused"); }
  }
  if (mode == 5) {
    // tokens of any shape: one element is arbitrary, the others are as they should be
    Map head, empty; head.add(1, 7); std::string hb = bytes(head); OkpKey k; k.x = "k"; Map claims; claims.add(-65537, Bstr(*k.Encode())); std::string cb = bytes(claims), sig = "sg";
    int odd = vf_param("odd", -1), n = odd == 9 ? (int)vf_choice(6, "elements") : 4; bool valid = n == 4, verif = n == 4; bool many = vf_param("many", 0);
    I el[6];
    for (int i = 0; i < 6; i++) {
      if (i == odd) {
        el[i] = leaf("element");
        if (i == 0 || i == 2) { verif = verif && el[i]->asBstr(); valid = valid && many && i == 0 && el[i]->asBstr(); other(el[i]); }
        if (i == 1) valid = valid && el[i]->asMap();
        if (i == 3) { valid = valid && el[i]->asBstr(); verif = verif && !el[i]->asArray(); }
      } else if (i == 0) el[i] = std::make_unique<Bstr>(many ? bytes(empty) : hb); else if (i == 1) el[i] = std::make_unique<Map>(); else if (i == 2) el[i] = std::make_unique<Bstr>(cb);
      else if (i == 3 && !many) el[i] = std::make_unique<Bstr>(sig);
      else if (i == 3) {
        auto sigs = std::make_unique<Array>(); int c = odd == 10 ? (int)vf_choice(3, "signatures") : 1; if (!c) valid = verif = false;
        for (int j = 0; j < c; j++) {
          I s;
          if (odd == 10 && j == 0 && vf::flag("not an array")) { s = leaf("signature"); valid = verif = false; }
          else {
            auto t = std::make_unique<Array>(); int parts = odd == 11 ? (int)vf_choice(5, "parts") : 3, bad = odd == 12 ? (int)vf_choice(3, "odd part") : -1; if (parts != 3) valid = verif = false;
            for (int p = 0; p < parts; p++) {
              if (p == bad) { I q = leaf("part"); if (p == 0) { valid = false; other(q); if (!q->asBstr()) verif = false; } if (p == 2) { valid = valid && q->asBstr(); if (q->asBstr()) sig.assign(q->asBstr()->value().begin(), q->asBstr()->value().end()); } t->add(std::move(q)); }
              else if (p == 0) t->add(Bstr(hb)); else if (p == 1) t->add(Map()); else t->add(Bstr(j == 0 ? sig : std::string("zz")));
            }
            s = std::move(t);
          }
          sigs->add(std::move(s));
        }
        el[i] = std::move(sigs);
      } else el[i] = leaf("further element");
      if (i == 3 && i == odd && el[i]->asBstr()) sig.assign(el[i]->asBstr()->value().begin(), el[i]->asBstr()->value().end());
    }
    std::string want;
    if (verif) { Array w; w.add(many ? "Signature" : "Signature1"); w.add(Bstr(el[0]->asBstr()->value())); if (many) w.add(Bstr((*(*el[3]->asArray())[0]->asArray())[0]->asBstr()->value())); w.add(Bstr(std::string("ad"))); w.add(Bstr(el[2]->asBstr()->value())); want = w.toString(); }
    Array top; for (int i = 0; i < n; i++) top.add(std::move(el[i])); std::string e = top.toString();
    auto d = OkpCwt::Decode(e); vf_assert(d.ok() == valid, "a token is accepted exactly when it is well-formed");
    if (d.ok()) vf_assert(d->algorithm == 7 && d->signature == sig && d->public_key && same(*d->public_key, k), "fields of the token");
    auto v = OkpCwt::GetSigStructureForVerifying(e, "ad"); vf_assert(v.ok() == verif, "the signed part exists exactly for well-formed tokens"); if (v.ok()) vf_assert(*v == want, "the signed part is the one of the standard");
    vf_reach(valid ? "accepted" : "refused");
  }
  if (mode == 6) {
    // headers and claims with arbitrary entries
    bool in_head = vf_param("head", 0); Map m; bool valid = true; OkpCwt want; int n = vf_choice(vf_param("entries", 1) + 1, "entries"); OkpKey k; k.x = "k";
    for (int i = 0; i < n; i++) {
      static const int heads[] = {1, 2, 4}, claims[] = {4, 6, -65537, -65538, -4670552, 1}; int w = vf_choice(in_head ? 4 : 7, "label"); bool text = w == (in_head ? 3 : 6); int l = text ? 0 : in_head ? heads[w] : claims[w];
      I v = !in_head && (l == -65537 || l == -4670552) && vf::flag("a key") ? I(std::make_unique<Bstr>(*k.Encode())) : leaf("value"); Int* in = v->asInt(); bool iskey = v->asBstr() && v->asBstr()->value().size() > 1;
      if (in_head && l == 1) { if (in) want.algorithm = in->value(); else valid = false; }
      if (!in_head && l == 4) { if (in) want.expiration_time = absl::FromUnixSeconds(in->value()); else valid = false; }
      if (!in_head && l == 6) { if (in) want.issued_at = absl::FromUnixSeconds(in->value()); else valid = false; }
      if (!in_head && (l == -65537 || l == -4670552)) { if (iskey) want.public_key = k; else valid = false; }
      if (!in_head && l == -65538) { if (!v->asBstr() || v->asBstr()->value().size() > 0) valid = false; }  // one byte is no message
      I lab = text ? I(std::make_unique<Tstr>("k")) : details::makeItem((int64_t)l); m.add(std::move(lab), std::move(v));
    }
    std::string b = bytes(m); int d = vf_choice(3, "damage"); if (d == 1) { b += "\x01"; valid = false; } if (d == 2) { b = str(leaf("instead").get()); if (b != "\xa0") valid = false; else want = OkpCwt(), valid = true; }
    Array top; Map none; if (in_head) { top.add(Bstr(b)); top.add(Map()); top.add(Bstr(bytes(none))); } else { top.add(Bstr(bytes(none))); top.add(Map()); top.add(Bstr(b)); } top.add(Bstr(std::string("s")));
    auto r = OkpCwt::Decode(top.toString()); vf_assert(r.ok() == valid, "a token is accepted exactly when its claims are well-formed"); if (r.ok()) { vf_assert(same_claims(*r, want), "claims of the token"); vf_assert(r->signature == "s", "signature of the token"); }
    vf_reach(valid ? "accepted" : "refused");
  }
  if (mode == 7) {
    // any bytes
    std::string s = vf::str(0, vf_param("len", 4), "byte"); auto a = OkpKey::Decode(s); auto b = SymmetricKey::Decode(s); auto c = OkpCwt::Decode(s); auto d = OkpCwt::GetSigStructureForVerifying(s, "");
    vf_assert(!(a.ok() && b.ok()), "a key has one type"); vf_reach(a.ok() || b.ok() || c.ok() || d.ok() ? "accepted" : "refused");
  }
}
