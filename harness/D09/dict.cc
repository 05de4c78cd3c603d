// Token dictionaries.
#include "vf.h"
#include "fcp/dictionary/dictionary.h"
using namespace fcp::dictionary;
extern "C" void vf_main() {
  int maxtok = (int)vf_param("tokens", 3), maxblock = (int)vf_param("blocked", 2); DictionaryDescription d; bool vocab = true; std::vector<std::string> tokens;
  int kind = vf_choice(4, "vocabulary"); if (kind == 0) vocab = false; else if (kind == 1) { d.mutable_vocabulary(); vocab = false; }
  else { int n = kind == 2 ? 0 : 1 + vf_choice(maxtok, "tokens"); auto* x = d.mutable_vocabulary()->mutable_index(); for (int i = 0; i < n; i++) { std::string t = vf::str(1, 2, "token"); for (auto& o : tokens) vf_assume(o != t); tokens.push_back(t); x->add_token(t); } }
  int n = (int)tokens.size(), special = -1; int32_t ids[3] = {-1, -1, -1};
  for (int i = 0; i < 3; i++) if (vf::flag("special set")) { int v = vf_choice(4, "special id"); ids[i] = v; special = std::max(special, v); if (i == 0) d.mutable_special_ids()->set_unk(v); else if (i == 1) d.mutable_special_ids()->set_bos(v); else d.mutable_special_ids()->set_eos(v); }
  bool good = true; std::vector<int32_t> block; int b = vf_choice(maxblock + 1, "blocked"); for (int i = 0; i < b; i++) { int32_t v = (int32_t)vf_u32("blocked id"); if (v <= special || (i && v <= block[i - 1])) good = false; block.push_back(v); d.mutable_output_blocklist_ids()->add_id(v); }
  auto r = Dictionary::Create(d);
  if (!vocab) { vf_assert(!r.ok(), "a vocabulary is required"); vf_reach("no vocabulary"); return; }
  if (!good) { vf_assert(!r.ok(), "bad block lists are refused"); vf_reach("bad block list"); return; }
  vf_assert(r.ok(), "a valid description is accepted"); Dictionary& x = **r; int first = special + 1;
  vf_assert(x.Size() == first + n, "the size covers special and ordinary ids");
  for (int i = 0; i < n; i++) { vf_assert(x.TokenToId(tokens[i]) == first + i, "tokens are numbered in order after the special ids"); vf_assert(x.IdToToken(first + i) == tokens[i], "ids map back to their token"); vf_assert(!x.IsSpecialId(first + i), "tokens are not special"); }
  std::string other = vf::str(1, 2, "other"); bool known = false; for (auto& t : tokens) known = known || t == other;
  if (!known) { vf_assert(x.TokenToId(other) == ids[0], "unknown tokens map to the unknown id"); vf_reach("unknown"); }
  int32_t id = (int32_t)vf_u32("id"); if (id < first || id >= first + n) { vf_assert(x.IdToToken(id).empty(), "other ids have no token"); vf_reach("no token"); }
  if (id >= 0) vf_assert(x.IsSpecialId(id) == (id < first), "special ids are recognised");
  auto& l = x.GetSortedOutputBlocklistIds(); vf_assert((int)l.size() == first + b, "block list size"); for (int i = 0; i < (int)l.size(); i++) vf_assert(l[i] == (i < first ? i : block[i - first]), "special ids and the listed ids are blocked, in order");
  vf_assert(x.GetSpecialIds().unk() == ids[0] && x.GetSpecialIds().bos() == ids[1] && x.GetSpecialIds().eos() == ids[2], "special ids are kept"); vf_reach("dictionary");
}
