// Neighbour graphs: symmetry, range, inverse look-ups, direction.
#include <memory>
#include <vector>
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
#include "fcp/secagg/server/secret_sharing_complete_graph.h"
#include "fcp/secagg/server/secret_sharing_harary_graph.h"
#include "vf.h"
using namespace fcp::secagg;
// The random generator: twelve evenly spread values, enough for every renaming of four nodes.
fcp::secagg::SslBitGen::result_type fcp::secagg::SslBitGen::operator()() { return (2 * (uint64_t)vf_choice(12, "random") + 1) * (~0ull / 24); }
static void check(const SecretSharingGraph& g, int n, int degree, int threshold, bool lists) {
  vf_assert(g.GetNumNodes() == n, "declared number of nodes");
  vf_assert(g.GetDegree() == degree, "declared degree");
  vf_assert(g.GetThreshold() == threshold, "declared threshold");
  int a, b, j;
  (void)lists;
  a = vf_u8("a"); b = vf_u8("b"); j = vf_u8("index"); vf_assume(a < n); vf_assume(b < n); vf_assume(j < degree);
  auto ab = g.GetNeighborIndex(a, b), ba = g.GetNeighborIndex(b, a), aa = g.GetNeighborIndex(a, a);
  vf_assert(ab.has_value() == ba.has_value(), "neighbourhood is symmetric");
  vf_assert(g.AreNeighbors(a, b) == ab.has_value(), "neighbours are those with an index");
  vf_assert(g.AreNeighbors(a, b) == g.AreNeighbors(b, a), "neighbourhood is symmetric");
  vf_assert(aa.has_value(), "every node is in its own list");
  bool out = g.IsOutgoingNeighbor(a, b), in = g.IsOutgoingNeighbor(b, a);
  if (ab.has_value()) {
    int i = *ab;
    vf_assert(i >= 0, "index in range"); vf_assert(i < degree, "index in range");
    vf_assert(g.GetNeighbor(a, i) == b, "looking up a neighbour inverts looking up its position");
    if (a != b) {
      vf_assert(out != in, "exactly one direction is outgoing");
      vf_assert(out == (i > *aa), "outgoing neighbours follow the node itself in its list");
    }
    vf_reach("neighbours");
  } else { vf_assert(!out, "only neighbours are outgoing"); vf_assert(!in, "only neighbours are outgoing"); }
  int nb = g.GetNeighbor(a, j);
  vf_assert(nb >= 0, "neighbour in range"); vf_assert(nb < n, "neighbour in range");
  auto back = g.GetNeighborIndex(a, nb);
  vf_assert(back.has_value(), "listed neighbours are neighbours");
  vf_assert(*back == j, "looking up a position inverts looking up the neighbour");
  vf_reach("listed");
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), n = (int)vf_param("n", 5);
  if (mode == 0) { int t = 1 + vf_choice(n, "threshold"); auto g = SecretSharingGraphFactory::CreateCompleteGraph(n, t); check(*g, n, n, t, false); return; }
  int degree = 1 + 2 * vf_choice((n + 1) / 2, "degree");
  if (mode == 1) {  // any renaming of the nodes
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) { p[i] = vf_u8("permutation"); vf_assume(p[i] < n); for (int k = 0; k < i; k++) vf_assume(p[k] != p[i]); }
    if (vf_param("split", 1)) for (int i = 0; i < n; i++) p[i] = (int)vf_concretize(p[i]);
    SecretSharingHararyGraph g(degree, degree, p);
    check(g, n, degree, degree, false);
  } else if (mode == 2) {  // the identity renaming, larger graphs
    int t = 1 + vf_choice(degree, "threshold");
    auto g = SecretSharingGraphFactory::CreateHararyGraph(n, degree, t, false);
    check(*g, n, degree, t, false);
  } else {  // the shuffle of the factory
    auto g = SecretSharingGraphFactory::CreateHararyGraph(n, degree, 1);
    check(*g, n, degree, 1, false);
  }
}
