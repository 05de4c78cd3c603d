// Whole sessions of the real server with real clients, some of which leave at any step.
#include "../common/saclient.h"
#include "../common/saserver.h"
struct Cl { VfSent sent; std::unique_ptr<SecAggClient> c; size_t read = 0, put = 0; int leave = 0; bool gone = false; };
extern "C" void vf_main() {
  vfc::concrete = 1; vfc::stream_lo = 0; vfc::stream_hi = vf_param("hi", 4);
  int n = vf_param("n", 3), t = vf_param("t", 2), len = vf_param("len", 1), vectors = vf_param("vectors", 1); bool sub = vf_param("sub", 0), async = vf_param("async", 0), eager = vf_param("eager", 0), order = vf_param("order", 0);
  uint64_t mod = vf_param("pow2", 1) ? 1ULL << vf_param("modulus", 8) : vf_param("modulus", 10);
  std::vector<InputVectorSpecification> specs; const char* names[] = {"a", "b"};
  for (int v = 0; v < vectors; v++) specs.emplace_back(names[v], len + v, mod);
  VfServer w(n, t, specs, sub, async);
  std::vector<Cl> cl(n); std::vector<std::vector<uint64_t>> in(n); std::vector<bool> inc(n, false);
  int deg = w.s->NumberOfNeighbors(), thr = w.s->MinimumSurvivingNeighborsForReconstruction();
  for (int i = 0; i < n; i++) {
    cl[i].leave = i == 0 && vf_param("first", -1) >= 0 ? vf_param("first", 0) : i < vf_param("leavers", n) ? vf_choice(vf_param("kinds", 11), "leaves") : 0;
    cl[i].c = std::make_unique<SecAggClient>(deg, thr, specs, std::make_unique<VfPrng>(), std::make_unique<VfSender>(&cl[i].sent), std::make_unique<VfListener>(), std::make_unique<AesCtrPrngFactory>());
    auto m = std::make_unique<SecAggVectorMap>();
    for (int v = 0; v < vectors; v++) {
      std::vector<uint64_t> x; for (int k = 0; k < len + v; k++) { uint64_t e = vf_u64("input"); vf_assume(e < mod); x.push_back(e); in[i].push_back(e); }
      m->emplace(names[v], SecAggVector(x, mod));
    }
    vf_assert(cl[i].c->SetInput(std::move(m)).ok(), "an input that fits is accepted");
  }
  // leave: 0 stays; r (1..4) falls silent before its r-th message; 4 + r leaves right after its r-th message; 9..12 leaves instead of its message 3, 4, 2 or 1
  auto leave = [&](int i) { cl[i].gone = true; if (!w.s->IsAborted() && !w.s->IsCompletedSuccessfully()) { if (i & 1) vf_assert(w.s->AbortClient(i, ClientAbortReason::CONNECTION_DROPPED).ok(), "a client can be dropped"); else { ClientToServerWrapperMessage a; a.mutable_abort()->set_diagnostic_info("x"); vf_assert(w.Put(i, a).ok(), "a client can leave"); } } };
  static const int instead[] = {3, 4, 2, 1};
  auto put = [&](int i, const ClientToServerWrapperMessage& m) {
    bool r2 = w.s->State() == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION && m.has_masked_input_response(), was = w.Gone(i);
    auto r = w.Put(i, m);
    if (r2 && !was) { vf_assert(r.ok(), "a masked input in its round is handled"); if (!w.Gone(i)) inc[i] = true; }
    if (async && r2 && vf::flag("work now")) w.Work(order);
  };
  int stay = 0; for (auto& c : cl) stay += c.leave == 0 || c.leave == 8;
  bool must = !sub && !eager && stay >= t;
  for (int round = 0; round < 4; round++) {
    for (int i = 0; i < n; i++) {
      Cl& c = cl[i]; if (c.gone) continue;
      if (c.leave == round + 1) { c.gone = true; continue; }
      if (c.leave >= 9 && instead[c.leave - 9] == round + 1) { leave(i); continue; }
      if (round == 0) vf_assert(c.c->Start().ok(), "a client starts");
      else { if (c.read < w.net.box[i].size()) { auto& m = w.net.box[i][c.read++]; auto r = c.c->ReceiveMessage(m); vf_assert(m.has_abort() || r.ok(), "the server's messages are accepted"); } }
      vf_assert(c.sent.all.size() <= c.put + 1, "one message per round");
      if (c.put < c.sent.all.size()) put(i, c.sent.all[c.put++]);
      if (c.leave == 5 + round) leave(i);
      if (eager) { auto y = w.s->ReadyForNextRound(); if (y.ok() && *y && w.s->State() != SecAggServerStateKind::PRNG_RUNNING && (int)w.s->State() == (int)SecAggServerStateKind::R0_ADVERTISE_KEYS + round && vf::flag("proceed now")) { vf_assert(w.s->ProceedToNextRound().ok(), "a ready server proceeds"); } }
    }
    if (async && round == 2) w.Work(order);
    if (w.s->IsAborted()) break;
    if (eager && (int)w.s->State() != (int)SecAggServerStateKind::R0_ADVERTISE_KEYS + round) continue;
    auto y = w.s->ReadyForNextRound(); vf_assert(y.ok(), "a running session can be asked");
    if (!*y) { vf_assert(!must, "a session completes when enough clients follow it to the end"); vf_assert(!w.s->ProceedToNextRound().ok(), "a server that is not ready does not proceed"); vf_assert(!w.s->Result().ok(), "no result before the end"); vf_reach("waiting"); vf_end(); }
    vf_assert(w.s->ProceedToNextRound().ok(), "a ready server proceeds");
    if (w.s->IsAborted()) break;
  }
  if (w.s->IsAborted()) { vf_assert(!must, "a session completes when enough clients follow it to the end"); vf_assert(!w.s->Result().ok(), "an aborted session has no result"); vf_reach("aborted"); vf_end(); }
  vf_assert(w.s->State() == SecAggServerStateKind::PRNG_RUNNING, "masks are removed after the last round");
  int count = 0; for (int i = 0; i < n; i++) count += inc[i];
  w.Work(vf_param("late_order", 0));
  vf_assert(w.s->ReadyForNextRound().ok() && *w.s->ReadyForNextRound(), "the work finishes"); vf_assert(w.s->ProceedToNextRound().ok(), "the session ends");
  if (w.s->IsAborted()) { vf_assert(sub, "enough shares are at hand"); vf_assert(!w.s->Result().ok(), "an aborted session has no result"); vf_reach("too few neighbours"); vf_end(); }
  vf_assert(w.s->IsCompletedSuccessfully(), "the session completes"); vf_assert(count >= t, "the minimum number of inputs is included");
  vf_assert(w.s->NumberOfIncludedInputs() == count, "the number of included inputs is reported");
  auto r = w.s->Result(); vf_assert(r.ok() && *r && (*r)->size() == (size_t)vectors, "every vector is in the result");
  int at = 0;
  for (int v = 0; v < vectors; v++) {
    auto f = (*r)->find(names[v]); vf_assert(f != (*r)->end(), "every vector is in the result"); std::vector<uint64_t> got = f->second.GetAsUint64Vector(); vf_assert(got.size() == (size_t)(len + v), "vectors keep their length");
    for (int k = 0; k < len + v; k++, at++) { uint64_t want = 0; for (int i = 0; i < n; i++) if (inc[i]) want = (want + in[i][at]) % mod; vf_assert(got[k] == want, "the result is the sum of the included inputs"); }
  }
  vf_reach(count == n ? "all" : "some");
}
