// A session with work in the background: the owner is told once when it is done, and an aborted session leaves nothing behind.
#include "../common/safake.h"
extern "C" void vf_main() {
  vfc::concrete = 1; vfc::concrete_streams = 1;
  int n = vf_param("n", 3), t = 2, at = vf_param("round", 3); bool async = at == 2;
  auto w = std::make_unique<VfServer>(n, t, std::vector<InputVectorSpecification>{InputVectorSpecification("v", 1, 256)}, false, async); VfFake f(*w);
  std::vector<bool> all(n, true); std::vector<int> kinds(n, 1);
  for (int r = 0; r < at; r++) { for (int i = 0; i < n; i++) vf_assert(w->Put(i, r == 0 ? f.Keys(i) : r == 1 ? f.Shares(i, all) : f.Input(i)).ok(), "messages are handled"); vf_assert(w->s->ProceedToNextRound().ok(), "the session goes on"); }
  for (int i = 0; i < n; i++) vf_assert(w->Put(i, at == 3 ? f.Unmask(i, kinds) : f.Input(i)).ok(), "messages are handled");
  if (at == 3) vf_assert(w->s->ProceedToNextRound().ok(), "the session goes on");
  int told = 0, set = 0, ended = 0; bool inside = false;
  int when = vf_choice(5, "asked after tasks"), abort_at = vf_choice(6, "aborted after tasks"); if (abort_at == 5) abort_at = 99;
  for (int k = 0; k <= 8; k++) {
    if (k == when && !ended) {
      inside = true; bool ok = w->s->SetAsyncCallback([&] { vf_assert(!inside, "the owner is told from the queue of callbacks"); told++; if (ended) return; auto r = w->s->ReadyForNextRound(); vf_assert(r.ok() && *r, "the owner is told when the work is done"); }); inside = false;
      set = ok; if (at == 3) vf_assert(ok, "the last step can be observed"); 
    }
    if (k == abort_at) { vf_assert(w->s->Abort().ok(), "a session can be aborted"); ended = 1; vf_assert(w->s->IsAborted() && !w->s->Result().ok(), "an aborted session has no result"); if (vf::flag("destroyed")) { w->s.reset(); ended = 2; } vf_reach("aborted"); }
    size_t q = w->par.q.size() + !w->seq.q.empty(); if (!q) continue;
    size_t i = q > 1 ? vf_choice(q, "next task") : 0; if (i < w->par.q.size()) w->par.Run(i); else w->seq.Run(0);
  }
  w->Work(); vf_assert(told <= set, "the owner is told at most once");
  if (!ended) { vf_assert(told == set, "the owner is told exactly once"); vf_assert(w->s->ProceedToNextRound().ok(), "the session goes on when the work is done"); if (at == 3) vf_assert(w->s->IsCompletedSuccessfully() && w->s->Result().ok(), "the session completes"); vf_reach("told"); }
  else if (ended == 1) { vf_assert(w->s->IsAborted() && !w->s->Result().ok() && !w->s->ProceedToNextRound().ok(), "an aborted session stays aborted"); }
}
