// Sessions of the server driven by any sequence of events, against a model of who takes part.
#include "../common/safake.h"
typedef SecAggServerStateKind Kind;
enum { READY, KEYS, SHARES, INPUT, UNMASK };
extern "C" void vf_main() {
  vfc::concrete = 1; vfc::concrete_streams = 1;
  int n = vf_param("n", 3), t = vf_param("t", 2), steps = vf_param("steps", 6), start = vf_param("start", 0); bool async = vf_param("async", 0);
  VfServer w(n, t, {InputVectorSpecification("v", 1, 256)}, false, async); VfFake f(w);
  // the model: what each client has sent so far, and whether it is gone
  std::vector<int> did(n, READY); std::vector<bool> gone(n, false), first(n, false); int round = 0, got = 0, term = 0; bool stop = false, done = false, prng = false;  // first: its shares were expected by others
  std::vector<size_t> mail(n, 0); int idle = 0;
  auto keys = [&](int i) { return did[i] >= KEYS; };
  auto message = [&](int i, int r) { if (r == 0) return f.Keys(i); if (r == 1) return f.Shares(i, first); if (r == 2) return f.Input(i); std::vector<int> k(n, 0); for (int j = 0; j < n; j++) k[j] = did[j] >= INPUT ? 1 : did[j] == SHARES ? 2 : 0; return f.Unmask(i, k); };
  auto ready = [&]() { int k = 0; for (int i = 0; i < n; i++) k += round < 3 ? !gone[i] && did[i] == round + 1 : did[i] == UNMASK; return k; };
  auto before = [&]() { int k = 0; for (int i = 0; i < n; i++) k += gone[i] && did[i] < INPUT; return k; };
  auto after = [&]() { int k = 0; for (int i = 0; i < n; i++) k += gone[i] && did[i] == INPUT; return k - term; };
  auto included = [&]() { int k = 0; for (int i = 0; i < n; i++) k += did[i] >= INPUT; return k; };
  auto few = [&]() { int k = 0; for (int i = 0; i < n; i++) k += !gone[i] || did[i] == UNMASK; return k < t; };
  auto mails = [&]() { for (int i = 0; i < n; i++) mail[i] = w.net.box[i].size(); };
  auto check = [&]() {
    auto& s = *w.s; bool over = stop || done;
    int b = before(), a = after(), alive = n - b - a - term;
    vf_assert(s.IsAborted() == stop && s.IsCompletedSuccessfully() == done, "the session is aborted or completed exactly when it should be");
    vf_assert(s.NumberOfClientsFailedBeforeSendingMaskedInput() == b, "clients that failed before their input are counted");
    vf_assert(s.NumberOfClientsFailedAfterSendingMaskedInput() == a, "clients that failed after their input are counted");
    vf_assert(s.NumberOfClientsTerminatedWithoutUnmasking() == term, "clients that were not needed are counted");
    vf_assert(s.NumberOfAliveClients() == alive, "alive and lost clients add up to the total");
    auto ids = s.AbortedClientIds(); for (int i = 0; i < n; i++) vf_assert(ids.contains(i) == gone[i], "exactly the lost clients are listed");
    if (!done) vf_assert(!s.Result().ok(), "no result before completion");
    if (over) { vf_assert(!s.ReadyForNextRound().ok() && !s.MinimumMessagesNeededForNextRound().ok() && !s.NumberOfClientsReadyForNextRound().ok(), "a finished session has no next round"); if (done) vf_assert(s.NumberOfIncludedInputs() == included() && s.IsNumberOfIncludedInputsCommitted(), "the included inputs are reported"); return; }
    if (prng) { vf_assert(s.NumberOfPendingClients() == 0, "nobody is pending at the end"); vf_assert(s.IsNumberOfIncludedInputsCommitted() && s.NumberOfIncludedInputs() == included(), "the included inputs are settled"); return; }
    vf_assert((int)s.State() == (int)Kind::R0_ADVERTISE_KEYS + round, "rounds follow each other");
    auto c = s.NumberOfClientsReadyForNextRound(); vf_assert(c.ok() && *c == ready(), "clients that are ready are counted");
    auto m = s.NumberOfMessagesReceivedInThisRound(); vf_assert(m.ok() && *m == got, "messages of the round are counted");
    vf_assert(s.NumberOfPendingClients() == alive - ready(), "pending clients are those that have not answered");
    auto need = s.MinimumMessagesNeededForNextRound(); vf_assert(need.ok() && *need == (t > ready() ? t - ready() : 0), "the number of messages still needed is reported");
    vf_assert(s.IsNumberOfIncludedInputsCommitted() == (round == 3), "the inputs are settled after the third round");
    vf_assert(s.NumberOfIncludedInputs() == (round < 2 ? 0 : included()), "included inputs are counted");
    auto r = s.ReadyForNextRound(); vf_assert(r.ok(), "a running session can be asked"); if (idle == 0) vf_assert(*r == (ready() >= t || few()), "the session goes on when enough answered or too few are left");
  };
  auto proceed = [&]() {
    mails(); bool want = ready() >= t || few();
    if (prng) { bool rd = *w.s->ReadyForNextRound(); auto r = w.s->ProceedToNextRound(); vf_assert(r.ok() == rd, "the session ends when the work is done"); if (rd) { done = w.s->IsCompletedSuccessfully(); stop = !done; if (done) { int u = 0; for (int i = 0; i < n; i++) u += did[i] == UNMASK; vf_assert(u >= t, "a result needs the minimum number of unmasking answers"); vf_assert(w.s->Result().ok(), "a completed session has a result"); vf_reach("completed"); } } return; }
    auto r = w.s->ProceedToNextRound(); vf_assert(idle ? true : r.ok() == want, "rounds cannot be advanced early"); if (!r.ok()) { vf_assert(idle || !want, "a ready session can be advanced"); for (int i = 0; i < n; i++) vf_assert(w.net.box[i].size() == mail[i], "nothing is sent"); return; }
    vf_assert(want, "rounds cannot be advanced early");
    if (few()) { stop = true; for (int i = 0; i < n; i++) vf_assert(w.net.box[i].size() == mail[i] + !gone[i] && (gone[i] || w.net.box[i].back().has_abort()), "the clients that are left are told of the abort"); vf_reach("aborted"); return; }
    for (int i = 0; i < n; i++) {
      auto& box = w.net.box[i]; bool was = gone[i];
      if (!gone[i] && did[i] != round + 1) { gone[i] = true; if (round == 3) term++; vf_assert(box.size() == mail[i] + 1 && box.back().has_abort() && box.back().abort().early_success() == (round == 3), "clients that did not answer are told that they are out"); continue; }
      if (was || round == 3) { vf_assert(box.size() == mail[i], "clients that are gone or finished get no message"); continue; }
      vf_assert(box.size() == mail[i] + 1 && (round == 0 ? box.back().has_share_keys_request() : round == 1 ? box.back().has_masked_input_request() : box.back().has_unmasking_request()), "each client gets the request of the next round");
    }
    if (round == 0) for (int i = 0; i < n; i++) first[i] = !gone[i];
    if (round == 3) prng = true;
    round++; got = 0;
  };
  auto lose = [&](int i) { if (gone[i]) return; gone[i] = true; if (round == 0) did[i] = READY; else if (round == 1) did[i] = KEYS; };
  // the first rounds without incident
  for (int r = 0; r < start; r++) { for (int i = 0; i < n; i++) { vf_assert(w.Put(i, message(i, r)).ok(), "an expected message is handled"); did[i] = r + 1; got++; } if (async) { w.Work(); } check(); proceed(); check(); }
  for (int k = 0; k < steps && !stop && !done; k++) {
    int what = k == 0 && vf_param("first", -1) >= 0 ? vf_param("first", 0) : vf_choice(vf_param("few", 0) ? 4 : 6, "event");
    if (what == 0) proceed();
    else if (what == 1) { if (w.par.q.empty() && w.seq.q.empty()) { if (vf::flag("stop")) { mails(); vf_assert(w.s->Abort().ok(), "a session can be aborted"); stop = true; for (int i = 0; i < n; i++) vf_assert(w.net.box[i].size() == mail[i] + !gone[i], "clients are told of an abort"); } else vf_end(); } else w.Work(); }
    else {
      mails();
      if (vf_param("anyid", 0)) {  // any number is given as the client
        uint32_t id = vf_u32("id"); bool known = id < (uint32_t)n; if (known) id = (uint32_t)vf_concretize(id);
        auto r = what == 4 ? w.s->AbortClient(id, ClientAbortReason::INVALID_MESSAGE) : what == 5 ? w.s->ReceiveMessage(id, std::make_unique<ClientToServerWrapperMessage>()).status() : [&] { ClientToServerWrapperMessage a; a.mutable_abort()->set_diagnostic_info("x"); return w.s->ReceiveMessage(id, std::make_unique<ClientToServerWrapperMessage>(a)).status(); }();
        vf_assert(r.ok() == known, "exactly the clients of the session are known");
        for (int j = 0; j < n; j++) if (id == (uint32_t)j) { lose(j); vf_reach("known"); }
        if (!known) { for (int j = 0; j < n; j++) vf_assert(w.net.box[j].size() == mail[j], "nobody is told"); vf_reach("unknown"); }
        check(); continue;
      }
      static int top = 0; int lim = vf_param("sym", 0) && top + 1 < n ? top + 1 : n; int i = vf_choice(lim, "client"); if (i == top) top++;
      if (what == 2) {  // the message of the round
        if (prng) vf_end();
        bool ok = !gone[i] && did[i] == round; vf_assert(w.Put(i, message(i, round)).ok(), "a message is handled");
        if (ok) { did[i] = round + 1; got++; } else if (!gone[i]) { lose(i); if (round == 3) {} }
      } else if (what == 3) { ClientToServerWrapperMessage a; a.mutable_abort()->set_diagnostic_info("x"); vf_assert(w.Put(i, a).ok(), "a client can leave"); lose(i); }
      else if (what == 4) { vf_assert(w.s->AbortClient(i, vf::flag("dropped") ? ClientAbortReason::CONNECTION_DROPPED : ClientAbortReason::INVALID_MESSAGE).ok(), "a client can be dropped"); lose(i); }
      else { vf_assert(w.Put(i, message(i, round == 0 ? 2 : round - 1)).ok(), "a misplaced message is handled"); lose(i); }
      for (int j = 0; j < n; j++) if (j != i) vf_assert(w.net.box[j].size() == mail[j], "other clients are not told");
    }
    idle = !w.par.q.empty() || !w.seq.q.empty();
    check();
  }
  vf_assert(!w.Put(n, f.Keys(0)).ok() && !w.s->AbortClient(n, ClientAbortReason::INVALID_MESSAGE).ok(), "unknown clients are refused");
  if (stop || done) vf_assert(!w.Put(0, f.Keys(0)).ok() && !w.s->ProceedToNextRound().ok() && !w.s->AbortClient(0, ClientAbortReason::INVALID_MESSAGE).ok() && !w.s->Abort().ok(), "nothing happens after the end");
  vf_reach("end");
}
