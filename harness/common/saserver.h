// A real aggregation server whose work queues and channel to the clients are played by the harness.
#pragma once
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "fcp/base/simulated_clock.h"
#include "fcp/secagg/server/experiments_interface.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/send_to_clients_interface.h"
#include "openssl/vfssl.h"
#include "vf.h"
using namespace fcp; using namespace fcp::secagg;
struct VfNet : SendToClientsInterface {
  std::vector<std::vector<ServerToClientWrapperMessage>> box; explicit VfNet(int n) : box(n) {}
  void Send(uint32_t to, const ServerToClientWrapperMessage& m) override { vf_assert(to < box.size(), "messages go to clients of the session"); box[to].push_back(m); }
};
// Tasks wait here until the harness runs them.
struct VfQueue : Scheduler {
  std::deque<std::function<void()>> q;
  void Schedule(std::function<void()> f) override { q.push_back(std::move(f)); }
  void WaitUntilIdle() override { while (!q.empty()) Run(0); }
  void Run(size_t i) { auto f = std::move(q[i]); q.erase(q.begin() + i); f(); }
};
struct VfExp : ExperimentsInterface { bool sub, async; VfExp(bool s, bool a) : sub(s), async(a) {} bool IsEnabled(absl::string_view e) override { return e == kSecAggAsyncRound2Experiment ? async : e == kForceSubgraphSecAggExperiment ? sub : e == kFullgraphSecAggExperiment ? !sub : false; } };
struct VfServer {
  int n, t; VfNet net; VfQueue par, seq; SimulatedClock clock; std::unique_ptr<SecAggServer> s; std::vector<InputVectorSpecification> specs;
  VfServer(int n, int t, std::vector<InputVectorSpecification> sp, bool sub = false, bool async = false) : n(n), t(t), net(n), clock(absl::FromUnixSeconds(100)), specs(sp) {
    SecureAggregationRequirements r; r.set_adversary_class(AdversaryClass::CURIOUS_SERVER); r.set_adversarial_client_rate(0.0); r.set_estimated_dropout_rate(0.9); r.set_minimum_clients_in_server_visible_aggregate(1);
    auto c = SecAggServer::Create(t, n, sp, &net, nullptr, std::make_unique<SecAggScheduler>(&par, &seq, &clock), std::make_unique<VfExp>(sub, async), r);
    vf_assert(c.ok(), "a session can be created"); s = std::move(*c);
  }
  // Runs the pending work: one parallel task after another in any order (if asked), the sequential ones in turn.
  void Work(bool any_order = false) {
    while (!par.q.empty() || !seq.q.empty()) {
      size_t k = par.q.size() + !seq.q.empty(), i = any_order && k > 1 ? vf_choice(k, "next task") : 0;
      if (i < par.q.size()) par.Run(i); else seq.Run(0);
    }
  }
  bool Gone(int i) { return s->AbortedClientIds().contains(i); }
  StatusOr<bool> Put(int i, const ClientToServerWrapperMessage& m) { return s->ReceiveMessage(i, std::make_unique<ClientToServerWrapperMessage>(m)); }
};
