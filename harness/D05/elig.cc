// Deciding for which tasks the device is eligible.
#include <map>
#include <set>
#include "../common/flags.h"
#include "../common/logm.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/eligibility_decider.h"
#include "fcp/client/example_query_result.pb.h"
#include "phaselog.h"
#include "tensorflow/core/example/example.pb.h"
#include "vf.h"
using namespace fcp; using namespace fcp::client;
using google::internal::federated::plan::EligibilityPolicyEvalSpec; using google::internal::federated::plan::ExampleSelector;
using opstats::OperationalStats; using opstats::OpStatsSequence;
namespace {
struct F : VfFlags { bool result = false, trust = false, id = false; bool use_example_query_result_for_data_avail() const override { return result; } bool check_trustworthiness_for_min_sep_policy() const override { return trust; } bool enable_lightweight_computation_id() const override { return id; } } flags;
const char* NAMES[] = {"ab", "cd"};
enum { kData, kSwor, kSep, kCustom, kNone, kTypes };
struct It : ExampleIterator { int n, end; std::string all; It(int n, int end) : n(n), end(end) {} absl::StatusOr<std::string> Next() override { if (n-- > 0) return std::string("x"); if (end == 0) return absl::OutOfRangeError("end"); if (end == 1) return absl::CancelledError("stop"); return absl::InvalidArgumentError("io"); } void Close() override {} };
struct One : ExampleIterator { absl::StatusOr<std::string> s; explicit One(absl::StatusOr<std::string> s) : s(s) {} absl::StatusOr<std::string> Next() override { return s; } void Close() override {} };
// A source of examples for collections named "p<i>".
struct Source { int can = 1, create = 1, n = 0, end = 0, count = 0, text = 0; bool formatted = false; };
std::map<std::string, Source> sources;
struct Factory : engine::ExampleIteratorFactory {
  bool CanHandle(const ExampleSelector& s) override { return sources.count(s.collection_uri()) && sources[s.collection_uri()].can; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override { return CreateExampleIterator(s, SelectorContext()); }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s, const SelectorContext& c) override {
    Source& x = sources[s.collection_uri()]; bool f = c.computation_properties().example_iterator_output_format() == QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT; vf_assert(f == x.formatted, "the expected output format is requested");
    if (!x.create) return absl::PermissionDeniedError("no");
    if (!f) return std::unique_ptr<ExampleIterator>(new It(x.n, x.end));
    if (x.text == 1) return std::unique_ptr<ExampleIterator>(new One(std::string("\xff\xff\xff"))); if (x.text == 2) return std::unique_ptr<ExampleIterator>(new One(absl::InternalError("io")));
    ExampleQueryResult r; r.mutable_stats()->set_example_count_for_logs(x.count); return std::unique_ptr<ExampleIterator>(new One(r.SerializeAsString()));
  }
  bool ShouldCollectStats() override { return true; }
};
struct Runner : EetPlanRunner {
  int fail = 0; int weight[2] = {0, 0}; std::string policy; std::set<std::string> must; bool stray = false;
  engine::PlanResult RunPlan(std::vector<engine::ExampleIteratorFactory*> f) override {
    ExampleSelector s; s.set_collection_uri("internal:/eligibility_context"); engine::ExampleIteratorFactory* c = nullptr; for (auto* x : f) if (x->CanHandle(s)) { c = x; break; } vf_assert(c != nullptr, "the policy is told what it is evaluated for");
    auto it = c->CreateExampleIterator(s); vf_assert(it.ok(), "context"); auto e = (*it)->Next(); tensorflow::Example ex; vf_assert(e.ok() && ex.ParseFromString(*e), "context example"); auto& m = ex.features().feature(); vf_assert(m.at("policy_name").bytes_list().value_size() == 1 && m.at("policy_name").bytes_list().value(0) == policy, "the policy's name is passed");
    std::set<std::string> got; for (auto& t : m.at("task_names").bytes_list().value()) got.insert(t); for (auto& t : must) vf_assert(got.count(t), "the policy's tasks are passed"); vf_assert((*it)->Next().status().code() == absl::StatusCode::kOutOfRange, "one context example");
    if (fail == 1) return engine::PlanResult(engine::PlanOutcome::kTensorflowError, absl::InternalError("tf")); return engine::PlanResult(engine::PlanOutcome::kSuccess, absl::OkStatus());
  }
  absl::StatusOr<TaskEligibilityInfo> ParseOutput(const std::vector<tensorflow::Tensor>&) override { if (fail == 2) return absl::InternalError("parse"); TaskEligibilityInfo r; for (int t = 0; t < 2; t++) if (weight[t] != 3) { auto* w = r.add_task_weights(); w->set_task_name(NAMES[t]); w->set_weight(weight[t] == 2 ? -1.0f : weight[t] * 0.5f); } return r; }
};
}
extern "C" void vf_main() {
  int np = (int)vf_param("policies", 1), fixed = (int)vf_param("type", -1), history = (int)vf_param("history", 2); bool lite = np > 1;
  int64_t now = (int64_t)vf_u32("now"), trusted = (int64_t)vf_u32("trustworthy since"); SimulatedClock clock(absl::FromUnixSeconds(now)); OpStatsSequence h; h.mutable_earliest_trustworthy_time()->set_seconds(trusted);
  struct C { int task; int64_t t, index; bool has; }; std::vector<C> past; const char* TASKS[] = {"ab", "cd", "ax"}; int n = vf_choice(history + 1, "contributions");
  for (int i = 0; i < n; i++) { C c{(int)vf_choice(lite ? 2 : 3, "contributed to"), (int64_t)vf_u32("contribution time"), (int64_t)vf_u32("index"), lite || vf::flag("index recorded")}; bool aborted = !lite && vf::flag("aborted"); auto* o = h.add_opstats(); o->set_task_name(TASKS[c.task]); if (c.has) o->set_min_sep_policy_index(c.index); auto* e = o->add_events(); e->set_event_type(OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED); e->mutable_timestamp()->set_seconds(c.t); if (aborted) { e = o->add_events(); e->set_event_type(OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED); e->mutable_timestamp()->set_seconds(c.t); } else past.push_back(c); }
  flags.result = !lite && vf::flag("result format supported"); flags.trust = lite || vf::flag("trust checked"); flags.id = !lite && fixed == kData && vf::flag("computation id");
  PopulationEligibilitySpec spec; bool allows[2][2]; bool uses[2][2]; Runner runner; bool custom_used = false;
  for (int t = 0; t < 2; t++) { auto* i = spec.add_task_info(); i->set_task_name(NAMES[t]); for (int p = 0; p < np; p++) { uses[t][p] = lite && p == 0 ? (t == 0 || vf::flag("uses")) : vf::flag("uses"); if (uses[t][p]) i->add_eligibility_policy_indices(p); } }
  for (int p = 0; p < np; p++) {
    auto* s = spec.add_eligibility_policies(); std::string name = "p" + std::string(1, (char)('0' + p)); s->set_name(name); int type = fixed >= 0 ? fixed : (int)vf_choice(kTypes, "policy"); if (type == kCustom && custom_used) type = kNone; int version = lite ? 1 : 1 + vf_choice(3, "version"), have = 1; s->set_min_version(version);
    for (int t = 0; t < 2; t++) allows[t][p] = false;
    if (type == kData) {
      auto* d = s->mutable_data_availability_policy(); d->mutable_selector()->set_collection_uri(name); Source x; int need = lite ? 1 : vf_choice(3, "examples needed"); d->set_min_example_count(need); bool ask = !lite && vf::flag("result format asked"); d->set_use_example_query_result_format(ask); x.formatted = ask && flags.result; have = flags.result ? 2 : 1;
      int odd = lite ? 2 : vf_choice(3, "source"); x.can = odd != 0; x.create = odd != 1; bool ok = odd == 2;
      if (x.formatted) { x.text = vf_choice(3, "result"); x.count = (int32_t)vf_u32("counted"); ok = ok && x.text == 0 && x.count >= need; } else { x.n = lite ? vf_choice(2, "examples") : vf_choice(4, "examples"); x.end = lite ? vf_choice(2, "end") : vf_choice(3, "end"); ok = ok && x.n >= need; }
      sources[name] = x; for (int t = 0; t < 2; t++) allows[t][p] = ok;
    } else if (type == kSwor) {
      auto* w = s->mutable_swor_policy(); int64_t period = (int64_t)vf_u32("period"); w->mutable_min_period()->set_seconds(period); int group = vf_choice(lite ? 2 : 3, "group"); if (group == 1) w->set_group_regex("a.*"); if (group == 2) w->set_group_regex("a(");
      bool trust = now - trusted >= period;
      for (int t = 0; t < 2; t++) { const C* last = nullptr; for (auto& c : past) if (group ? c.task != 1 : c.task == t) last = &c; allows[t][p] = trust && group != 2 && (!last || now - last->t > period); }
    } else if (type == kSep) {
      auto* w = s->mutable_min_sep_policy(); int64_t at = (int64_t)vf_u32("current index"), sep = (int64_t)vf_u32("separation"), period = (int64_t)vf_u32("trust period"); w->set_current_index(at); w->set_minimum_separation(sep); w->mutable_min_trustworthiness_period()->set_seconds(period); have = flags.trust ? 2 : 1;
      bool trust = !flags.trust || period == 0 || now - trusted >= period;
      for (int t = 0; t < 2; t++) { const C* last = nullptr; for (auto& c : past) if (c.task == t) last = &c; allows[t][p] = trust && (!last || !last->has || at - last->index > sep); }
    } else if (type == kCustom) { custom_used = true; s->mutable_tf_custom_policy()->set_arguments("x"); runner.policy = name; runner.fail = lite ? 0 : vf_choice(3, "evaluation"); for (int t = 0; t < 2; t++) { runner.weight[t] = vf_choice(lite ? 2 : 4, "weight"); allows[t][p] = !runner.fail && runner.weight[t] == 1; } }
    else have = 0;
    if (version > have) { for (int t = 0; t < 2; t++) allows[t][p] = false; }
    else if (type == kCustom && !lite) for (int t = 0; t < 2; t++) if (uses[t][p]) runner.must.insert(NAMES[t]);
  }
  VfLog log; VfPhaseLogger phases; Factory f; auto r = ComputeEligibility(spec, log, phases, h, clock, {&f}, runner, &flags);
  vf_assert(r.ok() && r->task_weights_size() == 2, "every task gets one weight");
  for (int t = 0; t < 2; t++) { bool ok = true; for (int p = 0; p < np; p++) if (uses[t][p] && !allows[t][p]) ok = false; vf_assert(r->task_weights(t).task_name() == NAMES[t], "weights are for the listed tasks"); vf_assert((r->task_weights(t).weight() > 0) == ok, "eligible exactly when all policies of the task allow it"); vf_reach(ok ? "eligible" : "not eligible"); }
}
