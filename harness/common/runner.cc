// Stand-in for the interruptible runner: runs the work in the calling thread. The real one is checked under D06.
#include "fcp/client/interruptible_runner.h"
namespace {
struct Inline : fcp::Scheduler { void Schedule(std::function<void()> t) override { t(); } void WaitUntilIdle() override {} };
}
namespace fcp {
std::unique_ptr<Worker> Scheduler::CreateWorker() { return nullptr; }
std::unique_ptr<Scheduler> CreateThreadPoolScheduler(std::size_t) { return std::make_unique<Inline>(); }
namespace client {
absl::Status InterruptibleRunner::Run(std::function<absl::Status()> f, std::function<void()>) { if (should_abort_()) return absl::CancelledError("interrupted"); return f(); }
}
}
