// Traces that go nowhere, for checks of code whose traces are not under test (T01 covers tracing itself).
#ifndef FCP_TRACING_TRACING_SPAN_H_
#define FCP_TRACING_TRACING_SPAN_H_
#include <cstdint>
#include "fcp/base/error.h"
#include "fcp/tracing/tracing_traits.h"
namespace fcp {
struct TracingSpanRef { };
template <class T> class UnscopedTracingSpan { public: template <class... A> explicit UnscopedTracingSpan(A&&...) {} UnscopedTracingSpan(const UnscopedTracingSpan&) = delete; TracingSpanRef Ref() const { return {}; } };
template <class T> class TracingSpan { public: template <class... A> explicit TracingSpan(A&&...) {} TracingSpan(const TracingSpan&) = delete; TracingSpanRef Ref() const { return {}; } };
template <class T, class... A> void Trace(A&&...) {}
template <class T, class... A> Error TraceError(A&&...) { return Error(Error::ConstructorAccess{}); }
}
#endif
