#pragma once
#include "google/protobuf/vfpb.h"
namespace google { namespace protobuf { namespace util { struct MessageDifferencer { static bool Equals(const Message& a, const Message& b) { return a.GetTypeName() == b.GetTypeName() && a.SerializeAsString() == b.SerializeAsString(); } static bool Equivalent(const Message& a, const Message& b) { return Equals(a, b); } }; } } }
