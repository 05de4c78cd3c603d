#pragma once
#include "google/protobuf/vfpb.h"
namespace google { namespace protobuf { struct TextFormat { static bool PrintToString(const Message& m, std::string* s) { *s = m.GetTypeName(); return true; } }; } }
