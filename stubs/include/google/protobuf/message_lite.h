#pragma once
#include "google/protobuf/vfpb.h"
