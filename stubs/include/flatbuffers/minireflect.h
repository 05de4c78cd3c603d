#pragma once
#include "flatbuffers/flatbuffers.h"
