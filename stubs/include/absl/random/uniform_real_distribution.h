#pragma once
#include "vfabsl/random.h"
