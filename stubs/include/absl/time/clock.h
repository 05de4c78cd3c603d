#pragma once
#include "vfabsl/time.h"
