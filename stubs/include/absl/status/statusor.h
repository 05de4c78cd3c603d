#pragma once
#include "vfabsl/status.h"
