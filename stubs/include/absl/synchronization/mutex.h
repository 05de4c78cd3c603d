#pragma once
#include "vfabsl/sync.h"
