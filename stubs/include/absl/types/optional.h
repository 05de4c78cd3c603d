#pragma once
#include "vfabsl/base.h"
