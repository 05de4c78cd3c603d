#pragma once
#include "vfabsl/strings.h"
