#pragma once
#include "vfabsl/log.h"
