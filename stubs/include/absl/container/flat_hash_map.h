#pragma once
#include "vfabsl/containers.h"
