#pragma once
#include "grpcpp/vfgrpc.h"
