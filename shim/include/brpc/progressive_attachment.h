#pragma once
#include "brpc/sim_brpc.h"
