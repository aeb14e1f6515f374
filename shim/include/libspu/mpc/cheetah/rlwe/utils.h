#pragma once
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
#include "libspu/core/prelude.h"
#include "libspu/mpc/cheetah/rlwe/types.h"
