#pragma once
#include "yacl/crypto/tools/crhash.h"
