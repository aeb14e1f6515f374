#pragma once
#include "yacl/link/link.h"
