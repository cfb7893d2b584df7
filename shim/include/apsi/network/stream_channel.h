#pragma once
#include "apsi/types_shim.h"
