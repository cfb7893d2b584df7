#pragma once
#include "arrow/shim_arrow.h"
