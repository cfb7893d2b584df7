#pragma once
#include "seal/bfv.h"
