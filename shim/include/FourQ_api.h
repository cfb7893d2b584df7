// Test double for Microsoft FourQlib: the group of FourQ (twisted Edwards
// curve over GF((2^127-1)^2)) in plain affine/extended arithmetic. The map to
// the curve is a different (deterministic) one; everything else is FourQ.
#pragma once
#include "FourQ_internal.h"
