// Stand-in for the Boost 1.84 header of this name (Boost 1.83 lacks it).  kigumi includes it without using it;
// the plain set is enough to parse.
#pragma once
#include <boost/unordered/unordered_flat_set.hpp>
