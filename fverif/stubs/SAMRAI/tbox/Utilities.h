#ifndef STUB_UTIL
#define STUB_UTIL
#include <cstdlib>
#include <iostream>
#include "SAMRAI/tbox/PIO.h"
#define TBOX_ERROR(X) { std::abort(); }
#define TBOX_WARNING(X) {}
#define TBOX_ASSERT(X) {}
#define NULL_USE(X)
#endif
