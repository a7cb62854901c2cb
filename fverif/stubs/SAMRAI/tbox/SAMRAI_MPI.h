#include "SAMRAI/mini.h"
