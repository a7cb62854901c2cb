#ifndef STUB_PIO
#define STUB_PIO
#include <iostream>
namespace SAMRAI
{
namespace tbox
{
static std::ostream pout(nullptr), plog(nullptr), perr(nullptr);
}
}
#endif
