#ifndef STUB_PHASES
#define STUB_PHASES
namespace Thermo4PFM
{
enum class PhaseIndex { phaseL, phaseA, phaseB };
enum class CalphadFuncType { binary2ph1sl };
}
#endif
