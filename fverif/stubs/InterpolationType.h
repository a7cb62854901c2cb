// stand-in for Thermo4PFM (library absent in this sandbox)
#ifndef STUB_INTERP
#define STUB_INTERP
namespace Thermo4PFM
{
enum class EnergyInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class ConcInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
inline char energyInterpChar(const EnergyInterpolationType t)
{
   switch (t) {
      case EnergyInterpolationType::LINEAR: return 'l';
      case EnergyInterpolationType::PBG: return 'p';
      case EnergyInterpolationType::HARMONIC: return 'h';
      default: return 'u';
   }
}
inline char concInterpChar(const ConcInterpolationType t)
{
   switch (t) {
      case ConcInterpolationType::LINEAR: return 'l';
      case ConcInterpolationType::PBG: return 'p';
      case ConcInterpolationType::HARMONIC: return 'h';
      default: return 'u';
   }
}
}
#endif
