#pragma once
#include "FreeEnergyStrategy.h"
// linear operators with arbitrary coefficients (see MOCKS in cxxp.py)
class MockFreeEnergyStrategy : public FreeEnergyStrategy
{
   const double* w;
   typedef pdat::CellData<double> CD;
   static std::shared_ptr<CD> get(hier::Patch& p, int id)
   {
      return id < 0 ? std::shared_ptr<CD>() : std::dynamic_pointer_cast<CD>(p.getPatchData(id));
   }
   void apply(hier::Patch& p, bool add, int tgt, int b, std::vector<int> ids, double s)
   {
      auto t = get(p, tgt);
      pdat::CellIterator e(pdat::CellGeometry::end(p.getBox()));
      for (pdat::CellIterator i(pdat::CellGeometry::begin(p.getBox())); i != e; ++i)
         for (int c = 0; c < (add ? t->getDepth() : 1); c++) {
            double v = w[b + ids.size()] * s;
            for (size_t k = 0; k < ids.size(); k++)
               if (auto d = get(p, ids[k])) v += w[b + k] * (*d)(*i, 0);
            (*t)(*i, c) = add ? (*t)(*i, c) + v : v;
         }
   }

 public:
   MockFreeEnergyStrategy(const double* x) : w(x) {}
   using FreeEnergyStrategy::computeFreeEnergyLiquid;
   using FreeEnergyStrategy::computeFreeEnergySolidA;
   using FreeEnergyStrategy::computeFreeEnergySolidB;
   virtual void computeFreeEnergyLiquid(hier::Patch& p, const int t, const int f, const bool gp) { apply(p, false, f, 0, {t}, gp); }
   virtual void computeFreeEnergySolidA(hier::Patch& p, const int t, const int f, const bool gp) { apply(p, false, f, 2, {t}, gp); }
   virtual void computeFreeEnergySolidB(hier::Patch& p, const int t, const int f, const bool gp) { apply(p, false, f, 4, {t}, gp); }
   virtual void addDrivingForce(const double time, hier::Patch& p, const int t, const int phi, const int, const int c, const int l,
                                const int a, const int b, const int rhs)
   {
      apply(p, true, rhs, 6, {t, phi, c, l, a, b}, time);
   }
   virtual void computeSecondDerivativeEnergyPhaseL(const double, const std::vector<double>&, std::vector<double>&, const bool) {}
   virtual void computeSecondDerivativeEnergyPhaseA(const double, const std::vector<double>&, std::vector<double>&, const bool) {}
   virtual void preRunDiagnostics(const double) {}
};
