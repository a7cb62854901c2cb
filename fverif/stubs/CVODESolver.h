#pragma once
class CVODESolver
{
 public:
   double getActualFinalValueOfIndependentVariable() const { return 0.; }
};
