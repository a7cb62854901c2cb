// explicit instantiations, so that the templates are verified as used
#include "ArrayOperation.h"
template struct MultiplyOperation<double>;
template struct AddOperation<double>;
template struct MultiplyOperation<int>;
template struct AddOperation<int>;
