#include "flow.hxx"
#include <opengm/inference/icm.hxx>
ALG(icm, opengm::ICM<GM, opengm::Minimizer>)
