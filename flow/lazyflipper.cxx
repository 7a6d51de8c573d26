#include "flow.hxx"
#include <opengm/inference/lazyflipper.hxx>
ALG(lazyflipper, opengm::LazyFlipper<GM, opengm::Minimizer>)
