#include "flow.hxx"
#include <opengm/inference/alphaexpansionfusion.hxx>
ALG(aefusion, opengm::AlphaExpansionFusion<GM, opengm::Minimizer>)
