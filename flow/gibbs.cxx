#include "flow.hxx"
#include <opengm/inference/gibbs.hxx>
ALG(gibbs, opengm::Gibbs<GM, opengm::Minimizer>)
