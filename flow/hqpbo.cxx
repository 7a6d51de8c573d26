#include "flow.hxx"
#include <opengm/inference/hqpbo.hxx>
ALG(hqpbo, opengm::HQPBO<GM, opengm::Minimizer>)
