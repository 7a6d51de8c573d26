#include "flow.hxx"
#include <opengm/inference/mqpbo.hxx>
ALG(mqpbo, opengm::MQPBO<GM, opengm::Minimizer>)
