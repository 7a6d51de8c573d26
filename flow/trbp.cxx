#include "flow.hxx"
#include <opengm/inference/messagepassing/messagepassing.hxx>
ALG(trbp, opengm::MessagePassing<GM, opengm::Minimizer, opengm::TrbpUpdateRules<GM, opengm::Minimizer>, opengm::MaxDistance>)
