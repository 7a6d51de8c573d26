#include "flow.hxx"
#include <opengm/inference/messagepassing/messagepassing.hxx>
ALG(bp, opengm::MessagePassing<GM, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<GM, opengm::Minimizer>, opengm::MaxDistance>)
