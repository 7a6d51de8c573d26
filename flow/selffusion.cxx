#include "flow.hxx"
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/self_fusion.hxx>
ALG(selffusion, opengm::SelfFusion<opengm::MessagePassing<GM, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<GM, opengm::Minimizer>, opengm::MaxDistance> >)
