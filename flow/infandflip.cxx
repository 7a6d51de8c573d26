#define OGM_NODEFAULT // no constructor from a model alone
#include "flow.hxx"
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
ALG(infandflip, opengm::InfAndFlip<GM, opengm::Minimizer, opengm::MessagePassing<GM, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<GM, opengm::Minimizer>, opengm::MaxDistance> >)
