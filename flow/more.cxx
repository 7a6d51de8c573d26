#include "flow.hxx"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
ALG(icm_max, opengm::ICM<GMP, opengm::Maximizer>)
ALG(lazyflipper_max, opengm::LazyFlipper<GMP, opengm::Maximizer>)
ALG(bruteforce_max, opengm::Bruteforce<GMP, opengm::Maximizer>)
ALG(dynprog_max, opengm::DynamicProgramming<GMP, opengm::Maximizer>)
ALG(bp_int, opengm::MessagePassing<GMP, opengm::Integrator, opengm::BeliefPropagationUpdateRules<GMP, opengm::Integrator>, opengm::MaxDistance>)
