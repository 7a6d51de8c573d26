#include "flow.hxx"
#include <opengm/inference/dynamicprogramming.hxx>
ALG(dynprog, opengm::DynamicProgramming<GM, opengm::Minimizer>)
