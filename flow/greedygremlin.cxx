#include "flow.hxx"
#include <opengm/inference/greedygremlin.hxx>
ALG(greedygremlin, opengm::GreedyGremlin<GM, opengm::Minimizer>)
