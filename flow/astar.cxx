#define OGM_ARG_UNSUPPORTED(a, n) (n == 0) // further solutions can be asked for
#include "flow.hxx"
#include <opengm/inference/astar.hxx>
ALG(astar, opengm::AStar<GM, opengm::Minimizer>)
