#include "flow.hxx"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
ALG(graphcut, opengm::GraphCut<GM, opengm::Minimizer, opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> >)
