#include "flow.hxx"
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
ALG(qpbo, opengm::QPBO<GM, opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> >)
