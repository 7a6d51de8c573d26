#include "flow.hxx"
#include <opengm/inference/reducedinference.hxx>
#include <opengm/inference/bruteforce.hxx>
ALG(rinf, opengm::ReducedInference<GM, opengm::Minimizer, opengm::Bruteforce<opengm::ReducedInferenceHelper<GM>::InfGmType, opengm::Minimizer> >)
