#include "flow.hxx"
#include <opengm/inference/bruteforce.hxx>
ALG(bruteforce, opengm::Bruteforce<GM, opengm::Minimizer>)
