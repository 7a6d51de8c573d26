#include "flow.hxx"
#include <opengm/functions/potts.hxx>
#include <opengm/inference/cgc.hxx>
ALG(cgc, opengm::CGC<GM, opengm::Minimizer>)
