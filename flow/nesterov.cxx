#define OGM_NODEFAULT // no constructor from a model alone
#include "flow.hxx"
#include <opengm/inference/trws/smooth_nesterov.hxx>
ALG(nesterov, opengm::NesterovAcceleratedGradient<GM, opengm::Minimizer>)
