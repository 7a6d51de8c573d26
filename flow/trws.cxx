#define OGM_NODEFAULT // no constructor from a model alone
#include "flow.hxx"
#include <opengm/inference/trws/trws_trws.hxx>
ALG(trws, opengm::TRWSi<GM, opengm::Minimizer>)
