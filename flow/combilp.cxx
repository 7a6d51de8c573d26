#define OGM_NODEFAULT // no constructor from a model alone
#include "flow.hxx"
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/combilp.hxx>
ALG(combilp, opengm::CombiLP<GM, opengm::Minimizer, opengm::TRWSi<GM, opengm::Minimizer> >)
