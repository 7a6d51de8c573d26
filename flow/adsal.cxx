#define OGM_NODEFAULT // no constructor from a model alone
#include "flow.hxx"
#include <opengm/inference/trws/trws_adsal.hxx>
ALG(adsal, opengm::ADSal<GM, opengm::Minimizer>)
