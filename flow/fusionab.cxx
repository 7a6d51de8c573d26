#include "flow.hxx"
#include <opengm/inference/fusion_based_inf.hxx>
ALG(fusion_ab, opengm::FusionBasedInf<GM, opengm::proposal_gen::AlphaBetaSwapGen<GM, opengm::Minimizer> >)
