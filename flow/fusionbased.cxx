#include "flow.hxx"
#include <opengm/inference/fusion_based_inf.hxx>
ALG(fusion_ae, opengm::FusionBasedInf<GM, opengm::proposal_gen::AlphaExpansionGen<GM, opengm::Minimizer> >)
