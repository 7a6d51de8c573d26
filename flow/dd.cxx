#include "flow.hxx"
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
typedef opengm::DDDualVariableBlock<marray::Marray<double> > DB;
typedef opengm::DualDecompositionBase<GM, DB>::SubGmType SGM;
ALG(ddsub, opengm::DualDecompositionSubGradient<GM, opengm::DynamicProgramming<SGM, opengm::Minimizer>, DB>)
