// stands in for the CPLEX wrapper, which cannot be lowered without CPLEX; opaque
#pragma once
#include <vector>
#include <opengm/inference/inference.hxx>
#include <opengm/inference/visitors/visitors.hxx>
namespace opengm {
template<class GM, class ACC> class LPCplex : public Inference<GM, ACC> { public:
  typedef ACC AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS;
  struct Parameter { bool integerConstraint_; int numberOfThreads_; double timeLimit_, workMem_; Parameter(); };
  LPCplex(const GraphicalModelType&, const Parameter& = Parameter()); ~LPCplex();
  std::string name() const; const GraphicalModelType& graphicalModel() const; InferenceTermination infer(); template<class V> InferenceTermination infer(V&);
  InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const; };
}
