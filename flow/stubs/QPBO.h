// declarations only: lets the algorithms that use the (absent) QPBO library be lowered; its functions stay opaque
#pragma once
namespace kolmogorov { namespace qpbo {
template<class REAL> class QPBO {
public:
  typedef int NodeId; typedef int EdgeId;
  struct ProbeOptions { ProbeOptions(); int directed_constraints, weak_persistencies, C, dilation, order_seed; int* order_array; bool (*callback_fn)(int); };
  QPBO(int, int, void (*)(const char*) = 0); QPBO(QPBO<REAL>&); ~QPBO();
  NodeId AddNode(int = 1); void AddUnaryTerm(NodeId, REAL, REAL); EdgeId AddPairwiseTerm(NodeId, NodeId, REAL, REAL, REAL, REAL);
  void AddPairwiseTerm(EdgeId, NodeId, NodeId, REAL, REAL, REAL, REAL);
  void MergeParallelEdges(); void Solve(); void ComputeWeakPersistencies(); int GetLabel(NodeId); REAL ComputeTwiceLowerBound(); REAL ComputeTwiceEnergy(int = 0); REAL ComputeTwiceEnergy(int*);
  void Probe(int*, ProbeOptions&); void MergeMappings(int, int*, int*); bool Improve(); bool Improve(int, int*, int* = 0); void SetLabel(NodeId, int); void Reset(); void Stitch(); int GetRegion(NodeId);
  int GetNodeNum(); int GetMaxEdgeNum(); void SetMaxEdgeNum(int);
};
} }
