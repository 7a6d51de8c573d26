#include "flow.hxx"
#include <opengm/inference/partition-move.hxx>
ALG(partitionmove, opengm::PartitionMove<GM, opengm::Minimizer>)
