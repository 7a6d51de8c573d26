#include "flow.hxx"
#include <opengm/inference/external/qpbo.hxx>
ALG(extqpbo, opengm::external::QPBO<GM>)
