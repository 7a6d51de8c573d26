#include "flow.hxx"
#include <opengm/inference/sat.hxx>
#ifndef OGM_ARG // has no labeling to ask for
ALG(sat, opengm::SAT<GM>)
#endif
