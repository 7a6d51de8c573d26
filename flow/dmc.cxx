#define OGM_NODEFAULT // no constructor from a model alone
#include "flow.hxx"
#include <opengm/functions/potts.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/dmc.hxx>
template<class G, class A> struct Sub : opengm::ICM<G, A> {
  template<class G2, class A2> struct rebind { typedef Sub<G2, A2> type; };
  template<class G2> struct rebindGm { typedef Sub<G2, A> type; };
  struct Parameter : opengm::ICM<G, A>::Parameter { Parameter() {} template<class P> Parameter(const P&) {} };
  Sub(const G& g, const Parameter& p = Parameter()) : opengm::ICM<G, A>(g, p) {}
};
ALG(dmc, opengm::DMC<GM, Sub<GM, opengm::Minimizer> >)
