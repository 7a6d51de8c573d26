// visitor whose methods are external: the analysis decides what each call answers
#ifdef OGM_ARG
#include "prelude.hxx"
#endif
#include <vector>
#include <string>
#include <cstddef>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/inference/visitors/visitors.hxx>
#include <opengm/inference/inference.hxx>
extern "C" { void ogm_vis_begin(void*); size_t ogm_vis_visit(void*); void ogm_vis_end(void*); void ogm_vis_log(void*); }
template<class INF> struct Vis {
  template<class... A> void begin(INF& i, const A&...) { ogm_vis_begin(&i); }
  template<class... A> size_t operator()(INF& i, const A&...) { return ogm_vis_visit(&i); }
  template<class... A> void end(INF& i, const A&...) { ogm_vis_end(&i); }
  void addLog(const std::string&) {}
  void log(const std::string&, const double) {}
};
typedef opengm::GraphicalModel<double, opengm::Adder> GM;
typedef opengm::GraphicalModel<double, opengm::Multiplier> GMP;
#ifdef OGM_SAME
// a visitor type the library has never seen, which does nothing and never asks to stop
template<class INF> struct Nop {
  template<class... A> void begin(INF&, const A&...) {}
  template<class... A> size_t operator()(INF&, const A&...) { return 0; }
  template<class... A> void end(INF&, const A&...) {}
  void addLog(const std::string&) {}
  void log(const std::string&, const double) {}
};
#define ALG(NAME, ...) typedef __VA_ARGS__ NAME##_t; \
  extern "C" int plain_##NAME(NAME##_t& a) { return (int)a.NAME##_t::infer(); } \
  extern "C" int ref_##NAME(NAME##_t& a) { NAME##_t::EmptyVisitorType v; return (int)a.infer(v); } \
  extern "C" int nop_##NAME(NAME##_t& a) { Nop<NAME##_t > v; return (int)a.infer(v); }
#elif defined(OGM_ARG)
// the solution query on an arbitrary object
template<class A> inline bool ogm_success(const A& a, std::vector<typename A::LabelType>& v, size_t n) { try { opengm::InferenceTermination t = a.A::arg(v, n); return t == opengm::NORMAL || t == opengm::CONVERGENCE; } catch (...) { return false; } }
#ifndef OGM_ARG_UNSUPPORTED
#define OGM_ARG_UNSUPPORTED(a, n) (n != 1)
#endif
// ... and on a small model, before and after inference
template<class A> inline bool ogm_fills(const A& a, size_t old) { std::vector<typename A::LabelType> v(old, 77); opengm::InferenceTermination t = old ? a.A::arg(v, 1) : a.A::arg(v);
  if (t != opengm::NORMAL && t != opengm::CONVERGENCE) return false; return v.size() == 2 && v[0] < 2 && v[1] < 3; }
template<class A> inline bool ogm_fresh(const A& a, size_t old) { std::vector<typename A::LabelType> v(old, 77); opengm::InferenceTermination t = old ? a.A::arg(v, 1) : a.A::arg(v);
  if (t != opengm::NORMAL && t != opengm::CONVERGENCE) return true; return v.size() == 2 && v[0] < 2 && v[1] < 3; }
#define OGM_MODEL(NAME) typedef NAME##_t::GraphicalModelType G; size_t sh[] = {2, 3}; typename G::SpaceType sp(sh, sh + 2); G g(sp); NAME##_t a(g)
#ifdef OGM_NODEFAULT
#define ARG_FRESH(NAME)
#else
#define ARG_FRESH(NAME) \
  OB(fresh0_##NAME)() { OGM_MODEL(NAME); HOLDS(fresh0_##NAME, ogm_fresh(a, 0)); } \
  OB(fresh5_##NAME)() { OGM_MODEL(NAME); HOLDS(fresh5_##NAME, ogm_fresh(a, 5)); } \
  OB(run0_##NAME)() { OGM_MODEL(NAME); a.NAME##_t::infer(); HOLDS(run0_##NAME, ogm_fills(a, 0)); } \
  OB(run5_##NAME)() { OGM_MODEL(NAME); a.NAME##_t::infer(); HOLDS(run5_##NAME, ogm_fills(a, 5)); }
#endif
#define ALG(NAME, ...) typedef __VA_ARGS__ NAME##_t; ARG_FRESH(NAME) \
  OB(other_##NAME)(const NAME##_t& a, std::vector<NAME##_t::LabelType>& v, size_t n) { if (!(OGM_ARG_UNSUPPORTED(a, n))) ok_other_##NAME(); else HOLDS(other_##NAME, !ogm_success(a, v, n)); } \
  OB(zero_##NAME)(const NAME##_t& a, std::vector<NAME##_t::LabelType>& v) { HOLDS(zero_##NAME, !ogm_success(a, v, 0)); } \
  extern "C" int root_##NAME(const NAME##_t& a, std::vector<NAME##_t::LabelType>& v, size_t n) { return a.NAME##_t::arg(v, n); } \
  extern "C" int root_##NAME##_dflt(const NAME##_t& a, std::vector<NAME##_t::LabelType>& v) { return a.NAME##_t::arg(v); }
#elif defined(OGM_LIFE)
// everything else a user calls on an algorithm: construction, starting point, reset, queries
#include <new>
#include <type_traits>
template<class A> auto ogm_start(A& a, int) -> decltype(a.setStartingPoint(std::declval<typename std::vector<typename A::LabelType>::const_iterator>())) { std::vector<typename A::LabelType> v(3); return a.setStartingPoint(v.begin()); }
template<class A> void ogm_start(A&, long) {}
template<class A> auto ogm_query(A& a, std::vector<typename A::LabelType>& r, int) -> decltype((void)a.arg(r), (void)a.bound()) { a.arg(r); a.bound(); }
template<class A> void ogm_query(A&, std::vector<typename A::LabelType>&, long) {}
template<class A> auto ogm_reset(A& a, int) -> decltype(a.reset()) { return a.reset(); }
template<class A> void ogm_reset(A&, long) {}
template<class A> void ogm_life(A* a, const typename A::GraphicalModelType& g, const typename A::Parameter& q, std::vector<typename A::LabelType>& r) {
  if constexpr (std::is_constructible_v<A, const typename A::GraphicalModelType&, const typename A::Parameter&>) new (a) A(g, q);
  if constexpr (std::is_constructible_v<A, const typename A::GraphicalModelType&>) new (a) A(g);
  ogm_start(*a, 0); a->infer(); ogm_query(*a, r, 0); a->value(); a->name(); a->graphicalModel(); ogm_reset(*a, 0);
}
#define ALG(NAME, ...) typedef __VA_ARGS__ NAME##_t; extern "C" void root_##NAME(NAME##_t* a, const NAME##_t::GraphicalModelType& g, const NAME##_t::Parameter& q, std::vector<NAME##_t::LabelType>& r) { ogm_life<NAME##_t >(a, g, q, r); }
#else
#define ALG(NAME, ...) typedef __VA_ARGS__ NAME##_t; extern "C" int root_##NAME(NAME##_t& a, Vis<NAME##_t >& v) { return a.infer(v); }
#endif

