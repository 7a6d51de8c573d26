// C22: what the common base class of the algorithms answers, and the labeling it reads off marginals.
#include "prelude.hxx"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/inference/inference.hxx>
using namespace opengm;
typedef GraphicalModel<V, Adder, ExplicitFunction<V>, DiscreteSpace<> > GM;
static inline GM* model() { size_t sh[] = {2, 3}; return new GM(DiscreteSpace<>(sh, sh + 2)); }
static V T[2][3]; static L LAB[8];
template<class ACC> struct Fake : Inference<GM, ACC> {
  typedef Inference<GM, ACC> B; typedef typename B::IndependentFactorType IF; typedef ACC AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS;
  GM* g; int fail; bool has; Fake(GM* x, int f, bool h) : g(x), fail(f), has(h) {}
  std::string name() const { return ""; } const GM& graphicalModel() const { return *g; } InferenceTermination infer() { return NORMAL; }
  InferenceTermination marginal(const size_t v, IF& out) const { if (fail == (int)v) return UNKNOWN; IF t(*g, &v, &v + 1); for (size_t i = 0; i < g->numberOfLabels(v); ++i) t(i) = T[v][i]; out = t; return NORMAL; }
  InferenceTermination arg(std::vector<LabelType>& x, const size_t n = 1) const { if (!has) return B::arg(x, n); x.assign(LAB, LAB + 2); return NORMAL; }
  InferenceTermination base_args(std::vector<std::vector<LabelType> >& x) const { return B::args(x); }
};
#define TAB T[0][0] = a; T[0][1] = b; T[1][0] = c; T[1][1] = d; T[1][2] = e
// says: without an implementation of its own, an algorithm's query reports no success
// code: inference/inference.hxx Inference::arg, args, marginal, factorMarginal
OB(base_default)(size_t n) { Fake<Minimizer> f(model(), -1, false); std::vector<size_t> v; HOLDS(base_default, f.arg(v, n) == UNKNOWN); }
OB(base_args)() { Fake<Minimizer> f(model(), -1, false); std::vector<std::vector<size_t> > v; HOLDS(base_args, f.args(v) == UNKNOWN); }
OB(base_factor_marginal)(size_t n) { Fake<Minimizer> f(model(), -1, false); Fake<Minimizer>::IF o; HOLDS(base_factor_marginal, f.B::factorMarginal(n, o) == UNKNOWN && f.B::marginal(n, o) == UNKNOWN); }
// says: the labeling read off the marginals has one label per variable, each the best entry of its marginal; a marginal that fails is reported
// code: inference/inference.hxx Inference::modeFromMarginal
OB(base_mode_min)(V a, V b, V c, V d, V e) { TAB; Fake<Minimizer> f(model(), -1, false); std::vector<size_t> v(5, 7); InferenceTermination t = f.modeFromMarginal(v); if (t != NORMAL || v.size() != 2 || v[0] > 1 || v[1] > 2) { fail_base_mode_min(); return; }
if (v[0] == 0 && b < a) { fail_base_mode_min(); return; }
  if (v[0] == 1 && a < b) { fail_base_mode_min(); return; }
  if (v[1] == 0 && d < c) { fail_base_mode_min(); return; }
  if (v[1] == 0 && e < c) { fail_base_mode_min(); return; }
  if (v[1] == 1 && c < d) { fail_base_mode_min(); return; }
  if (v[1] == 1 && e < d) { fail_base_mode_min(); return; }
  if (v[1] == 2 && c < e) { fail_base_mode_min(); return; }
  if (v[1] == 2 && d < e) { fail_base_mode_min(); return; }
  ok_base_mode_min(); }
OB(base_mode_max)(V a, V b, V c, V d, V e) { TAB; Fake<Maximizer> f(model(), -1, false); std::vector<size_t> v(1, 7); InferenceTermination t = f.modeFromMarginal(v); if (t != NORMAL || v.size() != 2 || v[0] > 1 || v[1] > 2) { fail_base_mode_max(); return; }
if (v[0] == 0 && b > a) { fail_base_mode_max(); return; }
  if (v[0] == 1 && a > b) { fail_base_mode_max(); return; }
  if (v[1] == 0 && d > c) { fail_base_mode_max(); return; }
  if (v[1] == 0 && e > c) { fail_base_mode_max(); return; }
  if (v[1] == 1 && c > d) { fail_base_mode_max(); return; }
  if (v[1] == 1 && e > d) { fail_base_mode_max(); return; }
  if (v[1] == 2 && c > e) { fail_base_mode_max(); return; }
  if (v[1] == 2 && d > e) { fail_base_mode_max(); return; }
  ok_base_mode_max(); }
OB(base_mode_fails)(V a, V b, V c, V d, V e) { TAB; Fake<Minimizer> f(model(), 1, false); std::vector<size_t> v; HOLDS(base_mode_fails, f.modeFromMarginal(v) == UNKNOWN); }
OB(base_mode_fails0)(V a, V b, V c, V d, V e) { TAB; Fake<Minimizer> f(model(), 0, false); std::vector<size_t> v; HOLDS(base_mode_fails0, f.modeFromMarginal(v) == UNKNOWN); }
// says: the value an algorithm reports by default is that of the labeling it returns, and neutral when it has none
// code: inference/inference.hxx Inference::value
OB(base_value)(V a, V b, V c, V d, V e, V k) { GM* g = model(); size_t sh[] = {2, 3}; ExplicitFunction<V> h(sh, sh + 2); for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) h(i, j) = i * 3 + j == 5 ? a : b; size_t vi[] = {0, 1}; g->addFactor(g->addFunction(h), vi, vi + 2);
  LAB[0] = 1; LAB[1] = 2; Fake<Minimizer> f(g, -1, true); HOLDS(base_value, f.value() == a); }
OB(base_value_none)() { Fake<Minimizer> f(model(), -1, false); HOLDS(base_value_none, f.value() == Minimizer::neutral<V>()); }
OB(base_value_none_max)() { Fake<Maximizer> f(model(), -1, false); HOLDS(base_value_none_max, f.value() == Maximizer::neutral<V>()); }
// controls
OB(ctl_mode)(V a, V b, V c, V d, V e) { TAB; Fake<Maximizer> f(model(), -1, false); std::vector<size_t> v; f.modeFromMarginal(v); HOLDS(ctl_mode, v[0] == 0); }
OB(ctl_default)(size_t n) { Fake<Minimizer> f(model(), -1, true); std::vector<size_t> v; HOLDS(ctl_default, f.arg(v, n) == UNKNOWN); }
