// saving and loading graphical models and reparametrisations
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx>
using namespace opengm;
typedef GraphicalModel<double, Adder> G1;
typedef GraphicalModel<float, Adder, meta::TypeListGenerator<ExplicitFunction<float>, PottsFunction<float> >::type> G2;
typedef GraphicalModel<int, Adder, meta::TypeListGenerator<ExplicitFunction<int>, PottsFunction<int> >::type, SimpleDiscreteSpace<> > G3;
#define G_(N, G) extern "C" void root_save_##N(const G& g, const std::string& f, const std::string& d) { opengm::hdf5::save(g, f, d); } extern "C" void root_load_##N(G& g, const std::string& f, const std::string& d) { opengm::hdf5::load(g, f, d); }
G_(g1, G1) G_(g2, G2) G_(g3, G3)
extern "C" void root_save_repa(const LPReparametrisationStorage<G1>& r, const std::string& f, const std::string& d) { opengm::hdf5::save(r, f, d); }
extern "C" void root_load_repa(LPReparametrisationStorage<G1>* r, const std::string& f, const std::string& d) { opengm::hdf5::load(r, f, d); }
