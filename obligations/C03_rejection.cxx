// C03: argument errors that are checked in every build mode.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/unary_loss_function.hxx>
using namespace opengm;
typedef PottsFunction<long> PF; typedef PottsNFunction<long> PN; typedef ConstantFunction<long> CF; typedef ExplicitFunction<long> EF;
typedef GraphicalModel<long,Adder,PN,SimpleDiscreteSpace<> > G;
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PN,PF>::type,DiscreteSpace<> > GD;
#define AI static inline __attribute__((always_inline))
template<unsigned N,class M,class T> AI L addv(M& gm,const T* v,bool fin){ L s[4]={9,9,9,9}; typename M::FunctionIdentifier f=gm.addFunction(PN(s,s+N,1,2)); return fin ? gm.addFactor(f,v,v+N) : gm.addFactorNonFinalized(f,v,v+N); }
AI GD gd(L n){ L s[4]={9,9,9,9}; return GD(DiscreteSpace<>(s,s+n)); }
// runs f once per possible value of x below n, and once for all others: an index into the model is a constant in each part
template<class F> AI void part(L x,L n,F f){ if(x==0&&n>0) f(L(0)); else if(x==1&&n>1) f(L(1)); else if(x==2&&n>2) f(L(2)); else if(x==3&&n>3) f(L(3)); else f(x); }
// says: a factor over an out-of-range variable is rejected, whichever position it has
// code: graphicalmodel.hxx addFactor, addFactorNonFinalized
#define RANGE(nm,FIN) \
 OB(throw_range1_##nm)(L a){ if(a<5) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); addv<1>(gm,&a,FIN); MUST_THROW(throw_range1_##nm); }\
 OB(throw_edge_##nm)(){ G gm(SimpleDiscreteSpace<>(5,9)); L v[2]={4,5}; addv<2>(gm,v,FIN); MUST_THROW(throw_edge_##nm); }\
 OB(throw_novars_##nm)(L a){ G gm(SimpleDiscreteSpace<>(0,9)); addv<1>(gm,&a,FIN); MUST_THROW(throw_novars_##nm); }\
 OB(throw_signed_##nm)(int a){ if(a>=0) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); addv<1>(gm,&a,FIN); MUST_THROW(throw_signed_##nm); }
RANGE(imm,true) RANGE(def,false)
 OB(throw_range2_def)(L a,L b){ if(a<5&&b<5) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); L v[2]={a,b}; addv<2>(gm,v,false); MUST_THROW(throw_range2_def); }
 OB(throw_range3_def)(L a,L b,L c){ if(a<5&&b<5&&c<5) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); L v[3]={a,b,c}; addv<3>(gm,v,false); MUST_THROW(throw_range3_def); }
// says: a factor over unordered or repeated variables is rejected
#define ORDER(nm,FIN) \
 OB(throw_order2_##nm)(L a,L b){ if(a<b) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); L v[2]={a,b}; addv<2>(gm,v,FIN); MUST_THROW(throw_order2_##nm); }\
 OB(throw_order3_##nm)(L a,L b,L c){ if(a<b&&b<c) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); L v[3]={a,b,c}; addv<3>(gm,v,FIN); MUST_THROW(throw_order3_##nm); }\
 OB(throw_order4_##nm)(L a,L b,L c,L d){ if(a<b&&b<c&&c<d) throw 0; G gm(SimpleDiscreteSpace<>(9,9)); L v[4]={a,b,c,d}; addv<4>(gm,v,FIN); MUST_THROW(throw_order4_##nm); }\
 OB(throw_repeat_##nm)(L a){ G gm(SimpleDiscreteSpace<>(5,9)); L v[2]={a,a}; addv<2>(gm,v,FIN); MUST_THROW(throw_repeat_##nm); }\
 OB(throw_second_##nm)(L a,L b){ if(a<b) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); L u[2]={0,1}; addv<2>(gm,u,FIN); L v[2]={a,b}; addv<2>(gm,v,FIN); MUST_THROW(throw_second_##nm); }
ORDER(def,false)
#define PART2(nm,N,BAD) OB(throw_##nm)(L a,L b){ part(a,N,[&](L a){ part(b,N,[&](L b){ if(!(BAD)) throw 0; G gm(SimpleDiscreteSpace<>(N,9)); L v[2]={a,b}; addv<2>(gm,v,true); MUST_THROW(throw_##nm); }); }); }
#define PART3(nm,N,BAD) OB(throw_##nm)(L a,L b,L c){ part(a,N,[&](L a){ part(b,N,[&](L b){ part(c,N,[&](L c){ if(!(BAD)) throw 0; G gm(SimpleDiscreteSpace<>(N,9)); L v[3]={a,b,c}; addv<3>(gm,v,true); MUST_THROW(throw_##nm); }); }); }); }
PART2(range2_imm,3,a>=3||b>=3) PART2(order2_imm,3,a>=b) PART3(range3_imm,2,a>=2||b>=2||c>=2) PART3(order3_imm,2,a>=b||b>=c)
OB(throw_order3b_imm)(L a){ part(a,4,[&](L a){ if(a>1) throw 0; G gm(SimpleDiscreteSpace<>(4,9)); L v[3]={0,1,a}; addv<3>(gm,v,true); MUST_THROW(throw_order3b_imm); }); }
OB(throw_order3c_imm)(L a){ part(a,4,[&](L a){ if(a>2) throw 0; G gm(SimpleDiscreteSpace<>(4,9)); L v[3]={1,a+1,2}; addv<3>(gm,v,true); MUST_THROW(throw_order3c_imm); }); }
OB(throw_repeat_imm)(L a){ part(a,3,[&](L a){ G gm(SimpleDiscreteSpace<>(3,9)); L v[2]={a,a}; addv<2>(gm,v,true); MUST_THROW(throw_repeat_imm); }); }
OB(throw_second_imm)(L a){ part(a,3,[&](L a){ if(a==2) throw 0; G gm(SimpleDiscreteSpace<>(3,9)); L u[2]={0,1}; addv<2>(gm,u,true); L v[2]={1,a}; addv<2>(gm,v,true); MUST_THROW(throw_second_imm); }); }
// says: the same for a model over individually sized variables and several function types
OB(throw_discrete_range)(L a,L b){ part(a,2,[&](L a){ part(b,2,[&](L b){ if(a<2&&b<2) throw 0; GD gm(gd(2)); L v[2]={a,b}; GD::FunctionIdentifier f=gm.addFunction(PF(9,9,1,2)); gm.addFactor(f,v,v+2); MUST_THROW(throw_discrete_range); }); }); }
OB(throw_discrete_order)(L a,L b){ if(a<b) throw 0; GD gm(gd(3)); L v[2]={a,b}; GD::FunctionIdentifier f=gm.addFunction(PF(9,9,1,2)); gm.addFactorNonFinalized(f,v,v+2); MUST_THROW(throw_discrete_order); }
OB(throw_after_addvar)(L a){ if(a<6) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); gm.addVariable(9); addv<1>(gm,&a,true); MUST_THROW(throw_after_addvar); }
OB(throw_vector_iter)(L a,L b){ if(a<b&&b<5) throw 0; G gm(SimpleDiscreteSpace<>(5,9)); std::vector<L> v(2); v[0]=a; v[1]=b; L s[2]={9,9}; G::FunctionIdentifier f=gm.addFunction(PN(s,s+2,1,2)); gm.addFactorNonFinalized(f,v.begin(),v.end()); MUST_THROW(throw_vector_iter); }
// says: strictly increasing in-range variables are never rejected
OB(valid1_def)(L a){ if(a>=5) return; G gm(SimpleDiscreteSpace<>(5,9)); HOLDS(valid1_def, addv<1>(gm,&a,false)==0&&gm.numberOfFactors()==1&&gm[0].variableIndex(0)==a); }
OB(valid2_def)(L a,L b){ if(!(a<b&&b<5)) return; G gm(SimpleDiscreteSpace<>(5,9)); L v[2]={a,b}; HOLDS(valid2_def, addv<2>(gm,v,false)==0&&gm[0].variableIndex(0)==a&&gm[0].variableIndex(1)==b); }
OB(valid3_def)(L a,L b,L c){ if(!(a<b&&b<c&&c<5)) return; G gm(SimpleDiscreteSpace<>(5,9)); L v[3]={a,b,c}; HOLDS(valid3_def, addv<3>(gm,v,false)==0&&gm[0].variableIndex(2)==c); }
OB(valid1_imm)(L a){ part(a,3,[&](L a){ if(a>=3) return; G gm(SimpleDiscreteSpace<>(3,9)); HOLDS(valid1_imm, addv<1>(gm,&a,true)==0&&gm.numberOfFactors()==1&&gm[0].variableIndex(0)==a); }); }
OB(valid2_imm)(L a,L b){ part(a,3,[&](L a){ part(b,3,[&](L b){ if(!(a<b&&b<3)) return; G gm(SimpleDiscreteSpace<>(3,9)); L v[2]={a,b}; HOLDS(valid2_imm, addv<2>(gm,v,true)==0&&gm[0].variableIndex(0)==a&&gm[0].variableIndex(1)==b); }); }); }
OB(valid3_imm)(L a){ part(a,4,[&](L a){ if(a>=4) return; G gm(SimpleDiscreteSpace<>(4,9)); L v[3]={L(a==0),L(a<2?2:1),L(a==3?2:3)}; HOLDS(valid3_imm, addv<3>(gm,v,true)==0&&gm[0].variableIndex(0)==v[0]&&gm[0].variableIndex(1)==v[1]&&gm[0].variableIndex(2)==v[2]); }); }
OB(valid_addvar)(){ L a=5; G gm(SimpleDiscreteSpace<>(5,9)); gm.addVariable(9); HOLDS(valid_addvar, addv<1>(gm,&a,true)==0); }
OB(valid_large)(L n,L a,L b){ if(!(a<b&&b<n)) return; SimpleDiscreteSpace<> s(n,9); HOLDS(valid_large, s.numberOfVariables()==n&&a<s.numberOfVariables()); }
// says: assigning a model that uses a function type the target lacks is rejected; an unused type is not
// code: graphicalmodel_function_wrapper.hxx CopyFunctions
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PN,PF>::type,SimpleDiscreteSpace<> > G2; typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PF,CF>::type,SimpleDiscreteSpace<> > G3;
OB(throw_incompatible)(long a){ G2 s(SimpleDiscreteSpace<>(2,9)); L sh[2]={9,9}; s.addFunction(PN(sh,sh+2,a,2)); G3 t; t=s; MUST_THROW(throw_incompatible); }
OB(compatible)(long a,long b,L i,L j){ G2 s(SimpleDiscreteSpace<>(2,9)); L v[2]={0,1}; s.addFactor(s.addFunction(PF(9,9,a,b)),v,v+2); G3 t; t=s; L l[8]={i,j}; if(i>=9||j>=9) return; HOLDS(compatible, t.evaluate(l)==(i==j?a:b)); }
// says: a space that cannot grow says so; unknown loss types are rejected
// code: space_base.hxx addVariable, unary_loss_function.hxx operator()
OB(throw_grid_addvar)(L n,L d0,L d1){ GridSpace<> s(d0,d1,n); s.addVariable(n); MUST_THROW(throw_grid_addvar); }
// says: submodularity of anything but a binary pairwise function (unaries aside) is a question the generic code refuses
// code: function_properties_base.hxx isSubmodular
OB(throw_submodular_shape)(long w,L n,L m){ if(n==2&&m==2) throw 0; SquaredDifferenceFunction<long> f(n,m,w); f.isSubmodular(); MUST_THROW(throw_submodular_shape); }
OB(valid_submodular)(long w){ if(w<0||w>1000) return; SquaredDifferenceFunction<long> f(2,2,w); HOLDS(valid_submodular, f.isSubmodular()); }
// says: a learnable unary with features and weights of different number is rejected
// code: functions/learnable/lunary.hxx
typedef functions::learnable::LUnary<double,L,L> LU; typedef functions::learnable::FeaturesAndIndices<double,L> FI;
OB(throw_lunary_count)(double x,double y){ learning::Weights<double> w(3); std::vector<FI> f(2); f[0].weightIds.resize(1); f[0].weightIds[0]=0; f[0].features.resize(2); f[0].features[0]=x; f[0].features[1]=y; LU u(w,f); MUST_THROW(throw_lunary_count); }
OB(throw_lunary_grad)(L k,double x){ if(k<1) throw 0; learning::Weights<double> w(3); std::vector<FI> f(2); f[0].weightIds.resize(1); f[0].weightIds[0]=0; f[0].features.resize(1); f[0].features[0]=x; LU u(w,f); L l[1]={0}; u.weightGradient(k,l); MUST_THROW(throw_lunary_grad); }
// says: deliberately false (controls)
OB(ctl_rej)(L a){ if(a>=5) return; G gm(SimpleDiscreteSpace<>(5,9)); HOLDS(ctl_rej, addv<1>(gm,&a,false)==1); }
