// C04: copies and assigned objects are equal to and independent of their source.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/squared_difference.hxx>
using namespace opengm;
typedef PottsFunction<long> PF; typedef SquaredDifferenceFunction<long> SF; typedef ConstantFunction<long> CF; typedef ExplicitFunction<long> EF;
typedef GraphicalModel<long,Adder,PF,SimpleDiscreteSpace<> > G;
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PF,SF>::type,SimpleDiscreteSpace<> > G2;
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<SF,CF,PF>::type,SimpleDiscreteSpace<> > GX;
#define AI static inline __attribute__((always_inline))
AI long P(long a,long b,L i,L j){ return i==j?a:b; }
AI long Q(long w,L i,L j){ return (long(i)-long(j))*(long(i)-long(j))*w; }
template<class M> AI void fill(M& gm,long a,long b,long c,long d){ L v[2]={0,1},w[2]={1,2}; typename M::FunctionIdentifier f=gm.addFunction(PF(1000,1000,a,b)), g=gm.addFunction(PF(1000,1000,c,d)); gm.addFactor(f,v,v+2); gm.addFactor(g,w,w+2); }
template<class M> AI bool same(const M& gm,long a,long b,long c,long d,L i,L j,L k){ L l[8]={i,j,k}, x[8]={i,j}, y[8]={j,k};
   return gm.numberOfVariables()==3&&gm.numberOfFactors()==2&&gm.numberOfLabels(2)==1000&&gm.factorOrder()==2&&gm.evaluate(l)==P(a,b,i,j)+P(c,d,j,k)&&gm[0](x)==P(a,b,i,j)&&gm[1](y)==P(c,d,j,k)
     &&gm[0].variableIndex(0)==0&&gm[0].variableIndex(1)==1&&gm[1].variableIndex(0)==1&&gm[1].variableIndex(1)==2&&gm[0].numberOfVariables()==2&&gm[1].numberOfVariables()==2
     &&gm.numberOfFactors(1)==2&&gm.factorOfVariable(1,0)==0&&gm.factorOfVariable(1,1)==1&&gm.numberOfFactors(0)==1&&gm.numberOfFactors(2)==1&&gm.factorOfVariable(2,0)==1&&gm[1].numberOfLabels(0)==1000; }
template<class M> AI void wreck(M& gm){ typename M::FunctionIdentifier f(0,0); gm.template getFunction<PF>(f)=PF(7,7,91,92); typename M::FunctionIdentifier g(1,0); gm.template getFunction<PF>(g)=PF(7,7,93,94); gm=M(SimpleDiscreteSpace<>(1,2)); }
// says: a copied or assigned model has its source's structure and values
// code: graphicalmodel.hxx GraphicalModel(const GraphicalModel&), operator=
#define A7 long a,long b,long c,long d,L i,L j,L k
OB(copy)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); HOLDS(copy, same(t,a,b,c,d,i,j,k)); }
OB(assign_empty)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t; t=s; HOLDS(assign_empty, same(t,a,b,c,d,i,j,k)); }
OB(assign_over)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(SimpleDiscreteSpace<>(4,5)); fill(t,5,6,7,8); L v[2]={1,3}; t.addFactor(t.addFunction(PF(5,5,1,2)),v,v+2); t=s; HOLDS(assign_over, same(t,a,b,c,d,i,j,k)); }
OB(assign_over_smaller)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(SimpleDiscreteSpace<>(2,5)); L v[2]={0,1}; t.addFactor(t.addFunction(PF(5,5,1,2)),v,v+2); t=s; HOLDS(assign_over_smaller, same(t,a,b,c,d,i,j,k)); }
OB(assign_self)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G& r=s; s=r; HOLDS(assign_self, same(s,a,b,c,d,i,j,k)); }
OB(assign_space)(A7){ G s(SimpleDiscreteSpace<>(5,7)); fill(s,1,2,3,4); s.assign(SimpleDiscreteSpace<>(3,1000)); bool e=s.numberOfFactors()==0&&s.factorOrder()==0&&s.numberOfFunctions(0)==0; fill(s,a,b,c,d); HOLDS(assign_space, e&&same(s,a,b,c,d,i,j,k)); }
OB(copy_of_copy)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); G u; u=t; wreck(t); HOLDS(copy_of_copy, same(u,a,b,c,d,i,j,k)&&same(s,a,b,c,d,i,j,k)); }
OB(copy_nonfinal)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},w[2]={1,2}; s.addFactorNonFinalized(s.addFunction(PF(1000,1000,a,b)),v,v+2); s.addFactorNonFinalized(s.addFunction(PF(1000,1000,c,d)),w,w+2); G t(s); t.finalize(); s.finalize(); HOLDS(copy_nonfinal, same(t,a,b,c,d,i,j,k)&&same(s,a,b,c,d,i,j,k)); }
OB(copy_empty)(){ G s; G t(s); G u(SimpleDiscreteSpace<>(3,5)); fill(u,1,2,3,4); u=s; HOLDS(copy_empty, t.numberOfVariables()==0&&t.numberOfFactors()==0&&u.numberOfVariables()==0&&u.numberOfFactors()==0&&u.factorOrder()==0); }
// says: the copy is untouched by later changes of the source, and the source by later changes of the copy
OB(indep_copy)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); wreck(s); HOLDS(indep_copy, same(t,a,b,c,d,i,j,k)); }
OB(indep_assign)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t; t=s; wreck(s); HOLDS(indep_assign, same(t,a,b,c,d,i,j,k)); }
OB(indep_src)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); wreck(t); HOLDS(indep_src, same(s,a,b,c,d,i,j,k)); }
OB(indep_src_assign)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t; t=s; wreck(t); HOLDS(indep_src_assign, same(s,a,b,c,d,i,j,k)); }
OB(indep_add)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); L v[2]={0,2}; s.addFactor(s.addFunction(PF(1000,1000,1,2)),v,v+2); s.addVariable(1000); HOLDS(indep_add, same(t,a,b,c,d,i,j,k)&&s.numberOfFactors()==3&&s.numberOfVariables()==4); }
OB(extend_copy)(long e,long f,A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); L v[2]={0,2}; t.addFactor(t.addFunction(PF(1000,1000,e,f)),v,v+2); L l[8]={i,j,k}; HOLDS(extend_copy, same(s,a,b,c,d,i,j,k)&&t.numberOfFactors()==3&&t.evaluate(l)==P(a,b,i,j)+P(c,d,j,k)+P(e,f,i,k)&&t[2].variableIndex(1)==2&&t[0].variableIndex(1)==1); }
// says: the factors of a copy refer to the copy's own functions
OB(own_functions)(long e,long f,A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); G u; u=s; G::FunctionIdentifier id(1,0); t.getFunction<PF>(id)=PF(1000,1000,e,f); L l[8]={i,j,k}; HOLDS(own_functions, same(s,a,b,c,d,i,j,k)&&same(u,a,b,c,d,i,j,k)&&t.evaluate(l)==P(a,b,i,j)+P(e,f,j,k)); }
// says: the same with two function types in one model
OB(two_types)(long w,A7){ if(i>=1000||j>=1000||k>=1000) return; G2 s(SimpleDiscreteSpace<>(3,1000)); L u[2]={0,2}; s.addFactor(s.addFunction(SF(1000,1000,w)),u,u+2); L v[2]={0,1}; s.addFactor(s.addFunction(PF(1000,1000,a,b)),v,v+2); G2 t(s), x; x=s; G2::FunctionIdentifier id(0,1); s.getFunction<SF>(id)=SF(5,5,99); L l[8]={i,j,k}; HOLDS(two_types, t.evaluate(l)==Q(w,i,k)+P(a,b,i,j)&&x.evaluate(l)==Q(w,i,k)+P(a,b,i,j)&&t[0].functionType()==1&&x[1].functionType()==0); }
// says: assigning a model with another order of function types keeps values and structure
// code: graphicalmodel.hxx operator=(GraphicalModel<.., OTHER_TL, ..>); graphicalmodel_function_wrapper.hxx CopyFunctions
OB(cross)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); GX t; t=s; G::FunctionIdentifier id(0,0); s.getFunction<PF>(id)=PF(7,7,91,92); HOLDS(cross, same(t,a,b,c,d,i,j,k)&&t[0].functionType()==2&&t.numberOfFunctions(2)==2); }
OB(cross_two)(long w,A7){ if(i>=1000||j>=1000||k>=1000) return; G2 s(SimpleDiscreteSpace<>(3,1000)); L u[2]={0,2}; s.addFactor(s.addFunction(SF(1000,1000,w)),u,u+2); L v[2]={0,1}; s.addFactor(s.addFunction(PF(1000,1000,a,b)),v,v+2); GX t(SimpleDiscreteSpace<>(2,3)); t=s; L l[8]={i,j,k}; HOLDS(cross_two, t.evaluate(l)==Q(w,i,k)+P(a,b,i,j)&&t.numberOfVariables()==3&&t[0].functionType()==0&&t[1].functionType()==2&&t.factorOfVariable(2,0)==0); }
// says: a copied or assigned factor denotes the same function over the same variables
// code: graphicalmodel_factor.hxx Factor(const Factor&), operator=
OB(factor_copy)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G::FactorType f(s[1]); L y[8]={j,k}; HOLDS(factor_copy, f(y)==P(c,d,j,k)&&f.variableIndex(0)==1&&f.variableIndex(1)==2&&f.numberOfVariables()==2&&f.numberOfLabels(1)==1000); }
OB(factor_assign)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G o(SimpleDiscreteSpace<>(3,1000)); fill(o,1,2,3,4); G::FactorType f(o[0]); f=s[1]; L y[8]={j,k}; HOLDS(factor_assign, f(y)==P(c,d,j,k)&&f.variableIndex(0)==1&&f.variableIndex(1)==2&&f.numberOfVariables()==2&&f.numberOfLabels(1)==1000); }
OB(factor_assign_default)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G::FactorType f; f=s[0]; L y[8]={i,j}; HOLDS(factor_assign_default, f(y)==P(a,b,i,j)&&f.variableIndex(1)==1&&f.numberOfVariables()==2); }
// says: a factor maps the labels of the model to its own labels
// code: graphicalmodel_factor.hxx gmToFactorLabelsBegin/End
OB(gm_labels)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); L l[8]={i,j,k}; HOLDS(gm_labels, s[1](s[1].gmToFactorLabelsBegin((const L*)l))==P(c,d,j,k)&&s[1].gmToFactorLabelsEnd((const L*)l)-s[1].gmToFactorLabelsBegin((const L*)l)==2); }
// says: an independent factor made from, copied from or assigned from another has its variables, shape and values, and its own table
// code: graphicalmodel_factor.hxx IndependentFactor
typedef G::IndependentFactorType IF;
AI IF tab(long a,long b,long c,long d,long e,long f){ L v[2]={1,4},s[2]={2,3}; IF x(v,v+2,s,s+2); x(L(0),L(0))=a; x(L(1),L(0))=b; x(L(0),L(1))=c; x(L(1),L(1))=d; x(L(0),L(2))=e; x(L(1),L(2))=f; return x; }
AI bool istab(const IF& x,long a,long b,long c,long d,long e,long f){ L l[8]={1,2}; return x.numberOfVariables()==2&&x.variableIndex(0)==1&&x.variableIndex(1)==4&&x.numberOfLabels(0)==2&&x.numberOfLabels(1)==3&&x.size()==6&&x(L(0),L(0))==a&&x(L(1),L(0))==b&&x(L(0),L(1))==c&&x(L(1),L(1))==d&&x(L(0),L(2))==e&&x(L(1),L(2))==f&&x(l)==f; }
#define A6 long a,long b,long c,long d,long e,long f
OB(if_copy)(A6){ IF s=tab(a,b,c,d,e,f); IF t(s); s(L(1),L(1))=d+1; bool r=istab(t,a,b,c,d,e,f); t(L(0),L(0))=a+1; HOLDS(if_copy, r&&istab(s,a,b,c,d+1,e,f)); }
OB(if_assign)(A6){ IF s=tab(a,b,c,d,e,f); IF t(5); t=s; s(L(1),L(1))=d+1; bool r=istab(t,a,b,c,d,e,f); t(L(0),L(0))=a+1; HOLDS(if_assign, r&&istab(s,a,b,c,d+1,e,f)); }
OB(if_assign_over)(A6){ IF s=tab(a,b,c,d,e,f); L v[3]={0,1,2},sh[3]={2,2,2}; IF t(v,v+3,sh,sh+3,9); t=s; HOLDS(if_assign_over, istab(t,a,b,c,d,e,f)); }
OB(if_assign_self)(A6){ IF s=tab(a,b,c,d,e,f); IF& r=s; s=r; HOLDS(if_assign_self, istab(s,a,b,c,d,e,f)); }
typedef GraphicalModel<long,Adder,EF,SimpleDiscreteSpace<> > GE; typedef GraphicalModel<long,Adder,EF,DiscreteSpace<> > GD;
AI GD gd(A6){ L n[5]={7,2,7,7,3}; GD gm(DiscreteSpace<>(n,n+5)); L s[2]={2,3},v[2]={1,4}; EF t(s,s+2); t(0,0)=a; t(1,0)=b; t(0,1)=c; t(1,1)=d; t(0,2)=e; t(1,2)=f; gm.addFactor(gm.addFunction(t),v,v+2); return gm; }
OB(if_from_factor)(A6){ GD gm=gd(a,b,c,d,e,f); GD::IndependentFactorType x(gm[0]); HOLDS(if_from_factor, istab(x,a,b,c,d,e,f)); }
OB(if_assign_factor)(A6){ GD gm=gd(a,b,c,d,e,f); L v[3]={0,1,2},sh[3]={2,2,2}; GD::IndependentFactorType x(v,v+3,sh,sh+3,9); x=gm[0]; HOLDS(if_assign_factor, istab(x,a,b,c,d,e,f)); }
OB(if_from_factor_indep)(A6){ GD gm=gd(a,b,c,d,e,f); GD::IndependentFactorType x(gm[0]); x(L(0),L(0))=a+1; L l[8]={0,0,0,0,0}; HOLDS(if_from_factor_indep, gm.evaluate(l)==a&&istab(x,a+1,b,c,d,e,f)); }
OB(if_from_potts)(long a,long b){ typedef GraphicalModel<long,Adder,PF,DiscreteSpace<> > H; L n[5]={7,2,7,7,3}; H gm(DiscreteSpace<>(n,n+5)); L v[2]={1,4}; gm.addFactor(gm.addFunction(PF(2,3,a,b)),v,v+2); H::IndependentFactorType x(gm[0]); HOLDS(if_from_potts, istab(x,a,b,b,a,b,b)); }
OB(if_scalar)(long a,long b){ IF x(a), y(x); y=b; L z[1]={0}; bool r=x(z)==a&&x.numberOfVariables()==0&&x.size()==1; x=IF(b); HOLDS(if_scalar, r&&x(z)==b); }
OB(if_assign_scalar)(A6){ IF s=tab(a,b,c,d,e,f); s.assign(a); L z[1]={0}; HOLDS(if_assign_scalar, s.numberOfVariables()==0&&s(z)==a); }
OB(if_assign_shape)(A6){ IF s(a); L v[2]={1,4},sh[2]={2,3}; s.assign(v,v+2,sh,sh+2,b); HOLDS(if_assign_shape, istab(s,b,b,b,b,b,b)); }
OB(if_gm_shape)(A6){ GD gm=gd(a,b,c,d,e,f); L v[2]={1,4}; GD::IndependentFactorType x(gm,v,v+2,c), y(a); y.assign(gm,v,v+2,d); HOLDS(if_gm_shape, istab(x,c,c,c,c,c,c)&&istab(y,d,d,d,d,d,d)); }
// says: deliberately false (control)
OB(ctl_copy)(A7){ G s(SimpleDiscreteSpace<>(3,1000)); fill(s,a,b,c,d); G t(s); wreck(t); HOLDS(ctl_copy, same(t,a,b,c,d,i,j,k)); }
