// C01: the energy of a labeling is the combination of the factors' values.
#include "prelude.hxx"
#include "zvalue.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/constant.hxx>
using namespace opengm;
typedef ExplicitFunction<long> EF; typedef PottsFunction<long> PF; typedef PottsNFunction<long> PN; typedef SquaredDifferenceFunction<long> SF; typedef AbsoluteDifferenceFunction<long> AF; typedef ConstantFunction<long> CF;
template<class OP> struct M1 { typedef GraphicalModel<long,OP,PF,SimpleDiscreteSpace<> > type; };
template<class OP> struct M3 { typedef GraphicalModel<long,OP,typename meta::TypeListGenerator<PF,SF,CF>::type,SimpleDiscreteSpace<> > type; };
typedef M1<Adder>::type G1; typedef M3<Adder>::type G3;
static inline long P(long a,long b,L i,L j){ return i==j?a:b; }
static inline bool sm(L i){ return i<1000; }

// says: one pairwise factor: energy = function value at the labels of its two variables, in order
// code: graphicalmodel.hxx evaluate, addFunction, addFactor; graphicalmodel_factor.hxx operator()
OB(one_factor)(long a,long b,L i,L j,L k){ G1 gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,2}; gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); L l[8]={i,j,k}; HOLDS(one_factor, gm.evaluate(l)==P(a,b,i,k)); }
OB(one_factor_vec)(long a,long b,L i,L j){ G1 gm(SimpleDiscreteSpace<>(2,1000)); std::vector<L> v(2); v[1]=1; gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v.begin(),v.end()); std::vector<L> l(2); l[0]=i; l[1]=j; HOLDS(one_factor_vec, gm.evaluate(l)==P(a,b,i,j) && gm.evaluate(l.begin())==P(a,b,i,j)); }
// says: the labels of a factor are passed in the order of its variables
OB(asym)(long w,L i,L j,L k){ if(!sm(i)||!sm(j)||!sm(k)) return; typedef GraphicalModel<long,Adder,EF,SimpleDiscreteSpace<> > G; G gm(SimpleDiscreteSpace<>(3,2)); L s[2]={2,2}; EF f(s,s+2,0); f(0,1)=w; L v[2]={1,2}; gm.addFactor(gm.addFunction(f),v,v+2); L l[8]={0,0,1}, m[8]={0,1,0}, n[8]={1,0,0}; HOLDS(asym, gm.evaluate(l)==w&&gm.evaluate(m)==0&&gm.evaluate(n)==0); }
// says: the energy accumulates all factors from the neutral element
#define ACC(nm,OP,NEU,COMB) OB(nm)(long a,long b,long c,long d,L i,L j,L k){ typedef M1<OP>::type G; G gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},w[2]={1,2}; gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); gm.addFactor(gm.addFunction(PF(1000,1000,c,d)),w,w+2); L l[8]={i,j,k}; long x=P(a,b,i,j),y=P(c,d,j,k); HOLDS(nm, gm.evaluate(l)==(COMB)); }
ACC(acc_adder,Adder,0,x+y) ACC(acc_multiplier,Multiplier,1,x*y) ACC(acc_or,Or,0,x|y)
OB(acc_min)(long a,long b,long c,long d,L i,L j,L k){ const long B=1L<<40; if(a<-B||a>B||b<-B||b>B||c<-B||c>B||d<-B||d>B) return; typedef PottsFunction<Z> F; typedef GraphicalModel<Z,Minimizer,F,SimpleDiscreteSpace<> > G; G gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},w[2]={1,2}; gm.addFactor(gm.addFunction(F(1000,1000,a,b)),v,v+2); gm.addFactor(gm.addFunction(F(1000,1000,c,d)),w,w+2); L l[8]={i,j,k}; long x=P(a,b,i,j),y=P(c,d,j,k); HOLDS(acc_min, gm.evaluate(l).v==(x<y?x:y)); }
OB(acc_max)(long a,long b,long c,long d,L i,L j,L k){ const long B=1L<<40; if(a<-B||a>B||b<-B||b>B||c<-B||c>B||d<-B||d>B) return; typedef PottsFunction<Z> F; typedef GraphicalModel<Z,Maximizer,F,SimpleDiscreteSpace<> > G; G gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},w[2]={1,2}; gm.addFactor(gm.addFunction(F(1000,1000,a,b)),v,v+2); gm.addFactor(gm.addFunction(F(1000,1000,c,d)),w,w+2); L l[8]={i,j,k}; long x=P(a,b,i,j),y=P(c,d,j,k); HOLDS(acc_max, gm.evaluate(l).v==(x>y?x:y)); }
// says: a model without factors has the neutral energy
OB(no_factor)(L i,L j){ G1 gm(SimpleDiscreteSpace<>(2,1000)); M1<Multiplier>::type gp(SimpleDiscreteSpace<>(2,1000)); L l[8]={i,j}; HOLDS(no_factor, gm.evaluate(l)==0&&gp.evaluate(l)==1&&gm.factorOrder()==0); }
// says: factors may share one function
OB(shared)(long a,long b,L i,L j,L k){ G1 gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},w[2]={1,2},u[2]={0,2}; G1::FunctionIdentifier f=gm.addFunction(PF(1000,1000,a,b)); gm.addFactor(f,v,v+2); gm.addFactor(f,w,w+2); gm.addFactor(f,u,u+2); L l[8]={i,j,k}; HOLDS(shared, gm.evaluate(l)==P(a,b,i,j)+P(a,b,j,k)+P(a,b,i,k)); }
OB(same_scope_twice)(long a,long b,long c,long d,L i,L j){ G1 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1}; gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); gm.addFactor(gm.addFunction(PF(1000,1000,c,d)),v,v+2); L l[8]={i,j}; HOLDS(same_scope_twice, gm.evaluate(l)==P(a,b,i,j)+P(c,d,i,j)); }
// says: addSharedFunction re-uses an equal function and only an equal one
// code: graphicalmodel.hxx addSharedFunction
OB(add_shared)(long a,long b,long c,long d,L i,L j){ G1 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1}; G1::FunctionIdentifier f=gm.addSharedFunction(PF(1000,1000,a,b)), g=gm.addSharedFunction(PF(1000,1000,c,d)); gm.addFactor(f,v,v+2); gm.addFactor(g,v,v+2); L l[8]={i,j}; HOLDS(add_shared, gm.evaluate(l)==P(a,b,i,j)+P(c,d,i,j) && (f==g)==(a==c&&b==d)); }
OB(add_shared3)(long a,long b,long c,L i,L j){ if(a==b||b==c||a==c) return; G1 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1}; G1::FunctionIdentifier f=gm.addSharedFunction(PF(1000,1000,0,a)), g=gm.addSharedFunction(PF(1000,1000,0,b)), h=gm.addSharedFunction(PF(1000,1000,0,b)); gm.addFactor(h,v,v+2); L l[8]={i,j}; HOLDS(add_shared3, gm.evaluate(l)==P(0,b,i,j) && g==h && !(f==g)); }
// says: functions of different types in one model are each evaluated as themselves
// code: graphicalmodel_function_wrapper.hxx FunctionWrapper
#define MIX(nm,FST,FV,SND,SV) OB(nm)(long a,long b,long w,long c,L i,L j,L k){ if(!sm(i)||!sm(j)||!sm(k)) return; G3 gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},u[2]={1,2},s[2]={1000,1000}; gm.addFactor(gm.addFunction(FST),v,v+2); gm.addFactor(gm.addFunction(SND),u,u+2); L l[8]={i,j,k}; L p=i,q=j; long x=FV; p=j;q=k; long y=SV; HOLDS(nm, gm.evaluate(l)==x+y); }
#define SQ(w,p,q) ((long(p)-long(q))*(long(p)-long(q))*w)
MIX(mix_ps,PF(1000,1000,a,b),P(a,b,p,q),SF(1000,1000,w),SQ(w,p,q))
MIX(mix_sp,SF(1000,1000,w),SQ(w,p,q),PF(1000,1000,a,b),P(a,b,p,q))
MIX(mix_cs,CF(s,s+2,c),c,SF(1000,1000,w),SQ(w,p,q))
MIX(mix_pc,PF(1000,1000,a,b),P(a,b,p,q),CF(s,s+2,c),c)
OB(mix3)(long a,long b,long w,long c,L i,L j){ if(!sm(i)||!sm(j)) return; G3 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1},s[2]={1000,1000}; gm.addFactor(gm.addFunction(CF(s,s+2,c)),v,v+2); gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); gm.addFactor(gm.addFunction(SF(1000,1000,w)),v,v+2); L l[8]={i,j}; HOLDS(mix3, gm.evaluate(l)==c+P(a,b,i,j)+SQ(w,i,j)); }
// says: factors of order 0, 1 and 3
OB(order0)(long c,long a,long b,L i,L j){ G3 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1},s[2]; gm.addFactor(gm.addFunction(CF(s,s,c)),v,v); gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); L l[8]={i,j}; HOLDS(order0, gm.evaluate(l)==c+P(a,b,i,j)); }
OB(order1)(long a,long b,long c){ typedef GraphicalModel<long,Adder,EF,SimpleDiscreteSpace<> > G; G gm(SimpleDiscreteSpace<>(2,3)); L s[1]={3}; EF f(s,s+1,0); f(0)=a;f(1)=b;f(2)=c; L v[2]={1}; gm.addFactor(gm.addFunction(f),v,v+1); L l[8]={2,0},m[8]={0,1},n[8]={1,2}; HOLDS(order1, gm.evaluate(l)==a&&gm.evaluate(m)==b&&gm.evaluate(n)==c); }
OB(order3)(long a,long b,L i,L j,L k,L m){ typedef GraphicalModel<long,Adder,PN,SimpleDiscreteSpace<> > G; G gm(SimpleDiscreteSpace<>(4,1000)); L s[3]={1000,1000,1000}; L v[3]={0,2,3}; gm.addFactor(gm.addFunction(PN(s,s+3,a,b)),v,v+3); L l[8]={i,j,k,m}; HOLDS(order3, gm.evaluate(l)==((i==k&&k==m)?a:b)); }
OB(order_mixed)(long a,long b,long c,L i,L j,L k){ typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PN,CF>::type,SimpleDiscreteSpace<> > G; G gm(SimpleDiscreteSpace<>(3,1000)); L s[3]={1000,1000,1000}; L v[3]={0,1,2}; gm.addFactor(gm.addFunction(PN(s,s+3,a,b)),v,v+3); gm.addFactor(gm.addFunction(CF(s,s+1,c)),v+2,v+3); L l[8]={i,j,k}; HOLDS(order_mixed, gm.evaluate(l)==((i==j&&j==k)?a:b)+c && gm.factorOrder()==3); }
// says: a single factor's value is its function's value at the labels given to it, and it reports its shape
// code: graphicalmodel_factor.hxx Factor
OB(factor_value)(long a,long b,L i,L j){ G1 gm(SimpleDiscreteSpace<>(5,1000)); L v[2]={1,3}; L f=gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); L l[8]={i,j}; HOLDS(factor_value, f==0 && gm[0](l)==P(a,b,i,j) && gm[f].numberOfVariables()==2 && gm[f].dimension()==2 && gm[f].size()==1000000 && gm[f].shape(0)==1000 && gm[f].shape(1)==1000 && gm[f].numberOfLabels(1)==1000 && gm[f].variableIndex(0)==1 && gm[f].variableIndex(1)==3); }
OB(factor_fn)(long a,long b,L i,L j){ G3 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1},s[2]={1000,1000}; gm.addFunction(CF(s,s+2,7)); G3::FunctionIdentifier d=gm.addFunction(PF(1000,1000,b,a)),e=gm.addFunction(PF(1000,1000,a,b)); gm.addFactor(d,v,v+2); L f=gm.addFactor(e,v,v+2); L l[8]={i,j}; const PF& p=gm[f].function<0>(); HOLDS(factor_fn, gm[f].functionType()==0&&gm[f].functionIndex()==1&&p(l)==P(a,b,i,j)&&gm[0].functionIndex()==0&&gm[0](l)==P(b,a,i,j)); }
OB(factor_shape_ds)(L a,L b){ typedef GraphicalModel<long,Adder,PF,DiscreteSpace<> > G; L n[3]={a,9,b}; G gm((DiscreteSpace<>(n,n+3))); L v[2]={0,2}; gm.addFactor(gm.addFunction(PF(a,b,1,2)),v,v+2); HOLDS(factor_shape_ds, gm[0].numberOfLabels(0)==a&&gm[0].numberOfLabels(1)==b&&gm[0].size()==a*b); }
// says: changing a stored function through its reference changes the energy of all factors that use it
// code: graphicalmodel.hxx getFunction, addFunctionWithRefReturn
OB(get_function)(long a,long b,long c,L i,L j){ G3 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1}; gm.addFunction(PF(1000,1000,1,2)); G3::FunctionIdentifier f=gm.addFunction(PF(1000,1000,a,b)); gm.addFactor(f,v,v+2); gm.getFunction<PF>(f)=PF(1000,1000,c,b); L l[8]={i,j}; HOLDS(get_function, gm.evaluate(l)==P(c,b,i,j)); }
OB(ref_return)(long a,long b,long c,L i,L j){ G1 gm(SimpleDiscreteSpace<>(2,1000)); L v[2]={0,1}; std::pair<G1::FunctionIdentifier,PF&> r=gm.addFunctionWithRefReturn(PF(1000,1000,a,b)); r.second=PF(1000,1000,c,b); gm.addFactor(r.first,v,v+2); L l[8]={i,j}; HOLDS(ref_return, gm.evaluate(l)==P(c,b,i,j)&&r.first.functionIndex==0&&r.first.functionType==0); }
// says: deferred construction evaluates like immediate construction
OB(nonfinal)(long a,long b,long c,long d,L i,L j,L k){ G1 gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,1},w[2]={1,2}; gm.addFactorNonFinalized(gm.addFunction(PF(1000,1000,a,b)),v,v+2); gm.addFactorNonFinalized(gm.addFunction(PF(1000,1000,c,d)),w,w+2); gm.finalize(); L l[8]={i,j,k}; HOLDS(nonfinal, gm.evaluate(l)==P(a,b,i,j)+P(c,d,j,k)); }
// says: deliberately false (control)
OB(ctl_energy)(long a,long b,L i,L j,L k){ G1 gm(SimpleDiscreteSpace<>(3,1000)); L v[2]={0,2}; gm.addFactor(gm.addFunction(PF(1000,1000,a,b)),v,v+2); L l[8]={i,j,k}; HOLDS(ctl_energy, gm.evaluate(l)==P(a,b,i,j)); }
