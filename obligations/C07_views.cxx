// C07: view functions denote the documented transformation of the viewed function.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/functions/view.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/functions/scaled_view.hxx>
#include <opengm/functions/accumulated_view.hxx>
#include <opengm/functions/view_convert_function.hxx>
#include <opengm/functions/modelviewfunction.hxx>
using namespace opengm;
#define AI static inline __attribute__((always_inline))
typedef ExplicitFunction<long> EF; typedef PottsFunction<long> PF; typedef SquaredDifferenceFunction<long> SF;
// a function of any arity whose value is a fixed injective combination of the labels: sum w_i * l_i
struct Lin : FunctionBase<Lin,long,L,L> { typedef long ValueType; typedef L IndexType; typedef L LabelType; L n; L s[5]; long w[5]; Lin():n(0){}
  template<class It> long operator()(It b) const { long r=0; for(L i=0;i<n;++i) r+=w[i]*long(b[i]); return r; } L shape(L i) const { return s[i]; } L dimension() const { return n; } L size() const { L r=1; for(L i=0;i<n;++i) r*=s[i]; return r; } };
namespace opengm { template<> struct FunctionRegistration<Lin>{ enum ID{Id=999}; };
  template<> class FunctionSerialization<Lin>{ public: static size_t indexSequenceSize(const Lin&){ return 0; } static size_t valueSequenceSize(const Lin&){ return 0; } template<class A,class B> static void serialize(const Lin&,A,B){} template<class A,class B> static void deserialize(A,B,Lin&){} }; }
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<Lin,PF,EF>::type,DiscreteSpace<> > G;
typedef GraphicalModel<long,Multiplier,meta::TypeListGenerator<Lin,PF>::type,DiscreteSpace<> > GP;
AI Lin lin(L n,long a,long b=0,long c=0,long d=0){ Lin f; f.n=n; f.w[0]=a; f.w[1]=b; f.w[2]=c; f.w[3]=d; f.w[4]=0; for(L i=0;i<5;++i) f.s[i]=i+2; return f; }
#define MODEL(T) L n_[5]={2,3,4,5,6}, v_[5]={0,1,2,3,4}; T gm(DiscreteSpace<>(n_,n_+5))
// says: a view has the values and the shape of the viewed factor
// code: functions/view.hxx
OB(view_value)(long a,long b,long c,L i,L j,L k){ MODEL(G); L x=gm.addFactor(gm.addFunction(lin(3,a,b,c)),v_,v_+3); ViewFunction<G> f(gm[x]); L l[8]={i,j,k}; HOLDS(view_value, f(l)==a*long(i)+b*long(j)+c*long(k)); }
OB(view_shape)(long a,L i){ MODEL(G); L w[2]={1,3}; PF p(3,5,a,2); L x=gm.addFactor(gm.addFunction(p),w,w+2); ViewFunction<G> f(gm[x]); HOLDS(view_shape, f.dimension()==2&&f.shape(0)==3&&f.shape(1)==5&&f.size()==15); }
OB(view_which)(long a,long b,L i,L j){ MODEL(G); gm.addFactor(gm.addFunction(lin(2,1,1)),v_,v_+2); L x=gm.addFactor(gm.addFunction(PF(2,3,a,b)),v_,v_+2); gm.addFactor(gm.addFunction(lin(2,2,2)),v_,v_+2); ViewFunction<G> f(gm[x]); L l[8]={i,j}; HOLDS(view_which, f(l)==(i==j?a:b)); }
OB(view_follows)(long a,long b,long c,L i,L j){ MODEL(G); G::FunctionIdentifier id=gm.addFunction(lin(2,a,b)); L x=gm.addFactor(id,v_,v_+2); ViewFunction<G> f(gm[x]); L l[8]={i,j}; long r=f(l); gm.getFunction<Lin>(id).w[1]=c; HOLDS(view_follows, r==a*long(i)+b*long(j)&&f(l)==a*long(i)+c*long(j)); }
// says: fixing variables inserts the fixed labels at their positions; the remaining labels keep their order
// code: functions/view_fix_variables_function.hxx
typedef PositionAndLabel<L,L> PL; typedef ViewFixVariablesFunction<G> VF;
AI std::vector<PL> pls(L n,L p0=0,L l0=0,L p1=0,L l1=0,L p2=0,L l2=0){ std::vector<PL> r; if(n>0) r.push_back(PL(p0,l0)); if(n>1) r.push_back(PL(p1,l1)); if(n>2) r.push_back(PL(p2,l2)); return r; }
#define FIXB(nm,N,DIM,FIXED,VALUE,SHAPES,SIZE) OB(fix_##nm)(long a,long b,long c,long d,L i,L j,L k,L m){ if(m>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(N,a,b,c,d)),v_,v_+N); VF f(gm[x],FIXED); L l[8]={i,j,k}; HOLDS(fix_##nm, f(l)==(VALUE)&&f(l)==(VALUE)); } \
  OB(fixshape_##nm)(long a,L m){ if(m>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(N,a,1,1,1)),v_,v_+N); VF f(gm[x],FIXED); HOLDS(fixshape_##nm, f.dimension()==DIM&&(SHAPES)&&f.size()==SIZE&&f.size()==SIZE); }
#define X(z) long(z)
FIXB(none,2,2,pls(0),a*X(i)+b*X(j),f.shape(0)==2&&f.shape(1)==3,6)
FIXB(f0of2,2,1,pls(1,0,m),a*X(m)+b*X(i),f.shape(0)==3,3) FIXB(f1of2,2,1,pls(1,1,m),a*X(i)+b*X(m),f.shape(0)==2,2)
FIXB(f0of3,3,2,pls(1,0,m),a*X(m)+b*X(i)+c*X(j),f.shape(0)==3&&f.shape(1)==4,12) FIXB(f1of3,3,2,pls(1,1,m),a*X(i)+b*X(m)+c*X(j),f.shape(0)==2&&f.shape(1)==4,8) FIXB(f2of3,3,2,pls(1,2,m),a*X(i)+b*X(j)+c*X(m),f.shape(0)==2&&f.shape(1)==3,6)
FIXB(f01of3,3,1,pls(2,0,m,1,1),a*X(m)+b+c*X(i),f.shape(0)==4,4) FIXB(f02of3,3,1,pls(2,0,1,2,m),a+b*X(i)+c*X(m),f.shape(0)==3,3) FIXB(f12of3,3,1,pls(2,1,m,2,1),a*X(i)+b*X(m)+c,f.shape(0)==2,2)
FIXB(f20of3,3,1,pls(2,2,m,0,1),a+b*X(i)+c*X(m),f.shape(0)==3,3) FIXB(f20of4,4,2,pls(2,2,m,0,1),a+b*X(i)+c*X(m)+d*X(j),f.shape(0)==3&&f.shape(1)==5,15) FIXB(f21of4,4,2,pls(2,2,m,1,1),a*X(i)+b+c*X(m)+d*X(j),f.shape(0)==2&&f.shape(1)==5,10) FIXB(f310of4,4,1,pls(3,3,m,1,1,0,0),b+c*X(i)+d*X(m),f.shape(0)==4,4)
FIXB(f12of4,4,2,pls(2,1,m,2,1),a*X(i)+b*X(m)+c+d*X(j),f.shape(0)==2&&f.shape(1)==5,10) FIXB(f02of4,4,2,pls(2,0,m,2,1),a*X(m)+b*X(i)+c+d*X(j),f.shape(0)==3&&f.shape(1)==5,15)
FIXB(all2,2,0,pls(2,0,m,1,1),a*X(m)+b,true,1) FIXB(all3,3,0,pls(3,0,1,1,m,2,0),a+b*X(m),true,1) FIXB(one,1,0,pls(1,0,m),a*X(m),true,1)
// says: the label set of a fixed view may come from any container; the view owns its copy of it
OB(fix_own)(long a,long b,L i,L m){ if(m>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); std::vector<PL> q=pls(1,0,m); VF f(gm[x],q); q[0].label_=7; q[0].position_=1; L l[8]={i}; HOLDS(fix_own, f(l)==a*X(m)+b*X(i)); }
OB(fix_other_container)(long a,long b,L i,L m){ if(m>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); BufferVector<PL> q; q.push_back(PL(0,m)); VF f(gm[x],q); L l[8]={i}; HOLDS(fix_other_container, f(l)==a*X(m)+b*X(i)&&f.dimension()==1&&f.shape(0)==3); }
OB(fix_copy)(long a,long b,long c,L i,L j,L m){ if(m>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(3,a,b,c)),v_,v_+3); VF f(gm[x],pls(1,1,m)), g(gm[x],pls(1,0,1)); L l[8]={i,j},k[8]={j,i}; long r=f(l); VF h(f); g=f; r+=f(k); HOLDS(fix_copy, h(l)==a*X(i)+b*X(m)+c*X(j)&&g(l)==a*X(i)+b*X(m)+c*X(j)&&r==a*X(i)+2*b*X(m)+c*X(j)+a*X(j)+c*X(i)); }
OB(fix_follows)(long a,long b,long c,L i,L m){ if(m>=2) return; MODEL(G); G::FunctionIdentifier id=gm.addFunction(lin(2,a,b)); L x=gm.addFactor(id,v_,v_+2); VF f(gm[x],pls(1,0,m)); L l[8]={i}; long r=f(l); gm.getFunction<Lin>(id).w[1]=c; HOLDS(fix_follows, r==a*X(m)+b*X(i)&&f(l)==a*X(m)+c*X(i)); }
OB(fix_later_vars)(long a,long b,long c,L i,L m){ if(m>=2) return; MODEL(G); L w[3]={1,2,4}; Lin q=lin(3,a,b,c); q.s[0]=3; q.s[1]=4; q.s[2]=6; L x=gm.addFactor(gm.addFunction(q),w,w+3); VF f(gm[x],pls(2,0,m,1,1)); L l[8]={i}; HOLDS(fix_later_vars, f(l)==a*X(m)+b+c*X(i)&&f.shape(0)==6); }
// says: a scaled view multiplies the values; without a factor it is the operator's neutral element
// code: functions/scaled_view.hxx
OB(scaled)(long a,long b,long s,L i,L j){ MODEL(G); gm.addFactor(gm.addFunction(lin(1,7)),v_,v_+1); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); ScaledViewFunction<G> f(gm,x,s); L l[8]={i,j}; HOLDS(scaled, f(l)==s*(a*X(i)+b*X(j))&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
OB(scaled_one)(long a,long s,L i){ MODEL(G); L w=3; L x=gm.addFactor(gm.addFunction(lin(1,a)),&w,&w+1); ScaledViewFunction<G> f(gm,x,s); L l[8]={i}; HOLDS(scaled_one, f(l)==s*a*X(i)&&f.dimension()==1&&f.shape(0)==5&&f.size()==5); }
OB(scaled_neutral)(L i,L j){ std::vector<L> s; s.push_back(3); s.push_back(5); ScaledViewFunction<G> f(s); ScaledViewFunction<GP> g(s); L l[8]={i,j}; HOLDS(scaled_neutral, f(l)==0&&g(l)==1&&f.dimension()==2&&f.shape(0)==3&&f.shape(1)==5&&f.size()==15&&g.size()==15); }
OB(scaled_nullary)(){ std::vector<L> s; ScaledViewFunction<G> f(s); L l[1]={0}; HOLDS(scaled_nullary, f(l)==0&&f.dimension()==0&&f.size()==1); }
OB(scaled_follows)(long a,long c,long s,L i){ MODEL(G); G::FunctionIdentifier id=gm.addFunction(lin(1,a)); L x=gm.addFactor(id,v_,v_+1); ScaledViewFunction<G> f(gm,x,s); L l[8]={i}; gm.getFunction<Lin>(id).w[0]=c; HOLDS(scaled_follows, f(l)==s*c*X(i)); }
// says: an accumulated view combines all its factors with the model's operator
// code: functions/accumulated_view.hxx
OB(accum1)(long a,long b,L i,L j){ MODEL(G); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); AccumulatedViewFunction<G> f(gm[x]); L l[8]={i,j}; HOLDS(accum1, f(l)==a*X(i)+b*X(j)&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
OB(accum2)(long a,long b,long c,long d,L i,L j){ MODEL(G); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2), y=gm.addFactor(gm.addFunction(PF(2,3,c,d)),v_,v_+2); const G::FactorType* q[2]={&gm[x],&gm[y]}; AccumulatedViewFunction<G> f(q,q+2); L l[8]={i,j}; HOLDS(accum2, f(l)==a*X(i)+b*X(j)+(i==j?c:d)&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
OB(accum2_mul)(long a,long b,long c,long d,L i,L j){ MODEL(GP); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2), y=gm.addFactor(gm.addFunction(PF(2,3,c,d)),v_,v_+2); const GP::FactorType* q[2]={&gm[x],&gm[y]}; AccumulatedViewFunction<GP> f(q,q+2); L l[8]={i,j}; HOLDS(accum2_mul, f(l)==(a*X(i)+b*X(j))*(i==j?c:d)); }
OB(accum3)(long a,long b,long c,L i){ MODEL(G); L x=gm.addFactor(gm.addFunction(lin(1,a)),v_,v_+1), y=gm.addFactor(gm.addFunction(lin(1,b)),v_,v_+1), z=gm.addFactor(gm.addFunction(lin(1,c)),v_,v_+1); const G::FactorType* q[3]={&gm[x],&gm[y],&gm[z]}; AccumulatedViewFunction<G> f(q,q+3); L l[8]={i}; HOLDS(accum3, f(l)==(a+b+c)*X(i)); }
// says: the same factor may be accumulated repeatedly
OB(accum_rep)(long a,L i){ MODEL(G); L x=gm.addFactor(gm.addFunction(lin(1,a)),v_,v_+1); const G::FactorType* q[2]={&gm[x],&gm[x]}; AccumulatedViewFunction<G> f(q,q+2); L l[8]={i}; HOLDS(accum_rep, f(l)==2*a*X(i)); }
// says: a model view has the scaled values of the factor, plus the offset where one is given
// code: functions/modelviewfunction.hxx
AI EF off(L n,L m,long p,long q){ L s[2]={n,m}; EF f(s,s+2,0); for(L j=0;j<m;++j) for(L i=0;i<n;++i) f(i,j)=p*X(i)+q*X(j)+1; return f; }
OB(mview)(long a,long b,long s,L i,L j){ MODEL(G); gm.addFactor(gm.addFunction(lin(1,7)),v_,v_+1); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); ModelViewFunction<G,EF> f(gm,x,s); L l[8]={i,j}; HOLDS(mview, f(l)==s*(a*X(i)+b*X(j))&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
#ifdef NDEBUG
OB(mview_off)(long a,long b,long s,long p,long q){ MODEL(G); gm.addFactor(gm.addFunction(lin(1,7)),v_,v_+1); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); EF o=off(2,3,p,q); ModelViewFunction<G,EF> f(gm,x,s,&o); bool r=true; for(L i=0;i<2;++i) for(L j=0;j<3;++j){ L l[2]={i,j}; r=r&&f(l)==s*(a*X(i)+b*X(j))+p*X(i)+q*X(j)+1; } HOLDS(mview_off, r&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
#endif
OB(mview_off22)(long a,long b,long s,long p,long q,L i){ if(i>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(1,a)),v_,v_+1); L t[1]={2}; EF o(t,t+1,0); o(0)=p; o(1)=q; ModelViewFunction<G,EF> f(gm,x,s,&o); L l[1]={i}; HOLDS(mview_off22, f(l)==s*a*X(i)+(i==0?p:q)&&f.dimension()==1&&f.shape(0)==2&&f.size()==2); }
OB(mview_only)(long p,long q){ EF o=off(2,3,p,q); ModelViewFunction<G,EF> f(&o); bool r=true; for(L i=0;i<2;++i) for(L j=0;j<3;++j){ L l[2]={i,j}; r=r&&f(l)==p*X(i)+q*X(j)+1; } HOLDS(mview_only, r&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
OB(mview_follows)(long a,long c,long s,long p,long q){ MODEL(G); G::FunctionIdentifier id=gm.addFunction(lin(2,a,a)); L x=gm.addFactor(id,v_,v_+2); EF o=off(2,3,p,q); ModelViewFunction<G,EF> f(gm,x,s,&o); o(1,2)=c; gm.getFunction<Lin>(id).w[0]=p; L l[2]={1,2}; HOLDS(mview_follows, f(l)==s*(p+2*a)+c); }
OB(mview_scale0)(long a,L i,L j){ MODEL(G); L x=gm.addFactor(gm.addFunction(lin(2,a,a)),v_,v_+2); ModelViewFunction<G,EF> f(gm,x,0); L l[8]={i,j}; HOLDS(mview_scale0, f(l)==0); }
// says: conversion to probabilities applies the exponential with the sign of the optimisation direction and the inverse temperature
// code: functions/view_convert_function.hxx
typedef ExplicitFunction<double> ED; typedef PottsFunction<double> PD;
typedef GraphicalModel<double,Adder,PD,DiscreteSpace<> > GD; typedef GraphicalModel<double,Multiplier,PD,DiscreteSpace<> > GM;
#define CONV(nm,T,ACC,EXPR,EXPRT) OB(conv_##nm)(double a,double b,double t,L i,L j){ MODEL(T); L x=gm.addFactor(gm.addFunction(PD(2,3,a,b)),v_,v_+2); ViewConvertFunction<T,ACC,double> f(gm[x]), g(gm[x],t); L l[8]={i,j}; double y= i==j?a:b, e=(EXPR), h=(EXPRT); double p=f(l),q=g(l); HOLDS(conv_##nm, (p==e||e!=e)&&(q==h||h!=h)&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
CONV(sum_max,GD,Maximizer,std::exp(y),std::exp(t*y)) CONV(sum_min,GD,Minimizer,std::exp(-y),std::exp(-t*y)) CONV(prod_max,GM,Maximizer,y,y) CONV(prod_min,GM,Minimizer,1.0/y,1.0/y)
// says: deliberately false (control)
OB(ctl_view)(long a,long b,L i,L m){ if(m>=2) return; MODEL(G); L x=gm.addFactor(gm.addFunction(lin(2,a,b)),v_,v_+2); VF f(gm[x],pls(1,0,m)); L l[8]={i}; HOLDS(ctl_view, f(l)==a*X(i)+b*X(m)); }
