// C11: accumulation is marginalization, factor arithmetic is pointwise combination on the union of the variables.
#include "prelude.hxx"
#include "zvalue.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
using namespace opengm;
#define AI static inline __attribute__((always_inline))
// a table of any arity (up to 3) over entries p[]; first label fastest; and the entry itself
template<class T> struct Tab { typedef ExplicitFunction<T,L,L> F; typedef IndependentFactor<T,L,L> I; };
template<class T> AI ExplicitFunction<T,L,L> tab(L n,const L* s,const T* p){ if(n==0) return ExplicitFunction<T,L,L>(p[0]); ExplicitFunction<T,L,L> f(s,s+n); L m=f.size(); for(L i=0;i<m;++i) f(i)=p[i]; return f; }
template<class T> AI void fill(IndependentFactor<T,L,L>& f,const T* p){ for(L i=0;i<f.size();++i) f(i)=p[i]; }
struct NotZ { template<class T> T operator()(const T& a) const { return a*T(3)+T(1); } };
struct Mix { template<class A,class B> A operator()(const A& a,const B& b) const { return a*A(5)-b*A(7); } };   // neither commutative nor associative
#define Z6 Z p[8]={Z(a),Z(b),Z(c),Z(d),Z(e),Z(g),Z(0),Z(0)}
#define R(x) ((x)>-(1L<<40)&&(x)<(1L<<40))
#define ZB if(!(R(a)&&R(b)&&R(c)&&R(d)&&R(e)&&R(g))) return
typedef Tab<Z>::F ZF; typedef Tab<Z>::I ZI; typedef Tab<long>::F LF; typedef Tab<long>::I LI;
AI long mn(long a,long b){ return b<a?b:a; } AI long mx(long a,long b){ return a<b?b:a; }
static const L s23[3]={2,3,0}, s12[3]={2,0,0}, s222[3]={2,2,2}, s32[3]={3,2,0};
// ---------------------------------------------------------------- accumulate over everything
// says: accumulating a function over all its variables gives the accumulation of all its entries
// code: functions/operations/accumulator.hxx AccumulateAllImpl, utilities/accumulation.hxx
OB(all_sum0)(long a){ Z p[1]={Z(a)}; ZF f=tab<Z>(0,s23,p); Z r(9); AccumulateAllImpl<ZF,Z,Integrator>::op(f,r); HOLDS(all_sum0, r.v==a); }
OB(all_sum1)(long a,long b,long c){ Z p[3]={Z(a),Z(b),Z(c)}; L s[1]={3}; ZF f=tab<Z>(1,s,p); Z r(9); AccumulateAllImpl<ZF,Z,Integrator>::op(f,r); HOLDS(all_sum1, r.v==a+b+c); }
OB(all_sum2)(long a,long b,long c,long d,long e,long g){ Z6; ZF f=tab<Z>(2,s23,p); Z r(9); AccumulateAllImpl<ZF,Z,Integrator>::op(f,r); HOLDS(all_sum2, r.v==a+b+c+d+e+g); }
OB(all_prod2)(long a,long b,long c,long d){ Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Z r(9); AccumulateAllImpl<ZF,Z,Multiplier>::op(f,r); HOLDS(all_prod2, r.v==a*b*c*d); }
OB(all_min2)(long a,long b,long c,long d){ long e=0,g=0; ZB; Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Z r(9); AccumulateAllImpl<ZF,Z,Minimizer>::op(f,r); HOLDS(all_min2, r.v==mn(mn(mn(a,b),c),d)); }
OB(all_max2)(long a,long b,long c,long d){ long e=0,g=0; ZB; Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Z r(9); AccumulateAllImpl<ZF,Z,Maximizer>::op(f,r); HOLDS(all_max2, r.v==mx(mx(mx(a,b),c),d)); }
OB(all_sum3)(long a,long b,long c,long d,long e,long g,long h,long k){ Z p[8]={Z(a),Z(b),Z(c),Z(d),Z(e),Z(g),Z(h),Z(k)}; ZF f=tab<Z>(3,s222,p); Z r(9); AccumulateAllImpl<ZF,Z,Integrator>::op(f,r); HOLDS(all_sum3, r.v==a+b+c+d+e+g+h+k); }
OB(all_potts)(long a,long b,L q){ if(q<1||q>4) return; PottsFunction<Z,L,L> f(2,3,Z(a),Z(b)); Z r(9); AccumulateAllImpl<PottsFunction<Z,L,L>,Z,Integrator>::op(f,r); HOLDS(all_potts, r.v==2*a+4*b); }
// says: ... together with a labeling that attains it (the first one, in first-label-fastest order, that does)
#define S23(nm,Q,ACC,LESS) OB(state23_##nm)(long a,long b){ long c=0,d=0,e=0,g=0; ZB; if(!(b LESS a)) return; const L q=Q; Z p[6]; for(L i=0;i<6;++i) p[i]=Z(a); p[q]=Z(b); ZF f=tab<Z>(2,s23,p); Z r(9); std::vector<L> s; AccumulateAllImpl<ZF,Z,ACC>::op(f,r,s); HOLDS(state23_##nm, r==p[q]&&s.size()==2&&s[0]==q%2&&s[1]==q/2); }
#define STATE(nm,ACC,LESS) OB(state0_##nm)(long a){ long b=0,c=0,d=0,e=0,g=0; ZB; Z p[1]={Z(a)}; ZF f=tab<Z>(0,s23,p); Z r(9); std::vector<L> s(3,7); AccumulateAllImpl<ZF,Z,ACC>::op(f,r,s); HOLDS(state0_##nm, r.v==a&&s.size()==0); } \
  OB(state1_##nm)(long a,long b,long c){ long d=0,e=0,g=0; ZB; Z p[3]={Z(a),Z(b),Z(c)}; L sh[1]={3}; ZF f=tab<Z>(1,sh,p); Z r(9); std::vector<L> s(2,7); AccumulateAllImpl<ZF,Z,ACC>::op(f,r,s); \
     L w=0; long m=a; if(b LESS m){ m=b; w=1; } if(c LESS m){ m=c; w=2; } HOLDS(state1_##nm, r.v==m&&s.size()==1&&s[0]==w); } \
  OB(state2_##nm)(long a,long b,long c,long d){ long e=0,g=0; ZB; Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Z r(9); std::vector<L> s; AccumulateAllImpl<ZF,Z,ACC>::op(f,r,s); \
     L x=0,y=0; long m=a; if(b LESS m){ m=b; x=1; } if(c LESS m){ m=c; x=0; y=1; } if(d LESS m){ m=d; x=1; y=1; } HOLDS(state2_##nm, r.v==m&&s.size()==2&&s[0]==x&&s[1]==y); } \
  S23(nm##_0,0,ACC,LESS) S23(nm##_1,1,ACC,LESS) S23(nm##_2,2,ACC,LESS) S23(nm##_3,3,ACC,LESS) S23(nm##_4,4,ACC,LESS) S23(nm##_5,5,ACC,LESS)
STATE(min,Minimizer,<) STATE(max,Maximizer,>)
// says: the neutral element itself may be the accumulation of all entries; the labeling asked for still attains it
OB(state_neutral_min)(){ Z p[4]; for(L i=0;i<4;++i) p[i]=std::numeric_limits<Z>::infinity(); ZF f=tab<Z>(2,s222,p); Z r(9); std::vector<L> s; AccumulateAllImpl<ZF,Z,Minimizer>::op(f,r,s); HOLDS(state_neutral_min, r==p[0]&&s.size()==2&&s[0]<2&&s[1]<2); }
OB(state_neutral_max)(){ Z p[2]; for(L i=0;i<2;++i) p[i]=-std::numeric_limits<Z>::infinity(); L sh[1]={2}; ZF f=tab<Z>(1,sh,p); Z r(9); std::vector<L> s; AccumulateAllImpl<ZF,Z,Maximizer>::op(f,r,s); HOLDS(state_neutral_max, r==p[0]&&s.size()==1&&s[0]<2); }
// code: utilities/accumulation.hxx Accumulation
#define ACCS(nm,COND,C) OB(acc_states_##nm)(long a,long b,long c){ long d=0,e=0,g=0; ZB; if(!(COND)) return; Accumulation<Z,L,Minimizer> A; std::vector<L> s(2); FastSequence<L> t(1); s[0]=4; s[1]=5; t[0]=6; A(Z(a),s); L n1=A.size(); A(Z(b),t); A(Z(c)); \
  std::vector<L> o; FastSequence<L> o2; A.state(o); A.state(o2); long m=mn(mn(a,b),c); HOLDS(acc_states_##nm, n1==2&&A.value().v==m&&(C)); }
ACCS(second,b<a,A.size()==1&&A.state(0)==6&&o.size()==1&&o[0]==6&&o2.size()==1&&o2[0]==6) ACCS(first,!(b<a),A.size()==2&&A.state(1)==5&&o.size()==2&&o[0]==4&&o[1]==5&&o2.size()==2&&o2[1]==5)
OB(acc_clear)(long a,long b){ long c=0,d=0,e=0,g=0; ZB; Accumulation<Z,L,Integrator> A; A(Z(a)); A(Z(a)); A.clear(); A(Z(b)); HOLDS(acc_clear, A.value().v==b&&A.size()==0); }
OB(acc_clear_min)(long a,long b){ long c=0,d=0,e=0,g=0; ZB; Accumulation<Z,L,Minimizer> A; std::vector<L> s(2,1); A(Z(a),s); A.clear(); L n=A.size(); A(Z(b)); HOLDS(acc_clear_min, A.value().v==b&&n==0); }
// ---------------------------------------------------------------- accumulate over some variables
// says: for every labeling of the remaining variables, the accumulation of all entries consistent with it; the accumulated variables may be named in any order and may include absent ones
// code: functions/operations/accumulator.hxx AccumulateSomeImpl, AccumulateSomeInplaceImpl
AI std::vector<L> vec(L n,L a=0,L b=0,L c=0){ std::vector<L> r; if(n>0) r.push_back(a); if(n>1) r.push_back(b); if(n>2) r.push_back(c); return r; }
template<class ACC> struct Some { ZF b; std::vector<L> vb; ZF a2; std::vector<L> va2;
  __attribute__((always_inline)) Some(const ZF& f,const std::vector<L>& v,const std::vector<L>& acc){ Z q[2]={Z(4),Z(5)}; L s[1]={2}; b=tab<Z>(1,s,q); vb.push_back(77); a2=f; va2=v; AccumulateSomeImpl<ZF,ZF,ACC>::op(f,v,acc.begin(),acc.end(),b,vb); AccumulateSomeInplaceImpl<ZF,ACC>::op(a2,va2,acc.begin(),acc.end()); }
  __attribute__((always_inline)) bool vis(L n,L x=0,L y=0,L z=0) const { return b.dimension()==n&&a2.dimension()==n&&vb.size()==n&&va2.size()==n&&(n<1||(vb[0]==x&&va2[0]==x))&&(n<2||(vb[1]==y&&va2[1]==y))&&(n<3||(vb[2]==z&&va2[2]==z)); }
  __attribute__((always_inline)) bool shp(L n,L x=0,L y=0,L z=0) const { return b.dimension()==n&&a2.dimension()==n&&(n<1||(b.shape(0)==x&&a2.shape(0)==x))&&(n<2||(b.shape(1)==y&&a2.shape(1)==y))&&(n<3||(b.shape(2)==z&&a2.shape(2)==z)); }
  __attribute__((always_inline)) bool at(L i,long w) const { return b(i).v==w&&a2(i).v==w; } };
OB(some0_none)(long a){ Z p[1]={Z(a)}; ZF f=tab<Z>(0,s23,p); Some<Integrator> q(f,vec(0),vec(0)); HOLDS(some0_none, q.vis(0)&&q.b.size()==1&&q.a2.size()==1&&q.at(0,a)); }
OB(some0_absent)(long a){ long b=0,c=0,d=0,e=0,g=0; ZB; Z p[1]={Z(a)}; ZF f=tab<Z>(0,s23,p); Some<Minimizer> q(f,vec(0),vec(1,3)); HOLDS(some0_absent, q.vis(0)&&q.b.size()==1&&q.at(0,a)); }
OB(some1_all)(long a,long b,long c){ Z p[3]={Z(a),Z(b),Z(c)}; L s[1]={3}; ZF f=tab<Z>(1,s,p); Some<Integrator> q(f,vec(1,4),vec(1,4)); HOLDS(some1_all, q.vis(0)&&q.b.size()==1&&q.a2.size()==1&&q.at(0,a+b+c)); }
OB(some1_none)(long a,long b,long c){ Z p[3]={Z(a),Z(b),Z(c)}; L s[1]={3}; ZF f=tab<Z>(1,s,p); Some<Integrator> q(f,vec(1,4),vec(1,3)); HOLDS(some1_none, q.vis(1,4)&&q.shp(1,3)&&q.at(0,a)&&q.at(1,b)&&q.at(2,c)); }
OB(some2_none)(long a,long b,long c,long d,long e,long g){ Z6; ZF f=tab<Z>(2,s23,p); Some<Integrator> q(f,vec(2,1,4),vec(0)); HOLDS(some2_none, q.vis(2,1,4)&&q.shp(2,2,3)&&q.at(0,a)&&q.at(1,b)&&q.at(2,c)&&q.at(3,d)&&q.at(4,e)&&q.at(5,g)); }
OB(some2_first)(long a,long b,long c,long d,long e,long g){ Z6; ZF f=tab<Z>(2,s23,p); Some<Integrator> q(f,vec(2,1,4),vec(1,1)); HOLDS(some2_first, q.vis(1,4)&&q.shp(1,3)&&q.at(0,a+b)&&q.at(1,c+d)&&q.at(2,e+g)); }
OB(some2_second)(long a,long b,long c,long d,long e,long g){ Z6; ZF f=tab<Z>(2,s23,p); Some<Integrator> q(f,vec(2,1,4),vec(2,4,9)); HOLDS(some2_second, q.vis(1,1)&&q.shp(1,2)&&q.at(0,a+c+e)&&q.at(1,b+d+g)); }
OB(some2_both)(long a,long b,long c,long d,long e,long g){ Z6; ZF f=tab<Z>(2,s23,p); Some<Integrator> q(f,vec(2,1,4),vec(2,4,1)); HOLDS(some2_both, q.vis(0)&&q.b.size()==1&&q.at(0,a+b+c+d+e+g)); }
OB(some2_first_min)(long a,long b,long c,long d){ long e=0,g=0; ZB; Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Some<Minimizer> q(f,vec(2,1,4),vec(1,1)); HOLDS(some2_first_min, q.vis(1,4)&&q.at(0,mn(a,b))&&q.at(1,mn(c,d))); }
OB(some2_second_max)(long a,long b,long c,long d){ long e=0,g=0; ZB; Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Some<Maximizer> q(f,vec(2,1,4),vec(1,4)); HOLDS(some2_second_max, q.vis(1,1)&&q.at(0,mx(a,c))&&q.at(1,mx(b,d))); }
OB(some2_prod)(long a,long b,long c,long d){ Z p[4]={Z(a),Z(b),Z(c),Z(d)}; ZF f=tab<Z>(2,s222,p); Some<Multiplier> q(f,vec(2,1,4),vec(1,4)); HOLDS(some2_prod, q.vis(1,1)&&q.at(0,a*c)&&q.at(1,b*d)); }
static const L s232[3]={2,3,2};
#define T12 Z p[12]; { const long t[12]={a,b,c,d,e,g,a+100,b+200,c+300,d+400,e+500,g+600}; for(int i=0;i<12;++i) p[i]=Z(t[i]); } ZF f=tab<Z>(3,s232,p)
#define S3A(nm,ACCV,A,B,S0,S1,S2,W0,W1,W2,W3,W4,W5) OB(nm##_to)(long a,long b,long c,long d,long e,long g){ T12; std::vector<L> v=vec(3,1,4,6),acc=vec(1,ACCV),vb; ZF r; AccumulateSomeImpl<ZF,ZF,Integrator>::op(f,v,acc.begin(),acc.end(),r,vb); \
     HOLDS(nm##_to, vb.size()==2&&vb[0]==A&&vb[1]==B&&r.dimension()==2&&r.shape(0)==S0&&r.shape(1)==S1&&r(0).v==(W0)&&r(1).v==(W1)&&r(2).v==(W2)&&r(3).v==(W3)&&r(4).v==(W4)&&r(5).v==(W5)); } \
  OB(nm##_in)(long a,long b,long c,long d,long e,long g){ T12; std::vector<L> v=vec(3,1,4,6),acc=vec(1,ACCV); AccumulateSomeInplaceImpl<ZF,Integrator>::op(f,v,acc.begin(),acc.end()); \
     HOLDS(nm##_in, v.size()==2&&v[0]==A&&v[1]==B&&f.dimension()==2&&f.shape(0)==S0&&f.shape(1)==S1&&f(0).v==(W0)&&f(1).v==(W1)&&f(2).v==(W2)&&f(3).v==(W3)&&f(4).v==(W4)&&f(5).v==(W5)); }
S3A(some3_0,1,4,6,3,2,0,a+b,c+d,e+g,a+b+300,c+d+700,e+g+1100) S3A(some3_2,6,1,4,2,3,0,2*a+100,2*b+200,2*c+300,2*d+400,2*e+500,2*g+600)
OB(some3_1)(long a,long b,long c,long d,long e,long g){ T12; Some<Integrator> q(f,vec(3,1,4,6),vec(1,4)); HOLDS(some3_1, q.vis(2,1,6)&&q.shp(2,2,2)&&q.at(0,a+c+e)&&q.at(1,b+d+g)&&q.at(2,a+c+e+900)&&q.at(3,b+d+g+1200)); }
OB(some3_01)(long a,long b,long c,long d,long e,long g){ T12; Some<Integrator> q(f,vec(3,1,4,6),vec(2,4,1)); long s=a+b+c+d+e+g; HOLDS(some3_01, q.vis(1,6)&&q.shp(1,2)&&q.at(0,s)&&q.at(1,s+2100)); }
OB(some3_02)(long a,long b,long c,long d,long e,long g){ T12; Some<Integrator> q(f,vec(3,1,4,6),vec(2,1,6)); HOLDS(some3_02, q.vis(1,4)&&q.shp(1,3)&&q.at(0,2*a+2*b+300)&&q.at(1,2*c+2*d+700)&&q.at(2,2*e+2*g+1100)); }
OB(some3_12)(long a,long b,long c,long d,long e,long g){ T12; Some<Integrator> q(f,vec(3,1,4,6),vec(2,6,4)); HOLDS(some3_12, q.vis(1,1)&&q.shp(1,2)&&q.at(0,2*a+2*c+2*e+900)&&q.at(1,2*b+2*d+2*g+1200)); }
OB(some3_012)(long a,long b,long c,long d,long e,long g){ T12; Some<Integrator> q(f,vec(3,1,4,6),vec(3,6,4,1)); HOLDS(some3_012, q.vis(0)&&q.b.size()==1&&q.at(0,2*(a+b+c+d+e+g)+2100)); }
OB(some_potts)(long a,long b){ typedef PottsFunction<Z,L,L> P; P f(2,3,Z(a),Z(b)); std::vector<L> v=vec(2,1,2),acc=vec(1,1),vb; ZF r; AccumulateSomeImpl<P,ZF,Integrator>::op(f,v,acc.begin(),acc.end(),r,vb); HOLDS(some_potts, vb.size()==1&&vb[0]==2&&r.dimension()==1&&r.shape(0)==3&&r(0).v==a+b&&r(1).v==a+b&&r(2).v==2*b); }
// says: an accumulated factor keeps the remaining variables (and the accumulation of a model's factor is that of its function)
// code: graphicalmodel/graphicalmodel_factor_accumulator.hxx, graphicalmodel/graphicalmodel_factor.hxx IndependentFactor::accumulate
#define IF2(f) L v_##f[2]={1,4}; ZI f(v_##f,v_##f+2,s23,s23+2); fill<Z>(f,p)
OB(if_all)(long a,long b,long c,long d,long e,long g){ Z6; IF2(f); Z r(9); f.accumulate<Integrator>(r); HOLDS(if_all, r.v==a+b+c+d+e+g); }
OB(if_all_state)(long a,long b,long c){ long d=0,e=0,g=0; ZB; L v[1]={3},s[1]={3}; ZI f(v,v+1,s,s+1); f(0)=Z(a); f(1)=Z(b); f(2)=Z(c); Z r(9); std::vector<L> st; f.accumulate<Minimizer>(r,st); L w=0; long m=a; if(b<m){ m=b; w=1; } if(c<m){ m=c; w=2; } HOLDS(if_all_state, r.v==m&&st.size()==1&&st[0]==w); }
OB(if_some)(long a,long b,long c,long d,long e,long g){ Z6; IF2(f); ZI r; std::vector<L> acc=vec(1,1); f.accumulate<Integrator>(acc.begin(),acc.end(),r); HOLDS(if_some, r.numberOfVariables()==1&&r.variableIndex(0)==4&&r.numberOfLabels(0)==3&&r.size()==3&&r(0).v==a+b&&r(1).v==c+d&&r(2).v==e+g&&f.numberOfVariables()==2&&f(1,2).v==g); }
OB(if_some_inplace)(long a,long b,long c,long d,long e,long g){ Z6; IF2(f); std::vector<L> acc=vec(1,4); f.accumulate<Integrator>(acc.begin(),acc.end()); HOLDS(if_some_inplace, f.numberOfVariables()==1&&f.variableIndex(0)==1&&f.numberOfLabels(0)==2&&f.size()==2&&f(0).v==a+c+e&&f(1).v==b+d+g); }
OB(if_some_every)(long a,long b,long c,long d,long e,long g){ Z6; IF2(f); ZI r; std::vector<L> acc=vec(2,1,4); f.accumulate<Integrator>(acc.begin(),acc.end(),r); f.accumulate<Integrator>(acc.begin(),acc.end()); L z[1]={0}; HOLDS(if_some_every, r.numberOfVariables()==0&&f.numberOfVariables()==0&&r(z).v==a+b+c+d+e+g&&f(z).v==a+b+c+d+e+g); }
OB(if_scalar)(long a){ ZI f((Z(a))); ZI r; std::vector<L> acc=vec(1,1); f.accumulate<Integrator>(acc.begin(),acc.end(),r); Z t(9); f.accumulate<Integrator>(t); f.accumulate<Integrator>(acc.begin(),acc.end()); L z[1]={0}; HOLDS(if_scalar, t.v==a&&r.numberOfVariables()==0&&r(z).v==a&&f(z).v==a); }
OB(if_stats)(long a,long b,long c){ long d=0,e=0,g=0; ZB; L v[1]={3},s[1]={3}; LI f(v,v+1,s,s+1); f(0)=a; f(1)=b; f(2)=c; HOLDS(if_stats, f.min()==mn(mn(a,b),c)&&f.max()==mx(mx(a,b),c)&&f.sum()==a+b+c&&f.product()==a*b*c); }
typedef GraphicalModel<Z,Adder,meta::TypeListGenerator<ExplicitFunction<Z>,PottsFunction<Z> >::type,DiscreteSpace<> > GZ; typedef GZ::IndependentFactorType GZI;
#define GMZ L n_[3]={2,3,2}; GZ gm(DiscreteSpace<>(n_,n_+3)); L vis[2]={0,1}
OB(gf_explicit)(long a,long b,long c,long d,long e,long g){ GMZ; ExplicitFunction<Z> f(s23,s23+2); const long t[6]={a,b,c,d,e,g}; for(L i=0;i<6;++i) f(i)=Z(t[i]); gm.addFactor(gm.addFunction(f),vis,vis+2); Z r(9); opengm::accumulate<Integrator>(gm[0],r); GZI q; std::vector<L> acc=vec(1,1); opengm::accumulate<Integrator>(gm[0],acc.begin(),acc.end(),q); HOLDS(gf_explicit, r.v==a+b+c+d+e+g&&q.numberOfVariables()==1&&q.variableIndex(0)==0&&q(0).v==a+c+e&&q(1).v==b+d+g); }
OB(gf_potts)(long a,long b){ GMZ; gm.addFactor(gm.addFunction(PottsFunction<Z>(2,3,Z(a),Z(b))),vis,vis+2); Z r(9); opengm::accumulate<Integrator>(gm[0],r); GZI q; std::vector<L> acc=vec(1,0); opengm::accumulate<Integrator>(gm[0],acc.begin(),acc.end(),q); HOLDS(gf_potts, r.v==2*a+4*b&&q.numberOfVariables()==1&&q.variableIndex(0)==1&&q(0).v==a+b&&q(1).v==a+b&&q(2).v==2*b); }
OB(gf_state)(long a,long b){ long c=0,d=0,e=0,g=0; ZB; GMZ; gm.addFactor(gm.addFunction(PottsFunction<Z>(2,3,Z(a),Z(b))),vis,vis+2); Z r(9); std::vector<GZ::LabelType> s; opengm::accumulate<Minimizer>(gm[0],r,s); HOLDS(gf_state, s.size()==2&&(b<a? (r.v==b&&s[0]==1&&s[1]==0):(r.v==a&&s[0]==0&&s[1]==0))); }
OB(gf_order0)(long a){ GMZ; gm.addFactor(gm.addFunction(ExplicitFunction<Z>(Z(a))),vis,vis); Z r(9); opengm::accumulate<Integrator>(gm[0],r); GZI q; std::vector<L> acc=vec(1,0); opengm::accumulate<Integrator>(gm[0],acc.begin(),acc.end(),q); L z[1]={0}; HOLDS(gf_order0, r.v==a&&q.numberOfVariables()==0&&q(z).v==a); }
// ---------------------------------------------------------------- combining
// says: combining two factors gives, on the sorted union of their variables, the operator applied to the two values the shared labeling selects; left stays left
// code: functions/operations/operator.hxx BinaryOperationImpl, BinaryOperationInplaceImpl, ComputeViAndAShape
struct Comb { LF c; std::vector<L> vc; LF a2; std::vector<L> va2;
  __attribute__((always_inline)) Comb(const LF& a,const LF& b,const std::vector<L>& va,const std::vector<L>& vb){ long t[2]={4,5}; L s[1]={2}; c=tab<long>(1,s,t); vc.push_back(77); a2=a; va2=va; BinaryOperationImpl<LF,LF,LF,Mix>::op(a,b,c,va,vb,vc,Mix()); BinaryOperationInplaceImpl<LF,LF,Mix>::op(a2,b,va2,vb,Mix()); }
  __attribute__((always_inline)) bool vis(L n,L x=0,L y=0,L z=0) const { return c.dimension()==n&&a2.dimension()==n&&vc.size()==n&&va2.size()==n&&(n<1||(vc[0]==x&&va2[0]==x))&&(n<2||(vc[1]==y&&va2[1]==y))&&(n<3||(vc[2]==z&&va2[2]==z)); }
  __attribute__((always_inline)) bool shp(L n,L x=0,L y=0,L z=0) const { return c.dimension()==n&&a2.dimension()==n&&(n<1||(c.shape(0)==x&&a2.shape(0)==x))&&(n<2||(c.shape(1)==y&&a2.shape(1)==y))&&(n<3||(c.shape(2)==z&&a2.shape(2)==z)); }
  __attribute__((always_inline)) bool at(L i,long w) const { return c(i)==w&&a2(i)==w; } };
#define M(x,y) ((x)*5-(y)*7)
OB(bin_00)(long a,long b){ LF f=tab<long>(0,s23,&a),g=tab<long>(0,s23,&b); Comb q(f,g,vec(0),vec(0)); HOLDS(bin_00, q.vis(0)&&q.c.size()==1&&q.a2.size()==1&&q.at(0,M(a,b))); }
OB(bin_10)(long a,long b,long c){ long t[2]={a,b}; LF f=tab<long>(1,s12,t),g=tab<long>(0,s23,&c); Comb q(f,g,vec(1,3),vec(0)); HOLDS(bin_10, q.vis(1,3)&&q.shp(1,2)&&q.at(0,M(a,c))&&q.at(1,M(b,c))); }
OB(bin_01)(long a,long b,long c){ long t[2]={a,b}; LF f=tab<long>(1,s12,t),g=tab<long>(0,s23,&c); Comb q(g,f,vec(0),vec(1,3)); HOLDS(bin_01, q.vis(1,3)&&q.shp(1,2)&&q.at(0,M(c,a))&&q.at(1,M(c,b))); }
OB(bin_20)(long a,long b,long c,long d,long e,long g,long h){ long t[6]={a,b,c,d,e,g}; LF f=tab<long>(2,s23,t),k=tab<long>(0,s23,&h); Comb q(f,k,vec(2,1,4),vec(0)); HOLDS(bin_20, q.vis(2,1,4)&&q.shp(2,2,3)&&q.at(0,M(a,h))&&q.at(1,M(b,h))&&q.at(2,M(c,h))&&q.at(3,M(d,h))&&q.at(4,M(e,h))&&q.at(5,M(g,h))); }
OB(bin_02)(long a,long b,long c,long d,long e,long g,long h){ long t[6]={a,b,c,d,e,g}; LF f=tab<long>(2,s23,t),k=tab<long>(0,s23,&h); Comb q(k,f,vec(0),vec(2,1,4)); HOLDS(bin_02, q.vis(2,1,4)&&q.shp(2,2,3)&&q.at(0,M(h,a))&&q.at(1,M(h,b))&&q.at(2,M(h,c))&&q.at(3,M(h,d))&&q.at(4,M(h,e))&&q.at(5,M(h,g))); }
#define TWO1 long t[2]={a,b},u[3]={c,d,e}; L s3[1]={3}; LF f=tab<long>(1,s12,t),g=tab<long>(1,s3,u)
OB(bin_same)(long a,long b,long c,long d){ long t[2]={a,b},u[2]={c,d}; LF f=tab<long>(1,s12,t),g=tab<long>(1,s12,u); Comb q(f,g,vec(1,3),vec(1,3)); HOLDS(bin_same, q.vis(1,3)&&q.shp(1,2)&&q.at(0,M(a,c))&&q.at(1,M(b,d))); }
OB(bin_before)(long a,long b,long c,long d,long e){ TWO1; Comb q(f,g,vec(1,3),vec(1,5)); HOLDS(bin_before, q.vis(2,3,5)&&q.shp(2,2,3)&&q.at(0,M(a,c))&&q.at(1,M(b,c))&&q.at(2,M(a,d))&&q.at(3,M(b,d))&&q.at(4,M(a,e))&&q.at(5,M(b,e))); }
OB(bin_after)(long a,long b,long c,long d,long e){ TWO1; Comb q(f,g,vec(1,6),vec(1,5)); HOLDS(bin_after, q.vis(2,5,6)&&q.shp(2,3,2)&&q.at(0,M(a,c))&&q.at(1,M(a,d))&&q.at(2,M(a,e))&&q.at(3,M(b,c))&&q.at(4,M(b,d))&&q.at(5,M(b,e))); }
// 2 variables (shape 2x2, entries w0..w3 over x+2y) with 1 or 2 others
#define TWO2 long t[4]={a,b,c,d},u[4]={e,g,h,k}; LF f=tab<long>(2,s222,t),o=tab<long>(2,s222,u); long u1[2]={e,g}; LF o1=tab<long>(1,s222,u1)
OB(bin_sub_first)(long a,long b,long c,long d,long e,long g){ long h=0,k=0; TWO2; Comb q(f,o1,vec(2,1,4),vec(1,1)); HOLDS(bin_sub_first, q.vis(2,1,4)&&q.shp(2,2,2)&&q.at(0,M(a,e))&&q.at(1,M(b,g))&&q.at(2,M(c,e))&&q.at(3,M(d,g))); }
OB(bin_sub_second)(long a,long b,long c,long d,long e,long g){ long h=0,k=0; TWO2; Comb q(f,o1,vec(2,1,4),vec(1,4)); HOLDS(bin_sub_second, q.vis(2,1,4)&&q.shp(2,2,2)&&q.at(0,M(a,e))&&q.at(1,M(b,e))&&q.at(2,M(c,g))&&q.at(3,M(d,g))); }
OB(bin_sup_first)(long a,long b,long c,long d,long e,long g){ long h=0,k=0; TWO2; Comb q(o1,f,vec(1,1),vec(2,1,4)); HOLDS(bin_sup_first, q.vis(2,1,4)&&q.shp(2,2,2)&&q.at(0,M(e,a))&&q.at(1,M(g,b))&&q.at(2,M(e,c))&&q.at(3,M(g,d))); }
OB(bin_sup_second)(long a,long b,long c,long d,long e,long g){ long h=0,k=0; TWO2; Comb q(o1,f,vec(1,4),vec(2,1,4)); HOLDS(bin_sup_second, q.vis(2,1,4)&&q.shp(2,2,2)&&q.at(0,M(e,a))&&q.at(1,M(e,b))&&q.at(2,M(g,c))&&q.at(3,M(g,d))); }
OB(bin_equal2)(long a,long b,long c,long d,long e,long g,long h,long k){ TWO2; Comb q(f,o,vec(2,1,4),vec(2,1,4)); HOLDS(bin_equal2, q.vis(2,1,4)&&q.at(0,M(a,e))&&q.at(1,M(b,g))&&q.at(2,M(c,h))&&q.at(3,M(d,k))); }
OB(bin_chain)(long a,long b,long c,long d,long e,long g,long h,long k){ TWO2; Comb q(f,o,vec(2,1,4),vec(2,4,6)); bool r=q.vis(3,1,4,6)&&q.shp(3,2,2,2); for(L z=0;z<2;++z) for(L y=0;y<2;++y) for(L x=0;x<2;++x) r=r&&q.at(x+2*y+4*z,M(t[x+2*y],u[y+2*z])); HOLDS(bin_chain, r); }
OB(bin_wedge)(long a,long b,long c,long d,long e,long g,long h,long k){ TWO2; Comb q(f,o,vec(2,1,6),vec(2,4,6)); bool r=q.vis(3,1,4,6)&&q.shp(3,2,2,2); for(L z=0;z<2;++z) for(L y=0;y<2;++y) for(L x=0;x<2;++x) r=r&&q.at(x+2*y+4*z,M(t[x+2*z],u[y+2*z])); HOLDS(bin_wedge, r); }
OB(bin_fork)(long a,long b,long c,long d,long e,long g,long h,long k){ TWO2; Comb q(f,o,vec(2,1,4),vec(2,1,6)); bool r=q.vis(3,1,4,6)&&q.shp(3,2,2,2); for(L z=0;z<2;++z) for(L y=0;y<2;++y) for(L x=0;x<2;++x) r=r&&q.at(x+2*y+4*z,M(t[x+2*y],u[x+2*z])); HOLDS(bin_fork, r); }
OB(bin_gap)(long a,long b,long c,long d,long e,long g){ long h=0,k=0; TWO2; Comb q(f,o1,vec(2,1,6),vec(1,4)); bool r=q.vis(3,1,4,6)&&q.shp(3,2,2,2); for(L z=0;z<2;++z) for(L y=0;y<2;++y) for(L x=0;x<2;++x) r=r&&q.at(x+2*y+4*z,M(t[x+2*z],u1[y])); HOLDS(bin_gap, r); }
OB(deep_bin_disjoint2)(long a,long b,long c,long d,long e,long g,long h,long k){ TWO2; LF cc; std::vector<L> vc,va=vec(2,1,6),vb=vec(2,4,8); BinaryOperationImpl<LF,LF,LF,Mix>::op(f,o,cc,va,vb,vc,Mix()); bool r=vc.size()==4&&vc[0]==1&&vc[1]==4&&vc[2]==6&&vc[3]==8&&cc.size()==16; for(L m=0;m<16;++m) r=r&&cc(m)==M(t[(m&1)+2*((m>>2)&1)],u[((m>>1)&1)+2*((m>>3)&1)]); HOLDS(deep_bin_disjoint2, r); }
// says: a unary operator is applied to every entry
// code: functions/operations/operator.hxx UnaryOperationImpl, UnaryOperationInplaceImpl
OB(un_0)(long a){ LF f=tab<long>(0,s23,&a),r; UnaryOperationImpl<LF,LF,NotZ>::op(f,r,NotZ()); UnaryOperationInplaceImpl<LF,NotZ>::op(f,NotZ()); HOLDS(un_0, r.dimension()==0&&r.size()==1&&r(0)==3*a+1&&f.dimension()==0&&f(0)==3*a+1); }
OB(un_1)(long a,long b){ long t[2]={a,b}; LF f=tab<long>(1,s12,t),r; UnaryOperationImpl<LF,LF,NotZ>::op(f,r,NotZ()); UnaryOperationInplaceImpl<LF,NotZ>::op(f,NotZ()); HOLDS(un_1, r.dimension()==1&&r.size()==2&&r(0)==3*a+1&&r(1)==3*b+1&&f(0)==3*a+1&&f(1)==3*b+1); }
OB(un_2)(long a,long b,long c,long d,long e,long g){ long t[6]={a,b,c,d,e,g}; LF f=tab<long>(2,s23,t),r; UnaryOperationImpl<LF,LF,NotZ>::op(f,r,NotZ()); UnaryOperationInplaceImpl<LF,NotZ>::op(f,NotZ()); bool w=r.dimension()==2&&r.shape(0)==2&&r.shape(1)==3; for(L i=0;i<6;++i) w=w&&r(i)==3*t[i]+1&&f(i)==3*t[i]+1; HOLDS(un_2, w); }
OB(un_potts)(long a,long b){ typedef PottsFunction<long,L,L> P; P f(2,3,a,b); LF r; UnaryOperationImpl<P,LF,NotZ>::op(f,r,NotZ()); HOLDS(un_potts, r.dimension()==2&&r(0,0)==3*a+1&&r(1,0)==3*b+1&&r(1,1)==3*a+1&&r(0,2)==3*b+1); }
// ---------------------------------------------------------------- factors
// says: the operators of factors combine as above, with scalars and with factors of a model, in either order
// code: graphicalmodel/graphicalmodel_factor.hxx, graphicalmodel/graphicalmodel_factor_operator.hxx
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<ExplicitFunction<long>,PottsFunction<long> >::type,DiscreteSpace<> > GL; typedef GL::IndependentFactorType GI;
#define LI1(f,V,x,y) L v_##f[1]={V},n_##f[1]={2}; GI f(v_##f,v_##f+1,n_##f,n_##f+1); f(0)=x; f(1)=y
#define NZ3 if(a==0||b==0||c==0||a==-1||b==-1||c==-1) return
#define NZ4 NZ3; if(d==0||d==-1) return
#define GMD L n[3]={2,2,2}; GL gm(DiscreteSpace<>(n,n+3)); L w[2]={1,2}; gm.addFactor(gm.addFunction(PottsFunction<long>(2,2,a,b)),w,w+2)
#define GME ExplicitFunction<long> e(n,n+1); e(0)=c; e(1)=a; gm.addFactor(gm.addFunction(e),w+1,w+2)
#define OP2(nm,SYM,INP,F) OB(op_##nm)(long a,long b,long c,long d){ if(c==0||d==0||(c==-1)||(d==-1)) return; LI1(f,1,a,b); LI1(g,3,c,d); GI r=f SYM g; GI h(f); h INP g; \
     HOLDS(op_##nm, r.numberOfVariables()==2&&r.variableIndex(0)==1&&r.variableIndex(1)==3&&r(0,0)==F(a,c)&&r(1,0)==F(b,c)&&r(0,1)==F(a,d)&&r(1,1)==F(b,d)&&h.numberOfVariables()==2&&h.variableIndex(1)==3&&h(0,0)==F(a,c)&&h(1,0)==F(b,c)&&h(0,1)==F(a,d)&&h(1,1)==F(b,d)&&f.numberOfVariables()==1&&f(0)==a&&f(1)==b&&g(0)==c&&g(1)==d); } \
  OB(op_rev_##nm)(long a,long b,long c,long d){ if(a==0||b==0||(a==-1)||(b==-1)) return; LI1(f,1,a,b); LI1(g,3,c,d); GI r=g SYM f; g INP f; \
     HOLDS(op_rev_##nm, r.numberOfVariables()==2&&r.variableIndex(0)==1&&r(0,0)==F(c,a)&&r(1,0)==F(c,b)&&r(0,1)==F(d,a)&&r(1,1)==F(d,b)&&g.variableIndex(0)==1&&g(0,0)==F(c,a)&&g(1,0)==F(c,b)&&g(0,1)==F(d,a)&&g(1,1)==F(d,b)); } \
  OB(op_scalar_##nm)(long a,long b,long c){ if(a==0||b==0||c==0||(a==-1)||(b==-1)||(c==-1)) return; LI1(f,1,a,b); GI r=f SYM c; GI q=c SYM f; f INP c; \
     HOLDS(op_scalar_##nm, r.numberOfVariables()==1&&r.variableIndex(0)==1&&r(0)==F(a,c)&&r(1)==F(b,c)&&q.variableIndex(0)==1&&q(0)==F(c,a)&&q(1)==F(c,b)&&f(0)==F(a,c)&&f(1)==F(b,c)); } \
  OB(op_model_fi_##nm)(long a,long b,long c,long d){ NZ4; GMD; LI1(f,1,c,d); GI r=gm[0] SYM f; HOLDS(op_model_fi_##nm, r.numberOfVariables()==2&&r.variableIndex(0)==1&&r.variableIndex(1)==2&&r(0,0)==F(a,c)&&r(1,0)==F(b,d)&&r(0,1)==F(b,c)&&r(1,1)==F(a,d)); } \
  OB(op_model_if_##nm)(long a,long b,long c,long d){ NZ4; GMD; LI1(f,1,c,d); GI q=f SYM gm[0]; HOLDS(op_model_if_##nm, q.numberOfVariables()==2&&q.variableIndex(0)==1&&q.variableIndex(1)==2&&q(0,0)==F(c,a)&&q(1,0)==F(d,b)&&q(0,1)==F(c,b)&&q(1,1)==F(d,a)); } \
  OB(op_model_in_##nm)(long a,long b,long c,long d){ NZ4; GMD; LI1(f,1,c,d); f INP gm[0]; HOLDS(op_model_in_##nm, f.numberOfVariables()==2&&f.variableIndex(1)==2&&f(0,0)==F(c,a)&&f(1,0)==F(d,b)&&f(0,1)==F(c,b)&&f(1,1)==F(d,a)); } \
  OB(op_models_ab_##nm)(long a,long b,long c){ NZ3; GMD; GME; GI r=gm[0] SYM gm[1]; HOLDS(op_models_ab_##nm, r.numberOfVariables()==2&&r.variableIndex(0)==1&&r.variableIndex(1)==2&&r(0,0)==F(a,c)&&r(1,0)==F(b,c)&&r(0,1)==F(b,a)&&r(1,1)==F(a,a)); } \
  OB(op_models_ba_##nm)(long a,long b,long c){ NZ3; GMD; GME; GI q=gm[1] SYM gm[0]; HOLDS(op_models_ba_##nm, q.numberOfVariables()==2&&q.variableIndex(0)==1&&q(0,0)==F(c,a)&&q(1,0)==F(c,b)&&q(0,1)==F(a,b)&&q(1,1)==F(a,a)); } \
  OB(op_models_s_##nm)(long a,long b,long c){ NZ3; GMD; GI s=gm[0] SYM c; GI t=c SYM gm[0]; HOLDS(op_models_s_##nm, s.numberOfVariables()==2&&s.variableIndex(0)==1&&s(0,0)==F(a,c)&&s(1,0)==F(b,c)&&t.numberOfVariables()==2&&t.variableIndex(1)==2&&t(0,0)==F(c,a)&&t(0,1)==F(c,b)); } \
  OB(op_empty_out_##nm)(long a,long b,long c){ NZ3; GI f(a),g(b); LI1(h,3,c,b); GI r=f SYM g; GI q=f SYM h; GI s=h SYM f; L z[1]={0}; HOLDS(op_empty_out_##nm, r.numberOfVariables()==0&&r.size()==1&&r(z)==F(a,b)&&q.numberOfVariables()==1&&q.variableIndex(0)==3&&q(0)==F(a,c)&&q(1)==F(a,b)&&s.numberOfVariables()==1&&s(0)==F(c,a)&&s(1)==F(b,a)); } \
  OB(op_empty_in_##nm)(long a,long b,long c){ NZ3; GI f(a),g(b); LI1(h,3,c,b); GI t(f); t INP g; GI u(h); u INP f; GI x(f); x INP h; GI y(f); y INP b; L z[1]={0}; HOLDS(op_empty_in_##nm, t.numberOfVariables()==0&&t(z)==F(a,b)&&u(0)==F(c,a)&&u(1)==F(b,a)&&x.numberOfVariables()==1&&x(0)==F(a,c)&&x(1)==F(a,b)&&y.numberOfVariables()==0&&y(z)==F(a,b)); }
#define FP(x,y) ((x)+(y))
#define FM(x,y) ((x)-(y))
#define FT(x,y) ((x)*(y))
#define FD(x,y) ((x)/(y))
#define FO(x,y) long((x)||(y))
#define FA(x,y) long((x)&&(y))
OP2(plus,+,+=,FP) OP2(minus,-,-=,FM) OP2(times,*,*=,FT) OP2(div,/,/=,FD) OP2(or,||,|=,FO) OP2(and,&&,&=,FA)
OB(operate_unary)(long a,long b,long c){ LI1(f,1,a,b); f.operateUnary(NotZ()); GI g(c); g.operateUnary(NotZ()); GI h; opengm::operateUnary(f,h,NotZ()); opengm::operateUnary(f,NotZ()); L z[1]={0}; HOLDS(operate_unary, h.numberOfVariables()==1&&h.variableIndex(0)==1&&h(0)==9*a+4&&h(1)==9*b+4&&g(z)==3*c+1); }
OB(operate_scalar)(long a,long b,long c){ LI1(f,1,a,b); f.operateBinary(c,Mix()); GI g(a); g.operateBinary(c,Mix()); L z[1]={0}; HOLDS(operate_scalar, f(0)==M(a,c)&&f(1)==M(b,c)&&g(z)==M(a,c)); }
OB(operate_into)(long a,long b,long c,long d){ LI1(f,1,a,b); LI1(g,3,c,d); GI r; r.operateBinary(f,g,Mix()); HOLDS(operate_into, r.numberOfVariables()==2&&r(0,0)==M(a,c)&&r(1,0)==M(b,c)&&r(0,1)==M(a,d)&&r(1,1)==M(b,d)); }
OB(operate_selfalias)(long a,long b){ LI1(f,1,a,b); f.operateBinary(f,Mix()); HOLDS(operate_selfalias, f.numberOfVariables()==1&&f(0)==M(a,a)&&f(1)==M(b,b)); }
OB(subtract_offset)(long a,long b,long c){ L v[1]={3},s[1]={2}; IndependentFactor<double,L,L> f(v,v+1,s,s+1); f(0)=3.5; f(1)=-1.25; f.subtractOffset(); IndependentFactor<double,L,L> g(2.5); g.subtractOffset(); L z[1]={0}; HOLDS(subtract_offset, f(0)==4.75&&f(1)==0.0&&g(z)==0.0); }
// says: fixing variables of a factor keeps the entries consistent with the fixed labels; variables it does not have are ignored
// code: graphicalmodel/graphicalmodel_factor.hxx IndependentFactor::fixVariables
#define FIX3 long t[8]={a,b,c,d,e,g,h,k}; L v[3]={1,4,6}; GI f(v,v+3,s222,s222+3); for(L i=0;i<8;++i) f(i)=t[i]
#define P8 long a,long b,long c,long d,long e,long g,long h,long k
#define FIXO(nm,Q,NV,NX,X0,X1,X2,Y0,Y1,Y2,CHK) OB(fixv_##nm)(P8){ const L q=Q; FIX3; L i_[3]={X0,X1,X2}; L l_[3]={Y0,Y1,Y2}; f.fixVariables(i_,i_+NX,l_); L z[1]={0}; HOLDS(fixv_##nm, f.numberOfVariables()==NV&&(CHK)); }
#define FIXC(nm,NV,NX,X0,X1,X2,Y0,Y1,Y2,CHK) FIXO(nm##_0,0,NV,NX,X0,X1,X2,Y0,Y1,Y2,CHK) FIXO(nm##_1,1,NV,NX,X0,X1,X2,Y0,Y1,Y2,CHK)
FIXC(none,3,1,3,0,0,q,0,0,f.size()==8&&f(1,0,1)==t[5]&&f(0,1,0)==t[2])
FIXC(first,2,1,1,0,0,q,0,0,f.variableIndex(0)==4&&f.variableIndex(1)==6&&f.size()==4&&f(0,0)==t[q]&&f(1,0)==t[q+2]&&f(0,1)==t[q+4]&&f(1,1)==t[q+6])
FIXC(mid,2,2,3,4,0,1,q,0,f.variableIndex(0)==1&&f.variableIndex(1)==6&&f.size()==4&&f(0,0)==t[2*q]&&f(1,0)==t[2*q+1]&&f(0,1)==t[2*q+4]&&f(1,1)==t[2*q+5])
FIXC(last,2,2,6,9,0,q,1,0,f.variableIndex(0)==1&&f.variableIndex(1)==4&&f.size()==4&&f(0,0)==t[4*q]&&f(1,0)==t[4*q+1]&&f(0,1)==t[4*q+2]&&f(1,1)==t[4*q+3])
FIXC(two,1,3,1,5,6,1,0,q,f.variableIndex(0)==4&&f.size()==2&&f(0)==t[1+4*q]&&f(1)==t[3+4*q])
FIXC(all,0,3,1,4,6,1,q,0,f.size()==1&&f(z)==t[1+2*q])
// says: an independent factor keeps the variables and entries it was built, assigned or copied from
// code: graphicalmodel/graphicalmodel_factor.hxx IndependentFactor constructors, assignment
OB(ctor_default)(){ GI f; L z[1]={0}; HOLDS(ctor_default, f.numberOfVariables()==0&&f.size()==1&&f(z)==f(z)); }
OB(ctor_value)(long a){ L v[2]={1,4}; LI f(v,v+2,s23,s23+2,a); HOLDS(ctor_value, f.numberOfVariables()==2&&f.variableIndex(0)==1&&f.variableIndex(1)==4&&f.numberOfLabels(0)==2&&f.numberOfLabels(1)==3&&f.shape(1)==3&&f.size()==6&&f(0,0)==a&&f(1,2)==a&&f(5)==a); }
OB(ctor_model)(long a){ L n[3]={2,3,4}; GL gm(DiscreteSpace<>(n,n+3)); L v[2]={0,2}; GI f(gm,v,v+2,a); GI g; g.assign(gm,v+1,v+2,a); HOLDS(ctor_model, f.numberOfVariables()==2&&f.variableIndex(1)==2&&f.numberOfLabels(0)==2&&f.numberOfLabels(1)==4&&f.size()==8&&f(1,3)==a&&g.numberOfVariables()==1&&g.variableIndex(0)==2&&g.size()==4&&g(3)==a); }
OB(ctor_copy)(long a,long b,long c){ LI1(f,1,a,b); GI g(f),h,k(c),m(k); h=f; f(0)=c; GI w; w=k; L z[1]={0}; HOLDS(ctor_copy, g.variableIndex(0)==1&&g(0)==a&&g(1)==b&&h.variableIndex(0)==1&&h(0)==a&&h(1)==b&&m.numberOfVariables()==0&&m(z)==c&&w(z)==c&&w.numberOfVariables()==0); }
OB(ctor_factor)(long a,long b){ L n[3]={2,3,4}; GL gm(DiscreteSpace<>(n,n+3)); L w[2]={0,1}; gm.addFactor(gm.addFunction(PottsFunction<long>(2,3,a,b)),w,w+2); GI f(gm[0]); LI1(g,1,a,b); g=gm[0]; HOLDS(ctor_factor, f.numberOfVariables()==2&&f.variableIndex(0)==0&&f.variableIndex(1)==1&&f.size()==6&&f(0,0)==a&&f(1,0)==b&&f(0,2)==b&&f(1,1)==a&&g.numberOfVariables()==2&&g.variableIndex(1)==1&&g.size()==6&&g(0,0)==a&&g(1,0)==b&&g(1,2)==b&&g(1,1)==a); }
OB(ctor_factor0)(long a){ L n[3]={2,3,4}; GL gm(DiscreteSpace<>(n,n+3)); gm.addFactor(gm.addFunction(ExplicitFunction<long>(a)),n,n); GI f(gm[0]); GI g(a+1); L z[1]={0}; HOLDS(ctor_factor0, f.numberOfVariables()==0&&f.size()==1&&f(z)==a&&g(z)==a+1); }
OB(assign)(long a,long b,long c){ LI1(f,1,a,b); GI g(f),h(f); L v[1]={3},s[1]={3}; f.assign(v,v+1,s,s+1,c); g.assign(c); h.assign(v,v+1,s,s+1); L z[1]={0}; HOLDS(assign, f.numberOfVariables()==1&&f.variableIndex(0)==3&&f.size()==3&&f(0)==c&&f(2)==c&&g.numberOfVariables()==0&&g.size()==1&&g(z)==c&&h.numberOfVariables()==1&&h.variableIndex(0)==3&&h.size()==3); }
OB(variable_lists)(long a){ L v[2]={1,4}; LI f(v,v+2,s23,s23+2,a); L o[2]={0,0}; f.variableIndices(o); HOLDS(variable_lists, o[0]==1&&o[1]==4&&f.variableIndicesBegin()[0]==1&&f.variableIndicesBegin()[1]==4&&f.variableIndicesEnd()-f.variableIndicesBegin()==2&&f.shapeBegin()[0]==2&&f.shapeBegin()[1]==3&&f.shapeEnd()-f.shapeBegin()==2); }
// ---------------------------------------------------------------- controls
OB(ctl_sum)(long a,long b,long c){ Z p[3]={Z(a),Z(b),Z(c)}; L s[1]={3}; ZF f=tab<Z>(1,s,p); Z r(9); AccumulateAllImpl<ZF,Z,Integrator>::op(f,r); HOLDS(ctl_sum, r.v==a+b); }
OB(ctl_some)(long a,long b,long c,long d,long e,long g){ Z6; ZF f=tab<Z>(2,s23,p); Some<Integrator> q(f,vec(2,1,4),vec(1,1)); HOLDS(ctl_some, q.at(0,a+c)); }
OB(ctl_bin)(long a,long b,long c,long d,long e){ TWO1; Comb q(f,g,vec(1,3),vec(1,5)); HOLDS(ctl_bin, q.at(1,M(a,d))); }
