// C06: aggregates, predicates and traversals agree with the value table.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/function_properties.hxx>
using namespace opengm;
typedef ExplicitFunction<long> EF; typedef PottsFunction<long> PF; typedef PottsNFunction<long> PN; typedef PottsGFunction<long> PG; typedef ConstantFunction<long> CF;
typedef SquaredDifferenceFunction<long> SF; typedef AbsoluteDifferenceFunction<long> AF; typedef TruncatedSquaredDifferenceFunction<long> TS; typedef TruncatedAbsoluteDifferenceFunction<long> TA;
#define AI static inline __attribute__((always_inline))
AI EF tab(L n,L m){ L s[2]={n,m}; return EF(s,s+2,0); }
AI EF tab22(long a,long b,long c,long d){ EF f=tab(2,2); f(0,0)=a; f(1,0)=b; f(0,1)=c; f(1,1)=d; return f; }
AI EF tab23(long a,long b,long c,long d,long e,long g){ EF f=tab(2,3); f(0,0)=a; f(1,0)=b; f(0,1)=c; f(1,1)=d; f(0,2)=e; f(1,2)=g; return f; }
AI EF tab1(long a,long b,long c){ L s[1]={3}; EF f(s,s+1,0); f(0)=a; f(1)=b; f(2)=c; return f; }
AI long mn(long a,long b){ return a<b?a:b; } AI long mx(long a,long b){ return a>b?a:b; }
AI bool one(long m,long a,long b,long c,long d){ return m==a||m==b||m==c||m==d; }
#define A4 long a,long b,long c,long d
#define A6 A4,long e,long g
// says: min, max and minMax of a table are its smallest and largest entry
// code: function_properties_base.hxx min, max, minMax, forAtLeastAllUniqueValues
OB(ef_min)(A4){ long m=tab22(a,b,c,d).min(); HOLDS(ef_min, m<=a&&m<=b&&m<=c&&m<=d&&one(m,a,b,c,d)); }
OB(ef_max)(A4){ long m=tab22(a,b,c,d).max(); HOLDS(ef_max, m>=a&&m>=b&&m>=c&&m>=d&&one(m,a,b,c,d)); }
OB(ef_minmax)(A4){ MinMaxFunctor<long> m=tab22(a,b,c,d).minMax(); HOLDS(ef_minmax, m.min()<=a&&m.min()<=b&&m.min()<=c&&m.min()<=d&&one(m.min(),a,b,c,d)&&m.max()>=a&&m.max()>=b&&m.max()>=c&&m.max()>=d&&one(m.max(),a,b,c,d)); }
OB(ef_min1)(long a,long b,long c){ long m=tab1(a,b,c).min(); HOLDS(ef_min1, m<=a&&m<=b&&m<=c&&(m==a||m==b||m==c)); }
OB(ef_max1)(long a,long b,long c){ long m=tab1(a,b,c).max(); HOLDS(ef_max1, m>=a&&m>=b&&m>=c&&(m==a||m==b||m==c)); }
OB(ef_min_each)(long a){ bool r=true; for(unsigned p=0;p<6;++p){ long v[6]={50,60,70,80,90,99}; if(a>=50) return; v[p]=a; r=r&&tab23(v[0],v[1],v[2],v[3],v[4],v[5]).min()==a; } HOLDS(ef_min_each, r); }
OB(ef_max_each)(long a){ bool r=true; for(unsigned p=0;p<6;++p){ long v[6]={-50,-60,-70,-80,-90,-99}; if(a<=-50) return; v[p]=a; r=r&&tab23(v[0],v[1],v[2],v[3],v[4],v[5]).max()==a; } HOLDS(ef_max_each, r); }
// says: sum and product of a table
OB(ef_sum)(A6){ HOLDS(ef_sum, tab23(a,b,c,d,e,g).sum()==a+b+c+d+e+g); }
OB(ef_prod)(A6){ HOLDS(ef_prod, tab23(a,b,c,d,e,g).product()==a*b*c*d*e*g); }
OB(ef_sum1)(long a,long b,long c){ EF f=tab1(a,b,c); HOLDS(ef_sum1, f.sum()==a+b+c&&f.product()==a*b*c); }
OB(ef_sum3)(A4){ L s[3]={2,2,2}; EF f(s,s+3,0); f(0,0,0)=a; f(1,0,0)=b; f(0,1,1)=c; f(1,1,1)=d; HOLDS(ef_sum3, f.sum()==a+b+c+d); }
OB(ef_scalar)(long a){ EF f(a); HOLDS(ef_scalar, f.size()==1&&f.dimension()==0); }
OB(ef_accum)(A4){ EF f=tab22(a,b,c,d); HOLDS(ef_accum, f.accumulate<Adder>()==f.sum()&&f.accumulate<Integrator>()==f.sum()&&f.accumulate<Multiplier>()==f.product()); }
OB(ef_accum_mm)(A4){ EF f=tab22(a,b,c,d); HOLDS(ef_accum_mm, f.accumulate<Minimizer>()==f.min()&&f.accumulate<Maximizer>()==f.max()); }
OB(ef_accum_or)(A6){ EF f=tab23(a,b,c,d,e,g); HOLDS(ef_accum_or, f.accumulate<Or>()==(a|b|c|d|e|g)||f.accumulate<Or>()==long(a||b||c||d||e||g)); }
// says: Potts shortcuts equal the table (two labels at least)
// code: functions/potts.hxx
#define SUMF(nm,N,M,F,ARGS,VAL) OB(sum_##nm)ARGS{ F; long s=0; for(L j=0;j<M;++j) for(L i=0;i<N;++i) s+=(VAL); HOLDS(sum_##nm, f.sum()==s); }
#define MMF(nm,N,M,F,ARGS,VAL) OB(mm_##nm)ARGS{ F; bool lo=true,hi=true,la=false,ha=false; long m=f.min(),x=f.max(); MinMaxFunctor<long> q=f.minMax(); for(L j=0;j<M;++j) for(L i=0;i<N;++i){ long v=(VAL); lo=lo&&m<=v; hi=hi&&x>=v; la=la||m==v; ha=ha||x==v; } HOLDS(mm_##nm, lo&&hi&&la&&ha&&q.min()==m&&q.max()==x); }
#define BOTH(nm,N,M,F,ARGS,VAL) SUMF(nm,N,M,F,ARGS,VAL) MMF(nm,N,M,F,ARGS,VAL)
#define PV (i==j?a:b)
#define SQ ((long(i)-long(j))*(long(i)-long(j))*a)
#define AB ((long(i)>long(j)?long(i)-long(j):long(j)-long(i))*a)
BOTH(pf22,2,2,PF f(2,2,a,b),(long a,long b),PV) BOTH(pf23,2,3,PF f(2,3,a,b),(long a,long b),PV) BOTH(pf32,3,2,PF f(3,2,a,b),(long a,long b),PV) BOTH(pf44,4,4,PF f(4,4,a,b),(long a,long b),PV) BOTH(pf11,1,1,PF f(1,1,a,b),(long a,long b),PV) BOTH(pf15,1,5,PF f(1,5,a,b),(long a,long b),PV)

AI CF cf(L n,L m,long a){ L s[2]={n,m}; return CF(s,s+2,a); }
AI PN pn2(L n,L m,long a,long b){ L s[2]={n,m}; return PN(s,s+2,a,b); }
AI PG pg2(L n,L m,long a,long b){ L s[2]={n,m}; long v[2]={b,a}; return PG(s,s+2,v); }
BOTH(cf23,2,3,CF f=cf(2,3,a),(long a),a) BOTH(cf11,1,1,CF f=cf(1,1,a),(long a),a)
BOTH(pn22,2,2,PN f=pn2(2,2,a,b),(long a,long b),PV) MMF(pn34,3,4,PN f=pn2(3,4,a,b),(long a,long b),PV) OB(sum_pn34)(long a,long b){ PN f=pn2(3,4,a,b); HOLDS(sum_pn34, f.sum()==3*a+9*b); } BOTH(pg22,2,2,PG f=pg2(2,2,a,b),(long a,long b),PV) BOTH(pg23,2,3,PG f=pg2(2,3,a,b),(long a,long b),PV)
SUMF(sf33,3,3,SF f(3,3,a),(long a),SQ) SUMF(sf24,2,4,SF f(2,4,a),(long a),SQ) SUMF(af33,3,3,AF f(3,3,a),(long a),AB) SUMF(af42,4,2,AF f(4,2,a),(long a),AB)
#define MMD(A,S) OB(mm_sf_##S)(){ SF f(3,4,A); AF g(3,4,A); HOLDS(mm_sf_##S, f.min()==mn(0,9*(A))&&f.max()==mx(0,9*(A))&&g.min()==mn(0,3*(A))&&g.max()==mx(0,3*(A))); }
MMD(-2,m2) MMD(-1,m1) MMD(0,0) MMD(1,1) MMD(2,2)
#define MMT(A,T) OB(mm_trunc_##A##_##T)(){ TS f(3,4,T,A); TA g(3,4,T,A); HOLDS(mm_trunc_##A##_##T, f.min()==0&&f.max()==A*mn(9,T)&&g.min()==0&&g.max()==A*mn(3,T)); }
MMT(0,2) MMT(1,1) MMT(1,2) MMT(2,2) MMT(1,3) MMT(2,5) MMT(1,20)
// says: the product shortcuts
#define PRODF(nm,N,M,F,VAL) OB(prod_##nm)(){ bool r=true; for(long a=-2;a<4;++a) for(long b=-1;b<3;++b){ F; long s=1; for(L j=0;j<M;++j) for(L i=0;i<N;++i) s*=(VAL); r=r&&f.product()==s; } HOLDS(prod_##nm, r); }
PRODF(pf22,2,2,PF f(2,2,a,b),PV) PRODF(pf23,2,3,PF f(2,3,a,b),PV) PRODF(pf31,3,1,PF f(3,1,a,b),PV) PRODF(cf22,2,2,CF f=cf(2,2,a),a) 
#ifdef NDEBUG
PRODF(pn23,2,3,PN f=pn2(2,3,a,b),PV)
#endif
OB(prod_pn22)(){ PN f=pn2(2,2,3,5); HOLDS(prod_pn22, f.product()==225); }
OB(prod_pf44)(long){ PF f(4,4,1,2); PF g(4,4,2,1); HOLDS(prod_pf44, f.product()==4096&&g.product()==16); }
// says: order-3 Potts aggregates
OB(pn3)(long a,long b){ L s[3]={2,2,2}; PN f(s,s+3,a,b); HOLDS(pn3, f.sum()==2*a+6*b&&f.min()==mn(a,b)&&f.max()==mx(a,b)); }
OB(pn3_shape)(long a,long b){ L s[3]={2,3,4}; PN f(s,s+3,a,b); HOLDS(pn3_shape, f.sum()==2*a+22*b); }
OB(cf3)(long a){ L s[3]={2,3,4}; CF f(s,s+3,a); HOLDS(cf3, f.sum()==24*a&&f.min()==a&&f.max()==a&&f.isPotts()&&f.isGeneralizedPotts()); }
OB(single_site_static)(long a,long b,long c){ StaticSingleSiteFunction<long,3,StackStorage> f; L i0=0,i1=1,i2=2; f(&i0)=a; f(&i1)=b; f(&i2)=c; HOLDS(single_site_static, f.sum()==a+b+c); }
// says: the table is visited entry by entry, first coordinate fastest (in order) or last coordinate fastest (switched)
// code: function_properties_base.hxx forAllValuesInOrder, forAllValuesInSwitchedOrder, ...WithCoordinate
struct Rec{ long v[16]; L n; Rec():n(0){ for(L i=0;i<16;++i) v[i]=-77; } void operator()(long x){ if(n<16) v[n]=x; ++n; } };
struct RecC{ long v[16]; L c0[16],c1[16]; L n; RecC():n(0){} template<class C> void operator()(long x,C c){ if(n<16){ v[n]=x; c0[n]=c[0]; c1[n]=c[1]; } ++n; } };
OB(order)(A6){ EF f=tab23(a,b,c,d,e,g); Rec r; f.forAllValuesInOrder(r); HOLDS(order, r.n==6&&r.v[0]==a&&r.v[1]==b&&r.v[2]==c&&r.v[3]==d&&r.v[4]==e&&r.v[5]==g); }
OB(order_switched)(A6){ EF f=tab23(a,b,c,d,e,g); Rec r; f.forAllValuesInSwitchedOrder(r); HOLDS(order_switched, r.n==6&&r.v[0]==a&&r.v[1]==c&&r.v[2]==e&&r.v[3]==b&&r.v[4]==d&&r.v[5]==g); }
OB(order_any)(){ EF f=tab23(1,10,100,1000,10000,100000); Rec r; f.forAllValuesInAnyOrder(r); long s=0; for(L i=0;i<6;++i) s+=r.v[i]; HOLDS(order_any, r.n==6&&s==111111); }
OB(order_unique)(A6){ EF f=tab23(1,10,100,1000,10000,100000); Rec r; f.forAtLeastAllUniqueValues(r); bool ok=true; for(long x=1;x<=100000;x*=10){ bool in=false; for(L i=0;i<16&&i<r.n;++i) in=in||r.v[i]==x; ok=ok&&in; } HOLDS(order_unique, ok); }
OB(order_coord)(A6){ EF f=tab23(a,b,c,d,e,g); RecC r,s,t; f.forAllValuesInOrderWithCoordinate(r); f.forAllValuesInAnyOrderWithCoordinate(s); f.forAtLeastAllUniqueValuesWithCoordinate(t); bool ok=r.n==6&&s.n==6&&t.n>=6; for(L i=0;i<6;++i) ok=ok&&r.c0[i]==i%2&&r.c1[i]==i/2&&r.v[i]==f(i%2,i/2); unsigned m=0; for(L i=0;i<6;++i){ ok=ok&&s.v[i]==f(s.c0[i],s.c1[i]); m|=1u<<(s.c0[i]+2*s.c1[i]); } HOLDS(order_coord, ok&&m==63); }
OB(order3)(A4){ L s[3]={2,1,2}; EF f(s,s+3,0); f(0,0,0)=a; f(1,0,0)=b; f(0,0,1)=c; f(1,0,1)=d; Rec r,q; f.forAllValuesInOrder(r); f.forAllValuesInSwitchedOrder(q); HOLDS(order3, r.n==4&&r.v[0]==a&&r.v[1]==b&&r.v[2]==c&&r.v[3]==d&&q.n==4&&q.v[0]==a&&q.v[1]==c&&q.v[2]==b&&q.v[3]==d); }
OB(order1)(long a,long b,long c){ EF f=tab1(a,b,c); Rec r,q; f.forAllValuesInOrder(r); f.forAllValuesInSwitchedOrder(q); HOLDS(order1, r.n==3&&r.v[0]==a&&r.v[1]==b&&r.v[2]==c&&q.n==3&&q.v[0]==a&&q.v[1]==b&&q.v[2]==c); }
OB(order_potts)(long a,long b){ PF f(2,3,a,b); Rec r,q; f.forAllValuesInOrder(r); f.forAllValuesInSwitchedOrder(q); HOLDS(order_potts, r.n==6&&r.v[0]==a&&r.v[1]==b&&r.v[2]==b&&r.v[3]==a&&r.v[4]==b&&r.v[5]==b&&q.n==6&&q.v[0]==a&&q.v[1]==b&&q.v[2]==b&&q.v[3]==b&&q.v[4]==a&&q.v[5]==b); }
// says: isPotts holds exactly for one value on the diagonal and one off it
// code: function_properties_base.hxx isPotts; function_properties.hxx BinaryFunctionProperties<IsPotts>
AI EF t33(long d,long o){ EF f=tab(3,3); for(L i=0;i<3;++i) for(L j=0;j<3;++j) f(i,j)= i==j?d:o; return f; }
#ifdef NDEBUG // the larger tables in one build only: assertions do not enter the predicate
OB(potts_yes)(long a,long b){ EF f=t33(a,b); bool r=f.isPotts(); typedef BinaryFunctionProperties<BinaryProperties::IsPotts,EF> BP; HOLDS(potts_yes, r&&BP::op(f)&&f.isGeneralizedPotts()); }
#define PNO(nm,I,J) OB(potts_no_##nm)(long a,long b,long c){ if(c==(I==J?a:b)) return; EF f=t33(a,b); f(I,J)=c; typedef BinaryFunctionProperties<BinaryProperties::IsPotts,EF> BP; HOLDS(potts_no_##nm, !f.isPotts()&&!BP::op(f)&&!f.isGeneralizedPotts()); }
PNO(00,0,0) PNO(11,1,1) PNO(22,2,2) PNO(01,0,1) PNO(10,1,0) PNO(20,2,0) PNO(02,0,2) PNO(12,1,2) PNO(21,2,1)
#endif
OB(potts_fams)(){ PF p(3,3,1,2); CF c=cf(3,3,5); SF s(3,3,1); AF t(3,3,1); PN n=pn2(3,3,1,2); PG g=pg2(3,3,1,2); HOLDS(potts_fams, p.isPotts()&&c.isPotts()&&n.isPotts()&&g.isPotts()&&p.isGeneralizedPotts()&&c.isGeneralizedPotts()&&n.isGeneralizedPotts()&&g.isGeneralizedPotts()&&!s.isPotts()&&!t.isPotts()&&!s.isGeneralizedPotts()); }
OB(pottsg_not_potts)(long a,long b,long c,long d,long e){ L s[3]={3,3,3}; long v[5]={a,b,c,d,e}; PG f(s,s+3,v); HOLDS(pottsg_not_potts, f.isPotts()==(a==b&&b==c&&c==d)&&f.isGeneralizedPotts()); }
OB(gpotts3)(long a,long b,long c,long d,long e){ L s[3]={3,3,3}; long v[5]={a,b,c,d,e}; PG g(s,s+3,v); EF f(s,s+3,0); for(L i=0;i<3;++i) for(L j=0;j<3;++j) for(L k=0;k<3;++k){ L l[3]={i,j,k}; f(i,j,k)=g(l); } HOLDS(gpotts3, f.isGeneralizedPotts()); }
#define G3NO(nm,I,J,K) OB(gpotts3_no_##nm)(long x){ if(x==0) return; L s[3]={3,3,3}; EF f(s,s+3,0); f(I,J,K)=x; HOLDS(gpotts3_no_##nm, !f.isGeneralizedPotts()); }
G3NO(012,0,1,2) G3NO(210,2,1,0) G3NO(001,0,0,1) G3NO(010,0,1,0) G3NO(011,0,1,1) G3NO(111,1,1,1) G3NO(220,2,2,0) G3NO(202,2,0,2)
OB(gpotts_bin)(A4){ L s[3]={2,2,2}; EF f(s,s+3,0); f(0,0,0)=a; f(1,1,1)=a; f(1,0,0)=b; f(0,1,1)=b; f(0,1,0)=c; f(1,0,1)=c; f(0,0,1)=d; f(1,1,0)=d; HOLDS(gpotts_bin, f.isGeneralizedPotts()); }
OB(gpotts_bin_no)(A4,long x){ if(x==d) return; L s[3]={2,2,2}; EF f(s,s+3,0); f(0,0,0)=a; f(1,1,1)=a; f(1,0,0)=b; f(0,1,1)=b; f(0,1,0)=c; f(1,0,1)=c; f(0,0,1)=d; f(1,1,0)=x; HOLDS(gpotts_bin_no, !f.isGeneralizedPotts()); }
OB(gpotts_4)(long a,long b){ L s[4]={2,1,2,1}; EF f(s,s+4,0); f(0,0,0,0)=a; f(1,0,1,0)=b; HOLDS(gpotts_4, f.isGeneralizedPotts()); }
OB(gpotts_4no)(long a){ if(a==0) return; L s[4]={2,2,2,2}; EF f(s,s+4,0); f(1,1,0,0)=a; HOLDS(gpotts_4no, !f.isGeneralizedPotts()); }
OB(gpotts_21)(long a,long b,long c){ L s[2]={2,1}; EF f(s,s+2,0); f(0,0)=a; f(1,0)=b; HOLDS(gpotts_21, f.isGeneralizedPotts()); }
OB(gpotts_1)(long a,long b,long c){ HOLDS(gpotts_1, !tab1(a,b,c).isGeneralizedPotts()); }
// says: difference predicates hold for tables of that form and not for others
// code: function_properties_base.hxx isSquaredDifference, isAbsoluteDifference, isTruncated...
AI EF copy(const SF& g){ EF f=tab(3,3); for(L i=0;i<3;++i) for(L j=0;j<3;++j){ L l[2]={i,j}; f(i,j)=g(l); } return f; }
OB(sq_yes)(long w){ SF g(3,3,w); EF f=copy(g); HOLDS(sq_yes, g.isSquaredDifference()&&f.isSquaredDifference()); }
OB(abs_yes)(long w){ AF g(3,3,w); HOLDS(abs_yes, g.isAbsoluteDifference()); }
OB(tsq_yes)(){ bool r=true; for(long w=0;w<3;++w) for(long t=1;t<11;++t){ TS g(4,4,t,w); r=r&&g.isTruncatedSquaredDifference(); } HOLDS(tsq_yes, r); }
OB(tabs_yes)(){ bool r=true; for(long w=0;w<3;++w) for(long t=1;t<5;++t){ TA g(4,4,t,w); r=r&&g.isTruncatedAbsoluteDifference(); } HOLDS(tabs_yes, r); }
#define DNO(nm,I,J) OB(diff_no_##nm)(long w,long x){ long q=(long(I)-J)*(long(I)-J)*w, p=(I>J?I-J:J-I)*w; if(x==q||x==p||w==0) return; EF f=copy(SF(3,3,w)); f(I,J)=x; EF h=tab(3,3); for(L i=0;i<3;++i) for(L j=0;j<3;++j) h(i,j)=long(i>j?i-j:j-i)*w; h(I,J)=x; HOLDS(diff_no_##nm, !f.isSquaredDifference()&&!h.isAbsoluteDifference()); }
DNO(00,0,0) DNO(11,1,1) DNO(01,0,1) DNO(12,1,2) DNO(21,2,1) DNO(02,0,2) DNO(20,2,0)
OB(tr_no)(){ bool r=true; for(L i=0;i<4;++i) for(L j=0;j<4;++j) if(!(i==1&&j==0)&&!(i==3&&j==0)){ EF f=tab(4,4),h=tab(4,4); for(L k=0;k<4;++k) for(L l=0;l<4;++l){ L d=k>l?k-l:l-k; f(k,l)=mn(d*d,5); h(k,l)=mn(d,2); } r=r&&f.isTruncatedSquaredDifference()&&h.isTruncatedAbsoluteDifference(); f(i,j)=7; h(i,j)=7; r=r&&!f.isTruncatedSquaredDifference()&&!h.isTruncatedAbsoluteDifference(); } HOLDS(tr_no, r); }
OB(diff_cross)(){ SF s(3,3,2); AF t(3,3,2); HOLDS(diff_cross, !s.isAbsoluteDifference()&&!t.isSquaredDifference()); }
OB(diff_dim)(long a,long b,long c){ EF f=tab1(a,b,c); HOLDS(diff_dim, !f.isSquaredDifference()&&!f.isAbsoluteDifference()&&!f.isTruncatedSquaredDifference()&&!f.isTruncatedAbsoluteDifference()&&f.isSubmodular()); }
// says: submodular iff f00+f11 <= f01+f10
// code: function_properties_base.hxx isSubmodular
OB(submod)(A4){ HOLDS(submod, tab22(a,b,c,d).isSubmodular()==(a+d<=b+c)); }
OB(submod_potts)(){ PF p(2,2,0,1), q(2,2,1,0), r(2,2,1,1); HOLDS(submod_potts, p.isSubmodular()&&!q.isSubmodular()&&r.isSubmodular()); }
// says: equality of functions is equality of shape and values
// code: function_properties_base.hxx operator==
OB(eq)(A4,long p,long q){ HOLDS(eq, (PF(3,3,a,b)==PF(3,3,c,d))==(a==c&&b==d)&&!(PF(3,3,a,b)==PF(3,4,a,b))&&!(PF(4,3,a,b)==PF(3,3,a,b))); }
OB(eq_sf)(long a,long b){ HOLDS(eq_sf, (SF(2,2,a)==SF(2,2,b))==(a==b)&&(CF(cf(2,3,a))==cf(2,3,b))==(a==b)&&!(cf(2,3,a)==cf(3,2,a))); }
// says: a factor reports the aggregates, predicates and values of its own function among several types
// code: graphicalmodel_factor.hxx, graphicalmodel_function_wrapper.hxx
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PF,EF,SF,CF>::type,DiscreteSpace<> > G;
#ifdef NDEBUG
#define FAC(nm,FUN) OB(fac_##nm)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(PF(2,3,91,92)),v,v+2); gm.addFactor(gm.addFunction(tab23(93,94,95,96,97,98)),v,v+2); gm.addFactor(gm.addFunction(SF(2,3,99)),v,v+2); gm.addFactor(gm.addFunction(cf(2,3,100)),v,v+2); auto f=FUN; L k=gm.addFactor(gm.addFunction(f),v,v+2); long o[6],s[6]; gm[k].copyValues(o); gm[k].copyValuesSwitchedOrder(s); bool r=k==4&&gm[k].size()==6&&gm[k].shape(0)==2&&gm[k].shape(1)==3; for(L i=0;i<2;++i) for(L j=0;j<3;++j){ L l[2]={i,j}; r=r&&o[i+2*j]==f(l)&&s[3*i+j]==f(l); } HOLDS(fac_##nm, r); }\
 OB(facagg_##nm)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(PF(2,3,91,92)),v,v+2); gm.addFactor(gm.addFunction(tab23(93,94,95,96,97,98)),v,v+2); gm.addFactor(gm.addFunction(SF(2,3,99)),v,v+2); auto f=FUN; L k=gm.addFactor(gm.addFunction(f),v,v+2); HOLDS(facagg_##nm, gm[k].sum()==f.sum()&&gm[k].isPotts()==f.isPotts()&&gm[k].isLinearConstraint()==f.isLinearConstraint()); }\
 OB(facdif_##nm)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(PF(2,3,91,92)),v,v+2); gm.addFactor(gm.addFunction(tab23(93,94,95,96,97,98)),v,v+2); auto f=FUN; L k=gm.addFactor(gm.addFunction(f),v,v+2); HOLDS(facdif_##nm, gm[k].isSquaredDifference()==f.isSquaredDifference()&&gm[k].isAbsoluteDifference()==f.isAbsoluteDifference()); }\
 OB(factru_##nm)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(PF(2,3,91,92)),v,v+2); auto f=FUN; L k=gm.addFactor(gm.addFunction(f),v,v+2); HOLDS(factru_##nm, gm[k].isTruncatedAbsoluteDifference()==f.isTruncatedAbsoluteDifference()&&gm[k].isTruncatedSquaredDifference()==f.isTruncatedSquaredDifference()); }\
 OB(facmm_##nm)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(PF(2,3,91,92)),v,v+2); gm.addFactor(gm.addFunction(tab23(93,94,95,96,97,98)),v,v+2); auto f=FUN; L k=gm.addFactor(gm.addFunction(f),v,v+2); HOLDS(facmm_##nm, gm[k].min()==f.min()&&gm[k].max()==f.max()); }
FAC(pf,PF(2,3,a,b)) FAC(ef,tab23(a,b,c,d,e,g)) FAC(sf,SF(2,3,a)) FAC(cf,cf(2,3,a))
OB(facprod)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(tab23(a,b,c,d,e,g)),v,v+2); HOLDS(facprod, gm[0].product()==a*b*c*d*e*g); }
OB(facsub)(A4){ L n[2]={2,2},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(tab22(a,b,c,d)),v,v+2); HOLDS(facsub, gm[0].isSubmodular()==(a+d<=b+c)); }
OB(fac_traverse)(A6){ L n[2]={2,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(PF(2,3,91,92)),v,v+2); gm.addFactor(gm.addFunction(tab23(a,b,c,d,e,g)),v,v+2); Rec r,q; gm[1].forAllValuesInOrder(r); gm[1].forAllValuesInSwitchedOrder(q); HOLDS(fac_traverse, r.n==6&&r.v[0]==a&&r.v[1]==b&&r.v[2]==c&&r.v[3]==d&&r.v[4]==e&&r.v[5]==g&&q.n==6&&q.v[1]==c&&q.v[2]==e&&q.v[3]==b); }
#endif
// says: deliberately false (control)
OB(ctl_agg)(A4){ HOLDS(ctl_agg, tab22(a,b,c,d).sum()==a+b+c); }
