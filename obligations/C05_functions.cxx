// C05: label functions take the value their family defines.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/unary_loss_function.hxx>
using namespace opengm;
static inline long dist(L i, L j){ long d=long(i)-long(j); return d<0 ? -d : d; }
static inline bool sm(L i){ return i < (L(1)<<20); }
static inline bool sm(long i){ return i < (1L<<20) && i > -(1L<<20); }
template<class F> static inline bool shape2(const F& f, L n, L m){ return f.dimension()==2 && f.shape(0)==n && f.shape(1)==m && f.size()==n*m; }

// says: a Potts function has one value for equal and one for unequal labels
// code: functions/potts.hxx PottsFunction
OB(potts_value)(L n,L m,long a,long b,L i,L j){ PottsFunction<long> f(n,m,a,b); L l[8]={i,j}; std::vector<L> v(l,l+2); HOLDS(potts_value, f(l)==(i==j?a:b) && f(v.begin())==(i==j?a:b) && f.valueEqual()==a && f.valueNotEqual()==b); }
OB(potts_value_eq_d)(L n,L m,double a,double b,L i){ if(a!=a) return; PottsFunction<double> f(n,m,a,b); L l[8]={i,i}; HOLDS(potts_value_eq_d, f(l)==a); }
OB(potts_value_ne_d)(L n,L m,double a,double b,L i,L j){ if(b!=b||i==j) return; PottsFunction<double> f(n,m,a,b); L l[8]={i,j}; HOLDS(potts_value_ne_d, f(l)==b); }
OB(potts_shape)(L n,L m,long a,long b){ PottsFunction<long> f(n,m,a,b); HOLDS(potts_shape, shape2(f,n,m)); }
OB(potts_flags)(L n,L m,long a,long b){ PottsFunction<long> f(n,m,a,b); HOLDS(potts_flags, f.isPotts() && f.isGeneralizedPotts()); }
OB(potts_parameter)(L n,L m,long a,long b,long c){ PottsFunction<long> f(n,m,a,b); const PottsFunction<long>& k=f; bool r=k.parameter(0)==a&&k.parameter(1)==b&&f.numberOfWeights()==2; f.parameter(0)=c; r=r&&f.valueEqual()==c&&f.valueNotEqual()==b; f.parameter(1)=a; r=r&&f.valueEqual()==c&&f.valueNotEqual()==a; HOLDS(potts_parameter, r); }
OB(potts_equal)(L n,L m,long a,long b,L n2,L m2,long a2,long b2){ PottsFunction<long> f(n,m,a,b),g(n2,m2,a2,b2); HOLDS(potts_equal, (f==g)==(n==n2&&m==m2&&a==a2&&b==b2)); }

// says: the n-ary Potts function is its equal-value iff all labels agree
// code: functions/pottsn.hxx PottsNFunction
OB(pottsn_value2)(long a,long b,L i,L j){ L s[2]={5,7}; PottsNFunction<long> f(s,s+2,a,b); L l[8]={i,j}; HOLDS(pottsn_value2, f(l)==(i==j?a:b)); }
OB(pottsn_value3)(long a,long b,L i,L j,L k){ L s[3]={5,7,4}; PottsNFunction<long> f(s,s+3,a,b); L l[8]={i,j,k}; HOLDS(pottsn_value3, f(l)==((i==j&&j==k)?a:b)); }
OB(pottsn_value4)(long a,long b,L i,L j,L k,L m){ L s[4]={5,7,4,4}; PottsNFunction<long> f(s,s+4,a,b); L l[8]={i,j,k,m}; HOLDS(pottsn_value4, f(l)==((i==j&&j==k&&k==m)?a:b)); }
OB(pottsn_shape)(long a,long b){ L s[3]={5,7,4}; PottsNFunction<long> f(s,s+3,a,b); HOLDS(pottsn_shape, f.dimension()==3&&f.shape(0)==5&&f.shape(1)==7&&f.shape(2)==4&&f.size()==140&&f.isPotts()&&f.isGeneralizedPotts()); }

// says: a generalized Potts function depends only on the partition of equal labels
// code: functions/pottsg.hxx PottsGFunction
OB(pottsg_value2)(long a,long b,L i,L j){ L s[2]={5,7}; long w[8]={a,b}; PottsGFunction<long> f(s,s+2,w); L l[8]={i,j}; HOLDS(pottsg_value2, f(l)==(i==j?b:a)); }
OB(pottsg_value3)(long a,long b,long c,long d,long e,L i,L j,L k){ L s[3]={5,7,4}; long w[8]={a,b,c,d,e}; PottsGFunction<long> f(s,s+3,w); L l[8]={i,j,k}; long want = i==j ? (j==k ? e : b) : (i==k ? c : (j==k ? d : a)); HOLDS(pottsg_value3, f(l)==want); }
#define PG4(nm,I,J,K,M,IDX) OB(nm)(long a,long b){ L s[4]={5,7,4,6}; long w[16]; for(int i=0;i<16;++i) w[i]=b; w[IDX]=a; PottsGFunction<long> f(s,s+4,w); L l[8]={I,J,K,M}; HOLDS(nm, f(l)==a); }
PG4(pottsg_value4_p0,0,1,2,3,0) PG4(pottsg_value4_p1,1,1,2,3,1) PG4(pottsg_value4_p2,1,2,1,3,2) PG4(pottsg_value4_p3,0,1,1,3,3) PG4(pottsg_value4_p4,1,1,1,3,4)
PG4(pottsg_value4_p5,3,1,2,3,5) PG4(pottsg_value4_p6,3,1,1,3,6) PG4(pottsg_value4_p7,0,1,2,1,7) PG4(pottsg_value4_p8,2,1,2,1,8) PG4(pottsg_value4_p9,1,1,2,1,9)
PG4(pottsg_value4_p10,0,1,2,2,10) PG4(pottsg_value4_p11,1,1,2,2,11) PG4(pottsg_value4_p12,2,1,2,2,12) PG4(pottsg_value4_p13,0,1,1,1,13) PG4(pottsg_value4_p14,1,1,1,1,14)
OB(pottsg_setbylabel3)(long a,L i,L j,L k,L p,L q,L r){ if(i>=3||j>=3||k>=3||p>=3||q>=3||r>=3) return; L s[3]={3,3,3}; PottsGFunction<long> f(s,s+3); L l[8]={i,j,k},m[8]={p,q,r}; f.setByLabel(l,a); bool same=(i==j)==(p==q)&&(i==k)==(p==r)&&(j==k)==(q==r); HOLDS(pottsg_setbylabel3, f(m)==(same?a:0)); }
#define PGSET(nm,I,J,K,M) OB(nm)(long a){ L s[4]={5,7,4,6}; PottsGFunction<long> f(s,s+4); L l[8]={I,J,K,M}; f.setByLabel(l,a); L m[8]={9*I+1,9*J+1,9*K+1,9*M+1}, o[8]={0,1,2,2}; HOLDS(nm, f(m)==a && f(o)==0); }
PGSET(pottsg_set_a,0,1,2,3) PGSET(pottsg_set_b,1,1,2,3) PGSET(pottsg_set_c,3,1,1,3) PGSET(pottsg_set_d,2,1,2,1) PGSET(pottsg_set_e,0,1,1,1) PGSET(pottsg_set_f,1,1,1,1) PGSET(pottsg_set_g,1,1,2,1)
OB(pottsg_shape)(long a){ L s[3]={5,7,4}; PottsGFunction<long> f(s,s+3); HOLDS(pottsg_shape, f.dimension()==3&&f.shape(0)==5&&f.shape(1)==7&&f.shape(2)==4&&f.size()==140&&f.isGeneralizedPotts()); }
OB(pottsg_ispotts)(long a,long b,long c,long d,long e){ L s[3]={5,7,4}; long w[8]={a,b,c,d,e}; PottsGFunction<long> f(s,s+3,w); HOLDS(pottsg_ispotts, f.isPotts()==(a==b&&a==c&&a==d)); }

// says: absolute / squared difference functions scale |i-j| resp. (i-j)^2
// code: functions/absolute_difference.hxx, functions/squared_difference.hxx operator()
OB(absdiff_value)(L n,L m,long w,L i,L j){ if(!sm(i)||!sm(j)||!sm(w)) return; AbsoluteDifferenceFunction<long> f(n,m,w); L l[8]={i,j}; HOLDS(absdiff_value, f(l)==w*dist(i,j)); }
OB(absdiff_shape)(L n,L m,long w){ AbsoluteDifferenceFunction<long> f(n,m,w); HOLDS(absdiff_shape, shape2(f,n,m)); }
OB(sqdiff_value)(L n,L m,long w,L i,L j){ if(!sm(i)||!sm(j)||!sm(w)) return; SquaredDifferenceFunction<long> f(n,m,w); L l[8]={i,j}; long d=long(i)-long(j); HOLDS(sqdiff_value, f(l)==d*d*w && f.weight()==w); }
OB(sqdiff_shape)(L n,L m,long w){ SquaredDifferenceFunction<long> f(n,m,w); HOLDS(sqdiff_shape, shape2(f,n,m)); }
#define DD(nm,F,I,J,D) OB(nm)(double w){ if(w!=w) return; F<double> f(9,9,w); L l[8]={I,J}; HOLDS(nm, f(l)==w*D); }
DD(absdiff_d12,AbsoluteDifferenceFunction,1,2,1.0) DD(absdiff_d52,AbsoluteDifferenceFunction,5,2,3.0) DD(sqdiff_d25,SquaredDifferenceFunction,2,5,9.0) DD(sqdiff_d21,SquaredDifferenceFunction,2,1,1.0)

// says: truncated differences are cut at the truncation value before weighting
// code: functions/truncated_absolute_difference.hxx, functions/truncated_squared_difference.hxx operator()
OB(tabsdiff_value)(L n,L m,long t,long w,L i,L j){ if(!sm(i)||!sm(j)||!sm(w)||!sm(t)) return; TruncatedAbsoluteDifferenceFunction<long> f(n,m,t,w); L l[8]={i,j}; long d=dist(i,j); HOLDS(tabsdiff_value, f(l)==(d>t ? t*w : d*w)); }
OB(tabsdiff_shape)(L n,L m,long t,long w){ TruncatedAbsoluteDifferenceFunction<long> f(n,m,t,w); HOLDS(tabsdiff_shape, shape2(f,n,m)); }
OB(tsqdiff_value)(L n,L m,long t,long w,L i,L j){ if(!sm(i)||!sm(j)||!sm(w)||!sm(t)) return; TruncatedSquaredDifferenceFunction<long> f(n,m,t,w); L l[8]={i,j}; long d=long(i)-long(j); HOLDS(tsqdiff_value, f(l)==(d*d>t ? t*w : d*d*w)); }
OB(tsqdiff_shape)(L n,L m,long t,long w){ TruncatedSquaredDifferenceFunction<long> f(n,m,t,w); HOLDS(tsqdiff_shape, shape2(f,n,m)); }

// says: a constant function is constant
// code: functions/constant.hxx ConstantFunction
OB(constant_value)(long a,L i,L j){ L s[2]={5,7}; ConstantFunction<long> f(s,s+2,a); L l[8]={i,j}; HOLDS(constant_value, f(l)==a && f.dimension()==2&&f.shape(0)==5&&f.shape(1)==7&&f.size()==35); }
OB(constant_nullary)(long a){ L s[2]={5,7}; ConstantFunction<long> f(s,s,a); L l[8]={0}; HOLDS(constant_nullary, f(l)==a && f.dimension()==0&&f.size()==1); }

// says: an explicit function returns the table entry that was stored for the labels
// code: functions/explicit_function.hxx, datastructures/marray
OB(explicit_2)(long a,long b,long c,long d,long e,long g){ L s[2]={2,3}; ExplicitFunction<long> f(s,s+2,0); f(0,0)=a;f(1,0)=b;f(0,1)=c;f(1,1)=d;f(0,2)=e;f(1,2)=g;
  L l00[4]={0,0},l10[4]={1,0},l01[4]={0,1},l11[4]={1,1},l02[4]={0,2},l12[4]={1,2}; HOLDS(explicit_2, f(l00)==a&&f(l10)==b&&f(l01)==c&&f(l11)==d&&f(l02)==e&&f(l12)==g&&f.dimension()==2&&f.shape(0)==2&&f.shape(1)==3&&f.size()==6); }
OB(explicit_init)(long a){ L s[2]={2,3}; ExplicitFunction<long> f(s,s+2,a); bool r=true; for(L j=0;j<3;++j) for(L i=0;i<2;++i){ L l[4]={i,j}; r=r&&f(l)==a; } HOLDS(explicit_init, r); }
OB(explicit_3)(long a,long b){ L s[3]={2,3,2}; ExplicitFunction<long> f(s,s+3,b); f(1,2,0)=a; bool r=true; for(L k=0;k<2;++k) for(L j=0;j<3;++j) for(L i=0;i<2;++i){ L l[4]={i,j,k}; r=r&&f(l)==((i==1&&j==2&&k==0)?a:b); } HOLDS(explicit_3, r); }
OB(explicit_scalar)(long a){ L s[3]={2,3,2}; ExplicitFunction<long> f(s,s,a); L l[4]={0}; HOLDS(explicit_scalar, f(l)==a&&f.dimension()==0&&f.size()==1); }

// says: a single-site function is a look-up table
// code: functions/singlesitefunction.hxx
OB(singlesite)(long a,long b,long c){ StaticSingleSiteFunction<long,3,StackStorage> f; L l[3][4]={{0},{1},{2}}; f(l[0])=a;f(l[1])=b;f(l[2])=c; HOLDS(singlesite, f(l[0])==a&&f(l[1])==b&&f(l[2])==c&&f.dimension()==1&&f.shape(0)==3&&f.size()==3); }
OB(singlesite_heap)(long a,long b,long c){ StaticSingleSiteFunction<long,3,HeapStorage> f; L l[3][4]={{0},{1},{2}}; f(l[0])=a;f(l[1])=b;f(l[2])=c; StaticSingleSiteFunction<long,3,HeapStorage> g(f); f(l[0])=0; HOLDS(singlesite_heap, g(l[0])==a&&g(l[1])==b&&g(l[2])==c&&f(l[1])==b&&f.dimension()==1&&f.shape(0)==3&&f.size()==3); }
OB(singlesite_dyn)(long a,long b,long c){ DynamicSingleSiteFunction<long> f(3); f[0]=a;f[1]=b;f[2]=c; L l[3][4]={{0},{1},{2}}; HOLDS(singlesite_dyn, f(l[0])==a&&f(l[1])==b&&f(l[2])==c&&f.dimension()==1&&f.shape(0)==3&&f.size()==3); }

// says: deliberately false (control): an unequal pair does not have the equal-value
OB(ctl_potts)(L n,L m,long a,long b,L i,L j){ PottsFunction<long> f(n,m,a,b); L l[8]={i,j}; HOLDS(ctl_potts, f(l)==a); }
