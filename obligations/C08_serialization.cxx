// C08: serialization of a function is a loss-free round trip with exact lengths.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
using namespace opengm; using namespace opengm::functions::learnable;
#define AI static inline __attribute__((always_inline))
// a sequence of N places that remembers which of them were written, how often, and whether any other was
template<class T,int N> struct Seq { T b[N+4]; long w; bool once[N+4]; bool bad; Seq():w(0),bad(false){ for(int i=0;i<N+4;++i){ b[i]=T(777); once[i]=false; } } };
template<class T,int N> struct Out { typedef T value_type; typedef std::random_access_iterator_tag iterator_category; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; Seq<T,N>* s; long k; Out(Seq<T,N>& q):s(&q),k(0){}
   struct P { Seq<T,N>* s; long k; template<class A> void operator=(const A& a) const { if(k<0||k>=N||s->once[k]) s->bad=true; else { s->b[k]=T(a); s->once[k]=true; ++s->w; } } };
   P operator*() const { P p={s,k}; return p; } Out& operator++(){ ++k; return *this; } Out operator++(int){ Out o(*this); ++k; return o; } Out operator+(long n) const { Out o(*this); o.k+=n; return o; } Out& operator+=(long n){ k+=n; return *this; } };
// the values are read back from exactly the announced sequences; f is the original, d the function deserialized into
template<int NI,int NV,class T,class F> AI bool roundtrip(const F& f,F& d){ Seq<L,NI> ix; Seq<T,NV> vx; typedef FunctionSerialization<F> S;
   const bool len=S::indexSequenceSize(f)==NI&&S::valueSequenceSize(f)==NV; S::serialize(f,Out<L,NI>(ix),Out<T,NV>(vx)); const bool all=ix.w==NI&&vx.w==NV&&!ix.bad&&!vx.bad;
   std::vector<L> iv(ix.b,ix.b+NI+4); std::vector<T> vv(vx.b,vx.b+NV+4); S::deserialize(iv.begin(),vv.begin(),d); return len&&all; }
template<class F> AI bool same_shape(const F& f,const F& d,L n){ bool r=d.dimension()==n&&f.dimension()==n&&d.size()==f.size(); for(L i=0;i<n;++i) r=r&&d.shape(i)==f.shape(i); return r; }
// RT: into a fresh function and into one that already holds something else
#define RT(nm,F,T,NI,NV,N,PARS,MAKE,USED,READY,CMP) \
  OB(fresh_##nm) PARS { F f=MAKE; F d; const bool r=roundtrip<NI,NV,T>(f,d); READY; HOLDS(fresh_##nm, r&&same_shape(f,d,N)&&(CMP)); } \
  OB(used_##nm) PARS { F f=MAKE; F d=USED; const bool r=roundtrip<NI,NV,T>(f,d); READY; HOLDS(used_##nm, r&&same_shape(f,d,N)&&(CMP)); }
#define P(...) (__VA_ARGS__)
#define AT(...) ([&]{ L l_[8]={__VA_ARGS__}; return d(l_)==f(l_); }())
#define EV(f,...) ([&]{ L l_[8]={__VA_ARGS__}; return f(l_); }())
#define NOP (void)0
typedef ExplicitFunction<long> EF;
AI EF e0(long a){ return EF(a); }
AI EF e1(L n,long a,long b,long c=0,long d=0){ EF f(&n,&n+1,0); long v[4]={a,b,c,d}; for(L i=0;i<n;++i) f(i)=v[i]; return f; }
AI EF e2(L n,L m,long a,long b){ L s[2]={n,m}; EF f(s,s+2,0); for(L i=0;i<n;++i) for(L j=0;j<m;++j) f(i,j)=a*long(i)+b*long(j)+7; return f; }
AI EF e3(long a,long b,long c){ L s[3]={2,1,2}; EF f(s,s+3,0); for(L i=0;i<2;++i) for(L k=0;k<2;++k) f(i,0,k)=a*long(i)+b*long(k)+c; return f; }
#ifdef NDEBUG
// says: an explicit table comes back with its shape and all entries, also the table of no variables
// code: functions/explicit_function.hxx
RT(explicit0,EF,long,1,1,0,(long a),e0(a),e1(2,a,a),NOP,d(0)==a&&d.size()==1)
RT(explicit1,EF,long,2,3,1,(long a,long b,long c),e1(3,a,b,c),e2(2,2,a,b),NOP,d(0)==a&&d(1)==b&&d(2)==c)
RT(explicit2,EF,long,3,6,2,(long a,long b),e2(2,3,a,b),e0(a),NOP,AT(0,0)&&AT(1,0)&&AT(0,1)&&AT(1,1)&&AT(0,2)&&AT(1,2))
RT(explicit2b,EF,long,3,6,2,(long a,long b),e2(3,2,a,b),e2(2,3,b,b),NOP,AT(0,0)&&AT(1,0)&&AT(2,0)&&AT(0,1)&&AT(1,1)&&AT(2,1)&&AT(2,1))
RT(explicit3,EF,long,4,4,3,(long a,long b,long c),e3(a,b,c),e1(3,a,b,c),NOP,AT(0,0,0)&&AT(1,0,0)&&AT(0,0,1)&&AT(1,0,1))
OB(fresh_explicit_ready)(long a,long b){ EF f=e2(2,2,a,b), d; roundtrip<3,4,long>(f,d); HOLDS(fresh_explicit_ready, d(0,0)==7&&d(1,0)==a+7&&d(0,1)==b+7&&d(1,1)==a+b+7); }
#endif
// says: the two-variable families come back with both label counts and all parameters
// code: functions/potts.hxx functions/absolute_difference.hxx functions/squared_difference.hxx functions/truncated_absolute_difference.hxx functions/truncated_squared_difference.hxx
typedef PottsFunction<long> PF; typedef PottsNFunction<long> PN; typedef PottsGFunction<long> PG; typedef AbsoluteDifferenceFunction<long> AD; typedef SquaredDifferenceFunction<long> SD; typedef TruncatedAbsoluteDifferenceFunction<long> TA; typedef TruncatedSquaredDifferenceFunction<long> TS;
#define PAIR (L n,L m,long a,long b,L i,L j)
RT(potts,PF,long,2,2,2,PAIR,PF(n,m,a,b),PF(m,n,b,a),NOP,AT(i,j))
RT(absdiff,AD,long,2,1,2,PAIR,AD(n,m,a),AD(m,n,b),NOP,AT(i,j))
RT(sqdiff,SD,long,2,1,2,PAIR,SD(n,m,a),SD(m,n,b),NOP,AT(i,j))
RT(tabsdiff,TA,long,2,2,2,PAIR,TA(n,m,a,b),TA(m,n,b,a),NOP,AT(i,j))
RT(tsqdiff,TS,long,2,2,2,PAIR,TS(n,m,a,b),TS(m,n,b,a),NOP,AT(i,j))
// says: the Potts functions of many variables come back with all label counts and values
// code: functions/pottsn.hxx functions/pottsg.hxx
AI PN pn(L n,L x,L y,L z,long a,long b){ L s[3]={x,y,z}; return PN(s,s+n,a,b); }
RT(pottsn2,PN,long,3,2,2,(L x,L y,long a,long b,L i,L j),pn(2,x,y,0,a,b),pn(1,y,1,1,b,a),NOP,AT(i,j))
RT(pottsn3,PN,long,4,2,3,(L x,L y,L z,long a,long b,L i,L j,L k),pn(3,x,y,z,a,b),pn(2,y,x,1,b,a),NOP,AT(i,j,k))
RT(pottsn1,PN,long,2,2,1,(L x,long a,long b,L i),pn(1,x,1,1,a,b),pn(3,x,1,1,b,a),NOP,AT(i))
AI PG pg(L n,long a,long b,long c,long d,long e){ L s[3]={2,3,4}; long v[5]={a,b,c,d,e}; return PG(s,s+n,v); }
RT(pottsg1,PG,long,2,1,1,(long a,L i),pg(1,a,0,0,0,0),pg(2,1,a,0,0,0),NOP,d(&i)==f(&i)&&d(&i)==a)
RT(pottsg2,PG,long,3,2,2,(long a,long b,L i,L j),pg(2,a,b,0,0,0),pg(3,b,a,1,2,3),NOP,AT(i,j))
RT(pottsg3,PG,long,4,5,3,(long a,long b,long c,long e,long g,L i,L j,L k),pg(3,a,b,c,e,g),pg(2,b,a,1,2,3),NOP,AT(i,j,k))
AI PG pg4(long a,long b,long c){ L s[4]={5,2,3,4}; long v[15]={a,b,c,a-b,a-c,b-c,a+b,a+c,b+c,2*a,2*b,2*c,3*a,3*b,3*c}; return PG(s,s+4,v); }
RT(pottsg4,PG,long,5,15,4,(long a,long b,long c),pg4(a,b,c),pg(2,b,a,1,2,3),NOP,AT(0,1,2,3)&&AT(0,0,1,2)&&AT(0,1,0,2)&&AT(0,1,1,2)&&AT(0,0,0,1)&&AT(0,1,2,0)&&AT(0,1,1,0)&&AT(0,1,2,1)&&AT(0,1,0,1)&&AT(0,0,1,0)&&AT(0,1,2,2)&&AT(0,0,1,1)&&AT(0,1,0,0)&&AT(0,1,1,1)&&AT(1,1,1,1))
// says: a constant comes back with its shape and value
// code: functions/constant.hxx
typedef ConstantFunction<long> CF; AI CF cf(L n,L x,L y,long a){ L s[2]={x,y}; return CF(s,s+n,a); }
RT(const0,CF,long,1,1,0,(long a,L i),cf(0,1,1,a),cf(2,3,4,a),NOP,d(&i)==a)
RT(const1,CF,long,2,1,1,(L x,long a,L i),cf(1,x,1,a),cf(2,3,4,a),NOP,AT(i)&&d(&i)==a)
RT(const2,CF,long,3,1,2,(L x,L y,long a,L i,L j),cf(2,x,y,a),cf(1,y,4,a),NOP,AT(i,j))
// says: unary tables of fixed and of free size come back with all entries
// code: functions/singlesitefunction.hxx
typedef StaticSingleSiteFunction<long,3,StackStorage> S3; typedef StaticSingleSiteFunction<long,3,HeapStorage> H3; typedef DynamicSingleSiteFunction<long> DS;
template<class F> AI F s3t(long a,long b,long c){ F f; L i=0; f(&i)=a; i=1; f(&i)=b; i=2; f(&i)=c; return f; }
AI S3 s3(long a,long b,long c){ return s3t<S3>(a,b,c); } AI H3 h3(long a,long b,long c){ return s3t<H3>(a,b,c); }
AI DS ds(L n,long a,long b,long c){ long v[3]={a,b,c}; DS f(n); for(L i=0;i<n;++i) f(&i)=v[i]; return f; }
RT(heap3,H3,long,0,3,1,(long a,long b,long c),h3(a,b,c),h3(c,a,a),NOP,AT(0)&&AT(1)&&AT(2)&&EV(d,2)==c)
RT(single3,S3,long,0,3,1,(long a,long b,long c),s3(a,b,c),s3(c,a,a),NOP,AT(0)&&AT(1)&&AT(2)&&EV(d,2)==c)
RT(dynsingle,DS,long,1,3,1,(long a,long b,long c),ds(3,a,b,c),ds(2,c,a,a),NOP,AT(0)&&AT(1)&&AT(2)&&EV(d,2)==c)
RT(dynsingle1,DS,long,1,1,1,(long a),ds(1,a,a,a),ds(3,1,2,3),NOP,AT(0)&&EV(d,0)==a)
// says: a field of experts comes back with its experts, weights and label count
// code: functions/fieldofexperts.hxx
typedef FoEFunction<double> FO; AI FO fo(L n,L e,double a,double b,L lab){ double x[4]={a,b,a,2.}, al[2]={b,3.}; return FO(x,al,lab,n,e); }
RT(foe12,FO,double,3,3,2,(long p,long q,L n),fo(2,1,double(p),double(q),n),fo(1,2,1.,2.,4),NOP,FunctionSerialization<FO>::valueSequenceSize(d)==3&&d.shape(1)==n)
OB(foe_values)(long p,long q,long n){ if(p<1||p>100||q<1||q>100) return; double x[4]={double(p),double(q),double(p+q),double(p-q)}, al[2]={double(q),double(p)}; FO f(x,al,L(3),L(2),L(2)), d; Seq<L,3> ix; Seq<double,6> vx; typedef FunctionSerialization<FO> S; S::serialize(f,Out<L,3>(ix),Out<double,6>(vx)); std::vector<L> iv(ix.b,ix.b+3); std::vector<double> vv(vx.b,vx.b+6); S::deserialize(iv.begin(),vv.begin(),d); Seq<L,3> iy; Seq<double,6> vy; S::serialize(d,Out<L,3>(iy),Out<double,6>(vy)); bool r=S::indexSequenceSize(f)==3&&S::valueSequenceSize(f)==6&&ix.w==3&&vx.w==6&&!ix.bad&&!vx.bad;
   for(int i=0;i<3;++i) r=r&&ix.b[i]==iy.b[i]; for(int i=0;i<6;++i) r=r&&vx.b[i]==vy.b[i]; bool has=false; for(int i=0;i<6;++i) has=has||vx.b[i]==double(p+q); HOLDS(foe_values, r&&has&&d.dimension()==2&&d.shape(0)==3&&d.size()==9); }
// says: a sparse table comes back with its shape, default and stored entries
// code: functions/sparsemarray.hxx
typedef SparseFunction<long,L,L> SP;
AI SP sp(L n,L m,long def){ L s[2]={n,m}; return SP(s,s+2,def); }
AI SP sp1(L n,L m,long def,L i,L j,long a){ SP f=sp(n,m,def); L c[2]={i,j}; f.insert(c,a); return f; }
AI SP sp2(L n,L m,long def,L i,L j,long a,L k,L o,long b){ SP f=sp1(n,m,def,i,j,a); L c[2]={k,o}; f.insert(c,b); return f; }
RT(sparse0,SP,long,4,1,2,(long a,long b),sp(2,3,a),sp(3,2,b),NOP,EV(d,0,0)==a&&EV(d,1,2)==a)
RT(sparse1,SP,long,5,2,2,(long a,long b),sp1(2,3,a,1,1,b),sp(3,2,b),NOP,EV(d,0,0)==a&&EV(d,1,2)==a&&EV(d,1,1)==b&&EV(d,0,1)==a&&EV(d,1,0)==a&&EV(d,0,2)==a)
#ifdef NDEBUG
RT(sparse2,SP,long,6,3,2,(long a,long b,long c),sp2(2,3,a,0,2,b,1,0,c),sp(3,2,b),NOP,EV(d,0,0)==a&&EV(d,1,2)==a&&EV(d,1,1)==a&&EV(d,0,1)==a&&EV(d,1,0)==c&&EV(d,0,2)==b)
OB(sparse_used)(long a,long b,long c){ SP f=sp1(2,3,a,1,2,b), d=sp1(2,3,b,0,1,c); roundtrip<5,2,long>(f,d); HOLDS(sparse_used, EV(d,0,1)==a&&EV(d,1,2)==b&&d.defaultValue()==a); }
#endif
// says: learnable functions come back with their features and weight indices; the weights are attached afterwards
// code: functions/learnable/lpotts.hxx functions/learnable/lunary.hxx functions/learnable/lweightedsum_of_functions.hxx
typedef learning::Weights<long> W; typedef LPotts<long> LP; typedef LUnary<long,L,L> LU; typedef LWeightedSumOfFunctions<long> LW;
AI W wts(long p,long q,long r=0){ W w(3); w.setWeight(0,p); w.setWeight(1,q); w.setWeight(2,r); return w; }
AI std::vector<L> ids(L n,L a,L b=0){ std::vector<L> r; r.push_back(a); if(n>1) r.push_back(b); return r; }
AI std::vector<long> fts(L n,long a,long b=0){ std::vector<long> r; r.push_back(a); if(n>1) r.push_back(b); return r; }
RT(lpotts1,LP,long,3,1,2,(L n,long p,long q,long a,L i,L j),LP(n,ids(1,1),fts(1,a)),LP(3,ids(2,0,1),fts(2,5,6)),W w=wts(p,q); f.setWeights(w); d.setWeights(w),AT(i,j)&&d.weightIndex(0)==1&&d.numberOfWeights()==1)
RT(lpotts2,LP,long,4,2,2,(L n,long p,long q,long a,long b,L i,L j),LP(n,ids(2,1,0),fts(2,a,b)),LP(3,ids(1,0),fts(1,5)),W w=wts(p,q); f.setWeights(w); d.setWeights(w),AT(i,j)&&d.weightIndex(0)==1&&d.weightIndex(1)==0&&d.numberOfWeights()==2&&d.weightGradient(1,&i)==f.weightGradient(1,&i))
#ifdef NDEBUG
typedef FeaturesAndIndices<long,L> FI;
AI LU lu(const W& w,L n,long a,long b,long c){ std::vector<FI> v(n); v[0].features=fts(1,a); v[0].weightIds=ids(1,2); if(n>1){ v[1].features=fts(2,b,c); v[1].weightIds=ids(2,0,1); } return LU(w,v); }
AI LU luc(const W& w,long a,long b){ L s[2]={1,2}; marray::Marray<L> wi(s,s+2); wi(0,0)=1; wi(0,1)=2; L z=2; marray::Marray<long> ft(&z,&z+1); ft(0)=a; ft(1)=b; return LU(w,2,wi,ft,true); }
AI LU luf(const W& w,long a){ L s[2]={2,1}; marray::Marray<L> wi(s,s+2); wi(0,0)=1; wi(1,0)=2; L z=1; marray::Marray<long> ft(&z,&z+1); ft(0)=a; return LU(w,2,wi,ft,false); }
#define LURT(nm,NI,NV,N,PARS,MAKE,CMP) OB(nm) PARS { W w=wts(p,q,s); LU f=MAKE, d; const bool r=roundtrip<NI,NV,long>(f,d); d.setWeights(w); HOLDS(nm, r&&same_shape(f,d,1)&&d.shape(0)==N&&d.numberOfWeights()==f.numberOfWeights()&&(CMP)); }
LURT(lunary1,7,1,1,(long p,long q,long s,long a),lu(w,1,a,0,0),AT(0)&&EV(d,0)==a*s)
LURT(lunary2,12,3,2,(long p,long q,long s,long a,long b,long c),lu(w,2,a,b,c),AT(0)&&AT(1)&&EV(d,1)==p*b+q*c&&d.weightIndex(0)==2&&d.weightIndex(1)==0&&d.weightIndex(2)==1)
LURT(lunary_const,11,2,2,(long p,long q,long s,long a,long b),luc(w,a,b),AT(0)&&AT(1)&&EV(d,0)==0&&EV(d,1)==q*a+s*b)
LURT(lunary_free,11,1,2,(long p,long q,long s,long a),luf(w,a),AT(0)&&AT(1)&&EV(d,0)==q*a&&EV(d,1)==s*a)
AI LW lw(const W& w,long a,long b){ std::vector<L> sh; sh.push_back(2); sh.push_back(1); std::vector<marray::Marray<long> > m(2,marray::Marray<long>(sh.begin(),sh.end())); m[0](0,0)=a; m[0](1,0)=b; m[1](0,0)=a-b; m[1](1,0)=2*a; return LW(sh,w,ids(2,2,0),m); }
OB(lwsum)(long p,long q,long s,long a,long b){ W w=wts(p,q,s); LW f=lw(w,a,b), d; const bool r=roundtrip<6,4,long>(f,d); d.setWeights(w); HOLDS(lwsum, r&&same_shape(f,d,2)&&AT(0,0)&&AT(1,0)&&EV(d,1,0)==s*b+p*2*a&&d.weightIndex(0)==2&&d.weightIndex(1)==0); }
#endif
// says: the constraint functions come back with their constraint and both return values
// code: functions/constraint_functions/label_order_function.hxx functions/constraint_functions/num_labels_limitation_function.hxx functions/constraint_functions/linear_constraint_function.hxx
#ifdef NDEBUG
typedef LabelOrderFunction<long> LO; typedef NumLabelsLimitationFunction<long> NL; typedef LinearConstraintFunction<long> LC;
AI LO lo(L n,L m,long a,long b,long v,long w){ std::vector<long> o; o.push_back(a); o.push_back(b); return LO(n,m,o,v,w); }
#define RT1(nm,F,T,NI,NV,N,PARS,MAKE,CMP) OB(fresh_##nm) PARS { F f=MAKE; F d; const bool r=roundtrip<NI,NV,T>(f,d); HOLDS(fresh_##nm, r&&same_shape(f,d,N)&&(CMP)); }
RT1(label_order,LO,long,3,4,2,(long a,long b,long v,long w),lo(2,1,a,b,v,w),AT(0,0)&&AT(1,0)&&EV(d,1,0)==(b<=a?v:w)&&EV(d,0,0)==v)
AI NL nl(L n,L a,L b,L mx,long v,long w){ L s[2]={a,b}; return NL(s,s+n,mx,v,w); }
RT1(numlabels,NL,long,5,2,2,(long v,long w),nl(2,2,3,1,v,w),AT(0,0)&&AT(1,2)&&EV(d,1,1)==v&&EV(d,0,1)==w)
RT1(numlabels_same,NL,long,4,2,2,(long v,long w),NL(L(2),L(2),L(1),v,w),AT(0,0)&&AT(1,0)&&EV(d,1,1)==v&&EV(d,0,1)==w)
#endif
// says: the soft constraints come back with their costs
// code: functions/soft_constraint_functions/label_cost_function.hxx functions/soft_constraint_functions/sum_constraint_function.hxx
typedef LabelCostFunction<long> CO; typedef SumConstraintFunction<long> SU;
AI CO co1(L n,L a,L b,L lab,long c){ L s[2]={a,b}; return CO(s,s+n,lab,c); }
AI CO co2(L n,L a,L b,long c0,long c1){ L s[2]={a,b}; long c[2]={c0,c1}; return CO(s,s+n,c,c+2); }
AI CO co3(L n,L lab,long c0,long c1){ long c[2]={c0,c1}; return CO(n,lab,c,c+2); }
RT(cost_single,CO,long,6,1,2,(long a,L i,L j),co1(2,2,3,1,a),CO(L(1),L(4),L(2),9L),NOP,AT(i,j)&&EV(d,0,1)==a&&EV(d,0,0)==0)
RT(cost_single_same,CO,long,5,1,2,(long a,L i,L j),CO(L(2),L(3),L(2),a),co1(2,2,3,1,7),NOP,AT(i,j)&&EV(d,0,2)==a&&EV(d,1,1)==0)
#ifdef NDEBUG
RT(cost_each,CO,long,6,2,2,(long a,long b),co2(2,2,1,a,b),CO(L(1),L(4),L(2),9L),NOP,AT(0,0)&&AT(1,0)&&EV(d,1,0)==a+b&&EV(d,0,0)==a)
RT(cost_each_same,CO,long,5,2,2,(long a,long b),co3(2,2,a,b),CO(L(1),L(4),L(2),9L),NOP,AT(0,0)&&AT(1,0)&&EV(d,1,0)==a+b&&EV(d,1,1)==b)
AI SU su1(L n,L a,L b,long c0,long c1,long lam,long bd){ L s[2]={a,b}; long c[2]={c0,c1}; return SU(s,s+n,c,c+2,true,lam,bd); }
AI SU su2(long c0,long c1,long c2,long lam,long bd){ L s[2]={2,1}; long c[3]={c0,c1,c2}; return SU(s,s+2,c,c+3,false,lam,bd); }
AI SU su3(long c0,long c1,long lam,long bd){ long c[2]={c0,c1}; return SU(L(2),L(2),c,c+2,true,lam,bd); }
AI SU su4(long c0,long c1,long c2,long c3,long lam,long bd){ long c[4]={c0,c1,c2,c3}; return SU(L(2),L(2),c,c+4,false,lam,bd); }
RT1(sum_shared,SU,long,6,4,2,(long a,long b,long lam,long bd),su1(2,2,1,a,b,lam,bd),AT(0,0)&&AT(1,0)&&EV(d,0,0)==lam*std::abs(2*a-bd))
RT1(sum_own,SU,long,6,5,2,(long a,long b,long c,long lam,long bd),su2(a,b,c,lam,bd),AT(0,0)&&AT(1,0)&&EV(d,1,0)==lam*std::abs(b+c-bd))
RT1(sum_shared_same,SU,long,5,4,2,(long a,long b,long lam,long bd),su3(a,b,lam,bd),AT(0,0)&&AT(1,0)&&AT(1,1)&&EV(d,0,1)==lam*std::abs(a+b-bd))
RT1(sum_own_same,SU,long,5,6,2,(long a,long b,long c,long e,long lam,long bd),su4(a,b,c,e,lam,bd),AT(0,0)&&AT(1,0)&&EV(d,1,1)==lam*std::abs(b+e-bd))
#endif
OB(ctl_roundtrip)(long a,long b){ PF f(2,2,a,b), d; roundtrip<2,2,long>(f,d); L l[2]={0,1}; HOLDS(ctl_roundtrip, d(l)==a); }
