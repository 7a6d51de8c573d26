// C30: learnable functions are the weighted sum of their features.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/unary_loss_function.hxx>
#include <opengm/graphicalmodel/parameters.hxx>
using namespace opengm; using namespace opengm::functions::learnable;
#define AI static inline __attribute__((always_inline))
typedef learning::Weights<long> W; typedef LPotts<long> LP; typedef LUnary<long,L,L> LU; typedef LWeightedSumOfFunctions<long> LS; typedef FeaturesAndIndices<long,L> FI;
template<class T> AI std::vector<T> vec(L n,T a=T(),T b=T(),T c=T(),T d=T()){ std::vector<T> r; if(n>0) r.push_back(a); if(n>1) r.push_back(b); if(n>2) r.push_back(c); if(n>3) r.push_back(d); return r; }
#define WT W w(4); w[0]=a; w[1]=b; w[2]=c; w[3]=d
// says: a learnable Potts function charges the weighted sum of its features when the labels differ and nothing when they agree
// code: functions/learnable/lpotts.hxx operator(), weightGradient
OB(potts_value)(long a,long b,long c,long d,long f,long g,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(2,2,0),vec<long>(2,f,g)); L l[8]={i,j}; return p(l)==(same?0:c*f+a*g); }; if(i==j){ HOLDS(potts_value, run(true)); } else { HOLDS(potts_value, run(false)); } }
OB(potts_value1)(long a,long b,long c,long d,long f,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(1,3),vec<long>(1,f)); L l[8]={i,j}; return p(l)==(same?0:d*f); }; if(i==j){ HOLDS(potts_value1, run(true)); } else { HOLDS(potts_value1, run(false)); } }
OB(potts_value3)(long a,long b,long c,long d,long f,long g,long h,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(3,1,3,2),vec<long>(3,f,g,h)); L l[8]={i,j}; return p(l)==(same?0:b*f+d*g+c*h); }; if(i==j){ HOLDS(potts_value3, run(true)); } else { HOLDS(potts_value3, run(false)); } }
OB(potts_none)(long a,long b,long c,long d,L i,L j){ WT; LP p(w,5,vec<L>(0),vec<long>(0)); L l[8]={i,j}; HOLDS(potts_none, p(l)==0&&p.numberOfWeights()==0); }
OB(potts_repeated)(long a,long b,long c,long d,long f,long g,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(2,2,2),vec<long>(2,f,g)); L l[8]={i,j}; return p(l)==(same?0:c*(f+g)); }; if(i==j){ HOLDS(potts_repeated, run(true)); } else { HOLDS(potts_repeated, run(false)); } }
// says: the derivative for a weight is its feature where the labels differ; it is the coefficient of that weight in the value
OB(potts_grad)(long a,long b,long c,long d,long f,long g,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(2,2,0),vec<long>(2,f,g)); L l[8]={i,j}; return p.weightGradient(0,l)==(same?0:f)&&p.weightGradient(1,l)==(same?0:g)&&p.numberOfWeights()==2&&p.weightIndex(0)==2&&p.weightIndex(1)==0; }; if(i==j){ HOLDS(potts_grad, run(true)); } else { HOLDS(potts_grad, run(false)); } }
OB(potts_linear)(long a,long b,long c,long d,long e,long f,long g,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(2,2,0),vec<long>(2,f,g)); L l[8]={i,j}; long r=p(l); w.setWeight(2,c+e); return p(l)-r==e*p.weightGradient(0,l); }; if(i==j){ HOLDS(potts_linear, run(true)); } else { HOLDS(potts_linear, run(false)); } }
OB(potts_shape)(long a,long b,long c,long d,L n){ WT; LP p(w,n,vec<L>(1,0),vec<long>(1,3)); HOLDS(potts_shape, p.shape(0)==n&&p.shape(1)==n&&p.dimension()==2&&p.size()==n*n&&p.isPotts()&&p.isGeneralizedPotts()); }
OB(potts_late)(long a,long b,long c,long d,long f,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; W w2(4); w2[1]=a+d; LP p(5,vec<L>(1,1),vec<long>(1,f)); L l[8]={i,j}; p.setWeights(w); long r=p(l); p.setWeights(w2); return r==(same?0:b*f)&&p(l)==(same?0:(a+d)*f); }; if(i==j){ HOLDS(potts_late, run(true)); } else { HOLDS(potts_late, run(false)); } }
OB(potts_copy)(long a,long b,long c,long d,long f,long g,L i,L j){ auto run=[&](const bool same) __attribute__((always_inline)) { WT; LP p(w,5,vec<L>(1,1),vec<long>(1,f)), q(w,3,vec<L>(2,0,2),vec<long>(2,g,g)), r(p); q=p; w[1]=c; L l[8]={i,j}; return q(l)==(same?0:c*f)&&r(l)==(same?0:c*f)&&q.shape(0)==5&&q.numberOfWeights()==1; }; if(i==j){ HOLDS(potts_copy, run(true)); } else { HOLDS(potts_copy, run(false)); } }
// says: a learnable unary function is, for every label, the weighted sum of that label's features, each label with its own features and weights
// code: functions/learnable/lunary.hxx operator(), weightGradient
AI std::vector<FI> labels3(long f,long g,long h){ std::vector<FI> r(3); r[0].features=vec<long>(1,f); r[0].weightIds=vec<L>(1,2); r[2].features=vec<long>(2,g,h); r[2].weightIds=vec<L>(2,3,0); return r; }
#define UN LU u(w,labels3(f,g,h)); const L k=K
#define UNO(nm,K_,VAL,G0,G1,G2) OB(unary_value_##nm)(long a,long b,long c,long d,long f,long g,long h){ const L K=K_; WT; UN; L l[8]={k}; HOLDS(unary_value_##nm, u(l)==(VAL)); } \
  OB(unary_grad_##nm)(long a,long b,long c,long d,long f,long g,long h){ const L K=K_; WT; UN; L l[8]={k}; HOLDS(unary_grad_##nm, u.weightGradient(0,l)==(G0)&&u.weightGradient(1,l)==(G1)&&u.weightGradient(2,l)==(G2)); }
UNO(0,0,c*f,f,0,0) UNO(1,1,0,0,0,0) UNO(2,2,d*g+a*h,0,g,h)
OB(unary_meta)(long a,long b,long c,long d,long f,long g,long h){ WT; LU u(w,labels3(f,g,h)); HOLDS(unary_meta, u.shape(0)==3&&u.dimension()==1&&u.size()==3&&u.numberOfWeights()==3&&u.weightIndex(0)==2&&u.weightIndex(1)==3&&u.weightIndex(2)==0); }
OB(unary_follows)(long a,long b,long c,long d,long e,long f,long g,long h){ WT; LU u(w,labels3(f,g,h)); L l[8]={2}; long r=u(l); w.setWeight(3,e); W w2(4); w2[0]=b; long s=u(l); u.setWeights(w2); HOLDS(unary_follows, r==d*g+a*h&&s==e*g+a*h&&u(l)==b*h); }
OB(unary_copy)(long a,long b,long c,long d,long f,long g,long h){ WT; LU u(w,labels3(f,g,h)),v(u),x; x=u; L l[8]={2},m[8]={0}; HOLDS(unary_copy, v(l)==d*g+a*h&&x(l)==d*g+a*h&&x(m)==c*f&&x.size()==3); }
// says: ... or a matrix of weights times a common feature vector, the first label optionally free of charge
AI marray::Marray<L> ids(L n,L m,L first){ L s[2]={n,m}; marray::Marray<L> r(s,s+2); for(L i=0;i<n;++i) for(L j=0;j<m;++j) r(i,j)=(first+i*m+j); return r; }
AI marray::Marray<long> feats(L m,long f,long g){ L s[1]={m}; marray::Marray<long> r(s,s+1); if(m>0) r(0)=f; if(m>1) r(1)=g; return r; }
#define MAT(nm,K,VAL,G0,G1,G2,G3) OB(matrix_value_##nm)(long a,long b,long c,long d,long f,long g){ WT; LU u(w,2,ids(2,2,0),feats(2,f,g),false); L l[8]={K}; HOLDS(matrix_value_##nm, u(l)==(VAL)); } \
  OB(matrix_grad_##nm)(long a,long b,long c,long d,long f,long g){ WT; LU u(w,2,ids(2,2,0),feats(2,f,g),false); L l[8]={K}; HOLDS(matrix_grad_##nm, u.weightGradient(0,l)==(G0)&&u.weightGradient(1,l)==(G1)&&u.weightGradient(2,l)==(G2)&&u.weightGradient(3,l)==(G3)); }
MAT(0,0,a*f+b*g,f,g,0,0) MAT(1,1,c*f+d*g,0,0,f,g)
#define MATC(nm,K,VAL,G0,G1,G2,G3) OB(matrixc_##nm)(long a,long b,long c,long d,long f,long g){ WT; LU u(w,3,ids(2,2,0),feats(2,f,g),true); L l[8]={K}; HOLDS(matrixc_##nm, u(l)==(VAL)&&u.weightGradient(0,l)==(G0)&&u.weightGradient(1,l)==(G1)&&u.weightGradient(2,l)==(G2)&&u.weightGradient(3,l)==(G3)); }
MATC(0,0,0,0,0,0,0) MATC(1,1,a*f+b*g,f,g,0,0) MATC(2,2,c*f+d*g,0,0,f,g)
OB(matrix_meta)(long a,long b,long c,long d,long f,long g){ WT; LU u(w,2,ids(2,2,0),feats(2,f,g),false),v(w,3,ids(2,2,0),feats(2,f,g),true); HOLDS(matrix_meta, u.size()==2&&u.shape(0)==2&&u.numberOfWeights()==4&&u.weightIndex(1)==1&&u.weightIndex(2)==2&&v.size()==3&&v.numberOfWeights()==4&&v.weightIndex(3)==3); }
// says: a weighted sum of functions is that, entry by entry
// code: functions/learnable/lweightedsum_of_functions.hxx operator(), weightGradient
AI marray::Marray<long> table(L n,L m,const long* p){ L s[2]={n,m}; marray::Marray<long> r(s,s+2); for(L i=0;i<n*m;++i) r(i)=p[i]; return r; }
#define SUM2 long p_[4]={f,g,h,k},q_[4]={k,h,f,f}; LS s(vec<L>(2,2,2),w,vec<L>(2,1,3),vec<marray::Marray<long> >(2,table(2,2,p_),table(2,2,q_)))
#define SUMO(nm,X,Y,P,Q) OB(sum_value_##nm)(long a,long b,long c,long d,long f,long g,long h,long k){ WT; SUM2; L l[8]={X,Y}; HOLDS(sum_value_##nm, s(l)==b*(P)+d*(Q)); } \
  OB(sum_grad_##nm)(long a,long b,long c,long d,long f,long g,long h,long k){ WT; SUM2; L l[8]={X,Y}; HOLDS(sum_grad_##nm, s.weightGradient(0,l)==(P)&&s.weightGradient(1,l)==(Q)); }
SUMO(00,0,0,f,k) SUMO(10,1,0,g,h) SUMO(01,0,1,h,f) SUMO(11,1,1,k,f)
OB(sum_meta)(long a,long b,long c,long d,long f,long g,long h,long k){ WT; SUM2; HOLDS(sum_meta, s.dimension()==2&&s.shape(0)==2&&s.shape(1)==2&&s.size()==4&&s.numberOfWeights()==2&&s.weightIndex(0)==1&&s.weightIndex(1)==3); }
OB(sum_follows)(long a,long b,long c,long d,long e,long f,long g,long h,long k){ WT; SUM2; L l[8]={1,0}; long r=s(l); w[3]=e; long t=s(l); W w2(4); w2[1]=a; s.setWeights(w2); HOLDS(sum_follows, r==b*g+d*h&&t==b*g+e*h&&s(l)==a*g); }
OB(sum_copy)(long a,long b,long c,long d,long f,long g,long h,long k){ WT; SUM2; LS t(s); LS x; x=s; L l[8]={0,1}; HOLDS(sum_copy, t(l)==b*h+d*f&&x(l)==b*h+d*f&&x.size()==4); }
// says: a function in a model computes with the weights as they are at the time of the evaluation
OB(model)(long a,long b,long c,long d,long e,long f,long g,L i,L j){ if(i>=3||j>=3) return; auto run=[&](const bool same) __attribute__((always_inline)) { typedef GraphicalModel<long,Adder,meta::TypeListGenerator<ExplicitFunction<long>,LP>::type,DiscreteSpace<> > G; WT; L n[2]={3,3},v[2]={0,1}; G gm(DiscreteSpace<>(n,n+2)); gm.addFactor(gm.addFunction(LP(w,3,vec<L>(2,2,0),vec<long>(2,f,g))),v,v+2); L l[8]={i,j}; long r=gm.evaluate(l); w[0]=e; long s=gm.evaluate(l); return r==(same?0:c*f+a*g)&&s==(same?0:c*f+e*g); }; if(i==j){ HOLDS(model, run(true)); } else { HOLDS(model, run(false)); } }
// ---- weight vector, regularizer, constraints
// says: the weight vector returns what was set and nothing else changes; its copies are independent
// code: graphicalmodel/weights.hxx Weights
#define WGT(k) OB(weights_##k)(long a,long b,long c,long d,long e){ WT; w.setWeight(k,e); const long o[4]={a,b,c,d}; bool r=w.size()==4&&w.numberOfWeights()==4; for(L i=0;i<4;++i) r=r&&w.getWeight(i)==(i==k?e:o[i])&&w[i]==(i==k?e:o[i]); HOLDS(weights_##k, r); }
WGT(0) WGT(1) WGT(2) WGT(3)
OB(weights_copy)(long a,long b,long c,long d,long e){ WT; W x(w),y; y=w; w[1]=e; HOLDS(weights_copy, x[1]==b&&y[1]==b&&y.size()==4&&w[1]==e&&y[3]==d&&x.numberOfWeights()==4); }
OB(weights_none)(){ W x; HOLDS(weights_none, x.size()==0&&x.numberOfWeights()==0); }
OB(parameters)(long a,long b,long e){ Parameters<long,L> p(2); p.setParameter(0,a); p.setParameter(1,b); Parameters<long,L> q(p); q.setParameter(1,e); HOLDS(parameters, p.getParameter(0)==a&&p[1]==b&&p.numberOfParameters()==2&&q[0]==a&&q[1]==e); }
// says: the regularizer is lambda times the 1-norm, lambda times the squared 2-norm, or zero
// code: graphicalmodel/weights.hxx WeightRegularizer
typedef learning::WeightRegularizer<double> WR; typedef learning::Weights<double> WD;
AI bool near(double x,double y){ double e=x-y; return e<1e-9&&e>-1e-9; }
OB(reg)(){ WD w(3); w[0]=1.5; w[1]=-2.0; w[2]=0.25; WR n(-1,2.0),l1(1,2.0),l2(2,0.5),df; HOLDS(reg, near(n.evaluate(w),0)&&near(l1.evaluate(w),7.5)&&near(l2.evaluate(w),0.5*(2.25+4+0.0625))&&near(df.evaluate(w),6.3125)&&n.regularizerNorm()==-1&&l1.regularizerNorm()==1&&l2.regularizerNorm()==2&&df.regularizerNorm()==2&&near(l1.lambda(),2.0)&&near(df.lambda(),1.0)); }
OB(reg_type)(double lam){ WR n(WR::NoRegularizer,lam),l1(WR::L1Regularizer,lam); HOLDS(reg_type, n.regularizationType()==WR::NoRegularizer&&l1.regularizationType()==WR::L1Regularizer&&l1.regularizerNorm()==1); }
// says: weight constraints report the bounds and rows they were given, and no bound where none was given
// code: graphicalmodel/weights.hxx WeightConstraints
typedef learning::WeightConstraints<double> WC;
OB(wc_none)(){ WC c(2); double i=std::numeric_limits<double>::infinity(); HOLDS(wc_none, c.numberOfConstraints()==0&&c.weightLowerBound(0)==-i&&c.weightUpperBound(1)==i&&c.weightLowerBounds().size()==2&&c.weightUpperBounds().size()==2); }
OB(wc_bounds)(){ double lo[2]={-1,2},up[2]={3,4}; WC c(lo,lo+2,up); WC e(2); e.setLowerBounds(lo,lo+2); e.setUpperBounds(up,up+2); HOLDS(wc_bounds, c.weightLowerBound(0)==-1&&c.weightLowerBound(1)==2&&c.weightUpperBound(0)==3&&c.weightUpperBound(1)==4&&e.weightLowerBound(1)==2&&e.weightUpperBound(0)==3&&e.weightUpperBounds().size()==2); }
OB(wc_row)(){ WC c(3); L i[3]={0,2,1}; double k[3]={1,-1,2}; c.addConstraint(i,i+2,k,-5.0,6.0); c.addConstraint(i,i+3,k,7.0,8.0); HOLDS(wc_row, c.numberOfConstraints()==2&&c.constraintSize(0)==2&&c.constraintSize(1)==3&&c.constraintLowerBound(0)==-5.0&&c.constraintUpperBound(0)==6.0&&c.constraintLowerBound(1)==7.0&&c.constraintUpperBound(1)==8.0&&c.constraintLowerBounds().size()==2&&c.constraintUpperBounds().size()==2); }
OB(wc_sizes)(){ WC c(3); L i[3]={0,2,1}; double k[3]={1,-1,2}; c.addConstraint(i,i+2,k,-5.0,6.0); c.addConstraint(i,i+3,k,7.0,8.0); HOLDS(wc_sizes, c.constraintSizes().size()==2&&c.constraintSizes()[0]==2&&c.constraintSizes()[1]==3); }
OB(ctl_potts)(long a,long b,long c,long d,long f,long g,L i,L j){ WT; LP p(w,5,vec<L>(2,2,0),vec<long>(2,f,g)); L l[8]={i,j}; HOLDS(ctl_potts, p(l)==c*f+a*g); }
OB(ctl_unary)(long a,long b,long c,long d,long f,long g,long h){ WT; LU u(w,labels3(f,g,h)); L l[8]={2}; HOLDS(ctl_unary, u(l)==d*g); }
