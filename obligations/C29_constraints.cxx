// C29: constraint and soft-constraint functions charge exactly the violated labelings.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/utilities/unsigned_integer_pow.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
using namespace opengm;
extern "C" __attribute__((always_inline)) int memcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
#define AI static inline __attribute__((always_inline))
#define FN __attribute__((always_inline))
typedef IndicatorVariable<L,L> IV; typedef LinearConstraint<long,L,L> LN; typedef LN::LinearConstraintOperatorType OP;
// says: an indicator variable is one if all, at least one, or none of its variables take the stated label
// code: datastructures/indicator_variable.hxx operator(), add
#define L3 L l[8]={a,b,c}
OB(ind_one)(L a,L b,L c,L p){ L3; IV v(1,p); HOLDS(ind_one, v(l)==(b==p)); }
OB(ind_one_or)(L a,L b,L c,L p){ L3; IV v(1,p,IV::Or); HOLDS(ind_one_or, v(l)==(b==p)); }
OB(ind_one_not)(L a,L b,L c,L p){ L3; IV v(std::pair<L,L>(1,p),IV::Not); HOLDS(ind_one_not, v(l)==(b!=p)); }
#define THREE(o) IV v; v.reserve(3); v.add(2,r); v.add(0,p); v.add(std::pair<L,L>(1,q)); v.setLogicalOperatorType(IV::o)
#define PQR (L a,L b,L c,L p,L q,L r)
OB(ind_and) PQR { L3; THREE(And); HOLDS(ind_and, v(l)==(a==p&&b==q&&c==r)); }
OB(ind_or) PQR { L3; THREE(Or); HOLDS(ind_or, v(l)==(a==p||b==q||c==r)); }
OB(ind_not) PQR { L3; auto run=[&](const bool h) FN { THREE(Not); return v(l)==h; }; if(a==p){ HOLDS(ind_not, run(false)); } else if(b==q){ HOLDS(ind_not, run(false)); } else if(c==r){ HOLDS(ind_not, run(false)); } else { HOLDS(ind_not, run(true)); } }
OB(ind_empty)(L a,L b,L c){ L3; IV v, w; w.setLogicalOperatorType(IV::Or); IV x; x.setLogicalOperatorType(IV::Not); HOLDS(ind_empty, v(l)&&!w(l)&&x(l)&&v.begin()==v.end()&&v.getLogicalOperatorType()==IV::And); }
OB(ind_vec)(L a,L b,L c,L p,L q){ L3; std::vector<std::pair<L,L> > s; s.push_back(std::pair<L,L>(2,q)); s.push_back(std::pair<L,L>(0,p)); IV v(s,IV::Or), w(s.begin(),s.end(),IV::And), x; x.add(s); IV y; y.add(s.begin(),s.end()); HOLDS(ind_vec, v(l)==(a==p||c==q)&&w(l)==(a==p&&c==q)&&x==w&&y==w&&v!=w); }
OB(ind_set)(L a,L b,L c){ L3; auto run=[&](const bool h) FN { IV v(L(1),L(0),IV::Or); v.add(L(1),L(2)); return v(l)==h; }; if(b==0){ HOLDS(ind_set, run(true)); } else if(b==2){ HOLDS(ind_set, run(true)); } else { HOLDS(ind_set, run(false)); } }
// says: the pairs are kept sorted by variable, then by label
OB(ind_sorted)(L p,L q,L r){ THREE(And); IV::IteratorType i=v.begin(); bool g=i->first==0&&i->second==p; ++i; g=g&&i->first==1&&i->second==q; ++i; g=g&&i->first==2&&i->second==r; ++i; HOLDS(ind_sorted, g&&i==v.end()); }
OB(ind_sorted_label)(L p,L q){ IV v(4,p); v.add(4,q); IV::IteratorType i=v.begin(),j=i; ++j; if(p<q) HOLDS(ind_sorted_label, i->second==p&&j->second==q&&v.end()-i==2); else HOLDS(ind_sorted_label, i->second==q&&j->second==p&&v.end()-i==2); }
// says: indicator variables are ordered by operator, then by the number of pairs, then by the first pair which differs; the six comparisons agree
#define CMP(nm,LT,EQ) HOLDS(nm, (x<y)==(LT)&&(x==y)==(EQ)&&(x<=y)==((LT)||(EQ))&&(x>y)==(!(LT)&&!(EQ))&&(x>=y)==(!(LT))&&(x!=y)==(!(EQ)))
AI IV i2(L a,L p,L b,L q){ IV v(a,p); v.add(b,q); return v; }
OB(cmp_one)(L a,L p,L b,L q){ IV x(a,p),y(b,q); if(a==b){ if(p==q) CMP(cmp_one,false,true); else if(p<q) CMP(cmp_one,true,false); else if(q<p) CMP(cmp_one,false,false); } else if(a<b) CMP(cmp_one,true,false); else if(b<a) CMP(cmp_one,false,false); }
OB(cmp_two)(L p,L q,L r,L s){ IV x=i2(0,p,1,q),y=i2(0,r,1,s); if(p==r){ if(q==s) CMP(cmp_two,false,true); else if(q<s) CMP(cmp_two,true,false); else if(s<q) CMP(cmp_two,false,false); } else if(p<r) CMP(cmp_two,true,false); else if(r<p) CMP(cmp_two,false,false); }
OB(cmp_first_decides)(L p,L q,L r,L s){ IV x=i2(0,p,3,q),y=i2(0,r,2,s); if(p<r) CMP(cmp_first_decides,true,false); else CMP(cmp_first_decides,false,false); }
OB(cmp_vars)(L p,L q,L r,L s){ IV x=i2(0,p,3,q),y=i2(1,r,2,s); CMP(cmp_vars,true,false); }
OB(cmp_size)(L p,L q,L r){ IV x(5,p),y=i2(0,q,1,r); CMP(cmp_size,true,false); }
OB(cmp_size0)(L p){ IV x,y(0,p); CMP(cmp_size0,true,false); }
OB(cmp_empty)(){ IV x,y; CMP(cmp_empty,false,true); }
OB(cmp_operator)(L p,L q,L r){ IV x=i2(0,p,1,q),y(0,r,IV::Or); CMP(cmp_operator,true,false); }
OB(cmp_operator2)(L p,L q,L r){ IV x=i2(0,p,1,q),y(0,r,IV::Not); x.setLogicalOperatorType(IV::Or); CMP(cmp_operator2,true,false); }
OB(cmp_operator3)(L p,L r){ IV x(0,p,IV::Not),y(0,r,IV::And); CMP(cmp_operator3,false,false); }
// says: a linear constraint returns the absolute value by which the coefficients of the active indicator variables miss the bound, in the direction of its operator
// code: datastructures/linear_constraint.hxx operator()
AI LN ln2(L p,L q,long u,long v,long bd,OP::ValueType o){ LN x; x.reserve(2); x.add(IV(0,p),u); x.add(IV(1,q),v); x.setBound(bd); x.setConstraintOperator(o); return x; }
AI long viol(long s,OP::ValueType o){ return o==OP::LessEqual?(s>0?s:0):o==OP::Equal?(s>0?s:s<0?-s:0):(s<0?-s:0); }
#define LIN(nm,o) OB(lin_##nm)(L a,L b,L p,L q,long u,long v,long bd){ L l[8]={a,b}; auto run=[&](const bool i,const bool j) FN { return ln2(p,q,u,v,bd,OP::o)(l)==viol((i?u:0)+(j?v:0)-bd,OP::o); }; \
  if(a==p){ if(b==q){ HOLDS(lin_##nm, run(true,true)); } else { HOLDS(lin_##nm, run(true,false)); } } else { if(b==q){ HOLDS(lin_##nm, run(false,true)); } else { HOLDS(lin_##nm, run(false,false)); } } }
LIN(le,LessEqual) LIN(eq,Equal) LIN(ge,GreaterEqual)
OB(lin_empty)(short bd){ L l[8]={0}; auto run=[&](const long w) FN { LN x; x.setBound(bd); return x(l)==w; }; if(bd<0){ HOLDS(lin_empty, run(-bd)); } else { HOLDS(lin_empty, run(0)); } }
OB(lin_default)(){ L l[8]={0}; LN y; HOLDS(lin_default, y(l)==0&&y.getBound()==0&&y.getConstraintOperator()==OP::LessEqual); }
OB(lin_group)(L a,L b,L p,L q,long u,long bd){ L l[8]={a,b}; auto run=[&](const bool h) FN { LN x; IV g=i2(0,p,1,q); g.setLogicalOperatorType(IV::Or); x.add(g,u); x.setBound(bd); return x(l)==viol((h?u:0)-bd,OP::LessEqual); }; if(a==p||b==q){ HOLDS(lin_group, run(true)); } else { HOLDS(lin_group, run(false)); } }
OB(lin_ctor)(L p,L q,long u,long v,long bd){ std::vector<IV> i; i.push_back(IV(0,p)); i.push_back(IV(1,q)); std::vector<long> c; c.push_back(u); c.push_back(v); LN x(i,c,bd,OP::Equal), y(i.begin(),i.end(),c.begin(),bd,OP::GreaterEqual), z; z.add(i,c); z.add(i.begin(),i.begin()+1,c.begin()+1);
  bool r=x.getBound()==bd&&x.getConstraintOperator()==OP::Equal&&y.getConstraintOperator()==OP::GreaterEqual&&x.indicatorVariablesEnd()-x.indicatorVariablesBegin()==2&&x.coefficientsEnd()-x.coefficientsBegin()==2&&y.coefficientsEnd()-y.coefficientsBegin()==2&&z.coefficientsEnd()-z.coefficientsBegin()==3&&z.indicatorVariablesEnd()-z.indicatorVariablesBegin()==3;
  HOLDS(lin_ctor, r&&x.coefficientsBegin()[0]==u&&x.coefficientsBegin()[1]==v&&y.coefficientsBegin()[1]==v&&z.coefficientsBegin()[2]==v&&x.indicatorVariablesBegin()[1]==IV(1,q)&&z.indicatorVariablesBegin()[2]==IV(0,p)&&y.getBound()==bd); }
OB(lin_copy)(L p,L q,long u,long v,long bd,long e){ LN x=ln2(p,q,u,v,bd,OP::Equal), y(x); x.setBound(e); x.add(IV(L(2),L(0)),e); HOLDS(lin_copy, y.getBound()==bd&&y.coefficientsEnd()-y.coefficientsBegin()==2&&y.getConstraintOperator()==OP::Equal&&y.indicatorVariablesEnd()-y.indicatorVariablesBegin()==2); }
// says: a label order function returns the valid value if the order of the first label is at most the order of the second one, else the invalid value; its constraint is violated by exactly those labelings
// code: functions/constraint_functions/label_order_function.hxx operator(), createConstraints, challenge_impl, challengeRelaxed_impl
typedef LabelOrderFunction<long> LO;
AI LO lo(long a,long b,long c,long v,long w){ std::vector<long> o; o.push_back(a); o.push_back(b); o.push_back(c); return LO(2,3,o,v,w); }
#define ORD const long o[3]={a,b,c}; L l[8]={I,J}; LO f=lo(a,b,c,v,w)
#define ORDER(I_,J_) OB(order_##I_##J_)(long a,long b,long c,long v,long w){ const L I=I_,J=J_; ORD; HOLDS(order_##I_##J_, f(l)==(o[I]<=o[J]?v:w)); } \
 OB(order_con_##I_##J_)(long a,long b,long c,long v,long w){ const L I=I_,J=J_; ORD; HOLDS(order_con_##I_##J_, f.linearConstraintsEnd()-f.linearConstraintsBegin()==1&&(*f.linearConstraintsBegin())(l)==viol(o[I]-o[J],OP::LessEqual)); } \
 OB(order_chal_##I_##J_)(long a,long b,long c,long v,long w,long t){ const L I=I_,J=J_; ORD; LO::ViolatedLinearConstraintsIteratorType x,y; LO::ViolatedLinearConstraintsWeightsIteratorType z; f.challenge(x,y,z,l,t); if(o[I]-o[J]<=t) HOLDS(order_chal_##I_##J_, x==y); else HOLDS(order_chal_##I_##J_, x!=y&&&*x==&*f.linearConstraintsBegin()&&*z==(double)(o[I]-o[J])&&++x==y); } \
 OB(order_relax_##I_##J_)(int a,int b,int c,long v,long w){ const L I=I_,J=J_; ORD; const long h[8]={I==0,I==1,J==0,J==1,J==2}; LO::ViolatedLinearConstraintsIteratorType x,y; LO::ViolatedLinearConstraintsWeightsIteratorType z; f.challengeRelaxed(x,y,z,h); const double e=-(double)o[J]+(double)o[I]; if(!(e>0.0)) HOLDS(order_relax_##I_##J_, x==y); else HOLDS(order_relax_##I_##J_, x!=y&&&*x==&*f.linearConstraintsBegin()&&*z==e&&++x==y); }
ORDER(0,0) ORDER(0,1) ORDER(0,2) ORDER(1,0) ORDER(1,1) ORDER(1,2)
OB(order_meta)(long a,long b,long c,long v,long w){ LO f=lo(a,b,c,v,w); HOLDS(order_meta, f.shape(0)==2&&f.shape(1)==3&&f.dimension()==2&&f.size()==6&&f.isLinearConstraint()&&f.min()==(v<w?v:w)&&f.max()==(v>w?v:w)&&f.minMax().min()==(v<w?v:w)&&f.minMax().max()==(v>w?v:w)); }
OB(order_iter)(long a,long b,long c){ long o[4]={a,b,c}; LO f(3,1,o); LO g; g=f; L l[8]={2,0}; HOLDS(order_iter, g(l)==(c<=a?0:1)&&g.shape(0)==3&&g.shape(1)==1&&g.size()==3&&g.min()==0&&g.max()==1); }
OB(order_vars)(long a,long b,long c,long v,long w){ LO f=lo(a,b,c,v,w); LO::IndicatorVariablesIteratorType i=f.indicatorVariablesOrderBegin(); HOLDS(order_vars, f.indicatorVariablesOrderEnd()-i==5&&i[0]==IV(L(0),L(0))&&i[1]==IV(L(0),L(1))&&i[2]==IV(L(1),L(0))&&i[3]==IV(L(1),L(1))&&i[4]==IV(L(1),L(2))); }
// says: a label count limitation returns the valid value if at most the allowed number of different labels is used, else the invalid value; its constraint is violated by exactly those labelings
// code: functions/constraint_functions/num_labels_limitation_function.hxx operator(), fillIndicatorVariableList, createConstraints
typedef NumLabelsLimitationFunction<long> NL;
AI NL nl(L mx,long v,long w){ L s[3]={2,3,2}; return NL(s,s+3,mx,v,w); }
#define NUM(I,J,K,cnt) OB(num_##I##J##K)(L mx,long v,long w){ L l[8]={I,J,K}; auto run=[&](const long r) FN { return nl(mx,v,w)(l)==r; }; if(mx<cnt){ HOLDS(num_##I##J##K, run(w)); } else { HOLDS(num_##I##J##K, run(v)); } } \
 OB(num_con_##I##J##K)(int m,long v,long w){ L mx=(unsigned char)m; L l[8]={I,J,K}; NL f=nl(mx,v,w); HOLDS(num_con_##I##J##K, f.linearConstraintsEnd()-f.linearConstraintsBegin()==1&&(*f.linearConstraintsBegin())(l)==viol(cnt-(long)mx,OP::LessEqual)); } \
 OB(num_chal_##I##J##K)(int m,long v,long w){ L mx=(unsigned char)m; L l[8]={I,J,K}; NL f=nl(mx,v,w); NL::ViolatedLinearConstraintsIteratorType x,y; NL::ViolatedLinearConstraintsWeightsIteratorType z; f.challenge(x,y,z,l); if(cnt<=mx) HOLDS(num_chal_##I##J##K, x==y); else HOLDS(num_chal_##I##J##K, x!=y&&&*x==&*f.linearConstraintsBegin()&&*z==(double)(cnt-(long)mx)&&++x==y); }
NUM(0,0,0,1) NUM(0,1,0,2) NUM(1,2,0,3) NUM(1,2,1,2) NUM(0,2,0,2) NUM(1,1,1,1) NUM(1,1,0,2) NUM(0,2,1,3) NUM(0,0,1,2)
OB(num_same)(L mx,long v,long w){ NL f(L(2),L(3),mx,v,w); HOLDS(num_same, f.shape(0)==3&&f.shape(1)==3&&f.size()==9&&f.dimension()==2); }
OB(num_same_eq)(L mx,long v,long w){ NL f(L(2),L(3),mx,v,w); L l[8]={2,2}; if(mx<1){ HOLDS(num_same_eq, f(l)==w); } else { HOLDS(num_same_eq, f(l)==v); } }
OB(num_same_neq)(L mx,long v,long w){ NL f(L(2),L(3),mx,v,w); L l[8]={0,2}; if(mx<2){ HOLDS(num_same_neq, f(l)==w); } else { HOLDS(num_same_neq, f(l)==v); } }
OB(num_meta)(L mx,long v,long w){ NL f=nl(mx,v,w); HOLDS(num_meta, f.shape(0)==2&&f.shape(1)==3&&f.shape(2)==2&&f.size()==12&&f.dimension()==3&&f.min()==(v<w?v:w)&&f.max()==(v>w?v:w)&&f.minMax().min()==f.min()&&f.minMax().max()==f.max()); }
OB(num_vars)(L mx,long v,long w){ NL f=nl(mx,v,w); NL::IndicatorVariablesIteratorType i=f.indicatorVariablesOrderBegin(); IV a=i2(0,0,1,0); a.add(L(2),L(0)); a.setLogicalOperatorType(IV::Or); IV b(L(1),L(2),IV::Or); HOLDS(num_vars, f.indicatorVariablesOrderEnd()-i==3&&i[0]==a&&i[2]==b); }
OB(num_relax)(L q){ NL f=nl(2,0,1); const long h[8]={1,1,1}; const long k[8]={1,0,1}; NL::ViolatedLinearConstraintsIteratorType x,y,s,t; NL::ViolatedLinearConstraintsWeightsIteratorType z,u; f.challengeRelaxed(x,y,z,h); bool g=x!=y&&&*x==&*f.linearConstraintsBegin()&&*z==1.0&&++x==y; f.challengeRelaxed(s,t,u,k); HOLDS(num_relax, g&&s==t); }
// says: a linear constraint function returns the valid value if all its constraints hold, else the invalid value
// code: functions/constraint_functions/linear_constraint_function.hxx operator(), challenge_impl, challengeRelaxed_impl
typedef LinearConstraintFunction<int> LC; typedef LC::LinearConstraintType LI;
AI LI li(L p,L q,int u,int v,int bd,OP::ValueType o){ LI x; x.add(IV(0,p),u); x.add(IV(1,q),v); x.setBound(bd); x.setConstraintOperator(o); return x; }
AI LC lc(L p,L q,int a,int b,int c,int d,int e,int g,OP::ValueType o,OP::ValueType r,int v,int w){ std::vector<LI> k; k.push_back(li(p,q,a,b,c,o)); k.push_back(li(0,1,d,e,g,r)); L s[2]={2,3}; return LC(s,s+2,k,v,w); }
AI int vi(int s,OP::ValueType o){ return o==OP::LessEqual?(s>0?s:0):o==OP::Equal?(s>0?s:s<0?-s:0):(s<0?-s:0); }
AI bool sat(int s,OP::ValueType o){ return o==OP::LessEqual?!(s>0):o==OP::Equal?s==0:!(s<0); }
#define LCARGS (short a,short b,short c,short d,short e,short g,int v,int w)
#define LINF(I,J,o,r) OB(linf_##I##J##o##r) LCARGS { L l[8]={I,J}; const int xs=(I==1?a:0)+(J==2?b:0)-c,ys=(I==0?d:0)+(J==1?e:0)-g; auto run=[&](const bool h) FN { return lc(1,2,a,b,c,d,e,g,OP::o,OP::r,v,w)(l)==(h?w:v); }; if(!sat(xs,OP::o)){ HOLDS(linf_##I##J##o##r, run(true)); } else if(!sat(ys,OP::r)){ HOLDS(linf_##I##J##o##r, run(true)); } else { HOLDS(linf_##I##J##o##r, run(false)); } } \
 OB(linc_##I##J##o##r) LCARGS { L l[8]={I,J}; const int xs=(I==1?a:0)+(J==2?b:0)-c,ys=(I==0?d:0)+(J==1?e:0)-g; \
  auto run=[&](const bool h,const bool m) FN { LC f=lc(1,2,a,b,c,d,e,g,OP::o,OP::r,v,w); LC::ViolatedLinearConstraintsIteratorType s,t; LC::ViolatedLinearConstraintsWeightsIteratorType z; f.challenge(s,t,z,l); const LI*k=&*f.linearConstraintsBegin(); const int x=vi(xs,OP::o),y=vi(ys,OP::r); \
    return h?(m?&s[0]==k&&&s[1]==k+1&&z[0]==(double)x&&z[1]==(double)y&&s+2==t:&s[0]==k&&z[0]==(double)x&&s+1==t):(m?&s[0]==k+1&&z[0]==(double)y&&s+1==t:s==t); }; \
  if(!sat(xs,OP::o)){ if(!sat(ys,OP::r)){ HOLDS(linc_##I##J##o##r, run(true,true)); } else { HOLDS(linc_##I##J##o##r, run(true,false)); } } else { if(!sat(ys,OP::r)){ HOLDS(linc_##I##J##o##r, run(false,true)); } else { HOLDS(linc_##I##J##o##r, run(false,false)); } } }
LINF(0,0,LessEqual,Equal) LINF(1,2,Equal,GreaterEqual) LINF(0,1,LessEqual,GreaterEqual) LINF(1,1,GreaterEqual,LessEqual) LINF(0,2,Equal,Equal) LINF(1,0,LessEqual,LessEqual)
OB(linf_meta) LCARGS { LC f=lc(1,2,a,b,c,d,e,g,OP::Equal,OP::LessEqual,v,w); HOLDS(linf_meta, f.shape(0)==2&&f.shape(1)==3&&f.size()==6&&f.dimension()==2&&f.min()==(v<w?v:w)&&f.max()==(v>w?v:w)&&f.minMax().min()==f.min()&&f.minMax().max()==f.max()&&f.linearConstraintsEnd()-f.linearConstraintsBegin()==2); }
OB(linf_vars) LCARGS { LC f=lc(0,2,a,b,c,d,e,g,OP::Equal,OP::LessEqual,v,w); LC::IndicatorVariablesIteratorType i=f.indicatorVariablesOrderBegin(); HOLDS(linf_vars, f.indicatorVariablesOrderEnd()-i==3&&i[0]==IV(L(0),L(0))&&i[1]==IV(L(1),L(1))&&i[2]==IV(L(1),L(2))); }
OB(linf_none)(int v,int w){ std::vector<LI> k; L s[2]={2,3}; LC f(s,s+2,k.begin(),k.end(),v,w); L l[8]={1,1}; HOLDS(linf_none, f(l)==v); }
// relaxed labeling in the order of the exposed indicator variables: (0,0) (1,1) (1,2)
#define REL(nm,o,COND,W) OB(linr_##nm)(short a,short b,short c,short x0,short x1,short x2,short t){ LC f=lc(0,2,a,b,c,0,0,0,OP::o,OP::Equal,0,1); const int h[8]={x0,x1,x2}; LC::ViolatedLinearConstraintsIteratorType s,q; LC::ViolatedLinearConstraintsWeightsIteratorType z; const double tt=(double)(OP::o==OP::GreaterEqual?-(int)(unsigned char)t:(int)(unsigned char)t); f.challengeRelaxed(s,q,z,h,(int)(unsigned char)t); \
  const double r=((double)(x0*a)+(double)(x2*b))-(double)c; if(COND) HOLDS(linr_##nm, &s[0]==&*f.linearConstraintsBegin()&&z[0]==(W)&&s+1==q); else HOLDS(linr_##nm, s==q); }
REL(le,LessEqual,r>tt,r) REL(ge,GreaterEqual,r<tt,-r)
// says: a label cost function charges the cost of every label that is used, once
// code: functions/soft_constraint_functions/label_cost_function.hxx operator()
typedef LabelCostFunction<long> CO;
OB(cost_single)(L i,L j,L k,L lab,long c){ if(!(lab<9)) return; L l[8]={i,j,k}; auto run=[&](const bool h) FN { L s[3]={4,9,6}; CO f(s,s+3,lab,c); return f(l)==(h?c:0); }; if(i==lab){ HOLDS(cost_single, run(true)); } else if(j==lab){ HOLDS(cost_single, run(true)); } else if(k==lab){ HOLDS(cost_single, run(true)); } else { HOLDS(cost_single, run(false)); } }
OB(cost_single_same)(L i,L j,L n,L lab,long c){ if(!(lab<n)) return; L l[8]={i,j}; auto run=[&](const bool h) FN { CO f(L(2),n,lab,c); return f(l)==(h?c:0); }; if(i==lab){ HOLDS(cost_single_same, run(true)); } else if(j==lab){ HOLDS(cost_single_same, run(true)); } else { HOLDS(cost_single_same, run(false)); } }
#define COST(I,J,K,VAL) OB(cost_##I##J##K)(long a,long b,long c){ L s[3]={2,3,3}; long k[3]={a,b,c}; CO f(s,s+3,k,k+3); L l[8]={I,J,K}; HOLDS(cost_##I##J##K, f(l)==(VAL)); }
COST(0,0,0,a) COST(0,1,0,a+b) COST(1,2,0,b+c+a) COST(1,2,2,b+c) COST(0,2,0,a+c) COST(1,1,1,b) COST(1,1,2,b+c) COST(0,2,1,a+c+b)
#define COSTS(I,J,VAL) OB(cost_same_##I##J)(long a,long b,long c){ long k[3]={a,b,c}; CO f(L(2),L(3),k,k+3); L l[8]={I,J}; HOLDS(cost_same_##I##J, f(l)==(VAL)); }
COSTS(0,0,a) COSTS(0,1,a+b) COSTS(2,1,b+c) COSTS(2,2,c) COSTS(2,0,a+c)
OB(cost_meta)(long a,long b,long c,L n){ if(n<1) return; L s[3]={2,3,1}; long k[3]={a,b,c}; CO f(s,s+3,k,k+3), g(s,s+3,L(1),a), h(L(2),n,L(0),a); HOLDS(cost_meta, f.size()==6&&f.dimension()==3&&f.shape(0)==2&&f.shape(1)==3&&f.shape(2)==1&&g.shape(1)==3&&g.size()==6&&h.shape(0)==n&&h.shape(1)==n&&h.dimension()==2); }
OB(cost_copy)(long a,long b){ long k[2]={a,b}; CO f(L(2),L(2),k,k+2),g(f),h; h=f; L l[8]={1,0}; HOLDS(cost_copy, g(l)==a+b&&h(l)==a+b&&h.dimension()==2&&h.shape(1)==2); }
// says: a sum constraint charges lambda times the absolute difference between the sum of the coefficients of the labels and the bound
// code: functions/soft_constraint_functions/sum_constraint_function.hxx operator()
typedef SumConstraintFunction<long> SU;
AI long ab(long x){ return x<0?-x:x; }
#define SUM(I,J,K,SH,OWN) OB(sum_shared_##I##J##K)(long a,long b,long c,long lam,long bd){ L s[3]={2,3,2}; long k[3]={a,b,c}; SU f(s,s+3,k,k+3,true,lam,bd); L l[8]={I,J,K}; HOLDS(sum_shared_##I##J##K, f(l)==ab((SH)-bd)*lam); } \
 OB(sum_own_##I##J##K)(long a,long b,long c,long d,long e,long g,long h,long lam,long bd){ L s[3]={2,3,2}; long k[7]={a,b,c,d,e,g,h}; SU f(s,s+3,k,k+7,false,lam,bd); L l[8]={I,J,K}; HOLDS(sum_own_##I##J##K, f(l)==ab((OWN)-bd)*lam); }
SUM(0,0,0,a+a+a,a+c+g) SUM(1,0,1,b+a+b,b+c+h) SUM(0,2,1,a+c+b,a+e+h) SUM(1,1,0,b+b+a,b+d+g) SUM(1,2,1,b+c+b,b+e+h)
OB(sum_same)(long a,long b,long c,long d,long lam,long bd){ long k[4]={a,b,c,d}; SU f(L(2),L(2),k,k+4,false,lam,bd); L l[8]={1,0}; HOLDS(sum_same, f(l)==ab(b+c-bd)*lam); }
OB(sum_same_shared)(long a,long b,long lam,long bd){ long k[2]={a,b}; SU g(L(2),L(2),k,k+2,true,lam,bd); L l[8]={1,0}; HOLDS(sum_same_shared, g(l)==ab(b+a-bd)*lam); }
OB(sum_same_meta)(long a,long b,long c,long d,long lam,long bd){ long k[4]={a,b,c,d}; SU f(L(2),L(2),k,k+4,false,lam,bd); HOLDS(sum_same_meta, f.shape(0)==2&&f.shape(1)==2&&f.size()==4&&f.dimension()==2); }
OB(sum_default)(long a,long b){ long k[2]={a,b}; SU f(L(1),L(2),k,k+2,true); L l[8]={1}; HOLDS(sum_default, f(l)==ab(b)); }
OB(sum_meta)(long a,long b,long c,long lam,long bd){ L s[3]={2,3,2}; long k[3]={a,b,c}; SU f(s,s+3,k,k+3,true,lam,bd), g(f); HOLDS(sum_meta, g.shape(0)==2&&g.shape(1)==3&&g.shape(2)==2&&g.size()==12&&g.dimension()==3); }
OB(ctl_or)(L a,L b,L c,L p,L q,L r){ L3; THREE(Or); HOLDS(ctl_or, v(l)==(a==p&&b==q&&c==r)); }
OB(ctl_cost)(long a,long b,long c){ L s[3]={2,3,3}; long k[3]={a,b,c}; CO f(s,s+3,k,k+3); L l[8]={1,1,0}; HOLDS(ctl_cost, f(l)==b+b+a); }
