// C10: operations.
#include "prelude.hxx"
#include "zvalue.hxx"
#include <cstring>
#include <opengm/opengm.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/operations/weightedoperations.hxx>
using namespace opengm;
static inline bool same(double a,double b){ long x,y; std::memcpy(&x,&a,8); std::memcpy(&y,&b,8); if(x==y) return true; double d=a-b, m=1e-9*(1+std::fabs(b)); return d<m && -d<m; }
static inline bool zb(long a){ return a>-(1L<<40) && a<(1L<<40); }
#define INF (1L<<60)
template<class OP,class T> static inline bool forms(const T& a,const T& b,const T& want){ T x=b; OP::op(a,x); T y=T(77); OP::op(a,b,y); return x==want && y==want; }
template<class OP,class T> static inline bool iforms(const T& a,const T& b,const T& want){ T x=b; OP::iop(a,x); T y=T(77); OP::iop(b,a,y); return x==want && y==want; }
template<class OP,class T> static inline bool neut(const T& want){ T y=T(77); OP::neutral(y); return y==want && OP::template neutral<T>()==want; }
template<class OP,class T> static inline bool ineut(const T& want){ T y=T(77); OP::ineutral(y); return y==want && OP::template ineutral<T>()==want; }

// says: addition: op adds, iop subtracts the first from the accumulated value, hop repeats; neutral 0
// code: operations/adder.hxx Adder
OB(add_op)(long a,long b){ HOLDS(add_op, (forms<Adder,long>(a,b,b+a))); }
OB(add_iop)(long a,long b){ HOLDS(add_iop, (iforms<Adder,long>(a,b,b-a))); }
OB(add_inverse)(long a,long b){ long x=b; Adder::op(a,x); Adder::iop(a,x); HOLDS(add_inverse, x==b); }
OB(add_neutral)(long a){ long x=Adder::neutral<long>(); Adder::op(a,x); long y=a; Adder::op(Adder::neutral<long>(),y); HOLDS(add_neutral, x==a&&y==a&&(neut<Adder,long>(0))&&(ineut<Adder,long>(0))); }
OB(add_neutral_d)(){ HOLDS(add_neutral_d, (neut<Adder,double>(0.0))&&(ineut<Adder,double>(0.0))&&(neut<Adder,float>(0.0f))); }
OB(add_hop)(long a,long b){ long x=b; Adder::hop(a,x); long y=77; Adder::hop(b,a,y); HOLDS(add_hop, x==a*b&&y==a*b&&!Adder::hasbop()); }
OB(add_ihop)(double a,double b){ double x=b; Adder::ihop(a,x); double y=77; Adder::ihop(b,a,y); HOLDS(add_ihop, same(x,b/a)&&same(y,b/a)); }
OB(add_op_d)(double a,double b){ double x=b; Adder::op(a,x); double y=77; Adder::op(a,b,y); double z=b; Adder::iop(a,z); double w=77; Adder::iop(b,a,w); HOLDS(add_op_d, same(x,b+a)&&same(y,a+b)&&same(z,b-a)&&same(w,b-a)); }

// says: multiplication: op multiplies, iop divides, hop is the power; neutral 1
// code: operations/multiplier.hxx Multiplier
OB(mul_op)(long a,long b){ HOLDS(mul_op, (forms<Multiplier,long>(a,b,b*a))); }
OB(mul_iop)(long a,long b){ if(a==0||(a==-1)) return; HOLDS(mul_iop, (iforms<Multiplier,long>(a,b,b/a))); }
OB(mul_neutral)(long a){ long x=Multiplier::neutral<long>(); Multiplier::op(a,x); long y=a; Multiplier::op(Multiplier::neutral<long>(),y); HOLDS(mul_neutral, x==a&&y==a&&(neut<Multiplier,long>(1))&&(ineut<Multiplier,long>(1))); }
OB(mul_neutral_d)(){ HOLDS(mul_neutral_d, (neut<Multiplier,double>(1.0))&&(ineut<Multiplier,double>(1.0))&&!Multiplier::hasbop()); }
OB(mul_op_d)(double a,double b){ double x=b; Multiplier::op(a,x); double y=77; Multiplier::op(a,b,y); double z=b; Multiplier::iop(a,z); double w=77; Multiplier::iop(b,a,w); HOLDS(mul_op_d, same(x,b*a)&&same(y,a*b)&&same(z,b/a)&&same(w,b/a)); }
OB(mul_hop)(double a,double b){ double x=b; Multiplier::hop(a,x); double y=77; Multiplier::hop(b,a,y); HOLDS(mul_hop, same(x,std::pow(b,a))&&same(y,std::pow(b,a))); }
OB(mul_ihop)(double a,double b){ double x=b; Multiplier::ihop(a,x); double y=77; Multiplier::ihop(b,a,y); HOLDS(mul_ihop, same(x,std::pow(b,1.0/a))&&same(y,std::pow(b,1.0/a))); }

// says: minimization keeps the smaller value, never loses a value to its neutral element, and orders by <
// code: operations/minimizer.hxx Minimizer
OB(min_op)(long a,long b){ HOLDS(min_op, (forms<Minimizer,long>(a,b,a<b?a:b))); }
OB(min_op_d)(){ const double a=-3.5,b=2.25; double x=b; Minimizer::op(a,x); double x2=a; Minimizer::op(b,x2); double y=77,y2=77; Minimizer::op(a,b,y); Minimizer::op(b,a,y2); double z=b; Minimizer::iop(a,z); HOLDS(min_op_d, same(x,a)&&same(x2,a)&&same(y,a)&&same(y2,a)&&same(z,b)); }
OB(min_iop)(long a,long b){ HOLDS(min_iop, (iforms<Minimizer,long>(a,b,a>b?a:b))); }
OB(min_neutral)(long a){ if(!zb(a)) return; Z x=Minimizer::neutral<Z>(); Minimizer::op(Z(a),x); Z y=a; Minimizer::op(Minimizer::neutral<Z>(),y); HOLDS(min_neutral, x==Z(a)&&y==Z(a)&&(neut<Minimizer,Z>(Z(INF)))&&(ineut<Minimizer,Z>(Z(-INF)))); }
OB(min_neutral_d)(){ const double i=std::numeric_limits<double>::infinity(); HOLDS(min_neutral_d, (neut<Minimizer,double>(i))&&(ineut<Minimizer,double>(-i))&&(neut<Minimizer,float>(std::numeric_limits<float>::infinity()))&&Minimizer::hasbop()); }
OB(min_bop)(long a,long b){ HOLDS(min_bop, Minimizer::bop(a,b)==(a<b) && Minimizer::ibop(a,b)==(a>b)); }
OB(min_bop_d)(double a,double b){ HOLDS(min_bop_d, Minimizer::bop(a,b)==(a<b) && Minimizer::ibop(a,b)==(a>b)); }

// says: maximization keeps the larger value, never loses a value to its neutral element, and orders by >
// code: operations/maximizer.hxx Maximizer
OB(max_op)(long a,long b){ HOLDS(max_op, (forms<Maximizer,long>(a,b,a>b?a:b))); }
OB(max_op_d)(){ const double a=2.25,b=-3.5; double x=b; Maximizer::op(a,x); double x2=a; Maximizer::op(b,x2); double y=77,y2=77; Maximizer::op(a,b,y); Maximizer::op(b,a,y2); double z=b; Maximizer::iop(a,z); HOLDS(max_op_d, same(x,a)&&same(x2,a)&&same(y,a)&&same(y2,a)&&same(z,b)); }
OB(max_iop)(long a,long b){ HOLDS(max_iop, (iforms<Maximizer,long>(a,b,a<b?a:b))); }
OB(max_neutral)(long a){ if(!zb(a)) return; Z x=Maximizer::neutral<Z>(); Maximizer::op(Z(a),x); Z y=a; Maximizer::op(Maximizer::neutral<Z>(),y); HOLDS(max_neutral, x==Z(a)&&y==Z(a)&&(neut<Maximizer,Z>(Z(-INF)))&&(ineut<Maximizer,Z>(Z(INF)))); }
OB(max_neutral_d)(){ const double i=std::numeric_limits<double>::infinity(); HOLDS(max_neutral_d, (neut<Maximizer,double>(-i))&&(ineut<Maximizer,double>(i))&&Maximizer::hasbop()); }
OB(max_bop)(long a,long b){ HOLDS(max_bop, Maximizer::bop(a,b)==(a>b) && Maximizer::ibop(a,b)==(a<b)); }
OB(max_bop_d)(double a,double b){ HOLDS(max_bop_d, Maximizer::bop(a,b)==(a>b) && Maximizer::ibop(a,b)==(a<b)); }

// says: integration adds up; taking a summand out again restores the value
// code: operations/integrator.hxx Integrator
OB(int_op)(long a,long b){ HOLDS(int_op, (forms<Integrator,long>(a,b,a+b))); }
OB(int_iop)(long a,long b){ HOLDS(int_iop, (iforms<Integrator,long>(a,b,b-a))); }
OB(int_inverse)(long a,long b){ long x=b; Integrator::op(a,x); Integrator::iop(a,x); HOLDS(int_inverse, x==b); }
OB(int_neutral)(long a){ long x=Integrator::neutral<long>(); Integrator::op(a,x); long y=a; Integrator::op(Integrator::neutral<long>(),y); HOLDS(int_neutral, x==a&&y==a&&(neut<Integrator,long>(0))&&(neut<Integrator,double>(0.0))&&!Integrator::hasbop()); }
OB(int_op_d)(double a,double b){ double x=b; Integrator::op(a,x); double y=77; Integrator::op(a,b,y); HOLDS(int_op_d, same(x,b+a)&&same(y,a+b)); }

// says: log-sum-exp is log(exp a + exp b) computed from the larger argument; both forms agree; neutral -inf
// code: operations/logsumexp.hxx Logsumexp
OB(lse_op_def)(double a,double b){ double mx=a<b?b:a, mn=b<a?b:a; if(mn==-std::numeric_limits<double>::infinity()) return; double x=b; Logsumexp::op(a,x); HOLDS(lse_op_def, same(x,mx+std::log(1+std::exp(mn-mx)))); }
OB(lse_op_num)(){ double x=1; Logsumexp::op(3.0,x); double y=3; Logsumexp::op(1.0,y); double want=std::log(std::exp(1.0)+std::exp(3.0)); HOLDS(lse_op_num, x-want<1e-9&&want-x<1e-9&&same(x,y)); }
OB(lse_forms)(double a,double b){ double x=b; Logsumexp::op(a,x); double y=77; Logsumexp::op(a,b,y); HOLDS(lse_forms, same(x,y)); }
OB(lse_neutral_neutral)(){ const double i=std::numeric_limits<double>::infinity(); double x=-i; Logsumexp::op(-i,x); double y=7; Logsumexp::op(-i,-i,y); HOLDS(lse_neutral_neutral, same(x,-i)&&same(y,-i)); }
OB(lse_neutral)(double a){ if(!(a>-std::numeric_limits<double>::infinity())) return; const double i=std::numeric_limits<double>::infinity(); double x=-i; Logsumexp::op(a,x); double y=a; Logsumexp::op(-i,y); HOLDS(lse_neutral, same(x,a)&&same(y,a)); }
OB(lse_neutral_d)(){ const double i=std::numeric_limits<double>::infinity(); HOLDS(lse_neutral_d, (neut<Logsumexp,double>(-i))&&(ineut<Logsumexp,double>(i))&&!Logsumexp::hasbop()); }

// says: and / or are the logical and bitwise connectives with their neutral elements
// code: operations/and.hxx And, operations/or.hxx Or
OB(and_bool)(bool a,bool b){ bool x=b; And::op(a,x); bool y=true; And::op(a,b,y); HOLDS(and_bool, x==(a&&b)&&y==(a&&b)&&And::bop(a,b)==(a&&b)&&And::ibop(a,b)==!(a&&b)); }
OB(and_long)(long a,long b){ HOLDS(and_long, (forms<And,long>(a,b,a&b))&&And::bop(a,b)==((a&b)!=0)&&And::ibop(a,b)==((a&b)==0)); }
OB(and_neutral)(bool a){ bool x=And::neutral<bool>(); And::op(a,x); bool y=a; And::op(And::neutral<bool>(),y); HOLDS(and_neutral, x==a&&y==a&&(neut<And,bool>(true))&&And::hasbop()); }
OB(or_bool)(bool a,bool b){ bool x=b; Or::op(a,x); bool y=true; Or::op(a,b,y); HOLDS(or_bool, x==(a||b)&&y==(a||b)&&Or::bop(a,b)==(a||b)&&Or::ibop(a,b)==!(a||b)); }
OB(or_long)(long a,long b){ HOLDS(or_long, (forms<Or,long>(a,b,a|b))&&Or::bop(a,b)==((a|b)!=0)&&Or::ibop(a,b)==((a|b)==0)); }
OB(or_neutral)(bool a){ bool x=Or::neutral<bool>(); Or::op(a,x); bool y=a; Or::op(Or::neutral<bool>(),y); HOLDS(or_neutral, x==a&&y==a&&(neut<Or,bool>(false))&&(ineut<Or,bool>(true))&&Or::hasbop()); }
OB(or_neutral_long)(long a){ long x=Or::neutral<long>(); Or::op(a,x); HOLDS(or_neutral_long, x==a); }

// says: weighted combinations are the operation applied to the repeated operand
// code: operations/weightedoperations.hxx WeightedOperations
OB(wmean)(long a,long b,long w){ long o=77; WeightedOperations::weightedMean<Adder>(a,b,w,o); HOLDS(wmean, o==(a-b)*w+b); }
OB(wop)(long a,long b,long w){ long o=b; WeightedOperations::wop<Adder>(a,w,o); HOLDS(wop, o==b+a*w); }
OB(wiop)(long a,long b,long w){ long o=b; WeightedOperations::wiop<Adder>(a,w,o); HOLDS(wiop, o==b-a*w); }
OB(iwop)(double a,double b,double w){ double o=b; WeightedOperations::iwop<Adder>(a,w,o); HOLDS(iwop, same(o,b+a*(1/w))); }
OB(iwiop)(double a,double b,double w){ double o=b; WeightedOperations::iwiop<Adder>(a,w,o); HOLDS(iwiop, same(o,b-a*(1/w))); }
OB(wop_mul)(double a,double b,double w){ double o=b; WeightedOperations::wop<Multiplier>(a,w,o); HOLDS(wop_mul, same(o,b*std::pow(a,w))); }

// says: deliberately false (control)
OB(ctl_min)(long a,long b){ HOLDS(ctl_min, Minimizer::bop(a,b)==(a<=b)); }
