// C02: factor/variable incidence.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/constant.hxx>
using namespace opengm;
typedef PottsNFunction<long> PN; typedef GraphicalModel<long,Adder,PN,SimpleDiscreteSpace<> > G;
#define AI static inline __attribute__((always_inline))
AI L bits(unsigned m){ L r=0; for(unsigned i=0;i<4;++i) r+=(m>>i)&1; return r; }
AI L nth(unsigned m,L k){ for(unsigned i=0;i<4;++i) if((m>>i)&1){ if(k==0) return i; --k; } return 99; }
template<unsigned N> AI L add(G& gm,unsigned m,bool fin){ L s[4]={9,9,9,9}, v[4]; L n=0; for(unsigned i=0;i<N;++i) if((m>>i)&1) v[n++]=i; G::FunctionIdentifier f=gm.addFunction(PN(s,s+n,1,2)); return fin ? gm.addFactor(f,v,v+n) : gm.addFactorNonFinalized(f,v,v+n); }
// every incidence query of the model against the bit sets m[0..F)
template<unsigned N,unsigned F> AI bool agrees(const G& gm,const unsigned* m){
   bool r=gm.numberOfVariables()==N && gm.numberOfFactors()==F; L mx=0;
   for(unsigned f=0;f<F;++f){ L n=bits(m[f]); if(n>mx) mx=n; r=r&&gm.numberOfVariables(f)==n&&gm[f].numberOfVariables()==n; for(L k=0;k<n;++k) r=r&&gm.variableOfFactor(f,k)==nth(m[f],k)&&gm[f].variableIndex(k)==nth(m[f],k); }
   for(unsigned v=0;v<N;++v){ L c=0; for(unsigned f=0;f<F;++f) if((m[f]>>v)&1){ r=r&&c<gm.numberOfFactors(v)&&gm.factorOfVariable(v,c)==f; ++c; } r=r&&gm.numberOfFactors(v)==c; }
   r=r&&gm.factorOrder()==mx; return r; }
template<unsigned N,unsigned F> AI bool graphq(const G& gm,const unsigned* m){ bool r=true; L mx=0;
   for(unsigned f=0;f<F;++f){ if(bits(m[f])>mx) mx=bits(m[f]); for(unsigned v=0;v<N;++v) r=r&&gm.variableFactorConnection(v,f)==(((m[f]>>v)&1)!=0)&&gm.factorVariableConnection(f,v)==(((m[f]>>v)&1)!=0); for(unsigned g=0;g<F;++g) r=r&&gm.factorFactorConnection(f,g)==(f!=g&&(m[f]&m[g])!=0); }
   for(unsigned v=0;v<N;++v) for(unsigned w=0;w<N;++w){ bool c=false; for(unsigned f=0;f<F;++f) if(((m[f]>>v)&1)&&((m[f]>>w)&1)) c=true; r=r&&gm.variableVariableConnection(v,w)==(c&&v!=w); }
   r=r&&gm.maxFactorOrder()==mx; for(L k=0;k<4;++k) r=r&&gm.maxFactorOrder(k)==(mx<=k);
   return r; }
template<unsigned N,unsigned F> AI bool counts(const G& gm,const unsigned* m){ bool r=true; for(unsigned v=0;v<N;++v) for(L k=1;k<4;++k){ L c=0; for(unsigned f=0;f<F;++f) if(((m[f]>>v)&1)&&bits(m[f])==k) ++c; r=r&&gm.numberOfNthOrderFactorsOfVariable(v,k)==c; } return r; }
template<unsigned N,unsigned F> AI bool iters(const G& gm,const unsigned* m){ bool r=true; for(unsigned f=0;f<F;++f){ L k=0; for(G::ConstVariableIterator i=gm.variablesOfFactorBegin(f); i!=gm.variablesOfFactorEnd(f); ++i,++k) r=r&&*i==nth(m[f],k); r=r&&k==bits(m[f]); }
   for(unsigned v=0;v<N;++v){ L k=0; unsigned g=0; for(G::ConstFactorIterator i=gm.factorsOfVariableBegin(v); i!=gm.factorsOfVariableEnd(v); ++i,++k){ while(g<F&&!((m[g]>>v)&1)) ++g; r=r&&g<F&&*i==g; ++g; } L c=0; for(unsigned f=0;f<F;++f) c+=(m[f]>>v)&1; r=r&&k==c; } return r; }
// acyclic iff |edges| = |touched nodes| - |components| : union-find over variables
template<unsigned N,unsigned F> AI bool acyclic(const unsigned* m){ unsigned c[4]={1,2,4,8}; for(unsigned f=0;f<F;++f){ unsigned seen=0,u=0; for(unsigned v=0;v<N;++v) if((m[f]>>v)&1){ unsigned cv=0; for(unsigned w=0;w<N;++w) if((c[w]>>v)&1) cv=c[w]; if(seen&cv) return false; seen|=cv; u|=cv; } for(unsigned w=0;w<N;++w) if(c[w]&u) c[w]=u; } return true; }
template<unsigned N,unsigned F> AI L components(const unsigned* m){ unsigned c[4]={1,2,4,8}; for(unsigned f=0;f<F;++f){ unsigned u=0; for(unsigned v=0;v<N;++v) if(c[v]&m[f]) u|=c[v]; if(u) for(unsigned v=0;v<N;++v) if(c[v]&u) c[v]|=u; } L n=0; for(unsigned v=0;v<N;++v) if(!(c[v]&((1u<<v)-1))) ++n; return n; }

// says: a model built with addFactor lists exactly the given variables per factor and the containing factors, ascending, per variable
// code: graphicalmodel.hxx addFactor, numberOfFactors, factorOfVariable, variableOfFactor, factorOrder
#define INC3(nm,A,B,C) OB(imm_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; bool r=true; for(L i=0;i<3;++i) r=r&&add<3>(gm,m[i],true)==i; HOLDS(imm_##nm, r&&(agrees<3,3>(gm,m))); }\
 OB(def_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; bool r=true; for(L i=0;i<3;++i) r=r&&add<3>(gm,m[i],false)==i; gm.finalize(); HOLDS(def_##nm, r&&(agrees<3,3>(gm,m))); }\
 OB(graph_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; for(L i=0;i<3;++i) add<3>(gm,m[i],true); HOLDS(graph_##nm, (graphq<3,3>(gm,m))); }\
 OB(count_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; for(L i=0;i<3;++i) add<3>(gm,m[i],true); HOLDS(count_##nm, (counts<3,3>(gm,m))&&(iters<3,3>(gm,m))); }
INC3(a,1,2,4) INC3(b,3,5,6) INC3(c,7,1,6) INC3(d,4,2,1) INC3(e,6,3,3) INC3(f,5,5,7)
OB(mixed_order)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={5,6,2}; add<3>(gm,m[0],true); add<3>(gm,m[1],false); add<3>(gm,m[2],false); gm.finalize(); HOLDS(mixed_order, (agrees<3,3>(gm,m))); }
OB(finalize_again)(){ G gm(SimpleDiscreteSpace<>(2,9)); const unsigned m[2]={2,3}; add<2>(gm,m[0],false); gm.finalize(); add<2>(gm,m[1],false); gm.finalize(); HOLDS(finalize_again, (agrees<2,2>(gm,m))); }
OB(deep_finalize_twice)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={5,6,2}; add<3>(gm,m[0],false); gm.finalize(); add<3>(gm,m[1],false); add<3>(gm,m[2],false); gm.finalize(); gm.finalize(); HOLDS(deep_finalize_twice, (agrees<3,3>(gm,m))); }
OB(add_after_finalize)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={5,6,2}; add<3>(gm,m[0],false); gm.finalize(); add<3>(gm,m[1],true); add<3>(gm,m[2],true); HOLDS(add_after_finalize, (agrees<3,3>(gm,m))); }
OB(add_variable)(){ G gm(SimpleDiscreteSpace<>(2,9)); add<2>(gm,3,true); L k=gm.addVariable(9); add<3>(gm,6,true); const unsigned m[2]={3,6}; HOLDS(add_variable, k==2&&(agrees<3,2>(gm,m))); }
OB(reserve_factors)(){ G gm(SimpleDiscreteSpace<>(3,9),4); gm.reserveFactors(7); gm.reserveFactorsVarialbeIndices(9); gm.reserveFunctions<PN>(5); const unsigned m[2]={3,6}; add<3>(gm,3,true); add<3>(gm,6,true); HOLDS(reserve_factors, (agrees<3,2>(gm,m))); }
OB(order_zero)(long c){ typedef ConstantFunction<long> CF; typedef GraphicalModel<long,Adder,CF,SimpleDiscreteSpace<> > H; H gm(SimpleDiscreteSpace<>(2,9)); L s[2]={9},v[2]={1}; L f=gm.addFactor(gm.addFunction(CF(s,s,c)),v,v), g=gm.addFactor(gm.addFunction(CF(s,s+1,c)),v,v+1); HOLDS(order_zero, f==0&&g==1&&gm.numberOfVariables(0)==0&&gm.numberOfVariables(1)==1&&gm.numberOfFactors(0)==0&&gm.numberOfFactors(1)==1&&gm.factorOfVariable(1,0)==1&&gm.factorOrder()==1&&gm.maxFactorOrder()==1); }
OB(four_vars)(){ G gm(SimpleDiscreteSpace<>(4,9)); const unsigned m[2]={13,10}; add<4>(gm,13,true); add<4>(gm,10,true); HOLDS(four_vars, (agrees<4,2>(gm,m))&&(graphq<4,2>(gm,m))); }
OB(functions_count)(){ typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PN,PottsFunction<long> >::type,SimpleDiscreteSpace<> > H; H gm(SimpleDiscreteSpace<>(2,9)); L s[2]={9,9}; gm.addFunction(PottsFunction<long>(9,9,1,2)); gm.addFunction(PN(s,s+2,1,2)); H::FunctionIdentifier f=gm.addFunction(PottsFunction<long>(9,9,3,4)); HOLDS(functions_count, gm.numberOfFunctions(0)==1&&gm.numberOfFunctions(1)==2&&f.functionType==1&&f.functionIndex==1); }
// says: adjacency exports agree with the incidence
// code: graphviews/factorgraph.hxx variableAdjacencyList, factorAdjacencyList, variableAdjacencyMatrix
#define ADJ(nm,A,B,C) OB(vadj_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; for(L i=0;i<3;++i) add<3>(gm,m[i],true); std::vector<RandomAccessSet<L> > o; gm.variableAdjacencyList(o); bool r=o.size()==3; for(L v=0;v<3;++v){ L c=0; for(L w=0;w<3;++w) if(gm.variableVariableConnection(v,w)){ r=r&&c<o[v].size()&&o[v][c]==w; ++c; } r=r&&o[v].size()==c; } HOLDS(vadj_##nm, r); }\
 OB(fadj_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; for(L i=0;i<3;++i) add<3>(gm,m[i],true); std::vector<RandomAccessSet<L> > o; gm.factorAdjacencyList(o); bool r=o.size()==3; for(L f=0;f<3;++f){ L c=0; for(L g=0;g<3;++g) if(f!=g&&(m[f]&m[g])){ r=r&&c<o[f].size()&&o[f][c]==g; ++c; } r=r&&o[f].size()==c; } HOLDS(fadj_##nm, r); }\
 OB(vmat_##nm)(){ G gm(SimpleDiscreteSpace<>(3,9)); const unsigned m[3]={A,B,C}; for(L i=0;i<3;++i) add<3>(gm,m[i],true); marray::Matrix<bool> o; gm.variableAdjacencyMatrix(o); bool r=o.shape(0)==3&&o.shape(1)==3; for(L v=0;v<3;++v) for(L w=0;w<3;++w) r=r&&o(v,w)==gm.variableVariableConnection(v,w); HOLDS(vmat_##nm, r); }
ADJ(a,3,4,2) ADJ(b,5,1,6) ADJ(c,7,4,1) ADJ(d,1,2,4)
// says: isAcyclic holds exactly when the factor graph has no cycle
// code: graphviews/factorgraph.hxx isAcyclic
#define ACY(nm,N,F,...) OB(acyclic_##nm)(){ G gm(SimpleDiscreteSpace<>(N,9)); const unsigned m[F]={__VA_ARGS__}; for(L i=0;i<F;++i) add<N>(gm,m[i],true); HOLDS(acyclic_##nm, gm.isAcyclic()==(acyclic<N,F>(m))); }
ACY(a,3,2,3,6) ACY(b,3,3,3,6,5) ACY(c,3,2,3,3) ACY(d,3,3,1,2,4) ACY(e,3,2,7,2) ACY(f,3,2,7,6) ACY(g,4,3,3,12,6) ACY(h,4,3,3,6,12)
// says: isConnected holds exactly for one connected component, with one representative per component
// code: graphviews/factorgraph.hxx isConnected
#define CON(nm,N,F,...) OB(connected_##nm)(){ G gm(SimpleDiscreteSpace<>(N,9)); const unsigned m[F]={__VA_ARGS__}; for(L i=0;i<F;++i) add<N>(gm,m[i],true); marray::Vector<L> rep; bool c=gm.isConnected(rep); L n=components<N,F>(m); HOLDS(connected_##nm, c==(n==1)&&rep.size()==n); }
CON(a,3,2,3,6) CON(b,3,1,6) CON(c,3,3,1,2,4) CON(d,3,1,7) CON(e,4,2,3,12) CON(f,4,3,9,6,5)
// says: isChain holds exactly for a path, whose order it reports
// code: graphviews/factorgraph.hxx isChain
OB(chain_yes)(){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,5,true); add<3>(gm,6,true); marray::Vector<L> c; bool r=gm.isChain(c); HOLDS(chain_yes, r&&c.size()==3&&c(0)==0&&c(1)==2&&c(2)==1); }
OB(chain_no_order)(){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,7,true); marray::Vector<L> c; HOLDS(chain_no_order, !gm.isChain(c)); }
OB(chain_no_cycle)(){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,3,true); add<3>(gm,6,true); add<3>(gm,5,true); marray::Vector<L> c; HOLDS(chain_no_cycle, !gm.isChain(c)); }
OB(chain_no_gap)(){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,3,true); add<3>(gm,4,true); marray::Vector<L> c; HOLDS(chain_no_gap, !gm.isChain(c)); }
// says: the other variable of a pairwise factor
OB(second_var)(){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,5,true); HOLDS(second_var, gm.secondVariableOfSecondOrderFactor(0,0)==2&&gm.secondVariableOfSecondOrderFactor(2,0)==0); }
OB(nth_ids)(){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,1,true); add<3>(gm,3,true); add<3>(gm,7,true); add<3>(gm,5,true); marray::Vector<L> id; L n=gm.numberOfNthOrderFactorsOfVariable(0,2,id); HOLDS(nth_ids, n==2&&id.size()==2&&id(0)+id(1)==4&&(id(0)==1||id(0)==3)); }
// says: isValidIndexSequence holds exactly for strictly increasing in-range indices
// code: graphicalmodel.hxx isValidIndexSequence
OB(valid_seq)(L n,L a,L b,L c){ G gm((SimpleDiscreteSpace<>(0,9))); (void)n; typedef GraphicalModel<long,Adder,PN,SimpleDiscreteSpace<> > H; H g(SimpleDiscreteSpace<>(7,9)); L v[8]={a,b,c}; HOLDS(valid_seq, g.isValidIndexSequence(v,v+3)==(a<7&&b<7&&c<7&&a<b&&b<c) && g.isValidIndexSequence(v,v) && g.isValidIndexSequence(v,v+1)==(a<7)); }
// says: deliberately false (control)
OB(ctl_inc)(L a){ G gm(SimpleDiscreteSpace<>(3,9)); add<3>(gm,5,true); HOLDS(ctl_inc, gm.numberOfFactors(1)==1+a); }
