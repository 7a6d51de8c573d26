// C12: label spaces.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/vector_view_space.hxx>
#include <opengm/graphicalmodel/space/viewspace.hxx>
using namespace opengm;
// says: a general space reports the label counts it was given, in order
// code: graphicalmodel/space/discretespace.hxx DiscreteSpace
OB(ds_ctor)(L a,L b,L c){ L n[3]={a,b,c}; DiscreteSpace<> s(n,n+3); HOLDS(ds_ctor, s.numberOfVariables()==3&&s.numberOfLabels(0)==a&&s.numberOfLabels(1)==b&&s.numberOfLabels(2)==c); }
OB(ds_assign)(L a,L b,L c){ L n[3]={a,b,c}; DiscreteSpace<> s(n,n+1); s.assign(n+1,n+3); bool r=s.numberOfVariables()==2&&s.numberOfLabels(0)==b&&s.numberOfLabels(1)==c; s.assignDense(n,n+3); HOLDS(ds_assign, r&&s.numberOfVariables()==3&&s.numberOfLabels(0)==a&&s.numberOfLabels(2)==c); }
OB(ds_add)(L a,L b,L c){ DiscreteSpace<> s; L i=s.addVariable(a),j=s.addVariable(b),k=s.addVariable(c); HOLDS(ds_add, i==0&&j==1&&k==2&&s.numberOfVariables()==3&&s.numberOfLabels(0)==a&&s.numberOfLabels(1)==b&&s.numberOfLabels(2)==c); }
OB(ds_empty)(){ DiscreteSpace<> s; HOLDS(ds_empty, s.numberOfVariables()==0); }
OB(ds_copy)(L a,L b,L c){ L n[3]={a,b,c}; DiscreteSpace<> s(n,n+2); DiscreteSpace<> t(s); t.addVariable(c); HOLDS(ds_copy, s.numberOfVariables()==2&&t.numberOfVariables()==3&&t.numberOfLabels(0)==a&&t.numberOfLabels(1)==b&&t.numberOfLabels(2)==c&&s.numberOfLabels(1)==b); }
OB(ds_simple3)(L a,L b,L c){ L n[3]={a,b,c}; DiscreteSpace<> s(n,n+3); HOLDS(ds_simple3, s.isSimpleSpace()==(a==b&&b==c)); }
OB(ds_simple4)(L a,L b){ L n[4]={a,a,a,b}; DiscreteSpace<> s(n,n+4); HOLDS(ds_simple4, s.isSimpleSpace()==(a==b)); }
OB(ds_small)(unsigned a,unsigned b){ unsigned n[2]={a,b}; DiscreteSpace<unsigned,unsigned> s(n,n+2); s.reserve(8); unsigned k=s.addVariable(a); HOLDS(ds_small, k==2&&s.numberOfVariables()==3&&s.numberOfLabels(0)==a&&s.numberOfLabels(1)==b&&s.numberOfLabels(2)==a); }
// says: a simple space has one label count for all of its variables
// code: graphicalmodel/space/simplediscretespace.hxx SimpleDiscreteSpace
OB(ss_ctor)(L n,L l,L i){ SimpleDiscreteSpace<> s(n,l); HOLDS(ss_ctor, s.numberOfVariables()==n&&s.numberOfLabels(i)==l&&s.isSimpleSpace()); }
OB(ss_default)(){ SimpleDiscreteSpace<> s; HOLDS(ss_default, s.numberOfVariables()==0); }
OB(ss_assign)(L n,L l,L m,L k,L i){ SimpleDiscreteSpace<> s(n,l); s.assign(m,k); HOLDS(ss_assign, s.numberOfVariables()==m&&s.numberOfLabels(i)==k); }
OB(ss_add)(L n,L l,L i){ SimpleDiscreteSpace<> s(n,l); L k=s.addVariable(l); HOLDS(ss_add, k==n&&s.numberOfVariables()==n+1&&s.numberOfLabels(i)==l); }
OB(throw_ss_add)(L n,L l,L m){ if(l==m) return; SimpleDiscreteSpace<> s(n,l); s.addVariable(m); MUST_THROW(throw_ss_add); }
OB(ss_dense)(L l,L i){ L n[3]={l,l,l}; SimpleDiscreteSpace<> s; s.assignDense(n,n+3); HOLDS(ss_dense, s.numberOfVariables()==3&&s.numberOfLabels(i)==l); }
OB(throw_ss_dense)(L a,L b,L c){ if(a==b&&b==c) return; L n[3]={a,b,c}; SimpleDiscreteSpace<> s; s.assignDense(n,n+3); MUST_THROW(throw_ss_dense); }
// says: a grid space has dimX*dimY variables of one label count
// code: graphicalmodel/space/grid_space.hxx GridSpace
OB(gs)(L x,L y,L l,L i){ GridSpace<> s(x,y,l); bool r=s.numberOfVariables()==x*y&&s.dimX()==x&&s.dimY()==y&&s.numberOfLabels()==l&&s.numberOfLabels(i)==l&&s.isSimpleSpace(); GridSpace<> t; r=r&&t.numberOfVariables()==0; t.assign(x,y,l); HOLDS(gs, r&&t.numberOfVariables()==x*y&&t.dimX()==x&&t.dimY()==y&&t.numberOfLabels(i)==l); }
// says: the static simple space agrees with the simple space of the same counts
// code: graphicalmodel/space/static_simplediscretespace.hxx StaticSimpleDiscreteSpace
OB(st_ctor)(L n,L i){ StaticSimpleDiscreteSpace<5> s(n); HOLDS(st_ctor, s.numberOfVariables()==n&&s.numberOfLabels(i)==5&&s.isSimpleSpace()); }
OB(st_add)(L n,L i){ StaticSimpleDiscreteSpace<5> s(n); L k=s.addVariable(5); HOLDS(st_add, k==n&&s.numberOfVariables()==n+1&&s.numberOfLabels(i)==5); }
OB(throw_st_add)(L n,L l){ if(l==5) return; StaticSimpleDiscreteSpace<5> s(n); s.addVariable(l); MUST_THROW(throw_st_add); }
OB(st_assign)(L n,L m){ StaticSimpleDiscreteSpace<5> s(n); s.assign(m); bool r=s.numberOfVariables()==m; L d[3]={5,5,5}; s.assignDense(d,d+3); HOLDS(st_assign, r&&s.numberOfVariables()==3); }
OB(throw_st_dense)(L a,L b){ if(a==5&&b==5) return; L d[2]={a,b}; StaticSimpleDiscreteSpace<5> s; s.assignDense(d,d+2); MUST_THROW(throw_st_dense); }
// says: view spaces show the viewed counts and refuse to grow
// code: graphicalmodel/space/vector_view_space.hxx, graphicalmodel/space/view_space.hxx
OB(vv)(L a,L b,L c){ std::vector<L> v(3); v[0]=a;v[1]=b;v[2]=c; VectorViewSpace<> s(v); bool r=s.numberOfVariables()==3&&s.numberOfLabels(0)==a&&s.numberOfLabels(1)==b&&s.numberOfLabels(2)==c; v[1]=a; HOLDS(vv, r&&s.numberOfLabels(1)==a); }
OB(throw_vv_add)(L a){ std::vector<L> v(3); VectorViewSpace<> s(v); s.addVariable(a); MUST_THROW(throw_vv_add); }
typedef GraphicalModel<long,Adder,ExplicitFunction<long>,DiscreteSpace<> > GM;
OB(vs)(L a,L b){ L n[2]={a,b}; GM gm((DiscreteSpace<>(n,n+2))); ViewSpace<GM> s(gm); bool r=s.numberOfVariables()==2&&s.numberOfLabels(0)==a&&s.numberOfLabels(1)==b; ViewSpace<GM> t; t.assign(gm); HOLDS(vs, r&&t.numberOfVariables()==2&&t.numberOfLabels(1)==b); }
OB(throw_vs_add)(L a,L b){ L n[2]={a,b}; GM gm((DiscreteSpace<>(n,n+2))); ViewSpace<GM> s(gm); s.addVariable(a); MUST_THROW(throw_vs_add); }
// says: a model's space queries are those of its space
// code: graphicalmodel/graphicalmodel.hxx numberOfVariables/numberOfLabels/addVariable
OB(gm_space)(L a,L b,L c){ L n[2]={a,b}; GM gm((DiscreteSpace<>(n,n+2))); L k=gm.addVariable(c); HOLDS(gm_space, k==2&&gm.numberOfVariables()==3&&gm.numberOfLabels(0)==a&&gm.numberOfLabels(1)==b&&gm.numberOfLabels(2)==c&&gm.numberOfFactors()==0&&gm.numberOfFactors(2)==0); }
OB(gm_space_assign)(L a,L b){ L n[2]={a,b}; GM gm; gm.assign(DiscreteSpace<>(n,n+2)); HOLDS(gm_space_assign, gm.numberOfVariables()==2&&gm.numberOfLabels(0)==a&&gm.numberOfLabels(1)==b&&gm.numberOfFactors(1)==0); }
// says: deliberately false (control)
OB(ctl_space)(L a,L b,L c){ L n[3]={a,b,c}; DiscreteSpace<> s(n,n+3); HOLDS(ctl_space, s.isSimpleSpace()==(a==b)); }
