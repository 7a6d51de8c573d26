// C13: walkers and iterators enumerate the documented sequence.
#include "prelude.hxx"
#include <algorithm>
#include <numeric>
#include <queue>
#include <deque>
#include <string>
#include <typeinfo>
#include <functional>
#include <memory>
#include <stdexcept>
#include <iterator>
#include <type_traits>
#define private public
#include <opengm/opengm.hxx>
#include <opengm/utilities/indexing.hxx>
#undef private
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/utilities/shape_accessor.hxx>
#include <opengm/utilities/accessor_iterator.hxx>
#include <opengm/utilities/subsequence_iterator.hxx>
#include <opengm/utilities/vector_view.hxx>
using namespace opengm;
#define AT(x,y,z) (w.coordinateTuple()[0]==(x)&&w.coordinateTuple()[1]==(y)&&w.coordinateTuple()[2]==(z))
#define AI static inline __attribute__((always_inline))
// one step from an arbitrary position: the first coordinate that has not reached its last value is
// incremented, the coordinates before it return to zero (from the last position the last coordinate runs over)
// says: from any position of any shape the walker goes to the next one in first-coordinate-major order
// code: utilities/indexing.hxx ShapeWalker
OB(sw_start)(L a,L b,L c){ L s[8]={a,b,c}; ShapeWalker<L*> w(s,3); HOLDS(sw_start, w.coordinateTuple().size()==3&&w.coordinateTuple()[0]==0&&w.coordinateTuple()[1]==0&&w.coordinateTuple()[2]==0); }
OB(sw_step1)(L a,L i){ if(!(i+1<a)){ ok_sw_step1(); return; }  L s[8]={a}; ShapeWalker<L*> w(s,1); w.coordinateTuple_[0]=i; ++w; HOLDS(sw_step1, w.coordinateTuple()[0]==i+1); }
#ifdef NDEBUG
OB(sw_step2)(L a,L b,L i,L j){ if(!(i<a&&j+1<b)){ ok_sw_step2(); return; } L s[8]={a,b}; ShapeWalker<L*> w(s,2); w.coordinateTuple_[0]=i; w.coordinateTuple_[1]=j; if(i!=a-1){ ++w; HOLDS(sw_step2, w.coordinateTuple()[0]==i+1&&w.coordinateTuple()[1]==j); return; } ++w; HOLDS(sw_step2, w.coordinateTuple()[0]==0&&w.coordinateTuple()[1]==j+1); }
#endif
#ifdef NDEBUG
OB(sw_step3)(L a,L b,L c,L i,L j,L k){ if(!(i<a&&j<b&&k+1<c)){ ok_sw_step3(); return; } L s[8]={a,b,c}; ShapeWalker<L*> w(s,3); w.coordinateTuple_[0]=i; w.coordinateTuple_[1]=j; w.coordinateTuple_[2]=k; if(i!=a-1){ ++w; HOLDS(sw_step3, AT(i+1,j,k)); return; } if(j!=b-1){ ++w; HOLDS(sw_step3, AT(0,j+1,k)); return; } ++w; HOLDS(sw_step3, AT(0,0,k+1)); }
#endif
OB(sw_reset)(L a,L b,L i,L j){ L s[8]={a,b}; ShapeWalker<L*> w(s,2); w.coordinateTuple_[0]=i; w.coordinateTuple_[1]=j; w.reset(); HOLDS(sw_reset, w.coordinateTuple()[0]==0&&w.coordinateTuple()[1]==0); }
OB(sw_all)(){ L s[8]={2,3}; ShapeWalker<L*> w(s,2); bool ok=true; for(L j=0;j<3;++j) for(L i=0;i<2;++i){ ok=ok&&w.coordinateTuple()[0]==i&&w.coordinateTuple()[1]==j; ++w; } HOLDS(sw_all, ok); }
OB(sw_large)(){ L s[8]={1,2,1,2,1,1,2}; ShapeWalker<L*> w(s,7); bool ok=true; for(L m=0;m<2;++m) for(L j=0;j<2;++j) for(L i=0;i<2;++i){ ok=ok&&w.coordinateTuple()[0]==0&&w.coordinateTuple()[1]==i&&w.coordinateTuple()[2]==0&&w.coordinateTuple()[3]==j&&w.coordinateTuple()[6]==m; ++w; } HOLDS(sw_large, ok); }
OB(ctl_sw)(L a,L b,L i,L j){ L s[8]={a,b}; ShapeWalker<L*> w(s,2); w.coordinateTuple_[0]=i; w.coordinateTuple_[1]=j; ++w; HOLDS(ctl_sw, w.coordinateTuple()[1]==j); }
// says: the switched walker goes to the next position in last-coordinate-major order
// code: utilities/indexing.hxx ShapeWalkerSwitchedOrder
OB(so_start)(L a,L b){ L s[8]={a,b}; ShapeWalkerSwitchedOrder<L*> w(s,2); HOLDS(so_start, w.coordinateTuple().size()==2&&w.coordinateTuple()[0]==0&&w.coordinateTuple()[1]==0); }
#ifdef NDEBUG
OB(so_step2)(L a,L b,L i,L j){ if(!(j<b&&i+1<a)){ ok_so_step2(); return; } L s[8]={a,b}; ShapeWalkerSwitchedOrder<L*> w(s,2); w.coordinateTuple_[0]=i; w.coordinateTuple_[1]=j; if(j!=b-1){ ++w; HOLDS(so_step2, w.coordinateTuple()[0]==i&&w.coordinateTuple()[1]==j+1); return; } ++w; HOLDS(so_step2, w.coordinateTuple()[0]==i+1&&w.coordinateTuple()[1]==0); }
#endif
#ifdef NDEBUG
OB(so_step3)(L a,L b,L c,L i,L j,L k){ if(!(k<c&&j<b&&i+1<a)){ ok_so_step3(); return; } L s[8]={a,b,c}; ShapeWalkerSwitchedOrder<L*> w(s,3); w.coordinateTuple_[0]=i; w.coordinateTuple_[1]=j; w.coordinateTuple_[2]=k; if(k!=c-1){ ++w; HOLDS(so_step3, AT(i,j,k+1)); return; } if(j!=b-1){ ++w; HOLDS(so_step3, AT(i,j+1,0)); return; } ++w; HOLDS(so_step3, AT(i+1,0,0)); }
#endif
OB(so_all)(){ L s[8]={3,2}; ShapeWalkerSwitchedOrder<L*> w(s,2); bool ok=true; for(L i=0;i<3;++i) for(L j=0;j<2;++j){ ok=ok&&w.coordinateTuple()[0]==i&&w.coordinateTuple()[1]==j; ++w; } HOLDS(so_all, ok); }
// says: the subset walker keeps the fixed coordinates at their values and walks the others
// code: utilities/indexing.hxx SubShapeWalker
typedef std::vector<L> VL;
#define SUB3(ix,...) L s[8]={a,b,c}; VL fi,fv; ix; SubShapeWalker<L*,VL,VL> w(s,3,fi,fv);
#define FIX(p,v) fi.push_back(p); fv.push_back(v)
#define SET(x,y,z) w.coordinateTuple_[0]=x; w.coordinateTuple_[1]=y; w.coordinateTuple_[2]=z
OB(sub_start0)(L a,L b,L c,L u){ SUB3(FIX(0,u)); HOLDS(sub_start0, AT(u,0,0)&&w.coordinateTuple().size()==3); }
OB(sub_start1)(L a,L b,L c,L u,L v){ SUB3(FIX(1,u);FIX(2,v)); HOLDS(sub_start1, AT(0,u,v)); }
OB(sub_none)(L a,L b,L c,L i,L j,L k){SUB3(); SET(i,j,k); if(i!=a-1){ ++w; HOLDS(sub_none, AT(i+1,j,k)); return; } if(j!=b-1){ ++w; HOLDS(sub_none, AT(0,j+1,k)); return; } ++w; HOLDS(sub_none, AT(0,0,k+1)); }
OB(sub_fix0)(L a,L b,L c,L u,L j,L k){SUB3(FIX(0,u)); SET(u,j,k); if(j!=b-1){ ++w; HOLDS(sub_fix0, AT(u,j+1,k)); return; } ++w; HOLDS(sub_fix0, AT(u,0,k+1)); }
OB(sub_fix1)(L a,L b,L c,L i,L u,L k){SUB3(FIX(1,u)); SET(i,u,k); if(i!=a-1){ ++w; HOLDS(sub_fix1, AT(i+1,u,k)); return; } ++w; HOLDS(sub_fix1, AT(0,u,k+1)); }
OB(sub_fix2)(L a,L b,L c,L i,L j,L u){SUB3(FIX(2,u)); SET(i,j,u); if(i!=a-1){ ++w; HOLDS(sub_fix2, AT(i+1,j,u)); return; } if(j!=b-1){ ++w; HOLDS(sub_fix2, AT(0,j+1,u)); return; } ++w; HOLDS(sub_fix2, w.coordinateTuple()[2]==u); }
OB(sub_fix01)(L a,L b,L c,L u,L v,L k){ SUB3(FIX(0,u);FIX(1,v)); SET(u,v,k); ++w; HOLDS(sub_fix01, AT(u,v,k+1)); }
OB(sub_fix02)(L a,L b,L c,L u,L j,L v){SUB3(FIX(0,u);FIX(2,v)); SET(u,j,v); if(j!=b-1){ ++w; HOLDS(sub_fix02, AT(u,j+1,v)); return; } ++w; HOLDS(sub_fix02, w.coordinateTuple()[0]==u&&w.coordinateTuple()[2]==v); }
OB(sub_fix12)(L a,L b,L c,L i,L u,L v){SUB3(FIX(1,u);FIX(2,v)); SET(i,u,v); if(i!=a-1){ ++w; HOLDS(sub_fix12, AT(i+1,u,v)); return; } ++w; HOLDS(sub_fix12, w.coordinateTuple()[1]==u&&w.coordinateTuple()[2]==v); }
OB(sub_reset)(L a,L b,L c,L i,L u,L k){ SUB3(FIX(1,u)); SET(i,u,k); w.resetCoordinate(); HOLDS(sub_reset, AT(0,u,0)); }
OB(sub_size0)(L a,L b,L c){ SUB3(); HOLDS(sub_size0, w.subSize()==a*b*c); }
OB(sub_size1)(L a,L b,L c,L u){ SUB3(FIX(1,u)); HOLDS(sub_size1, w.subSize()==a*c); }
OB(sub_size02)(L a,L b,L c,L u,L v){ SUB3(FIX(0,u);FIX(2,v)); HOLDS(sub_size02, w.subSize()==b); }
OB(sub_size012)(L a,L b,L c,L u,L v){ SUB3(FIX(0,u);FIX(1,u);FIX(2,v)); HOLDS(sub_size012, w.subSize()==1); }
OB(sub_all)(L u){ L a=2,b=9,c=3; SUB3(FIX(1,u)); bool ok=true; for(L k=0;k<3;++k) for(L i=0;i<2;++i){ ok=ok&&AT(i,u,k); ++w; } HOLDS(sub_all, ok); }
// says: the double walker's second coordinate is the first one restricted to the shared variables
// code: utilities/indexing.hxx DoubleShapeWalker TripleShapeWalker
OB(dw_start)(L a,L b){ L s[8]={a,b}; VL ab,va; ab.push_back(3); ab.push_back(7); va.push_back(7); DoubleShapeWalker<L*> w(s,2,ab,va); HOLDS(dw_start, w.coordinateTupleAB().size()==2&&w.coordinateTupleA().size()==1&&w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleA()[0]==0); }
#define DW(cond) L s[8]={a,b,c}; VL ab,va; ab.push_back(2); ab.push_back(5); ab.push_back(9); cond; DoubleShapeWalker<L*> w(s,3,ab,va); w.coordinateTupleAB_[0]=i; w.coordinateTupleAB_[1]=j; w.coordinateTupleAB_[2]=k;
OB(dw_first)(L a,L b,L c,L i,L j,L k){DW(va.push_back(2);) w.coordinateTupleA_[0]=i; if(i!=a-1){ ++w; HOLDS(dw_first, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]); return; } if(j!=b-1){ ++w; HOLDS(dw_first, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]); return; } if(k!=c-1){ ++w; HOLDS(dw_first, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]); return; } ++w; HOLDS(dw_first, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]); }
OB(dw_mid)(L a,L b,L c,L i,L j,L k){DW(va.push_back(5);) w.coordinateTupleA_[0]=j; if(i!=a-1){ ++w; HOLDS(dw_mid, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]); return; } if(j!=b-1){ ++w; HOLDS(dw_mid, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]); return; } if(k!=c-1){ ++w; HOLDS(dw_mid, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]); return; } ++w; HOLDS(dw_mid, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]); }
OB(dw_last)(L a,L b,L c,L i,L j,L k){DW(va.push_back(9);) w.coordinateTupleA_[0]=k; if(i!=a-1){ ++w; HOLDS(dw_last, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[2]); return; } if(j!=b-1){ ++w; HOLDS(dw_last, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[2]); return; } if(k!=c-1){ ++w; HOLDS(dw_last, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[2]); return; } ++w; HOLDS(dw_last, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[2]); }
OB(dw_pair)(L a,L b,L c,L i,L j,L k){DW(va.push_back(2);va.push_back(9);) w.coordinateTupleA_[0]=i; w.coordinateTupleA_[1]=k; if(i!=a-1){ ++w; HOLDS(dw_pair, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[2]); return; } if(j!=b-1){ ++w; HOLDS(dw_pair, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[2]); return; } if(k!=c-1){ ++w; HOLDS(dw_pair, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[2]); return; } ++w; HOLDS(dw_pair, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[2]); }
OB(dw_all3)(L a,L b,L c,L i,L j,L k){DW(va.push_back(2);va.push_back(5);va.push_back(9);) w.coordinateTupleA_[0]=i; w.coordinateTupleA_[1]=j; w.coordinateTupleA_[2]=k; if(i!=a-1){ ++w; HOLDS(dw_all3, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleA()[2]==w.coordinateTupleAB()[2]); return; } if(j!=b-1){ ++w; HOLDS(dw_all3, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleA()[2]==w.coordinateTupleAB()[2]); return; } if(k!=c-1){ ++w; HOLDS(dw_all3, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleA()[2]==w.coordinateTupleAB()[2]); return; } ++w; HOLDS(dw_all3, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleA()[2]==w.coordinateTupleAB()[2]); }
#define TW L s[8]={a,b,c}; VL ab,va,vb; ab.push_back(2); ab.push_back(5); ab.push_back(9);
#define TWP TripleShapeWalker<L*> w(s,3,ab,va,vb); w.coordinateTupleAB_[0]=i; w.coordinateTupleAB_[1]=j; w.coordinateTupleAB_[2]=k;
OB(tw_chain)(unsigned a_,unsigned b_,unsigned c_,unsigned i_,unsigned j_,unsigned k_){L a=a_&0xffff,b=b_&0xffff,c=c_&0xffff,i=i_&0xffff,j=j_&0xffff,k=k_&0xffff; if(a==0||b==0||c==0){ ok_tw_chain(); return; } TW va.push_back(2);va.push_back(5);vb.push_back(5);vb.push_back(9); TWP w.coordinateTupleA_[0]=i; w.coordinateTupleA_[1]=j; w.coordinateTupleB_[0]=j; w.coordinateTupleB_[1]=k; if(int(i)!=int(a)-1){ ++w; HOLDS(tw_chain, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); return; } if(int(j)!=int(b)-1){ ++w; HOLDS(tw_chain, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); return; } if(int(k)!=int(c)-1){ ++w; HOLDS(tw_chain, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); return; } ++w; HOLDS(tw_chain, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleA()[1]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); }
OB(tw_split)(unsigned a_,unsigned b_,unsigned c_,unsigned i_,unsigned j_,unsigned k_){L a=a_&0xffff,b=b_&0xffff,c=c_&0xffff,i=i_&0xffff,j=j_&0xffff,k=k_&0xffff; if(a==0||b==0||c==0){ ok_tw_split(); return; } TW va.push_back(5);vb.push_back(2);vb.push_back(9); TWP w.coordinateTupleA_[0]=j; w.coordinateTupleB_[0]=i; w.coordinateTupleB_[1]=k; if(int(i)!=int(a)-1){ ++w; HOLDS(tw_split, w.coordinateTupleAB()[0]==i+1&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); return; } if(int(j)!=int(b)-1){ ++w; HOLDS(tw_split, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==j+1&&w.coordinateTupleAB()[2]==k&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); return; } if(int(k)!=int(c)-1){ ++w; HOLDS(tw_split, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==k+1&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); return; } ++w; HOLDS(tw_split, w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==w.coordinateTupleAB()[1]&&w.coordinateTupleB()[0]==w.coordinateTupleAB()[0]&&w.coordinateTupleB()[1]==w.coordinateTupleAB()[2]); }
OB(tw_start)(L a,L b,L c){ TW va.push_back(2); vb.push_back(5); vb.push_back(9); TripleShapeWalker<L*> w(s,3,ab,va,vb); HOLDS(tw_start, w.coordinateTupleAB().size()==3&&w.coordinateTupleA().size()==1&&w.coordinateTupleB().size()==2&&w.coordinateTupleAB()[0]==0&&w.coordinateTupleAB()[1]==0&&w.coordinateTupleAB()[2]==0&&w.coordinateTupleA()[0]==0&&w.coordinateTupleB()[0]==0&&w.coordinateTupleB()[1]==0); }
OB(tw_all)(){ L s[8]={2,3}; VL ab,va,vb; ab.push_back(4); ab.push_back(6); va.push_back(4); vb.push_back(6); TripleShapeWalker<L*> w(s,2,ab,va,vb); bool ok=true; for(L j=0;j<3;++j) for(L i=0;i<2;++i){ ok=ok&&w.coordinateTupleAB()[0]==i&&w.coordinateTupleAB()[1]==j&&w.coordinateTupleA()[0]==i&&w.coordinateTupleB()[0]==j; ++w; } HOLDS(tw_all, ok); }
// says: an accessor iterator at position p reads element p; arithmetic, order and distance are those of positions
// code: utilities/accessor_iterator.hxx
struct Acc { typedef long value_type; long* d; L n; Acc(long* p=0,L k=0):d(p),n(k){} L size() const { return n; } long& operator[](const L j){ return d[j]; } const long& operator[](const L j) const { return d[j]; } bool operator==(const Acc& o) const { return d==o.d; } };
typedef AccessorIterator<Acc,false> It; typedef AccessorIterator<Acc,true> CIt;
// an accessor that computes its values
struct Calc { typedef L value_type; L f,n; Calc(L f_=0,L k=0):f(f_),n(k){} L size() const { return n; } L operator[](const L j){ return f*j+7; } L operator[](const L j) const { return f*j+7; } bool operator==(const Calc& o) const { return f==o.f; } };
typedef AccessorIterator<Calc,true> KIt;
#define A5 long d[8]={v0,v1,v2,v3,v4}; Acc a(d,5);
OB(ai_read)(long v0,long v1,long v2,long v3,long v4){ A5 It b(a,0); HOLDS(ai_read, *b==v0&&*(b+1)==v1&&b[2]==v2&&*(b+3)==v3&&b[4]==v4); }
OB(ai_read_const)(long v0,long v1,long v2,long v3,long v4){ A5 const CIt b(a,1); HOLDS(ai_read_const, *b==v1&&b[1]==v2&&b[3]==v4&&*(2+b)==v3); }
OB(ai_write)(long v0,long v1,long v2,long v3,long v4,long x){ A5 It b(a,2); *b=x; b[1]=x+1; HOLDS(ai_write, d[0]==v0&&d[1]==v1&&d[2]==x&&d[3]==x+1&&d[4]==v4); }
OB(ai_calc)(L f,L i){ KIt b(Calc(f,1000000),5); HOLDS(ai_calc, *b==f*5+7&&b[2]==f*7+7&&*(b+3)==f*8+7); }
OB(ai_calc_const)(L f){ const KIt b(Calc(f,1000000),5); HOLDS(ai_calc_const, *b==f*5+7&&b[2]==f*7+7); }
OB(ai_inc)(long v0,long v1,long v2,long v3,long v4){ A5 It b(a,1); It c=b++; HOLDS(ai_inc, *c==v1&&*b==v2&&*++b==v3&&*b==v3); }
OB(ai_dec)(long v0,long v1,long v2,long v3,long v4){ A5 It b(a,4); It c=b--; HOLDS(ai_dec, *c==v4&&*b==v3&&*--b==v2&&*b==v2); }
OB(ai_addsub)(L f,L p,L q){ if(p>1000||q>1000){ ok_ai_addsub(); return; } Calc c(f,5000); KIt b(c,p); KIt e=b+q; KIt x=b; x+=q; KIt y=e; y-=q; HOLDS(ai_addsub, e-b==q&&x==e&&y==b&&(e-q)==b&&q+b==e); }
OB(ai_order)(L f,L p,L q){ Calc c(f,5000); KIt a(c,p),b(c,q); HOLDS(ai_order, (a==b)==(p==q)&&(a!=b)==(p!=q)&&(a<b)==(p<q)&&(a<=b)==(p<=q)&&(a>b)==(p>q)&&(a>=b)==(p>=q)); }
OB(ai_dist)(L p,L q){ Calc c(3,5000); KIt a(c,p),b(c,q); HOLDS(ai_dist, (long)(a-b)==(long)(p-q)); }
OB(ai_loop)(long v0,long v1,long v2,long v3,long v4){ A5 long s=0; L k=0; CIt e(a,5); for(CIt b(a,0);b!=e;++b){ s=s*3+*b; ++k; } HOLDS(ai_loop, k==5&&s==(((v0*3+v1)*3+v2)*3+v3)*3+v4); }
OB(ai_mixed)(long v0,long v1,long v2,long v3,long v4){ A5 It b(a,1); CIt c(a,3); HOLDS(ai_mixed, b<c&&c>b&&!(b==c)&&b!=c&&b<=c&&c>=b&&c-b==2); }
OB(ai_end)(long v0,long v1,long v2,long v3,long v4){ A5 It b(a,5); ++b; It c(a,5); HOLDS(ai_end, b==c); }
// says: shape, subset and factor accessors have the sizes and elements they name
// code: utilities/shape_accessor.hxx
typedef GraphicalModel<long,Adder,meta::TypeListGenerator<PottsFunction<long>,SquaredDifferenceFunction<long>,ExplicitFunction<long> >::type,DiscreteSpace<> > G;
#define GM L n_[4]={5,3,4,2}; G gm(DiscreteSpace<>(n_,n_+4)); L vi[2]={1,2}; PottsFunction<long> pf(3,4,1,2); G::FunctionIdentifier id=gm.addFunction(pf); gm.addFactor(id,vi,vi+2);
OB(fs_shape)(L n,L m){ PottsFunction<long> f(n,m,1,2); FunctionShapeAccessor<PottsFunction<long> > a(f); const FunctionShapeAccessor<PottsFunction<long> > b(&f),z; HOLDS(fs_shape, a.size()==2&&a[0]==n&&a[1]==m&&b[0]==n&&b[1]==m&&a==b&&z.size()==0&&!(z==a)); }
OB(fs_iter)(L n,L m){ PottsFunction<long> f(n,m,1,2); const PottsFunction<long>::FunctionShapeIteratorType b=f.functionShapeBegin(),e=f.functionShapeEnd(); HOLDS(fs_iter, e-b==2&&*b==n&&b[1]==m&&*(b+1)==m&&(b+2)==e); }
OB(fa_shape)(){ GM FactorShapeAccessor<G::FactorType> a(gm[0]); const FactorShapeAccessor<G::FactorType> b(&gm[0]); HOLDS(fa_shape, a.size()==2&&a[0]==3&&a[1]==4&&b[0]==3&&b[1]==4&&a==b); }
OB(fa_iter)(){ GM const G::FactorType::ShapeIteratorType b=gm[0].shapeBegin(),e=gm[0].shapeEnd(); HOLDS(fa_iter, e-b==2&&*b==3&&b[1]==4&&*(b+1)==4); }
OB(fa_vars)(){ GM FactorVariablesAccessor<G::FactorType> a(gm[0]); const FactorVariablesAccessor<G::FactorType> b(gm[0]); HOLDS(fa_vars, a.size()==2&&a[0]==1&&a[1]==2&&b[0]==1&&b[1]==2); }
OB(fa_null)(){ FactorShapeAccessor<G::FactorType> a; FactorVariablesAccessor<G::FactorType> b; HOLDS(fa_null, a.size()==0&&b.size()==0); }
OB(sa_subset)(L x,L y,L z){ L lab[8]={x,y,z}; L sub[2]={2,0}; SubsetAccessor<L*,L*> a(sub,sub+2,lab); const SubsetAccessor<L*,L*> b(sub,sub+2,lab); HOLDS(sa_subset, a.size()==2&&a[0]==z&&a[1]==x&&b[0]==z&&b[1]==x&&a==b); }
OB(gl_labels)(L x,L y,L z,L u){ GM L lab[8]={x,y,z,u}; GmLabelFactorLabelAccessor<G::FactorType,L*> a(gm[0],lab); const GmLabelFactorLabelAccessor<G::FactorType,L*> b(gm[0],lab); HOLDS(gl_labels, a.size()==2&&a[0]==y&&a[1]==z&&b[0]==y&&b[1]==z); }
OB(fg_iter)(){ GM G::ConstVariableIterator b=gm.variablesOfFactorBegin(0),e=gm.variablesOfFactorEnd(0); G::ConstFactorIterator f=gm.factorsOfVariableBegin(1),g=gm.factorsOfVariableEnd(1); HOLDS(fg_iter, e-b==2&&*b==1&&b[1]==2&&g-f==1&&*f==0); }
OB(ctl_acc)(L x,L y,L z){ L lab[8]={x,y,z}; L sub[2]={2,0}; SubsetAccessor<L*,L*> a(sub,sub+2,lab); HOLDS(ctl_acc, a[0]==x); }
// says: a subsequence iterator at position p reads the underlying element its p-th index names
// code: utilities/subsequence_iterator.hxx
typedef SubsequenceIterator<std::vector<long>::iterator,std::vector<L>::iterator> SI;
#define SQ std::vector<long> s; s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(d); std::vector<L> x; x.push_back(3); x.push_back(0); x.push_back(2);
OB(si_read)(long a,long b,long c,long d){ SQ SI i(s.begin(),x.begin()); SI j(s.begin(),x.begin(),2); HOLDS(si_read, *i==d&&i[1]==a&&i[2]==c&&*j==c&&*i.operator->()==d); }
OB(si_step)(long a,long b,long c,long d){ SQ SI i(s.begin(),x.begin()); SI k=i++; bool ok=*k==d&&*i==a; ok=ok&&*++i==c; SI m=i--; ok=ok&&*m==c&&*i==a&&*--i==d; HOLDS(si_step, ok); }
OB(si_arith)(long a,long b,long c,long d){ SQ SI i(s.begin(),x.begin()); SI j=i+2; SI k=j-1; SI m=i; m+=1; SI n=j; n-=2; HOLDS(si_arith, *j==c&&*k==a&&*m==a&&n==i&&m==k&&j-i==2&&i-j==-2&&k-i==1); }
OB(si_order)(L p,L q,long a,long b,long c,long d){ SQ SI i(s.begin(),x.begin(),p),j(s.begin(),x.begin(),q); HOLDS(si_order, (i==j)==(p==q)&&(i!=j)==(p!=q)&&(i<j)==(p<q)&&(i<=j)==(p<=q)&&(i>j)==(p>q)&&(i>=j)==(p>=q)); }
OB(si_assign)(long a,long b,long c,long d){ SQ SI i(s.begin(),x.begin(),1),j; j=i; SI k(j); HOLDS(si_assign, j==i&&k==i&&*k==a&&i!=SI(s.begin(),x.begin(),0)); }
OB(si_copy)(long a,long b,long c,long d){ SQ long r[8]; std::copy(SI(s.begin(),x.begin()),SI(s.begin(),x.begin(),3),r); HOLDS(si_copy, r[0]==d&&r[1]==a&&r[2]==c); }
// says: a vector view denotes the named range of the vector
// code: utilities/vector_view.hxx
typedef VectorView<std::vector<long>,L> VV;
OB(vv_read)(long a,long b,long c,long d){ std::vector<long> s; s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(d); const VV v(s,1,2); HOLDS(vv_read, v.size()==2&&v[0]==b&&v[1]==c&&*v.begin()==b&&v.end()-v.begin()==2); }
OB(vv_assign)(long a,long b,long c,long d){ std::vector<long> s,t; s.push_back(a); s.push_back(b); s.push_back(c); t.push_back(d); t.push_back(a); t.push_back(c); VV u; u.assign(s,2,1); const VV& v=u; bool ok=v.size()==1&&v[0]==c; u.assignPtr(t); HOLDS(vv_assign, ok&&v.size()==1&&v[0]==c&&*v.begin()==c); }
OB(eqvec)(long a,long b,long c){ std::vector<long> s; s.push_back(a); s.push_back(b); s.push_back(c); HOLDS(eqvec, isEqualValueVector(s)==(a==b&&a==c)); }
