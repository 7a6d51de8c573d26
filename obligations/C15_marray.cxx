// C15: multidimensional views address exactly the entries of their index arithmetic.
#include "prelude.hxx"
#include <opengm/opengm.hxx>
#include <opengm/datastructures/marray/marray.hxx>
using namespace marray;
#define AI inline __attribute__((always_inline))
typedef char K; // one-byte entries for address arithmetic
typedef View<K,false> KV; typedef View<K,true> KC;
typedef View<V,false> MV; typedef View<V,true> CV; typedef Marray<V> MA;
static const CoordinateOrder F=FirstMajorOrder, B=LastMajorOrder;
#define FM (CoordinateOrder(FirstMajorOrder))
#define LM (CoordinateOrder(LastMajorOrder))
// A shape with the strides that the named order gives it, worked out by hand.
struct S { L n; L s[4]; L t[4]; L size;
  AI S(CoordinateOrder o,L a):n(1),size(a){ s[0]=a; t[0]=1; }
  AI S(CoordinateOrder o,L a,L b):n(2),size(a*b){ s[0]=a; s[1]=b; if(o==FirstMajorOrder){ t[0]=b; t[1]=1; } else { t[0]=1; t[1]=a; } }
  AI S(CoordinateOrder o,L a,L b,L c):n(3),size(a*b*c){ s[0]=a; s[1]=b; s[2]=c; if(o==FirstMajorOrder){ t[0]=b*c; t[1]=c; t[2]=1; } else { t[0]=1; t[1]=a; t[2]=a*b; } }
  AI S(CoordinateOrder o,L a,L b,L c,L d):n(4),size(a*b*c*d){ s[0]=a; s[1]=b; s[2]=c; s[3]=d; if(o==FirstMajorOrder){ t[0]=b*c*d; t[1]=c*d; t[2]=d; t[3]=1; } else { t[0]=1; t[1]=a; t[2]=a*b; t[3]=a*b*c; } }
  AI L off(const L* c) const { L r=0; for(L j=0;j<n;++j) r+=c[j]*t[j]; return r; } };
// says: element access by coordinates is base address plus the sum of coordinate times stride, for every shape
// code: datastructures/marray/marray.hxx
AI bool at(const K* q,const K* p,L e){ return L(q-p)==e; }
#define ORD(name,...) \
 OB(f_##name)(K* p,L s0,L s1,L s2,L s3,L c0,L c1,L c2,L c3){ const CoordinateOrder o=FM; bool ok=true; __VA_ARGS__ HOLDS(f_##name, ok); } \
 OB(l_##name)(K* p,L s0,L s1,L s2,L s3,L c0,L c1,L c2,L c3){ const CoordinateOrder o=LM; bool ok=true; __VA_ARGS__ HOLDS(l_##name, ok); }
#define IN(n) if(p==0||c0>=s0||(n>1&&c1>=s1)||(n>2&&c2>=s2)||(n>3&&c3>=s3)) ok=true; else
ORD(addr1, IN(1){ S r(o,s0); KV v(r.s,r.s+1,p,o,o); L c[1]={c0}; ok=at(&v(c0),p,c0)&&at(&v(c),p,c0)&&v.size()==s0&&v.dimension()==1&&v.shape(0)==s0&&v.strides(0)==1; L x=7; v.coordinatesToOffset(c,x); ok=ok&&x==c0; v.coordinatesToIndex(c,x); ok=ok&&x==c0; })
ORD(addr2, IN(2){ S r(o,s0,s1); KV v(r.s,r.s+2,p,o,o); L c[2]={c0,c1}; L e=r.off(c); ok=at(&v(c0,c1),p,e)&&at(&v(c),p,e)&&v.size()==s0*s1&&v.dimension()==2&&v.strides(0)==r.t[0]&&v.strides(1)==r.t[1]; L x=7; v.coordinatesToOffset(c,x); ok=ok&&x==e; v.coordinatesToIndex(c,x); ok=ok&&x==e; })
ORD(addr3, IN(3){ S r(o,s0,s1,s2); KV v(r.s,r.s+3,p,o,o); L c[3]={c0,c1,c2}; L e=r.off(c); ok=at(&v(c0,c1,c2),p,e)&&at(&v(c),p,e)&&v.size()==r.size&&v.dimension()==3; L x=7; v.coordinatesToOffset(c,x); ok=ok&&x==e; v.coordinatesToIndex(c,x); ok=ok&&x==e; })
ORD(addr4, IN(4){ S r(o,s0,s1,s2,s3); KV v(r.s,r.s+4,p,o,o); L c[4]={c0,c1,c2,c3}; L e=r.off(c); ok=at(&v(c0,c1,c2,c3),p,e)&&at(&v(c),p,e)&&v.size()==r.size&&v.dimension()==4; L x=7; v.coordinatesToOffset(c,x); ok=ok&&x==e; v.coordinatesToIndex(c,x); ok=ok&&x==e; })
ORD(caddr3, IN(3){ S r(o,s0,s1,s2); const KC v(r.s,r.s+3,p,o,o); L c[3]={c0,c1,c2}; L e=r.off(c); ok=at(&v(c0,c1,c2),p,e)&&at(&v(c),p,e); })

extern "C" V ogm_mem[64]; // some memory
// The coordinates of a scalar index of a shape, worked out by hand.
AI void coords(CoordinateOrder o,L n,const L* s,L i,L* c){ if(o==FirstMajorOrder) for(L j=n;j-->0;){ c[j]=i%s[j]; i/=s[j]; } else for(L j=0;j<n;++j){ c[j]=i%s[j]; i/=s[j]; } }
AI L total(L n,const L* s){ L r=1; for(L j=0;j<n;++j) r*=s[j]; return r; }
// The whole of a view: every scalar index, coordinate tuple and iterator position names the entry p+sum(coordinate*stride).
template<class W> AI bool geo(const W& v,L n,const L* s,const L* t,CoordinateOrder o){ bool ok=v.dimension()==n&&v.size()==total(n,s)&&v.coordinateOrder()==o; for(L j=0;j<n;++j) ok=ok&&v.shape(j)==s[j]&&v.strides(j)==t[j]&&v.shapeBegin()[j]==s[j]&&v.stridesBegin()[j]==t[j]; return ok&&v.shapeEnd()==v.shapeBegin()+n&&v.stridesEnd()==v.stridesBegin()+n; }
template<class W> AI bool entries(const W& v,const V* p,L n,const L* s,const L* t,CoordinateOrder o){ bool ok=true; L N=total(n,s);
  for(L i=0;i<N;++i){ L c[4]; coords(o,n,s,i,c); L e=0; for(L j=0;j<n;++j) e+=c[j]*t[j]; ok=ok&&&v(i)==p+e&&&v(c)==p+e; L x=99,y=99; v.coordinatesToIndex(c,x); v.coordinatesToOffset(c,y); ok=ok&&x==i&&y==e; v.indexToOffset(i,y); L d[4]={9,9,9,9}; v.indexToCoordinates(i,d); ok=ok&&y==e; for(L j=0;j<n;++j) ok=ok&&d[j]==c[j]; } return ok; }
template<class It,class W> AI bool walk(It b,It z,const W& v,const V* p,L n,const L* s,const L* t,CoordinateOrder o){ bool ok=true; L N=total(n,s); L i=0; It it=b;
  for(;i<N;++i,++it){ L c[4]; coords(o,n,s,i,c); L e=0; for(L j=0;j<n;++j) e+=c[j]*t[j]; ok=ok&&&*it==p+e&&it.operator->()==p+e&&it.index()==i&&it.hasMore()&&it!=z&&it<z; L d[4]={9,9,9,9}; it.coordinate(d); for(L j=0;j<n;++j) ok=ok&&d[j]==c[j]; }
  return ok&&it==z&&!it.hasMore()&&!(it<z)&&z-b==(std::ptrdiff_t)N; }
template<class It> AI bool jump(It b,It z,const V* p,L n,const L* s,const L* t,CoordinateOrder o,L i,L k){ bool ok=true; L N=total(n,s); L c[4],d[4]; coords(o,n,s,i,c); coords(o,n,s,k,d); L e=0,f=0; for(L j=0;j<n;++j){ e+=c[j]*t[j]; f+=d[j]*t[j]; } std::ptrdiff_t D=(std::ptrdiff_t)k-(std::ptrdiff_t)i;
  It it=b; it+=i; ok=ok&&&*it==p+e&&&b[i]==p+e&&&*(b+i)==p+e&&it-b==(std::ptrdiff_t)i&&it.index()==i; It q=it; q+=D; ok=ok&&&*q==p+f&&q-it==D&&q.index()==k&&(q==it)==(i==k)&&(q<it)==(k<i)&&(q>it)==(k>i)&&(q<=it)==(k<=i)&&(q>=it)==(k>=i); q-=D; ok=ok&&&*q==p+e&&q==it;
  It w=z; w-=(std::ptrdiff_t)(N-i); ok=ok&&&*w==p+e&&w==it&&&*(z+((std::ptrdiff_t)i-(std::ptrdiff_t)N))==p+e&&&*(z-(std::ptrdiff_t)(N-i))==p+e; if(i){ L h[4]; coords(o,n,s,i-1,h); L g=0; for(L j=0;j<n;++j) g+=h[j]*t[j]; --w; ok=ok&&&*w==p+g&&w.index()==i-1; It u=it--; ok=ok&&&*u==p+e&&&*it==p+g; u=it++; ok=ok&&&*u==p+g&&&*it==p+e; } return ok; }
template<class W> AI bool jumps(W& v,const V* p,L n,const L* s,const L* t,CoordinateOrder o){ L N=total(n,s); bool ok=true; for(L i=0;i<N;++i) ok=ok&&jump(v.begin(),v.end(),p,n,s,t,o,i,(i*5+3)%N); return ok; }
template<class W> AI bool rev(W& v,const V* p,L n,const L* s,const L* t,CoordinateOrder o){ L N=total(n,s); bool ok=v.rend()-v.rbegin()==(std::ptrdiff_t)N; auto it=v.rbegin(); for(L i=N;i-->0;++it){ L c[4]; coords(o,n,s,i,c); L e=0; for(L j=0;j<n;++j) e+=c[j]*t[j]; ok=ok&&it!=v.rend()&&&*it==p+e; } return ok&&it==v.rend(); }
// says: scalar index, coordinates and iterators of an array agree about which entry they name, in both orders and in the mixed ones
// code: datastructures/marray/marray.hxx
#define UN(...) __VA_ARGS__
#ifdef NDEBUG
#define RELEASE(...) __VA_ARGS__
#else
#define RELEASE(...)
#endif
#define VIEWCASE(name,make,N,SH,ST,ORDER) \
 OB(g_##name)(){ V* p=ogm_mem; UN make L s[4]={UN SH}; L t[4]={UN ST}; HOLDS(g_##name, geo(v,N,s,t,ORDER)); } \
 OB(e_##name)(){ V* p=ogm_mem; UN make L s[4]={UN SH}; L t[4]={UN ST}; HOLDS(e_##name, entries(v,p,N,s,t,ORDER)); } \
 RELEASE(OB(w_##name)(){ V* p=ogm_mem; UN make L s[4]={UN SH}; L t[4]={UN ST}; HOLDS(w_##name, walk(v.begin(),v.end(),v,p,N,s,t,ORDER)); }) \
 RELEASE(OB(c_##name)(){ V* p=ogm_mem; UN make const auto& cv=v; L s[4]={UN SH}; L t[4]={UN ST}; HOLDS(c_##name, walk(cv.begin(),cv.end(),cv,p,N,s,t,ORDER)); }) \
 RELEASE(OB(j_##name)(){ V* p=ogm_mem; UN make L s[4]={UN SH}; L t[4]={UN ST}; HOLDS(j_##name, jumps(v,p,N,s,t,ORDER)); }) \
 RELEASE(OB(r_##name)(){ V* p=ogm_mem; UN make L s[4]={UN SH}; L t[4]={UN ST}; HOLDS(r_##name, rev(v,p,N,s,t,ORDER)); })
VIEWCASE(f1, (L h[]={4}; MV v(h,h+1,p,FM,FM);), 1, (4), (1), FM)
VIEWCASE(l1, (L h[]={4}; MV v(h,h+1,p,LM,LM);), 1, (4), (1), LM)
VIEWCASE(f2, (L h[]={2,3}; MV v(h,h+2,p,FM,FM);), 2, (2,3), (3,1), FM)
VIEWCASE(l2, (L h[]={2,3}; MV v(h,h+2,p,LM,LM);), 2, (2,3), (1,2), LM)
VIEWCASE(fl2, (L h[]={2,3}; MV v(h,h+2,p,FM,LM);), 2, (2,3), (3,1), LM)
VIEWCASE(lf2, (L h[]={2,3}; MV v(h,h+2,p,LM,FM);), 2, (2,3), (1,2), FM)
VIEWCASE(f3, (L h[]={2,3,2}; MV v(h,h+3,p,FM,FM);), 3, (2,3,2), (6,2,1), FM)
VIEWCASE(l3, (L h[]={2,3,2}; MV v(h,h+3,p,LM,LM);), 3, (2,3,2), (1,2,6), LM)
VIEWCASE(fl3, (L h[]={2,3,2}; MV v(h,h+3,p,FM,LM);), 3, (2,3,2), (6,2,1), LM)
VIEWCASE(lf3, (L h[]={2,3,2}; MV v(h,h+3,p,LM,FM);), 3, (2,3,2), (1,2,6), FM)
VIEWCASE(f4, (L h[]={2,1,2,2}; MV v(h,h+4,p,FM,FM);), 4, (2,1,2,2), (4,4,2,1), FM)
VIEWCASE(l4, (L h[]={2,1,2,2}; MV v(h,h+4,p,LM,LM);), 4, (2,1,2,2), (1,2,2,4), LM)
VIEWCASE(s2f, (L h[]={2,3}; L q[]={7,2}; MV v(h,h+2,q,p,FM);), 2, (2,3), (7,2), FM)
VIEWCASE(s2l, (L h[]={2,3}; L q[]={7,2}; MV v(h,h+2,q,p,LM);), 2, (2,3), (7,2), LM)
VIEWCASE(s1, (L h[]={3}; L q[]={4}; MV v(h,h+1,q,p,LM);), 1, (3), (4), LM)
// says: sub-range views name the entries of the range
#define B3(o) L h[]={3,3,2}; MV b(h,h+3,ogm_mem,o,o);
VIEWCASE(sub_f, (B3(FM) L lo[]={1,0,1}; L sz[]={2,2,1}; MV v=b.view(lo,sz); p=ogm_mem+7;), 3, (2,2,1), (6,2,1), FM)
VIEWCASE(sub_l, (B3(LM) L lo[]={1,0,1}; L sz[]={2,2,1}; MV v=b.view(lo,sz); p=ogm_mem+10;), 3, (2,2,1), (1,3,9), LM)
VIEWCASE(sub_fl, (B3(FM) L lo[]={0,1,0}; L sz[]={3,1,2}; MV v=b.view(lo,sz,LM); p=ogm_mem+2;), 3, (3,1,2), (6,2,1), LM)
VIEWCASE(sub_all, (B3(LM) L lo[]={0,0,0}; L sz[]={3,3,2}; MV v=b.view(lo,sz); ), 3, (3,3,2), (1,3,9), LM)
VIEWCASE(sub_row, (B3(LM) L lo[]={0,2,1}; L sz[]={3,1,1}; MV v; b.view(lo,sz,v); p=ogm_mem+15;), 3, (3,1,1), (1,3,9), LM)
VIEWCASE(sub_one, (B3(FM) L lo[]={2,2,1}; L sz[]={1,1,1}; MV v=b.view(lo,sz); p=ogm_mem+17;), 3, (1,1,1), (6,2,1), FM)
VIEWCASE(csub, (B3(FM) L lo[]={1,0,1}; L sz[]={2,2,1}; CV v=b.constView(lo,sz); p=ogm_mem+7;), 3, (2,2,1), (6,2,1), FM)
VIEWCASE(csub_l, (B3(LM) L lo[]={1,1,0}; L sz[]={2,2,2}; CV v=b.constView(lo,sz,FM); p=ogm_mem+4;), 3, (2,2,2), (1,3,9), FM)
VIEWCASE(subsub, (B3(LM) L lo[]={1,0,0}; L sz[]={2,3,2}; MV a=b.view(lo,sz); L l2[]={0,1,1}; L z2[]={2,2,1}; MV v=a.view(l2,z2); p=ogm_mem+13;), 3, (2,2,1), (1,3,9), LM)
// says: binding a coordinate leaves the entries that have it
VIEWCASE(bound0_f, (B3(FM) MV v=b.boundView(0,2); p=ogm_mem+12;), 2, (3,2), (2,1), FM)
VIEWCASE(bound1_f, (B3(FM) MV v=b.boundView(1,2); p=ogm_mem+4;), 2, (3,2), (6,1), FM)
VIEWCASE(bound2_f, (B3(FM) MV v=b.boundView(2,1); p=ogm_mem+1;), 2, (3,3), (6,2), FM)
VIEWCASE(bound0_l, (B3(LM) MV v=b.boundView(0,2); p=ogm_mem+2;), 2, (3,2), (3,9), LM)
VIEWCASE(bound1_l, (B3(LM) MV v=b.boundView(1,1); p=ogm_mem+3;), 2, (3,2), (1,9), LM)
VIEWCASE(bound2_l, (B3(LM) MV v=b.boundView(2,1); p=ogm_mem+9;), 2, (3,3), (1,3), LM)
VIEWCASE(boundbound, (B3(LM) MV v=b.boundView(2,1).boundView(0,1); p=ogm_mem+10;), 1, (3), (3), LM)
VIEWCASE(boundsub, (B3(FM) L lo[]={1,0,1}; L sz[]={2,2,1}; MV v=b.view(lo,sz).boundView(1,1); p=ogm_mem+9;), 2, (2,1), (6,1), FM)
VIEWCASE(cbound, (L h[]={3,3,2}; CV b(h,h+3,ogm_mem,LM,LM); CV v=b.boundView(1,1); p=ogm_mem+3;), 2, (3,2), (1,9), LM)
// says: permuting, transposing, shifting and squeezing reorder the coordinates and nothing else
VIEWCASE(perm_f, (B3(FM) L q[]={2,0,1}; MV v=b.permutedView(q);), 3, (2,3,3), (1,6,2), FM)
VIEWCASE(perm_l, (B3(LM) L q[]={1,2,0}; MV v=b.permutedView(q);), 3, (3,2,3), (3,9,1), LM)
VIEWCASE(trans_f, (B3(FM) MV v=b.transposedView(0,2);), 3, (2,3,3), (1,2,6), FM)
VIEWCASE(trans_l, (B3(LM) MV v=b.transposedView(1,2);), 3, (3,2,3), (1,9,3), LM)
VIEWCASE(transall, (B3(LM) MV v=b.transposedView();), 3, (2,3,3), (9,3,1), LM)
RELEASE(VIEWCASE(shift1, (B3(LM) MV v=b.shiftedView(1);), 3, (2,3,3), (9,1,3), LM))
RELEASE(VIEWCASE(shift2, (B3(FM) MV v=b.shiftedView(2);), 3, (3,2,3), (2,1,6), FM))
RELEASE(VIEWCASE(shift_1, (B3(FM) MV v=b.shiftedView(-1);), 3, (3,2,3), (2,1,6), FM))
RELEASE(VIEWCASE(shift_5, (B3(FM) MV v=b.shiftedView(-5);), 3, (2,3,3), (1,6,2), FM))
RELEASE(VIEWCASE(shift3, (B3(FM) MV v=b.shiftedView(3);), 3, (3,3,2), (6,2,1), FM))
VIEWCASE(squeeze, (L h[]={1,3,1,2}; MV b(h,h+4,ogm_mem,FM,FM); MV v=b.squeezedView();), 2, (3,2), (2,1), FM)
VIEWCASE(squeeze_l, (L h[]={3,1,2,1}; MV b(h,h+4,ogm_mem,LM,LM); MV v=b.squeezedView();), 2, (3,2), (1,3), LM)
VIEWCASE(squeeze_n, (B3(FM) MV v=b.squeezedView();), 3, (3,3,2), (6,2,1), FM)
VIEWCASE(squeeze_s, (B3(FM) L lo[]={1,0,1}; L sz[]={2,1,2}; sz[2]=1; MV v=b.view(lo,sz).squeezedView(); p=ogm_mem+7;), 1, (2), (6), FM)
VIEWCASE(reshape_f, (B3(FM) L q[]={2,9}; MV v=b.reshapedView(q,q+2);), 2, (2,9), (9,1), FM)
VIEWCASE(reshape_l, (B3(LM) L q[]={6,3}; MV v=b.reshapedView(q,q+2);), 2, (6,3), (1,6), LM)
VIEWCASE(permperm, (B3(FM) L q[]={2,0,1}; MV v=b.permutedView(q); v.permute(q);), 3, (3,2,3), (2,1,6), FM)
VIEWCASE(transsub, (B3(FM) L lo[]={0,1,0}; L sz[]={2,2,2}; MV v=b.transposedView(0,1).view(lo,sz); p=ogm_mem+6;), 3, (2,2,2), (2,6,1), FM)
VIEWCASE(transbound, (B3(LM) MV v=b.transposedView().boundView(1,2); p=ogm_mem+6;), 2, (2,3), (9,1), LM)
VIEWCASE(copyview, (B3(LM) MV a=b.transposedView(); MV v(a); ), 3, (2,3,3), (9,3,1), LM)
VIEWCASE(toconst, (B3(LM) MV a=b.transposedView(); CV v(a); ), 3, (2,3,3), (9,3,1), LM)
VIEWCASE(reassign, (B3(LM) L h2[]={2,2}; MV v(h2,h2+2,ogm_mem,LM,LM); v.assign(h,h+3,ogm_mem+2,FM,LM); p=ogm_mem+2; ), 3, (3,3,2), (6,2,1), LM)
#ifdef NDEBUG
// Plain memory with named contents, and what an operation is to leave in it.
static const L NM=24;
struct M { V m[NM]; V e[NM]; AI M(V x){ for(L k=0;k<NM;++k) m[k]=e[k]=x+V(k); } AI bool ok() const { bool r=true; for(L k=0;k<NM;++k) r=r&&m[k]==e[k]; return r; } };
struct R { L n; L s[4]; L t[4]; L base; AI L size() const { return total(n,s); } AI L off(const L* c) const { L e=base; for(L j=0;j<n;++j) e+=c[j]*t[j]; return e; }
  AI L operator()(L i) const { L c[4]; coords(FirstMajorOrder,n,s,i,c); return off(c); } };
// says: writing an entry through a view changes that entry and no other
OB(write_at)(V x,V y){ bool ok=true; for(L i=0;i<2;++i) for(L j=0;j<2;++j){ M a(x); L h[]={2,3,2}; MV b(h,h+3,a.m,LM,LM); MV v=b.transposedView().boundView(1,1); v(i,j)=y; a.e[2+6*i+j]=y; ok=ok&&a.ok(); } HOLDS(write_at, ok); }
OB(write_it)(V x,V y){ bool ok=true; for(L i=0;i<4;++i){ M a(x); L h[]={2,3,2}; MV b(h,h+3,a.m,FM,FM); MV v=b.boundView(1,1); *(v.begin()+i)=y; a.e[2+(i/2)*6+i%2]=y; ok=ok&&a.ok(); } HOLDS(write_it, ok); }
// says: assigning a constant writes every entry of the view and no other
#define FILLCASE(name,sh,mk,ref) OB(fill_##name)(V x,V y){ M a(x); L h[]={UN sh}; UN mk v=y; R r={UN ref}; for(L i=0;i<r.size();++i) a.e[r(i)]=y; HOLDS(fill_##name, a.ok()); }
#define BASE(o) MV b(h,h+sizeof(h)/sizeof(h[0]),a.m+1,o,o);
FILLCASE(simple,(2,3,2),(BASE(FM) MV& v=b;),(3,{2,3,2},{6,2,1},1))
FILLCASE(simple_l,(2,3,2),(BASE(LM) MV& v=b;),(3,{2,3,2},{1,2,6},1))
FILLCASE(one,(4,3),(BASE(FM) MV v=b.boundView(1,1);),(1,{4},{3},2))
FILLCASE(two,(2,3,2),(BASE(LM) MV v=b.boundView(1,1);),(2,{2,2},{1,6},3))
FILLCASE(three,(3,3,2),(BASE(LM) L lo[]={1,0,1}; L sz[]={2,2,1}; MV v=b.view(lo,sz);),(3,{2,2,1},{1,3,9},11))
FILLCASE(four,(2,1,3,2),(BASE(FM) L lo[]={0,0,1,0}; L sz[]={2,1,2,2}; MV v=b.view(lo,sz);),(4,{2,1,2,2},{6,6,2,1},3))
FILLCASE(zero,(4),(BASE(FM) MV v=b.boundView(0,2);),(0,{},{},3))
FILLCASE(trans,(3,4),(BASE(FM) MV v=b.transposedView();),(2,{4,3},{1,4},1))
// says: assigning a view copies entry by entry by coordinate, whatever the two orders, also between overlapping parts of one array
#define COPYV(name,mk,rt,rs) OB(copy_##name)(V x){ M a(x); UN mk v=w; R t={UN rt}; R f={UN rs}; for(L i=0;i<t.size();++i) a.e[t(i)]=x+V(f(i)); HOLDS(copy_##name, a.ok()); }
COPYV(simple,(L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); MV w(h,h+2,a.m+8,FM,FM);),(2,{2,3},{3,1},0),(2,{2,3},{3,1},8))
COPYV(orders,(L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); MV w(h,h+2,a.m+8,LM,LM);),(2,{2,3},{3,1},0),(2,{2,3},{1,2},8))
COPYV(orders2,(L h[]={2,3,2}; MV v(h,h+3,a.m,LM,LM); MV w(h,h+3,a.m+12,FM,FM);),(3,{2,3,2},{1,2,6},0),(3,{2,3,2},{6,2,1},12))
COPYV(mixed,(L h[]={2,3}; MV v(h,h+2,a.m,LM,FM); MV w(h,h+2,a.m+8,FM,LM);),(2,{2,3},{1,2},0),(2,{2,3},{3,1},8))
COPYV(orders1,(L h[]={3}; MV v(h,h+1,a.m,LM,FM); MV w(h,h+1,a.m+8,FM,LM);),(1,{3},{1},0),(1,{3},{1},8))
COPYV(const,(L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); CV w(h,h+2,a.m+8,LM,LM);),(2,{2,3},{3,1},0),(2,{2,3},{1,2},8))
COPYV(sub,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); MV c(h,h+2,a.m+12,LM,LM); L lo[]={1,1}; L sz[]={2,3}; MV v=b.view(lo,sz); L l2[]={0,1}; MV w=c.view(l2,sz);),(2,{2,3},{4,1},5),(2,{2,3},{1,3},15))
COPYV(overlap,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); L lo[]={0,1}; L sz[]={3,3}; MV v=b.view(lo,sz); L l2[]={0,0}; MV w=b.view(l2,sz);),(2,{3,3},{4,1},1),(2,{3,3},{4,1},0))
COPYV(overlap2,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); L lo[]={0,0}; L sz[]={3,3}; MV v=b.view(lo,sz); L l2[]={0,1}; MV w=b.view(l2,sz);),(2,{3,3},{4,1},0),(2,{3,3},{4,1},1))
COPYV(overlap_t,(L h[]={3,3}; MV v(h,h+2,a.m,LM,LM); MV w=v.transposedView();),(2,{3,3},{1,3},0),(2,{3,3},{3,1},0))
COPYV(overlap_p,(L h[]={2,2,2}; MV v(h,h+3,a.m,FM,FM); L q[]={2,0,1}; MV w=v.permutedView(q);),(3,{2,2,2},{4,2,1},0),(3,{2,2,2},{1,4,2},0))
COPYV(overlap_c,(L h[]={3,3}; MV v(h,h+2,a.m,LM,LM); CV w(h,h+2,a.m,FM,FM);),(2,{3,3},{1,3},0),(2,{3,3},{3,1},0))
COPYV(overlap_o,(L h[]={3,3}; MV v(h,h+2,a.m,LM,LM); MV w(h,h+2,a.m,FM,FM);),(2,{3,3},{1,3},0),(2,{3,3},{3,1},0))
COPYV(overlap_r,(L h[]={4}; MV v(h,h+1,a.m+1,LM,LM); MV w(h,h+1,a.m+2,FM,FM);),(1,{4},{1},1),(1,{4},{1},2))
COPYV(self,(L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); MV& w=v;),(2,{2,3},{3,1},0),(2,{2,3},{3,1},0))
COPYV(bound,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); MV v=b.boundView(0,1); MV w=b.boundView(0,2);),(1,{4},{1},4),(1,{4},{1},8))
COPYV(boundx,(L h[]={4,4}; MV b(h,h+2,a.m,FM,FM); MV v=b.boundView(0,1); MV w=b.boundView(1,1);),(1,{4},{1},4),(1,{4},{4},1))
COPYV(four,(L h[]={2,1,2,2}; MV v(h,h+4,a.m,FM,FM); MV w(h,h+4,a.m+12,LM,LM);),(4,{2,1,2,2},{4,4,2,1},0),(4,{2,1,2,2},{1,2,2,4},12))
// says: an unset view that is assigned another one refers to the same entries
OB(copy_unset)(V x,V y){ M a(x); L h[]={2,3}; MV w(h,h+2,a.m,LM,FM); MV v; v=w; v(1,2)=y; a.e[5]=y; HOLDS(copy_unset, a.ok()&&v.size()==6&&v.dimension()==2&&v.coordinateOrder()==FM); }
OB(copy_rebind)(V x,V y){ M a(x); L h[]={2,3}; CV w(h,h+2,a.m,LM,FM); L g[]={4}; CV v(g,g+1,a.m+12,LM,LM); v=w; HOLDS(copy_rebind, a.ok()&&v.size()==6&&v.dimension()==2&&&v(1,2)==a.m+5); }

// says: arithmetic acts entry by entry by coordinate, also in place, between different orders and between overlapping parts of one array
// (contents here are x+k*y, so that no two entries are interchangeable)
struct MM { V m[NM]; V o[NM]; V e[NM]; AI MM(V x,V y){ for(L k=0;k<NM;++k) m[k]=o[k]=e[k]=x+V(k)*y; } AI bool ok() const { bool r=true; for(L k=0;k<NM;++k) r=r&&m[k]==e[k]; return r; } };
#define ARI(name,mk,stmt,rt,expr) OB(ari_##name)(V x,V y,V z){ MM a(x,y); UN mk stmt; R t={UN rt}; for(L i=0;i<t.size();++i) a.e[t(i)]=expr; HOLDS(ari_##name, a.ok()); }
#define FF23 (L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); MV w(h,h+2,a.m+8,FM,FM); R f={2,{2,3},{3,1},8};)
#define FL23 (L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); MV w(h,h+2,a.m+8,LM,LM); R f={2,{2,3},{1,2},8};)
#define T23F (2,{2,3},{3,1},0)
ARI(plus,FF23,v+=w,T23F,a.o[t(i)]+a.o[f(i)])
ARI(minus,FF23,v-=w,T23F,a.o[t(i)]-a.o[f(i)])
ARI(times,FF23,v*=w,T23F,a.o[t(i)]*a.o[f(i)])
ARI(plus_fl,FL23,v+=w,T23F,a.o[t(i)]+a.o[f(i)])
ARI(minus_fl,FL23,v-=w,T23F,a.o[t(i)]-a.o[f(i)])
ARI(times_fl,FL23,v*=w,T23F,a.o[t(i)]*a.o[f(i)])
ARI(scalar_plus,FF23,v+=z,T23F,a.o[t(i)]+z)
ARI(scalar_minus,FF23,v-=z,T23F,a.o[t(i)]-z)
ARI(scalar_times,FF23,v*=z,T23F,a.o[t(i)]*z)
ARI(inc,FF23,++v,T23F,a.o[t(i)]+1)
ARI(dec,FF23,--v,T23F,a.o[t(i)]-1)
ARI(expr,FF23,v=w+v,T23F,a.o[t(i)]+a.o[f(i)])
ARI(expr_fl,FL23,v=w-v,T23F,a.o[f(i)]-a.o[t(i)])
ARI(expr_neg,FL23,v=-w,T23F,-a.o[f(i)])
ARI(expr_sum3,FL23,v=w*z+v-w,T23F,a.o[f(i)]*z+a.o[t(i)]-a.o[f(i)])
ARI(expr_first,FL23,v=z-w,T23F,z-a.o[f(i)])
ARI(expr_second,FL23,v=w-z,T23F,a.o[f(i)]-z)
#define SUB3 (L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); L lo[]={0,1}; L sz[]={3,3}; MV v=b.view(lo,sz); L l2[]={0,0}; MV w=b.view(l2,sz); R f={2,{3,3},{4,1},0};)
#define TR33 (L h[]={3,3}; MV v(h,h+2,a.m,LM,LM); MV w=v.transposedView(); R f={2,{3,3},{3,1},0};)
#define SH1 (L h[]={5}; MV v(h,h+1,a.m+1,LM,LM); MV w(h,h+1,a.m,FM,FM); R f={1,{5},{1},0};)
ARI(ov_plus,SUB3,v+=w,(2,{3,3},{4,1},1),a.o[t(i)]+a.o[f(i)])
ARI(ov_minus,TR33,v-=w,(2,{3,3},{1,3},0),a.o[t(i)]-a.o[f(i)])
ARI(ov_times,SH1,v*=w,(1,{5},{1},1),a.o[t(i)]*a.o[f(i)])
ARI(ov_expr,SUB3,v=w+w,(2,{3,3},{4,1},1),a.o[f(i)]+a.o[f(i)])
ARI(ov_expr2,TR33,v=v+w,(2,{3,3},{1,3},0),a.o[t(i)]+a.o[f(i)])
ARI(ov_expr3,SH1,v=v-w,(1,{5},{1},1),a.o[t(i)]-a.o[f(i)])
ARI(ov_neg,TR33,v=-w,(2,{3,3},{1,3},0),-a.o[f(i)])
ARI(ov_scal,TR33,v=w*z,(2,{3,3},{1,3},0),a.o[f(i)]*z)
ARI(ov_scal1,SH1,v=z-w,(1,{5},{1},1),z-a.o[f(i)])
ARI(sub_scalar,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); L lo[]={1,1}; L sz[]={2,2}; MV v=b.view(lo,sz);),v*=z,(2,{2,2},{4,1},5),a.o[t(i)]*z)
ARI(sub3_scalar,(L h[]={2,3,3}; MV b(h,h+3,a.m,LM,LM); L lo[]={0,1,1}; L sz[]={2,2,2}; MV v=b.view(lo,sz);),v+=z,(3,{2,2,2},{1,2,6},8),a.o[t(i)]+z)
ARI(sub1_inc,(L h[]={4,3}; MV b(h,h+2,a.m,FM,FM); MV v=b.boundView(1,2);),++v,(1,{4},{3},2),a.o[t(i)]+1)
ARI(zero_plus,(L h[]={4}; MV b(h,h+1,a.m,FM,FM); MV v=b.boundView(0,2); MV w=b.boundView(0,3);),v+=w,(0,{},{},2),a.o[2]+a.o[3])
ARI(zero_into,(L h[]={4}; MV v(h,h+1,a.m,FM,FM); MV w=v.boundView(0,3); MV u(h,h+1,a.m+8,FM,FM); MV q=u.boundView(0,1);),v+=q,(1,{4},{1},0),a.o[t(i)]+a.o[9])
AI bool bits(double a,double b){ unsigned long x,y; __builtin_memcpy(&x,&a,8); __builtin_memcpy(&y,&b,8); return x==y; }
OB(div_plain)(double x,double y,double z){ double m[6]={x,y,z,1,2,3}; double n[6]={3,2,1,4,8,5}; double e[6]={x/3,y/2,z/1,1.0/4,2.0/8,3.0/5}; L h[]={2,3}; View<double,false> v(h,h+2,m,FM,FM),w(h,h+2,n,FM,FM); v/=w; bool ok=true; for(L k=0;k<6;++k) ok=ok&&bits(m[k],e[k]); HOLDS(div_plain, ok); }
OB(div_scalar)(double x,double y){ double m[2]={x,y}; L h[]={2}; View<double,false> v(h,h+1,m,FM,FM); v/=2.0; HOLDS(div_scalar, bits(m[0],x/2)&&bits(m[1],y/2)); }
OB(div_expr)(double x,double y){ double m[2]={x,y}; double n[2]={4,8}; L h[]={2}; View<double,false> v(h,h+1,m,FM,FM),w(h,h+1,n,FM,FM); v=v/w+1.0/w; HOLDS(div_expr, bits(m[0],x/4+0.25)&&bits(m[1],y/8+0.125)); }
// says: an array has storage of its own: copies are entry by entry and independent of their source
template<class W> AI bool same(const W& v,const R& f,V x,const L* s){ bool ok=v.dimension()==f.n&&v.size()==f.size(); for(L j=0;j<f.n;++j) ok=ok&&v.shape(j)==f.s[j]; for(L i=0;i<f.size();++i){ L c[4]; coords(FirstMajorOrder,f.n,f.s,i,c); ok=ok&&v(c)==x+V(f(i)); } return ok; }
#define NEWA(name,mk,rf) OB(new_##name)(V x,V y){ M a(x); UN mk R f={UN rf}; bool ok=same(v,f,x,0)&&v.isSimple(); L q[4]={0}; v(q)=y; ok=ok&&a.ok(); for(L k=0;k<NM;++k) a.m[k]=y+1; v(q)=x+V(f.base); HOLDS(new_##name, ok&&same(v,f,x,0)); }
NEWA(simple,(L h[]={2,3}; MV w(h,h+2,a.m,FM,FM); MA v(w);),(2,{2,3},{3,1},0))
NEWA(simple_l,(L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA v(w);),(2,{2,3},{1,2},0))
NEWA(mixed,(L h[]={2,3}; MV w(h,h+2,a.m,LM,FM); MA v(w);),(2,{2,3},{1,2},0))
NEWA(sub,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); L lo[]={1,1}; L sz[]={2,2}; MV w=b.view(lo,sz); MA v(w);),(2,{2,2},{4,1},5))
NEWA(trans,(L h[]={2,3,2}; MV b(h,h+3,a.m,LM,LM); CV w=b.transposedView(); MA v(w);),(3,{2,3,2},{6,2,1},0))
NEWA(copy,(L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA u(w); MA v(u); u(0)=y;),(2,{2,3},{1,2},0))
NEWA(assign,(L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA u(w); L g[]={4}; MA v(g,g+1,y); v=u; u(1)=y;),(2,{2,3},{1,2},0))
NEWA(assign_empty,(L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA u(w); MA v; v=u; u(1)=y;),(2,{2,3},{1,2},0))
NEWA(assign_same,(L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA u(w); L g[]={6}; MA v(g,g+1,y,FM); v=u; u(1)=y;),(2,{2,3},{1,2},0))
NEWA(assign_view,(L h[]={2,3}; MV w(h,h+2,a.m,LM,FM); L g[]={4}; MA v(g,g+1,y); v=w;),(2,{2,3},{1,2},0))
NEWA(assign_sub,(L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); L lo[]={1,1}; L sz[]={2,2}; MV w=b.view(lo,sz); MA v; v=w;),(2,{2,2},{4,1},5))
NEWA(assign_tr,(L h[]={2,3,2}; MV b(h,h+3,a.m,LM,LM); L g[]={3,4}; MA v(g,g+2,y,FM); v=b.transposedView();),(3,{2,3,2},{6,2,1},0))
NEWA(own_trans,(L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA v(w); v=v.transposedView();),(2,{3,2},{2,1},0))
NEWA(own_sub,(L h[]={3,4}; MV w(h,h+2,a.m,FM,FM); MA v(w); L lo[]={1,1}; L sz[]={2,2}; v=v.view(lo,sz);),(2,{2,2},{4,1},5))
NEWA(own_bound,(L h[]={3,4}; MV w(h,h+2,a.m,FM,FM); MA v(w); v=v.boundView(0,2);),(1,{4},{1},8))
NEWA(own_const,(L h[]={3,4}; MV w(h,h+2,a.m,FM,FM); MA v(w); L lo[]={0,2}; L sz[]={3,2}; CV u=v.constView(lo,sz); v=u;),(2,{3,2},{4,1},2))
NEWA(self,(L h[]={2,3}; MV w(h,h+2,a.m,FM,FM); MA v(w); MA& u=v; v=u;),(2,{2,3},{3,1},0))
NEWA(into_view,(L h[]={2,3}; MV w(h,h+2,a.m,FM,FM); MA v(h,h+2,y,LM); MV& u=v; u=w;),(2,{2,3},{3,1},0))
OB(new_value)(V x,V y){ L h[]={2,3}; MA v(h,h+2,x,LM); bool ok=v.size()==6&&v.dimension()==2; for(L i=0;i<6;++i) ok=ok&&v(i)==x; v=y; for(L i=0;i<6;++i) ok=ok&&v(i)==y; HOLDS(new_value, ok&&v.size()==6); }
OB(new_scalar)(V x,V y){ MA v(x); bool ok=v.size()==1&&v.dimension()==0&&v(0)==x; MA w(v); w=y; ok=ok&&w(0)==y&&v(0)==x; v=w; w=x; HOLDS(new_scalar, ok&&v(0)==y&&v.dimension()==0); }
OB(new_expr)(V x,V y){ M a(x); L h[]={2,3}; MV w(h,h+2,a.m,LM,LM),u(h,h+2,a.m+8,FM,FM); MA v(w+u); bool ok=v.dimension()==2&&v.shape(0)==2&&v.shape(1)==3&&v.size()==6; for(L i=0;i<2;++i) for(L j=0;j<3;++j) ok=ok&&v(i,j)==(x+V(i+2*j))+(x+V(8+3*i+j)); HOLDS(new_expr, ok&&a.ok()); }
OB(asg_expr)(V x,V y){ M a(x); L h[]={2,3}; MV w(h,h+2,a.m,LM,LM),u(h,h+2,a.m+8,FM,FM); L g[]={4}; MA v(g,g+1,y,FM); v=w-u; bool ok=v.dimension()==2&&v.shape(0)==2&&v.shape(1)==3&&v.size()==6; for(L i=0;i<2;++i) for(L j=0;j<3;++j) ok=ok&&v(i,j)==(x+V(i+2*j))-(x+V(8+3*i+j)); HOLDS(asg_expr, ok&&a.ok()); }
OB(asg_expr_own)(V x,V y){ M a(x); L h[]={3,3}; MV w(h,h+2,a.m,LM,LM); MA v(w); v=v+v.transposedView(); bool ok=v.dimension()==2&&v.size()==9; for(L i=0;i<3;++i) for(L j=0;j<3;++j) ok=ok&&v(i,j)==(x+V(i+3*j))+(x+V(j+3*i)); HOLDS(asg_expr_own, ok&&a.ok()); }
OB(asg_expr_own2)(V x,V y){ M a(x); L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA v(w); v=v.transposedView()*y; bool ok=v.dimension()==2&&v.shape(0)==3&&v.shape(1)==2; for(L i=0;i<3;++i) for(L j=0;j<2;++j) ok=ok&&v(i,j)==(x+V(j+2*i))*y; HOLDS(asg_expr_own2, ok&&a.ok()); }
OB(asg_expr_own3)(V x,V y){ M a(x); L h[]={4}; MV w(h,h+1,a.m,LM,LM); MA v(w); L lo[]={1}; L sz[]={2}; v=v.view(lo,sz)+y; HOLDS(asg_expr_own3, v.dimension()==1&&v.size()==2&&v(0)==x+1+y&&v(1)==x+2+y); }
OB(postinc)(V x){ M a(x); L h[]={2,2}; MV w(h,h+2,a.m,FM,FM); MA v(w); MA u=v++; MA t=v--; bool ok=true; for(L i=0;i<4;++i) ok=ok&&u(i)==x+V(i)&&t(i)==x+V(i)+1&&v(i)==x+V(i); HOLDS(postinc, ok); }
// says: resizing keeps the entries whose coordinates exist before and after, and gives new ones the value
#define RESZ(name,o,sh0,sh1,n0,n1) OB(rsz_##name)(V x,V y){ M a(x); L h[]={UN sh0}; MV w(h,h+n0,a.m,o,o); MA v(w); L g[]={UN sh1}; v.resize(g,g+n1,y); bool ok=v.dimension()==n1&&v.size()==total(n1,g)&&v.coordinateOrder()==o; R f={n0,{UN sh0},{0},0}; S r0(o,h[0],n0>1?h[1]:1,n0>2?h[2]:1); \
  for(L i=0;i<total(n1,g);++i){ L c[4]; coords(FirstMajorOrder,n1,g,i,c); bool in=true; L d[4]={0,0,0,0}; for(L j=0;j<(n0>n1?n0:n1);++j){ L cj=j<n1?c[j]:0, hj=j<n0?h[j]:1; if(cj>=hj) in=false; d[j]=cj; } V z=v(c); ok=ok&&z==(in?x+V(r0.off(d)):y); } HOLDS(rsz_##name, ok&&a.ok()); }
RESZ(grow_f,FM,(2,2),(3,3),2,2)
RESZ(grow_l,LM,(2,2),(3,3),2,2)
RESZ(shrink_f,FM,(3,3),(2,2),2,2)
RESZ(shrink_l,LM,(3,3),(2,2),2,2)
RESZ(mixed_f,FM,(3,2),(2,4),2,2)
RESZ(mixed_l,LM,(2,4),(3,2),2,2)
RESZ(same_l,LM,(2,4),(2,4),2,2)
RESZ(vec,LM,(3),(5),1,1)
RESZ(vec_s,FM,(5),(2),1,1)
RESZ(vec_1,FM,(5),(1),1,1)
RESZ(from1,LM,(1),(4),1,1)
RESZ(more_dim,LM,(2,2),(2,2,2),2,3)
RESZ(more_dim_f,FM,(2,3),(3,2,2),2,3)
RESZ(less_dim,LM,(2,2,2),(2,2),3,2)
RESZ(less_dim_f,FM,(2,2,2),(3,2),3,2)
RESZ(one_row,FM,(1,3),(2,2),2,2)
RESZ(corner,FM,(1,3),(3,1),2,2)
RESZ(three_l,LM,(2,1,2),(1,2,3),3,3)
RESZ(three_f,FM,(2,1,2),(1,2,3),3,3)
OB(rsz_empty)(V y){ MA v; L g[]={2,2}; v.resize(g,g+2,y); bool ok=v.dimension()==2&&v.size()==4; for(L i=0;i<4;++i) ok=ok&&v(i)==y; HOLDS(rsz_empty, ok); }
OB(rsz_scalar)(V x,V y){ MA v(x); L g[]={2,2}; v.resize(g,g+2,y); HOLDS(rsz_scalar, v.size()==4&&v(0)==x&&v(1)==y&&v(2)==y&&v(3)==y); }
OB(rsz_toscalar)(V x,V y){ M a(x); L h[]={2,2}; MV w(h,h+2,a.m,FM,FM); MA v(w); L g[]={2}; v.resize(g,g,y); HOLDS(rsz_toscalar, v.size()==1&&v.dimension()==0&&v(0)==x); }
OB(rsz_skip)(V x,V y){ M a(x); L h[]={2,3}; MV w(h,h+2,a.m,FM,FM); MA v(w); L g[]={2,2}; v.resize(SkipInitialization,g,g+2); HOLDS(rsz_skip, v.size()==4&&v(0,0)==x&&v(0,1)==x+1&&v(1,0)==x+3&&v(1,1)==x+4); }
OB(reshape_own)(V x){ M a(x); L h[]={2,3}; MV w(h,h+2,a.m,LM,LM); MA v(w); L g[]={3,2}; v.reshape(g,g+2); bool ok=v.shape(0)==3&&v.shape(1)==2; for(L i=0;i<6;++i) ok=ok&&v(i)==x+V(i); for(L i=0;i<3;++i) for(L j=0;j<2;++j) ok=ok&&v(i,j)==x+V(i+3*j); HOLDS(reshape_own, ok); }
// says: vectors and matrices are arrays of one and two dimensions
OB(vec)(V x,V y){ Vector<V> v(3,x); v[1]=y; const Vector<V>& c=v; bool ok=v.size()==3&&v.dimension()==1&&c[0]==x&&c[1]==y&&c(2)==x&&&v[2]==&v(2); Vector<V> u(v); u[0]=y; ok=ok&&v[0]==x&&u[0]==y; v=u; u[2]=y; ok=ok&&v[0]==y&&v[2]==x; v.resize(4,y); ok=ok&&v.size()==4&&v[3]==y&&v[0]==y&&v[2]==x; v=x; HOLDS(vec, ok&&v[0]==x&&v[3]==x&&v.size()==4); }
OB(vec_view)(V x,V y){ M a(x); L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); Vector<V> v(b.boundView(1,2)); bool ok=v.size()==3&&v[0]==x+2&&v[1]==x+6&&v[2]==x+10; v=b.boundView(0,1); ok=ok&&v.size()==4&&v[0]==x+4&&v[3]==x+7; v=b.boundView(0,1)+b.boundView(0,2); HOLDS(vec_view, ok&&v.size()==4&&v[0]==x+4+x+8&&v[3]==x+7+x+11); }
OB(mat)(V x,V y){ Matrix<V> v(2,3,x,LM); v(1,2)=y; bool ok=v.size()==6&&v.dimension()==2&&v.shape(0)==2&&v(5)==y&&v(0,2)==x; Matrix<V> u(v); u(0,0)=y; ok=ok&&v(0,0)==x; v=u; ok=ok&&v(0,0)==y&&v(1,2)==y; v.resize(3,3,x); ok=ok&&v.shape(0)==3&&v(1,2)==y&&v(0,0)==y&&v(2,2)==x; v.reshape(1,9); HOLDS(mat, ok&&v.shape(0)==1&&v.shape(1)==9&&v(0,0)==y); }
OB(mat_view)(V x,V y){ M a(x); L h[]={3,4}; MV b(h,h+2,a.m,FM,FM); Matrix<V> v(b.transposedView()); bool ok=v.shape(0)==4&&v.shape(1)==3&&v(3,1)==x+7; v=b; ok=ok&&v.shape(0)==3&&v(1,3)==x+7; v=v.transposedView(); HOLDS(mat_view, ok&&v.shape(0)==4&&v(3,1)==x+7&&v(0,2)==x+8); }
// says: entries are converted one by one between arrays of different entry types
OB(conv_new)(int x,int y){ int m[6]={x,y,x+1,y+1,x+2,y+2}; L h[]={2,3}; View<int,false> w(h,h+2,m,LM,LM); Marray<V> v(w); bool ok=v.size()==6; for(L i=0;i<6;++i) ok=ok&&v(i)==V(m[i]); Marray<V> u; u=w.transposedView(); for(L i=0;i<2;++i) for(L j=0;j<3;++j) ok=ok&&u(j,i)==V(m[i+2*j]); HOLDS(conv_new, ok); }
OB(conv_view)(int x,int y){ int m[6]={x,y,x+1,y+1,x+2,y+2}; V d[6]; L h[]={2,3}; View<int,false> w(h,h+2,m,LM,LM); MV v(h,h+2,d,FM,FM); v=w; bool ok=true; for(L i=0;i<2;++i) for(L j=0;j<3;++j) ok=ok&&d[3*i+j]==V(m[i+2*j]); v+=w; for(L i=0;i<2;++i) for(L j=0;j<3;++j) ok=ok&&d[3*i+j]==2*V(m[i+2*j]); HOLDS(conv_view, ok); }
#else
static const L NM=24; struct M { V m[NM]; AI M(V x){ for(L k=0;k<NM;++k) m[k]=x+V(k); } };
// says: misuse is reported (with debug checks on)
OB(throw_coord)(V x){ M a(x); L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); v(1,3)=x; MUST_THROW(throw_coord); }
OB(throw_index)(V x){ M a(x); L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); v(6)=x; MUST_THROW(throw_index); }
OB(throw_reshape)(V x){ M a(x); L h[]={2,3}; MV v(h,h+2,a.m,FM,FM); L g[]={5}; v.reshape(g,g+1); MUST_THROW(throw_reshape); }
#endif
#ifdef NDEBUG
// controls: false claims
OB(ctl_order)(V* q){ V* p=ogm_mem; L h[]={2,3}; MV v(h,h+2,p,FM,FM); HOLDS(ctl_order, &v(1)==p+3); }
OB(ctl_overlap)(V x){ M a(x); L h[]={3}; MV v(h,h+1,a.m,LM,LM); MV w(h,h+1,a.m+1,FM,FM); v=w; HOLDS(ctl_overlap, a.m[1]==x+1); }
OB(ctl_resize)(V x,V y){ M a(x); L h[]={2,2}; MV w(h,h+2,a.m,FM,FM); MA v(w); L g[]={2,3}; v.resize(g,g+2,y); HOLDS(ctl_resize, v(2)==x+2); }
OB(ctl_alias)(V x,V y){ M a(x); L h[]={2,2}; MV w(h,h+2,a.m,FM,FM); MA v(w); v(0)=y; HOLDS(ctl_alias, a.m[0]==y); }
#endif
