// C14: containers keep their abstract contents.
#include "prelude.hxx"
#include <new>
#include <opengm/opengm.hxx>
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/utilities/queues.hxx>
#include <opengm/utilities/disjoint-set.hxx>
using namespace opengm;
#define AI inline __attribute__((always_inline))
// An element type that keeps account of its storage: arrays of it live in an arena, every write must hit
// a live cell (of the arena or inside a container object), every array is released exactly once.
struct E; static struct W* led;
struct E { long v; AI E():v(-77){} AI E(long x):v(x){} AI E(const E& o):v(o.v){} AI E& operator=(const E& o);
  static AI void* operator new[](std::size_t n); static AI void operator delete[](void* p); AI bool operator==(long x) const { return v==x; } };
typedef FastSequence<E,3> FS; typedef BufferVector<E> BV;
static const int CELLS=72;
struct W { E pool[CELLS]; alignas(16) char a[128]; alignas(16) char b[128]; bool live[CELLS]; int base[CELLS]; int top; int arrays; int errors;
  AI W():top(1),arrays(0),errors(0){ led=this; for(int i=0;i<CELLS;++i){ live[i]=false; base[i]=0; } }
  AI void touch(const E* p){ std::ptrdiff_t o=(const char*)p-(const char*)pool; if(o<0){ ++errors; return; } if(o<(std::ptrdiff_t)sizeof(pool)){ if(o%sizeof(E)||!live[o/sizeof(E)]) ++errors; return; }
    std::ptrdiff_t q=(const char*)p-a; if(q<0||q>=(std::ptrdiff_t)(2*sizeof(a))) ++errors; } };
AI E& E::operator=(const E& o){ led->touch(this); v=o.v; return *this; }
AI void* E::operator new[](std::size_t n){ int k=(int)(n/sizeof(E)); int t=led->top; if(t+k+1>=CELLS){ ++led->errors; t=0; } for(int i=0;i<k;++i) led->live[t+i]=true; led->base[t]=k+1; led->top=t+k+1; ++led->arrays; return led->pool+t; }
AI void E::operator delete[](void* p){ if(!p) return; std::ptrdiff_t o=(const char*)p-(const char*)led->pool; if(o<0||o>=(std::ptrdiff_t)sizeof(led->pool)||o%sizeof(E)){ ++led->errors; return; } int t=(int)(o/sizeof(E)); int k=led->base[t]; if(k==0){ ++led->errors; return; } for(int i=0;i+1<k;++i){ led->live[t+i]=false; led->pool[t+i].v=-99; } led->base[t]=0; --led->arrays; }
#define MK(T,n,...) T& n=*new((void*)w.n) T(__VA_ARGS__)
#define CLEAN (w.errors==0&&w.arrays==0)
template<class T> AI bool is2(const T& s,long x,long y){ return s.size()==2&&!s.empty()&&s[0]==x&&s[1]==y; }
template<class T> AI bool seq(const T& s,L n,long x0){ if(s.size()!=n||s.empty()!=(n==0)) return false; bool ok=s.end()-s.begin()==(std::ptrdiff_t)n; for(L i=0;i<n;++i) ok=ok&&s[i]==x0+long(i)&&s.begin()[i]==x0+long(i); if(n) ok=ok&&s.front()==x0&&s.back()==x0+long(n)-1; return ok; }
template<class T> AI void fill(T& s,L n,long x0){ for(L i=0;i<n;++i) s.push_back(E(x0+long(i))); }
// says: the sequences hold what was appended, also across the switch from internal to allocated storage
// code: datastructures/fast_sequence.hxx datastructures/buffer_vector.hxx
#define BOTH(name,...) \
 OB(fs_##name)(long x,long y){ typedef FS T; W w; bool ok=true; __VA_ARGS__ HOLDS(fs_##name, ok&&CLEAN); } \
 OB(bv_##name)(long x,long y){ typedef BV T; W w; bool ok=true; __VA_ARGS__ HOLDS(bv_##name, ok&&CLEAN); }
BOTH(push2, { MK(T,a); ok=ok&&a.size()==0&&a.empty(); fill(a,2,x); ok=ok&&seq(a,2,x); a.~T(); } )
BOTH(push3, { MK(T,a); fill(a,3,x); ok=ok&&seq(a,3,x); a.~T(); } )
BOTH(push4, { MK(T,a); fill(a,4,x); ok=ok&&seq(a,4,x); a.~T(); } )
BOTH(push7, { MK(T,a); fill(a,7,x); ok=ok&&seq(a,7,x); a.~T(); } )
BOTH(push9, { MK(T,a); fill(a,9,x); ok=ok&&seq(a,9,x); a.~T(); } )
BOTH(pushown3, { MK(T,a); fill(a,3,x); a.push_back(a[0]); ok=ok&&a.size()==4&&a[3]==x&&a[0]==x&&a[2]==x+2; a.~T(); } )
BOTH(pushown2, { MK(T,a); fill(a,2,x); a.push_back(a[1]); a.push_back(a[0]); a.push_back(a[3]); ok=ok&&a.size()==5&&a[2]==x+1&&a[3]==x&&a[4]==x; a.~T(); } )
BOTH(size2, { MK(T,a,2); ok=ok&&a.size()==2; a[0]=E(x); a[1]=E(x+1); ok=ok&&seq(a,2,x); a.push_back(E(x+2)); a.push_back(E(x+3)); ok=ok&&seq(a,4,x); a.~T(); } )
BOTH(size5, { MK(T,a,5); ok=ok&&a.size()==5; for(L i=0;i<5;++i) a[i]=E(x+i); ok=ok&&seq(a,5,x); a.push_back(E(x+5)); ok=ok&&seq(a,6,x); a.~T(); } )
BOTH(size0, { MK(T,a,0); ok=ok&&a.size()==0&&a.empty(); MK(T,b); b=a; ok=ok&&b.empty(); a.push_back(E(x)); ok=ok&&seq(a,1,x)&&b.empty(); a.~T(); b.~T(); } )
BOTH(value2, { MK(T,a,2,E(x)); ok=ok&&is2(a,x,x); a.~T(); } )
BOTH(value4, { MK(T,a,4,E(x)); ok=ok&&a.size()==4&&a[0]==x&&a[1]==x&&a[2]==x&&a[3]==x; a.~T(); } )
BOTH(value0, { MK(T,a,0,E(x)); ok=ok&&a.empty(); a.~T(); } )
BOTH(clear, { MK(T,a); fill(a,2,x); a.clear(); ok=ok&&a.empty(); fill(a,2,y); ok=ok&&seq(a,2,y); a.~T(); } )
BOTH(clear5, { MK(T,a); fill(a,5,x); a.clear(); ok=ok&&a.empty()&&a.size()==0; fill(a,6,y); ok=ok&&seq(a,6,y); a.~T(); } )
BOTH(clear_resize, { MK(T,a); fill(a,2,x); a.clear(); a.resize(7); ok=ok&&a.size()==7; for(L i=0;i<7;++i) a[i]=E(y+i); ok=ok&&seq(a,7,y); a.~T(); } )
BOTH(resize_up, { MK(T,a); fill(a,2,x); a.resize(5); ok=ok&&a.size()==5&&a[0]==x&&a[1]==x+1; for(L i=2;i<5;++i) a[i]=E(x+i); ok=ok&&seq(a,5,x); a.~T(); } )
BOTH(resize_down, { MK(T,a); fill(a,5,x); a.resize(2); ok=ok&&seq(a,2,x); a.push_back(E(x+2)); a.push_back(E(x+3)); ok=ok&&seq(a,4,x); a.~T(); } )
BOTH(resize_updown, { MK(T,a); a.resize(6); a.resize(1); a[0]=E(x); a.resize(8); ok=ok&&a.size()==8&&a[0]==x; a.~T(); } )
BOTH(reserve, { MK(T,a); fill(a,2,x); a.reserve(6); ok=ok&&seq(a,2,x); fill(a,5,x+2); ok=ok&&seq(a,7,x); a.~T(); } )
BOTH(reserve0, { MK(T,a); a.reserve(6); ok=ok&&a.empty()&&a.size()==0; fill(a,2,x); ok=ok&&seq(a,2,x); a.~T(); } )
BOTH(assign, { MK(T,a); E r[6]={E(x),E(x+1),E(x+2),E(x+3),E(x+4),E(x+5)}; a.assign(r,r+2); ok=ok&&seq(a,2,x); a.assign(r,r+5); ok=ok&&seq(a,5,x); a.assign(r+1,r+3); ok=ok&&seq(a,2,x+1); a.assign(r,r); ok=ok&&a.empty(); a.~T(); } )
BOTH(back, { MK(T,a); fill(a,4,x); a.back()=E(y); a.front()=E(y+1); ok=ok&&a[3]==y&&a[0]==y+1&&a[1]==x+1; *a.begin()=E(y+2); ok=ok&&a[0]==y+2; a.~T(); } )
// says: copies have the contents of their source and are independent of it, whatever was done to either before
// code: datastructures/fast_sequence.hxx datastructures/buffer_vector.hxx
#define COPYCASE(name,prepa) BOTH(copy_##name, { MK(T,a); prepa; L n=a.size(); for(L i=0;i<n;++i) a[i]=E(x+i); MK(T,b,a); ok=ok&&seq(b,n,x)&&seq(a,n,x); b.push_back(E(x+n)); ok=ok&&seq(b,n+1,x)&&seq(a,n,x); b.push_back(E(x+n+1)); b.push_back(E(x+n+2)); ok=ok&&seq(b,n+3,x); a.push_back(E(y)); ok=ok&&seq(b,n+3,x)&&a.size()==n+1; if(n) b[0]=E(y); ok=ok&&(n==0||a[0]==x); a.~T(); b.~T(); } )
COPYCASE(empty,)
COPYCASE(two,fill(a,2,x))
COPYCASE(three,fill(a,3,x))
COPYCASE(four,fill(a,4,x))
COPYCASE(seven,fill(a,7,x))
COPYCASE(shrunk,fill(a,5,x);a.resize(2))
COPYCASE(cleared,fill(a,5,x);a.clear())
COPYCASE(reserved,a.reserve(6);fill(a,1,x))
COPYCASE(shrunk4,a.resize(9);a.resize(4))
#define ASSIGNCASE(name,pa,pb) BOTH(asgn_##name, { MK(T,a); MK(T,b); pa; pb; L n=b.size(); for(L i=0;i<n;++i) b[i]=E(x+i); a=b; ok=ok&&seq(a,n,x)&&seq(b,n,x); a.push_back(E(x+n)); ok=ok&&seq(a,n+1,x)&&seq(b,n,x); a.push_back(E(x+n+1)); a.push_back(E(x+n+2)); a.push_back(E(x+n+3)); ok=ok&&seq(a,n+4,x); if(n) b[0]=E(y); ok=ok&&(n==0||a[0]==x); a.~T(); b.~T(); } )
ASSIGNCASE(e0,,)
ASSIGNCASE(e2,,fill(b,2,x))
ASSIGNCASE(e5,,fill(b,5,x))
ASSIGNCASE(s2_0,fill(a,2,y),)
ASSIGNCASE(s2_2,fill(a,2,y),fill(b,2,x))
ASSIGNCASE(s2_5,fill(a,2,y),fill(b,5,x))
ASSIGNCASE(s5_0,fill(a,5,y),)
ASSIGNCASE(s5_2,fill(a,5,y),fill(b,2,x))
ASSIGNCASE(s5_4,fill(a,5,y),fill(b,4,x))
ASSIGNCASE(s5_5,fill(a,5,y),fill(b,5,x))
ASSIGNCASE(s5_8,fill(a,5,y),fill(b,8,x))
ASSIGNCASE(shrunk_5,fill(a,5,y);a.resize(1),fill(b,5,x))
ASSIGNCASE(shrunk_2,fill(a,5,y);a.resize(1),fill(b,2,x))
ASSIGNCASE(s2_shrunk,fill(a,2,y),fill(b,5,x);b.resize(2))
ASSIGNCASE(cleared_4,fill(a,5,y);a.clear(),fill(b,4,x))
ASSIGNCASE(reserved_4,a.reserve(5),fill(b,4,x))
BOTH(asgn_self, { MK(T,a); fill(a,4,x); T& r=a; a=r; ok=ok&&seq(a,4,x); a.~T(); } )
BOTH(asgn_twice, { MK(T,a); MK(T,b); fill(b,5,x); a=b; b.resize(2); a=b; ok=ok&&seq(a,2,x); b.clear(); a=b; ok=ok&&a.empty(); a.~T(); b.~T(); } )
OB(ctl_fs)(long x,long y){ typedef FS T; W w; { MK(T,a); fill(a,4,x); a[2]=E(y); HOLDS(ctl_fs, seq(a,4,x)); } }
OB(ctl_leak)(long x){ typedef FS T; W w; { MK(T,a); fill(a,4,x); } HOLDS(ctl_leak, CLEAN); }
OB(ctl_touch)(long x){ typedef FS T; W w; { MK(T,a); fill(a,4,x); E* p=a.begin(); a.clear(); *p=E(x); a.~T(); } HOLDS(ctl_touch, CLEAN); }
// says: the sorted set contains each inserted key once in ascending order; find, count, bounds and erase agree
// code: datastructures/randomaccessset.hxx
typedef RandomAccessSet<long> RS;
AI bool has(const RS& s,long x){ return s.count(x)==1&&s.find(x)!=s.end()&&*s.find(x)==x; }
AI bool hasnt(const RS& s,long x){ return s.count(x)==0&&s.find(x)==s.end(); }
OB(rs_one)(long x){ RS s; std::pair<RS::const_iterator,bool> r=s.insert(x); HOLDS(rs_one, r.second&&*r.first==x&&s.size()==1&&!s.empty()&&s[0]==x&&has(s,x)&&*s.begin()==x); }
OB(rs_empty)(long x){ RS s; HOLDS(rs_empty, s.empty()&&s.size()==0&&s.begin()==s.end()&&hasnt(s,x)&&s.lower_bound(x)==s.end()&&s.erase(x)==0); }
OB(rs_twice)(long x){ RS s; s.insert(x); std::pair<RS::const_iterator,bool> r=s.insert(x); HOLDS(rs_twice, !r.second&&*r.first==x&&s.size()==1); }
OB(rs_two_lt)(long x,long y){ if(!(x<y)){ ok_rs_two_lt(); return; } RS s; s.insert(y); bool in=s.insert(x).second; HOLDS(rs_two_lt, in&&s.size()==2&&s[0]==x&&s[1]==y); }
OB(rs_two_gt)(long x,long y){ if(!(x<y)){ ok_rs_two_gt(); return; } RS s; s.insert(x); bool in=s.insert(y).second; HOLDS(rs_two_gt, in&&s.size()==2&&s[0]==x&&s[1]==y); }
OB(rs_find2)(){ RS s; s.insert(8); s.insert(3); HOLDS(rs_find2, s.find(3)==s.begin()&&s.find(8)==s.begin()+1&&s.count(3)==1&&s.count(8)==1&&hasnt(s,4)&&hasnt(s,2)&&hasnt(s,9)); }
#define R3 RS s; s.insert(7); s.insert(-2); s.insert(4); s.insert(7); s.insert(-2);
OB(rs_three)(){ R3 HOLDS(rs_three, s.size()==3&&s[0]==-2&&s[1]==4&&s[2]==7&&has(s,4)&&hasnt(s,5)&&hasnt(s,100)&&hasnt(s,-100)); }
OB(rs_bounds)(){ R3 const RS& c=s; HOLDS(rs_bounds, c.lower_bound(4)-c.begin()==1&&c.upper_bound(4)-c.begin()==2&&c.lower_bound(5)-c.begin()==2&&c.upper_bound(-3)-c.begin()==0&&c.lower_bound(8)==c.end()&&c.equal_range(4).first-c.begin()==1&&c.equal_range(4).second-c.begin()==2&&c.equal_range(5).first==c.equal_range(5).second); }
OB(rs_bounds_m)(){ R3 HOLDS(rs_bounds_m, s.lower_bound(4)-s.begin()==1&&s.upper_bound(4)-s.begin()==2&&s.equal_range(7).first-s.begin()==2&&s.equal_range(7).second==s.end()&&s.find(-2)==s.begin()&&s.find(3)==s.end()); }
OB(rs_erase_key)(){ R3 L e1=s.erase(4),e2=s.erase(4); HOLDS(rs_erase_key, e1==1&&e2==0&&s.size()==2&&s[0]==-2&&s[1]==7&&hasnt(s,4)); }
OB(rs_erase_it)(){ R3 s.erase(s.begin()+1); HOLDS(rs_erase_it, s.size()==2&&s[0]==-2&&s[1]==7); }
OB(rs_erase_range)(){ R3 const RS& c=s; s.erase(c.begin(),c.begin()+2); HOLDS(rs_erase_range, s.size()==1&&s[0]==7); }
OB(rs_clear)(){ R3 s.clear(); bool ok=s.empty()&&hasnt(s,7); s.insert(3); HOLDS(rs_clear, ok&&s.size()==1&&s[0]==3); }
OB(rs_range)(){ long v[5]={5,1,5,3,1}; RS s(v,v+5); RS t; t.insert(v,v+5); HOLDS(rs_range, s.size()==3&&s[0]==1&&s[1]==3&&s[2]==5&&t.size()==3&&t[0]==1&&t[1]==3&&t[2]==5); }
OB(rs_hint)(long x){ if(!(x>4&&x<7)){ ok_rs_hint(); return; } R3 const RS& c=s; RS::const_iterator i=s.insert(c.begin()+2,x); HOLDS(rs_hint, *i==x&&s.size()==4&&s[0]==-2&&s[1]==4&&s[2]==x&&s[3]==7); }
OB(rs_hint_wrong)(){ R3 const RS& c=s; RS::const_iterator i=s.insert(c.begin(),5); RS::const_iterator j=s.insert(s.begin()+1,4); HOLDS(rs_hint_wrong, s.size()==4&&s[0]==-2&&s[1]==4&&s[2]==5&&s[3]==7&&*j==4); }
OB(rs_copy)(long x){ R3 RS t(s),u; u=s; s.insert(100); t.erase(4); HOLDS(rs_copy, s.size()==4&&t.size()==2&&u.size()==3&&u[1]==4&&has(u,7)&&hasnt(u,100)&&hasnt(t,4)); }
OB(rs_swap)(){ R3 RS t; t.insert(9); s.swap(t); HOLDS(rs_swap, s.size()==1&&s[0]==9&&t.size()==3&&t[0]==-2&&t[2]==7); }
OB(rs_desc)(long x){ RandomAccessSet<long,std::greater<long> > s; s.insert(3); s.insert(9); s.insert(4); HOLDS(rs_desc, s.size()==3&&s[0]==9&&s[1]==4&&s[2]==3&&s.count(4)==1&&s.count(5)==0&&s.insert(9).second==false); }
struct Ord { bool d; Ord(bool x=false):d(x){} bool operator()(long a,long b) const { return d ? b<a : a<b; } };
OB(rs_swap_order)(){ RandomAccessSet<long,Ord> s(Ord(false)),t(Ord(true)); s.insert(1); s.insert(2); t.insert(5); t.insert(6); s.swap(t); s.insert(7); t.insert(3); HOLDS(rs_swap_order, s.size()==3&&s[0]==7&&s[1]==6&&s[2]==5&&t.size()==3&&t[0]==1&&t[1]==2&&t[2]==3); }
OB(rs_reverse)(){ R3 RS::reverse_iterator r=s.rbegin(); const RS& c=s; HOLDS(rs_reverse, *r==7&&*++r==4&&*++r==-2&&++r==s.rend()&&*c.rbegin()==7&&c.rend()-c.rbegin()==3); }
OB(rs_assign)(){ std::set<long> q; q.insert(4); q.insert(2); RS s; s.insert(9); s.assignFromSet(q); HOLDS(rs_assign, s.size()==2&&s[0]==2&&s[1]==4&&has(s,2)&&hasnt(s,9)); }
OB(rs_reserve)(){ RS s(5); bool ok=s.empty(); s.insert(2); s.reserve(20); HOLDS(rs_reserve, ok&&s.size()==1&&s[0]==2&&s.capacity()>=20); }
OB(ctl_rs)(long x,long y){ RS s; s.insert(x); s.insert(y); HOLDS(ctl_rs, s.size()==2); }
// says: the partition answers are those of the merges performed, whatever their order
// code: datastructures/partition.hxx
typedef Partition<L> P;
template<class Q> AI bool conn(Q& p,L i,L j){ return p.find(i)==p.find(j); }
OB(pt_start)(){ P p(4); const P& c=p; bool ok=true; for(L i=0;i<4;++i) ok=ok&&c.find(i)==i&&p.find(i)==i; P e; HOLDS(pt_start, ok&&p.numberOfElements()==4&&p.numberOfSets()==4&&e.numberOfElements()==0&&e.numberOfSets()==0); }
#define PT(name,...) OB(pt_##name)(bool a,bool b,bool c,bool d){ P p(4); const P& q=p; bool ok=true; __VA_ARGS__ HOLDS(pt_##name, ok); }
#define BR(...) if(a){ __VA_ARGS__ } else { __VA_ARGS__ }
PT(one, { p.merge(1,3); ok=conn(p,1,3)&&conn(q,3,1)&&!conn(p,0,1)&&!conn(p,2,3)&&!conn(q,0,2)&&p.numberOfSets()==3&&p.numberOfElements()==4; })
PT(self, { p.merge(2,2); ok=p.numberOfSets()==4&&!conn(p,1,2); p.merge(1,2); p.merge(2,1); p.merge(1,2); ok=ok&&p.numberOfSets()==3&&conn(p,1,2); })
PT(chain, { p.merge(0,1); p.merge(2,3); ok=p.numberOfSets()==2&&!conn(p,0,3); p.merge(1,3); ok=ok&&p.numberOfSets()==1&&conn(p,0,2)&&conn(q,1,2)&&conn(q,0,3); p.merge(0,3); ok=ok&&p.numberOfSets()==1; })
PT(star, { p.merge(0,1); p.merge(0,2); p.merge(3,0); ok=p.numberOfSets()==1&&conn(q,1,2)&&conn(q,2,3)&&conn(p,1,3); })
PT(some, { if(a){ p.merge(0,1); ok=ok&&p.numberOfSets()==3&&conn(q,0,1)&&!conn(q,1,2); } else ok=ok&&p.numberOfSets()==4&&!conn(q,0,1); })
PT(rank, { p.merge(0,1); p.merge(2,0); ok=conn(p,2,1)&&conn(p,2,0)&&!conn(p,2,3)&&p.numberOfSets()==2; p.merge(3,2); ok=ok&&conn(p,3,1)&&p.numberOfSets()==1; })
PT(deep, { P r(8); for(L i=0;i<8;i+=2) r.merge(i,i+1); r.merge(1,3); r.merge(5,7); bool u=!conn((const P&)r,0,4)&&r.numberOfSets()==2; r.merge(2,6); const P& cr=r; for(L i=1;i<8;i+=2) u=u&&conn(cr,0,i); u=u&&conn(r,0,7)&&conn(r,3,5)&&conn(cr,1,7); ok=u&&r.numberOfSets()==1; })
PT(insert, { p.merge(0,1); p.insert(2); ok=p.numberOfElements()==6&&p.numberOfSets()==5&&q.find(4)==4&&q.find(5)==5&&conn(p,0,1)&&!conn(p,4,5)&&!conn(p,4,0); p.merge(5,1); ok=ok&&conn(p,5,0)&&p.numberOfSets()==4; })
PT(reset, { p.merge(0,1); p.merge(2,1); p.reset(3); ok=p.numberOfElements()==3&&p.numberOfSets()==3&&!conn(p,0,1)&&!conn(p,1,2); p.merge(0,2); p.merge(1,2); ok=ok&&conn(q,0,1)&&p.numberOfSets()==1; })
PT(copy, { p.merge(0,1); P r(p),s; s=p; r.merge(2,3); p.merge(1,2); ok=p.numberOfSets()==2&&r.numberOfSets()==2&&s.numberOfSets()==3&&conn(p,0,2)&&!conn(r,0,2)&&conn(r,2,3)&&!conn(s,2,3)&&!conn(s,1,2)&&conn(s,0,1); })
PT(reps, { p.merge(0,1); p.merge(2,1); L r[4]={9,9,9,9}; q.representatives(r); ok=p.numberOfSets()==2&&r[2]==9&&q.find(r[0])==r[0]&&q.find(r[1])==r[1]&&r[0]<r[1]&&r[1]==3; })
PT(labels, { p.merge(3,1); L l[4]={9,9,9,9}; q.elementLabeling(l); ok=l[1]==l[3]&&l[0]!=l[1]&&l[0]!=l[2]&&l[1]!=l[2]&&l[0]<3&&l[1]<3&&l[2]<3; })
PT(labels_all, { p.merge(3,1); p.merge(0,2); p.merge(0,1); L l[4]={9,9,9,9}; q.elementLabeling(l); ok=l[0]==0&&l[1]==0&&l[2]==0&&l[3]==0; })
PT(replab, { p.merge(3,1); std::map<L,L> m; m[77]=5; q.representativeLabeling(m); ok=m.size()==3&&m.count(77)==0&&m.count(q.find(1))==1&&m[q.find(0)]<3&&m[q.find(1)]<3&&m[q.find(0)]!=m[q.find(1)]&&m[q.find(2)]!=m[q.find(1)]; })
OB(ctl_pt)(bool a){ P p(4); if(a) p.merge(1,2); HOLDS(ctl_pt, p.numberOfSets()==3); }
// says: disjoint sets answer the joins performed; copies are independent
// code: utilities/disjoint-set.hxx
typedef disjoint_set<L> D;
#define DS(name,...) OB(ds_##name)(bool a){ D p(5); bool ok=true; __VA_ARGS__ HOLDS(ds_##name, ok); }
DS(start, { for(L i=0;i<5;++i) ok=ok&&p.find(i)==i&&p.size(i)==1; ok=ok&&p.numberOfSets()==5; })
DS(one, { p.join(1,3); ok=conn(p,1,3)&&!conn(p,1,2)&&p.numberOfSets()==4&&p.size(1)==2&&p.size(3)==2&&p.size(0)==1; p.join(3,1); ok=ok&&p.numberOfSets()==4&&p.size(3)==2; p.join(2,2); ok=ok&&p.numberOfSets()==4&&p.size(2)==1; })
DS(chain, { p.join(0,1); p.join(2,3); p.join(1,3); ok=conn(p,0,2)&&p.numberOfSets()==2&&p.size(0)==4&&p.size(3)==4&&!conn(p,4,0)&&p.size(4)==1; p.join(4,2); ok=ok&&p.size(1)==5&&p.numberOfSets()==1; })
DS(three, { p.join(0,1); p.join(2,0); p.join(1,3); ok=p.size(2)==4&&conn(p,3,2)&&p.numberOfSets()==2; })
DS(replab, { p.join(0,3); p.join(3,4); std::map<L,L> m; m[50]=1; p.representativeLabeling(m); ok=m.size()==3&&m.count(50)==0&&m.count(p.find(4))==1&&m[p.find(1)]<3&&m[p.find(0)]<3&&m[p.find(2)]<3&&m[p.find(1)]!=m[p.find(0)]&&m[p.find(1)]!=m[p.find(2)]&&m[p.find(0)]!=m[p.find(2)]; })
DS(copy, { p.join(0,1); D c(p); c.join(2,3); p.join(0,4); ok=!conn(p,2,3)&&conn(c,2,3)&&!conn(c,0,4)&&conn(c,0,1)&&p.numberOfSets()==3&&c.numberOfSets()==3&&p.size(4)==3&&c.size(0)==2; })
// says: the queue gives first in, first out; the changeable priority queue always tops the best priority
// code: utilities/queues.hxx
OB(q_fifo)(long x,long y,long z){ FiFoQueue<long> q(4); bool ok=q.empty()&&q.size()==0; q.push(x); q.push(y); ok=ok&&q.size()==2&&q.front()==x&&!q.empty(); q.pop(); q.push(z); ok=ok&&q.front()==y&&q.size()==2; q.pop(); ok=ok&&q.front()==z; q.pop(); HOLDS(q_fifo, ok&&q.empty()); }
OB(q_clear)(long x,long y){ FiFoQueue<long> q(2); q.push(x); q.push(y); q.pop(); q.clear(); bool ok=q.empty(); q.push(y); q.push(x); HOLDS(q_clear, ok&&q.front()==y&&q.size()==2); }
typedef ChangeablePriorityQueue<long> PQ;
OB(pq_start)(){ PQ q(4); HOLDS(pq_start, q.empty()&&q.size()==0&&!q.contains(0)&&!q.contains(3)); }
OB(pq_one)(long p){ PQ q(4); q.push(2,p); HOLDS(pq_one, !q.empty()&&q.size()==1&&q.top()==2&&q.topPriority()==p&&q.contains(2)&&!q.contains(1)&&q.priority(2)==p); }
OB(pq_two)(long p,long r){ PQ q(4); q.push(2,p); q.push(0,r); if(p<r){ bool ok=q.top()==2&&q.topPriority()==p; q.pop(); HOLDS(pq_two, ok&&q.size()==1&&q.top()==0&&!q.contains(2)&&q.contains(0)); return; } if(r<p){ bool ok=q.top()==0&&q.topPriority()==r; q.pop(); HOLDS(pq_two, ok&&q.size()==1&&q.top()==2&&!q.contains(0)&&q.contains(2)); return; } HOLDS(pq_two, q.topPriority()==p&&q.size()==2); }
// every order of pushing four distinct priorities comes out sorted
#define PQO(n,w0,w1,w2,w3) OB(pq_order##n)(){ PQ q(4); q.push(0,w0); q.push(1,w1); q.push(2,w2); q.push(3,w3); long pr[4]={w0,w1,w2,w3}; bool ok=q.size()==4; for(long k=1;k<=4;++k){ int t=q.top(); ok=ok&&q.topPriority()==k&&pr[t]==k&&q.priority(t)==k; q.pop(); ok=ok&&!q.contains(t)&&q.size()==4-k; } HOLDS(pq_order##n, ok&&q.empty()); }
PQO(0,1,2,3,4) PQO(1,4,3,2,1) PQO(2,2,4,1,3) PQO(3,3,1,4,2) PQO(4,4,1,3,2) PQO(5,2,3,4,1) PQO(6,3,4,1,2) PQO(7,1,4,2,3)
OB(pq_change)(){ PQ q(5); q.push(0,5); q.push(1,6); q.push(2,7); q.push(3,8); q.push(4,9); q.changePriority(3,1); bool ok=q.top()==3&&q.topPriority()==1; q.push(3,20); ok=ok&&q.top()==0&&q.size()==5; q.changePriority(0,10); ok=ok&&q.top()==1; q.pop(); ok=ok&&q.top()==2; q.pop(); ok=ok&&q.top()==4; q.pop(); ok=ok&&q.top()==0; q.pop(); HOLDS(pq_change, ok&&q.top()==3&&q.size()==1); }
OB(pq_delete)(){ PQ q(5); q.push(0,5); q.push(1,6); q.push(2,7); q.push(3,8); q.push(4,9); q.deleteItem(1); bool ok=q.size()==4&&!q.contains(1)&&q.top()==0; q.deleteItem(0); ok=ok&&q.top()==2; q.deleteItem(4); ok=ok&&q.size()==2&&q.top()==2; q.pop(); HOLDS(pq_delete, ok&&q.top()==3&&q.size()==1); }
OB(pq_reset)(){ PQ q(4); q.push(2,4); q.push(1,3); q.push(3,9); q.pop(); q.reset(); bool ok=q.empty()&&!q.contains(2)&&!q.contains(1)&&!q.contains(3); q.push(2,8); q.push(3,1); HOLDS(pq_reset, ok&&q.top()==3&&q.size()==2); }
OB(pq_greater)(){ ChangeablePriorityQueue<long,std::greater<long> > q(4); q.push(0,3); q.push(1,8); q.push(2,5); bool ok=q.top()==1; q.pop(); ok=ok&&q.top()==2; q.push(2,1); HOLDS(pq_greater, ok&&q.top()==0); }
OB(pq_setall)(long p){ PQ q(4); q.setPriorities(p); HOLDS(pq_setall, q.priority(0)==p&&q.priority(3)==p&&q.empty()); }
OB(ctl_pq)(long p,long r){ PQ q(4); q.push(2,p); q.push(0,r); HOLDS(ctl_pq, q.top()==2); }
