// controls: conditions that change something outside themselves (bad_) and conditions that do not (good_)
#include <opengm/opengm.hxx>
#include <vector>
#include <set>
#include <iostream>
#include <string>
struct Obj { long n; mutable long m; std::vector<long> v; std::set<long> s;
  long get() const { return n; } long touch() const { return ++m; } bool add(long x) { v.push_back(x); return true; } bool ins(long x) { return s.insert(x).second; }
  long size() const { return (long)v.size(); } std::vector<long> copy() const { return v; } bool sorted() const { for(size_t i = 1; i < v.size(); ++i) if(v[i] < v[i-1]) { std::cout << "unsorted " << i << std::endl; return false; } return true; } };
static long counter;
void bad__increment(long& n) { OPENGM_ASSERT(n++ < 5); }
void bad__assign(long& n) { bool b; OPENGM_ASSERT((b = (n == 3))); n = b; }
void bad__member(Obj& o) { OPENGM_ASSERT(o.add(3)); }
void bad__insert(Obj& o) { OPENGM_ASSERT(o.ins(3)); }
void bad__mutable(const Obj& o) { OPENGM_ASSERT(o.touch() > 0); }
void bad__static(long n) { OPENGM_ASSERT(++counter < n); }
void bad__op(std::vector<long>& v, long n) { OPENGM_ASSERT_OP(*(v.begin() += 1), ==, n); OPENGM_ASSERT_OP((v.pop_back(), 1), ==, n); }
void bad__clear(Obj& o) { OPENGM_ASSERT((o.v.clear(), true)); }
void good_compare(long n, long m) { OPENGM_ASSERT(n < m); OPENGM_ASSERT_OP(n, <=, m); }
void good_const(const Obj& o) { OPENGM_ASSERT(o.get() == 1 && o.size() > 2); OPENGM_ASSERT(o.copy().size() == 4); }
void good_print(const Obj& o) { OPENGM_ASSERT(o.sorted()); }
void good_local(const std::vector<long>& v) { OPENGM_ASSERT([&]() { long s = 0; for(size_t i = 0; i < v.size(); ++i) s += v[i]; return s == 0; }()); }
void good_find(const std::set<long>& s, long k) { OPENGM_ASSERT(s.find(k) != s.end()); OPENGM_ASSERT(s.count(k) == 1); }
