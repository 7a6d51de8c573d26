// controls: bad_ queries change the object they are asked of, good_ ones do not
#include <vector>
#include <map>
#include <string>
#include <algorithm>
struct P { int* raw; std::vector<size_t> l; };
struct Base { virtual int best(size_t) const { return 1; } virtual ~Base() {} };
struct A : Base { std::vector<size_t> label; mutable int asked; mutable std::vector<size_t> cache; P* p; int k; int best(size_t i) const override { return (int)label[i]; } size_t f(size_t i) const { return label[i] + k; } };
struct B : Base { mutable int asked; int best(size_t) const override { return ++asked; } };
#define ROOT(NAME) extern "C" int root_##NAME(const A& a, std::vector<size_t>& v, size_t n)
ROOT(bad__mutable) { ++a.asked; v = a.label; return 1; }
ROOT(bad__cache) { if (n == 1) a.cache.assign(a.label.begin(), a.label.end()); v = a.cache; return 1; }
ROOT(bad__const_cast) { v = a.label; std::sort(const_cast<A&>(a).label.begin(), const_cast<A&>(a).label.end()); return 1; }
ROOT(bad__pointee) { v = a.label; *a.p->raw = 3; return 1; }
ROOT(bad__swap) { std::swap(v, const_cast<A&>(a).label); return 1; }
ROOT(bad__static) { static int c; c += n; v = a.label; return c; }
extern "C" int root_bad__virtual(const B& a, std::vector<size_t>& v, size_t n) { v.resize(3); for (size_t i = 0; i < 3; ++i) v[i] = ((const Base&)a).best(i); return 1; }
ROOT(good_copy) { v = a.label; return 1; }
ROOT(good_loop) { v.resize(a.label.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = a.f(i); return 1; }
ROOT(good_temporary) { std::vector<size_t> t(a.label.begin(), a.label.end()); std::sort(t.begin(), t.end()); std::map<size_t, size_t> m; for (size_t x : t) m[x] += 1; v.assign(t.begin(), t.end()); v[0] = m[0]; return 1; }
ROOT(good_string) { std::string s("abc"); s += std::string("d"); v.assign(s.size(), 2); return 1; }
A some_a; B some_b;
