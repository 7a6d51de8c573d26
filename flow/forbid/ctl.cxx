// controls: each bad_ root depends on something that differs between two runs, no good_ root does
#include <cstdlib>
#include <ctime>
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <chrono>
#include <unordered_set>
struct N { int key; N* next; };
static int helper(int n) { return n > 3 ? rand() : 0; }
struct B { virtual int f(int) = 0; virtual ~B() {} };
struct D : B { int f(int n) override { return (int)time(0) + n; } };
#define ROOT(NAME) extern "C" int root_##NAME
ROOT(bad__rand)(int n) { return helper(n); }
ROOT(bad__virtual_time)(int n) { D d; B* b = &d; return b->f(n); }
ROOT(bad__shuffle)(std::vector<int>& v) { std::random_shuffle(v.begin(), v.end()); return v[0]; }
ROOT(bad__clock)(int n) { return std::chrono::steady_clock::now().time_since_epoch().count() > n; }
ROOT(bad__pointer_map)(N* a, N* b) { std::map<N*, int> m; m[a] = 1; m[b] = 2; return m.begin()->second; }
ROOT(bad__pointer_sort)(std::vector<N*>& v) { std::sort(v.begin(), v.end()); return v[0]->key; }
ROOT(bad__pointer_pair_sort)(std::vector<std::pair<int, N*> >& v) { std::sort(v.begin(), v.end()); return v[0].second->key; }
ROOT(bad__pointer_hash)(N* a, N* b) { std::unordered_set<N*> m; m.insert(a); m.insert(b); return (*m.begin())->key; }
ROOT(bad__pointer_order)(N* a, N* b) { return a < b ? a->key : b->key; }
ROOT(bad__pointer_number)(N* a) { return (int)((size_t)a % 7); }
ROOT(bad__counter)(int n) { static int c = 0; return n + c++; }
ROOT(bad__cache)(int n) { static std::vector<int> c; c.push_back(n); return (int)c.size(); }
ROOT(good_dead)(int n) { const int init = 2; if (init == 1) return rand(); return n; }
ROOT(good_loop)(const int* b, const int* e) { int s = 0; for (; b < e; ++b) s += *b; return s; }
ROOT(good_distance)(const int* b, const int* e) { return (int)(e - b); }
ROOT(good_map)(int a, int b) { std::map<int, int> m; m[a] = 1; m[b] = 2; return m.begin()->second; }
ROOT(good_static_table)(int n) { static const std::vector<int> t(10, 3); return t[n % 10]; }
ROOT(good_static_number)(int n) { static const int t = n + 1; return t; }
