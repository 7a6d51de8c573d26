// controls: protocols that are broken (bad_) must be reported with the named kind, correct ones (good_) must not
#include "flow.hxx"
struct A { bool stop_; int n_; };
#define CTL(NAME) extern "C" int root_##NAME(A& a, Vis<A>& v, int n)
CTL(bad__second_begin) { v.begin(a); if (n > 3) v.begin(a); v(a); v.end(a); return 0; }
CTL(bad__return_without_end) { v.begin(a); for (int i = 0; i < n; ++i) { if (v(a) != 0) return 1; } v.end(a); return 0; }
CTL(bad__visit_after_end) { v.begin(a); v.end(a); for (int i = 0; i < n; ++i) v(a); return 0; }
CTL(bad__visit_after_stop) { v.begin(a); for (int i = 0; i < n; ++i) if (v(a) == 1) break; v.end(a); return 0; }
CTL(bad__visit_after_stop_flag) { v.begin(a); a.stop_ = false; for (int i = 0; i < n && !a.stop_; ++i) { a.stop_ = v(a) != 0; if (i == 7) a.stop_ = false; } v.end(a); return 0; }
CTL(bad__second_end) { v.begin(a); if (n) v.end(a); v.end(a); return 0; }
CTL(bad__visit_before_begin) { if (n == 5) v(a); v.begin(a); v.end(a); return 0; }
CTL(good_plain) { v.begin(a); for (int i = 0; i < n; ++i) if (v(a) != 0) break; v.end(a); return 0; }
CTL(good_memory_flag) { v.begin(a); a.stop_ = false; for (int i = 0; i < n && !a.stop_; ++i) for (int j = 0; j < n && !a.stop_; ++j) { a.n_ += j; a.stop_ = v(a) != 0; } v.end(a); return 0; }
CTL(good_enum) { v.begin(a); size_t r = 0; int code = 0; while (r == 0 && n-- > 0) { r = v(a); if (r == 1) code = 1; if (r == 2) code = 2; } if (code == 0) r = v(a); v.end(a); return code; }
__attribute__((noinline)) static bool step(A& a, Vis<A>& v, int k) { if (k & 1) return v(a) != 0; a.n_++; return false; }
CTL(good_helper) { v.begin(a); for (int i = 0; i < n; ++i) if (step(a, v, i)) { v.end(a); return 2; } v.end(a); return 0; }
