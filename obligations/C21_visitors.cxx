// C21: the stock visitors ask to stop exactly when their limits say so.
#include "prelude.hxx"
#include <time.h>
#include <opengm/inference/visitors/visitors.hxx>
using namespace opengm;
extern "C" __attribute__((always_inline)) int memcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
static long T[8]; static int ti;
#define CLOCK(a, b, c, d) T[0] = a; T[1] = b; T[2] = c; T[3] = d; T[4] = d; T[5] = d; ti = 0
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = T[ti++ & 7]; t->tv_nsec = 0; return 0; }
struct Inf { typedef double ValueType; double v, b; double value() const { return v; } double bound() const { return b; } };
static inline long bits(double x) { return __builtin_bit_cast(long, x); }
// says: the empty and the verbose visitor never ask to stop
// code: inference/visitors/visitors.hxx EmptyVisitor, ExplicitEmptyVisitor, VerboseVisitor
OB(empty)(double a, double b) { Inf i{a, b}; visitors::EmptyVisitor<Inf> v; v.begin(i); size_t r = v(i); v.end(i); visitors::ExplicitEmptyVisitor<Inf> w; size_t s = w(i, a, b); HOLDS(empty, r == 0 && s == 0 && bits(i.v) == bits(a) && bits(i.b) == bits(b)); }
OB(verbose_skip)(double a, double b) { Inf i{a, b}; visitors::VerboseVisitor<Inf> v(3); size_t it = 0; (void)it; v(i); HOLDS(verbose_skip, v(i) == 0); }
// says: the timing visitor asks to stop exactly when the gap or the time limit is reached, whichever is checked first, and records value and bound of the step
// code: inference/visitors/visitors.hxx TimingVisitor::operator()
OB(timing_answer)(double a, double b, double tl, double gl, long t0, long t1, long t2, long t3) { CLOCK(t0, t1, t2, t3); Inf i{a, b}; visitors::TimingVisitor<Inf> v(1, 0, false, false, tl, gl); size_t r = v(i); bool gap = __builtin_fabs(b - a) <= gl, late = v.getTimes().back() > tl; if (gap) { HOLDS(timing_answer, r == 1); return; } if (late) { HOLDS(timing_answer, r == 2); return; } HOLDS(timing_answer, r == 0); }
OB(timing_record)(double a, double b, long t0, long t1) { CLOCK(t0, t1, t1, t1); Inf i{a, b}; visitors::TimingVisitor<Inf> v(1, 0, false, false); v(i); HOLDS(timing_record, v.getValues().size() == 1 && v.getBounds().size() == 1 && v.getTimes().size() == 1 && v.getIterations().size() == 1 && bits(v.getValues()[0]) == bits(a) && bits(v.getBounds()[0]) == bits(b)); }
OB(timing_skip)(double a, double b, double tl, double gl, long t0, long t1, long t2, long t3) { CLOCK(t0, t1, t2, t3); Inf i{a, b}; visitors::TimingVisitor<Inf> v(2, 0, false, false, tl, gl); size_t r = v(i); bool gap = __builtin_fabs(b - a) <= gl, late = v.getTimes().back() > tl; if (gap) { HOLDS(timing_skip, r == 1); return; } if (late) { HOLDS(timing_skip, r == 2); return; } if (r != 0) { fail_timing_skip(); return; } HOLDS(timing_skip, v(i) == 0 && v.getTimes().size() == 1); }
// says: the explicit timing visitor does the same with the value and bound it is given
// code: inference/visitors/visitors.hxx ExplicitTimingVisitor
OB(explicit_answer)(double a, double b, double tl, double gl, long t0, long t1, long t2, long t3) { CLOCK(t0, t1, t2, t3); Inf i{0, 0}; visitors::ExplicitTimingVisitor<Inf> v(1, 0, false, false, tl, gl, 0); size_t r = v(i, a, b); bool gap = __builtin_fabs(b - a) <= gl, late = v.getTimes().back() > tl; if (gap) { HOLDS(explicit_answer, r == 1); return; } if (late) { HOLDS(explicit_answer, r == 2); return; } HOLDS(explicit_answer, r == 0); }
OB(explicit_record)(double a, double b, long t0, long t1) { CLOCK(t0, t1, t1, t1); Inf i{0, 0}; visitors::ExplicitTimingVisitor<Inf> v(1, 0, false, false, 1e9, 0.0, 0); v(i, a, b); HOLDS(explicit_record, v.getValues().size() == 1 && v.getBounds().size() == 1 && v.getTimes().size() == 1 && bits(v.getValues()[0]) == bits(a) && bits(v.getBounds()[0]) == bits(b)); }
// says: the recorded time is the sum of the steps' times, and the time limit applies to that sum
OB(timing_sum)(double a, double b, double c, double d, long t0, long t1, long t2, long t3) { CLOCK(t0, t1, t2, t3); Inf i{a, b}, j{c, d}; visitors::TimingVisitor<Inf> v(1, 0, false, false, 1e300, -1.0); v(i); v(j); HOLDS(timing_sum, v.getTimes().size() == 2 && bits(v.getValues()[1]) == bits(c) && bits(v.getBounds()[1]) == bits(d) && bits(v.getTimes()[1]) == bits(v.getTimes()[0] + (double(t3) - double(t2)))); }
OB(timing_protocol)(double a, double b, double c, double d, long t0, long t1, long t2, long t3) { CLOCK(t0, t1, t2, t3); Inf i{a, b}, j{c, d}; visitors::TimingVisitor<Inf> v(1, 0, false, false); v.begin(i); v.end(j); HOLDS(timing_protocol, v.getTimes().size() == 2 && v.getValues().size() == 2 && v.getBounds().size() == 2 && v.getIterations().size() == 2 && bits(v.getValues()[0]) == bits(a) && bits(v.getBounds()[0]) == bits(b) && bits(v.getValues()[1]) == bits(c) && bits(v.getBounds()[1]) == bits(d)); }
// controls
OB(ctl_record)(double a, double b) { CLOCK(0, 0, 0, 0); Inf i{a, b}; visitors::TimingVisitor<Inf> v(1, 0, false, false); v(i); HOLDS(ctl_record, bits(v.getValues()[0]) == bits(b)); }
OB(ctl_timing)(double a, double b, double tl, double gl, long t0, long t1, long t2, long t3) { CLOCK(t0, t1, t2, t3); Inf i{a, b}; visitors::TimingVisitor<Inf> v(1, 0, false, false, tl, gl); HOLDS(ctl_timing, v(i) == 0); }
