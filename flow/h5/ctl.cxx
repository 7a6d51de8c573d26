// controls for the handle (bad__…closed…/opened…) and the status (bads__…) analyses
#include <hdf5.h>
#include <stdexcept>
#include <string>
#define C(NAME) extern "C" void root_##NAME(hid_t g, int n, double* p)
C(bad__not_closed_on_return) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) return; if (n > 3) return; H5Dclose(d); }
C(bad__not_closed_on_throw) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); if (H5Dread(d, n, n, n, n, p) < 0) throw std::runtime_error("b"); H5Dclose(d); }
C(bad__closed_twice) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) return; herr_t s = H5Dread(d, n, n, n, n, p); if (s < 0) H5Dclose(d); H5Dclose(d); }
C(bad__opened_again_while_open) { hid_t d; for (int i = 0; i < n; ++i) { d = H5Dopen2(g, "a", H5P_DEFAULT); if (i == 4) H5Dclose(d); } }
C(bad__returns_after_failure) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); H5Dread(d, n, n, n, n, p); H5Dclose(d); }
C(bad__returns_after_failure_open) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d >= 0) { herr_t s = H5Dread(d, n, n, n, n, p); H5Dclose(d); if (s < 0) throw std::runtime_error("a"); } }
C(bad__returns_after_failure_last) { for (int i = 0; i < n; ++i) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); herr_t s = 0; for (int j = 0; j < n; ++j) s = H5Dread(d, n, n, n, n, p + j); H5Dclose(d); if (s < 0) throw std::runtime_error("a"); } }
C(good_simple) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); herr_t s = H5Dread(d, n, n, n, n, p); H5Dclose(d); if (s < 0) throw std::runtime_error("a"); }
C(good_use_of_failed) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); hid_t t = H5Dget_type(d); herr_t s = H5Dread(d, t, n, n, n, p); H5Tclose(t); H5Dclose(d); if (s < 0) throw std::runtime_error("a"); }
static void fill(hid_t d, double* p, int n) { hid_t s = H5Dget_space(d); if (s < 0) throw std::runtime_error("x"); herr_t r = H5Dread(d, s, s, n, n, p); H5Sclose(s); if (r < 0) throw std::runtime_error("y"); }
struct H { hid_t d; H(hid_t x) : d(x) {} ~H() { if (d >= 0) H5Dclose(d); } };
C(good_catch) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); try { fill(d, p, n); } catch (...) { H5Dclose(d); throw; } H5Dclose(d); }
C(good_raii) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); H h(d); fill(d, p, n); if (n == 3) return; fill(d, p + 1, n); }
C(good_loop) { for (int i = 0; i < n; ++i) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); H h(d); fill(d, p, i); } }
C(good_either) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); herr_t s = H5Dread(d, n, n, n, n, p), t = H5Dread(d, n, n, n, n, p + 1); H5Dclose(d); if (s < 0 || t < 0) throw std::runtime_error("a"); }
C(good_accumulated) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); if (d < 0) throw std::runtime_error("a"); herr_t s = 0; for (int i = 0; i < n; ++i) { herr_t t = H5Dread(d, n, n, n, n, p); if (t < s) s = t; } H5Dclose(d); if (s < 0) throw std::runtime_error("a"); }
C(good_flag) { hid_t d = H5Dopen2(g, "a", H5P_DEFAULT); bool ok = d >= 0; if (ok) { hid_t s = H5Dget_space(d); ok = s >= 0; if (ok) { ok = H5Dread(d, s, n, n, n, p) >= 0; H5Sclose(s); } H5Dclose(d); } if (!ok) throw std::runtime_error("a"); }
