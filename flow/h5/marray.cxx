// every storage operation of the array layer, over value types
#include <opengm/datastructures/marray/marray_hdf5.hxx>
using namespace marray; using namespace marray::hdf5;
#define T_(N, T) \
extern "C" void root_save_marray_##N(const hid_t& g, const std::string& s, const Marray<T>& m) { save(g, s, m); } \
extern "C" void root_save_view_##N(const hid_t& g, const std::string& s, const View<T, false>& m) { save(g, s, m); } \
extern "C" void root_save_vector_##N(const hid_t& g, const std::string& s, const std::vector<T>& m) { save(g, s, m); } \
extern "C" void root_load_##N(const hid_t& g, const std::string& s, Marray<T>& m) { load(g, s, m); } \
extern "C" void root_loadvec_##N(const hid_t& g, const std::string& s, std::vector<T>& m) { loadVec(g, s, m); } \
extern "C" void root_loadshape_##N(const hid_t& g, const std::string& s, Vector<T>& m) { loadShape(g, s, m); } \
extern "C" void root_create_##N(const hid_t& g, const std::string& s, size_t* b, size_t* e, CoordinateOrder o) { create<T>(g, s, b, e, o); } \
extern "C" void root_saveslab_##N(const hid_t& g, const std::string& s, size_t* b, size_t* e, size_t* h, const Marray<T>& m) { saveHyperslab(g, s, b, e, h, m); } \
extern "C" void root_loadslab_##N(const hid_t& g, const std::string& s, size_t* b, size_t* e, size_t* h, Marray<T>& m) { loadHyperslab(g, s, b, e, h, m); }
T_(double, double) T_(float, float) T_(ulong, unsigned long) T_(int, int) T_(uchar, unsigned char)
extern "C" hid_t root_createfile(const std::string& f, HDF5Version v) { return createFile(f, v); }
extern "C" hid_t root_openfile(const std::string& f, FileAccessMode m, HDF5Version v) { return openFile(f, m, v); }
extern "C" hid_t root_creategroup(const hid_t& g, const std::string& f) { return createGroup(g, f); }
extern "C" hid_t root_opengroup(const hid_t& g, const std::string& f) { return openGroup(g, f); }
