// Core of the drivers of AMPE's C++ classes: one patch hierarchy of the stand-in, made and read by the Python side.
#ifndef MINI_WORLD_H
#define MINI_WORLD_H
#include "samrai_mini.h"
namespace mw {
using namespace SAMRAI;
extern std::shared_ptr<hier::PatchHierarchy> H;
extern std::shared_ptr<geom::CartesianGridGeometry> G;
extern std::string err;
extern std::vector<std::shared_ptr<void>> keep;          // objects alive until the next reset
inline tbox::Dimension dim() { return tbox::Dimension(NDIM); }
inline std::shared_ptr<tbox::Database> db(const char* s) { auto d = std::make_shared<tbox::MemoryDatabase>("input"); tbox::InputManager::getManager()->parseInputString(s, d); return d; }
template <class T> std::shared_ptr<T> var(int id) { return std::dynamic_pointer_cast<T>(hier::VariableDatabase::getDatabase()->e[id].v); }
typedef pdat::CellVariable<double> CV; typedef pdat::SideVariable<double> SV;
struct Args { const double* d; const int* i; const char* s; double* od; int* oi; };
template <class F> int guard(F f)
{
   try { err.clear(); return f(); }
   catch (const MiniAssert& e) { err = std::string("ASSERT ") + e.what(); return -2; }
   catch (const MiniGap& e) { err = std::string("GAP ") + e.what(); return -9; }
   catch (const MiniError& e) { err = std::string("ERROR ") + e.what(); return -1; }
   catch (const std::exception& e) { err = std::string("EXC ") + e.what(); return -3; }
}
}  // namespace mw
// GLUE(name) { body using d (doubles in), i (ints in), s (string in), od, oi (out) }
#define GLUE(name) static int name##_body(const double* d, const int* i, const char* s, double* od, int* oi); \
   extern "C" int name(const double* d, const int* i, const char* s, double* od, int* oi) { return mw::guard([&] { return name##_body(d, i, s, od, oi); }); } \
   static int name##_body(const double* d, const int* i, const char* s, double* od, int* oi)
#endif
