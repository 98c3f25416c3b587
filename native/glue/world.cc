#include "world.h"
namespace mw {
std::shared_ptr<hier::PatchHierarchy> H; std::shared_ptr<geom::CartesianGridGeometry> G; std::string err; std::vector<std::shared_ptr<void>> keep;
static hier::Box box(const int* b) { return hier::Box(hier::Index(dim(), b), hier::Index(dim(), b + NDIM), hier::BlockId(0)); }
}
using namespace mw;
extern "C" {
const char* mw_error() { return err.c_str(); }
int mw_reset()
{
   return guard([&] {
      while (!keep.empty()) keep.pop_back();
      H.reset(); G.reset();
      auto* v = hier::VariableDatabase::getDatabase(); v->e.clear(); v->vars.clear(); v->ctx.clear();
      auto* r = tbox::RestartManager::getManager(); r->from = false; r->items.clear(); r->root = std::make_shared<tbox::MemoryDatabase>("restart");
      return 0;
   });
}
// domain box, lower/upper corner, periodic flags, maximal number of levels
int mw_domain(const int* dom, const double* xlo, const double* xhi, const int* per, int maxlev)
{
   return guard([&] {
      auto db = std::make_shared<tbox::MemoryDatabase>("geom");
      db->putDatabaseBox("domain_boxes", tbox::DatabaseBox(dim(), dom, dom + NDIM));
      db->putDoubleVector("x_lo", std::vector<double>(xlo, xlo + NDIM)); db->putDoubleVector("x_up", std::vector<double>(xhi, xhi + NDIM));
      db->putIntegerVector("periodic_dimension", std::vector<int>(per, per + NDIM));
      G = std::make_shared<geom::CartesianGridGeometry>(dim(), "geom", db);
      auto hd = std::make_shared<tbox::MemoryDatabase>("hier"); hd->putInteger("max_levels", maxlev);
      H = std::make_shared<hier::PatchHierarchy>("hier", G, hd);
      return 0;
   });
}
int mw_level(int ln, const int* ratio, int n, const int* boxes)
{
   return guard([&] { std::vector<hier::Box> b; for (int k = 0; k < n; k++) b.push_back(box(boxes + 2 * NDIM * k)); H->miniMakeLevel(ln, hier::IntVector(dim(), ratio), b); return 0; });
}
// kind 0 cell, 1 side, 2 node, 3 cell of int
int mw_var(const char* name, int kind, int depth, const int* g)
{
   return guard([&] {
      std::shared_ptr<hier::Variable> v;
      if (kind == 0) v = std::make_shared<pdat::CellVariable<double>>(dim(), name, depth);
      else if (kind == 1) v = std::make_shared<pdat::SideVariable<double>>(dim(), name, depth);
      else if (kind == 2) v = std::make_shared<pdat::NodeVariable<double>>(dim(), name, depth);
      else v = std::make_shared<pdat::CellVariable<int>>(dim(), name, depth);
      auto* db = hier::VariableDatabase::getDatabase();
      int id = db->registerVariableAndContext(v, db->getContext("CURRENT"), hier::IntVector(dim(), g));
      for (int l = 0; l < H->getNumberOfLevels(); l++) H->getPatchLevel(l)->allocatePatchData(id, 0.);
      return id;
   });
}
int mw_nlevels() { return H ? H->getNumberOfLevels() : 0; }
int mw_npatches(int ln) { return H->getPatchLevel(ln)->getLocalNumberOfPatches(); }
int mw_patchbox(int ln, int pn, int* b) { auto p = H->getPatchLevel(ln)->getPatch(pn); for (int k = 0; k < NDIM; k++) { b[k] = p->getBox().lower(k); b[NDIM + k] = p->getBox().upper(k); } return 0; }
int mw_nvars() { return (int)hier::VariableDatabase::getDatabase()->e.size(); }
const char* mw_varname(int id) { auto& e = hier::VariableDatabase::getDatabase()->e[id]; static std::string s; s = e.v ? e.v->getName() + "/" + e.c->getName() : ""; return s.c_str(); }
void* mw_ptr(int id, int ln, int pn, int array, int* b, int* depth, int* arrays, int* size)
{
   auto p = H->getPatchLevel(ln)->getPatch(pn);
   if (!p->checkAllocated(id)) return nullptr;
   auto q = p->getPatchData(id);
   *arrays = q->miniArrays(); *depth = q->miniDepth(); *size = (int)q->miniSize();
   hier::Box x = q->miniBox(array);
   for (int k = 0; k < NDIM; k++) { b[k] = x.lower(k); b[NDIM + k] = x.upper(k); }
   return q->miniPtr(array);
}
}
