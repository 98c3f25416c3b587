// Drives the whole program: the real QuatModel and everything below it, on the stand-ins.
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <fstream>
#include <iostream>
#include <sstream>
#include "world.h"
#define private public
#define protected public
#include "QuatModel.h"
#include "QuatIntegrator.h"
#undef private
#undef protected
#include "CVODESolver.h"
using namespace mw;
static std::unique_ptr<QuatModel> model;
static std::ostringstream text;
static std::string textcopy;
static void link()
{
   H = model->d_patch_hierarchy; G = model->d_grid_geometry;
}
struct Capture {
   std::streambuf *a, *b, *c, *e;
   Capture() { a = tbox::pout.rdbuf(text.rdbuf()); b = std::cout.rdbuf(text.rdbuf()); c = tbox::perr.rdbuf(text.rdbuf()); e = std::cerr.rdbuf(text.rdbuf()); }
   ~Capture() { tbox::pout.rdbuf(a); std::cout.rdbuf(b); tbox::perr.rdbuf(c); std::cerr.rdbuf(e); }
};
extern "C" const char* model_text() { textcopy = text.str(); text.str(""); return textcopy.c_str(); }
// s = input deck; i = [qlen, restart number (< 0: none)]; d = [step of the explicit integrator]
GLUE(model_new)
{
   Capture cap;
   model.reset(); H.reset(); G.reset();
   auto in = std::make_shared<tbox::MemoryDatabase>("input_db");
   tbox::InputManager::getManager()->parseInputString(s, in);
   CVODESolver::step() = d[0];
   model.reset(new QuatModel(i[0]));
   model->Initialize(in, "run", i[1] >= 0, "r.run", i[1]);
   link();
   return 0;
}
GLUE(model_free) { Capture cap; model.reset(); H.reset(); G.reset(); return 0; }
GLUE(model_run) { Capture cap; CVODESolver::marks() = true; model->Run(); CVODESolver::marks() = false; link(); return 0; }
GLUE(model_pre) { Capture cap; model->preRunDiagnostics(); return 0; }
// one cycle of the main loop without its output
GLUE(model_cycle)
{
   Capture cap;
   CVODESolver::step() = d[0];
   model->d_cycle++;
   od[0] = model->Advance(); model->d_previous_timestep = od[0];
   link();
   return 0;
}
GLUE(model_diag) { Capture cap; model->printScalarDiagnostics(); return 0; }
GLUE(model_regrid) { Capture cap; model->Regrid(model->d_patch_hierarchy); link(); return 0; }
GLUE(model_restart_write) { Capture cap; model->writeRestartFile(); return 0; }
// restart files between processes: all that is in the snapshot of cycle i[0] of run directory s, to or from file restart.bin
struct Blob : hier::PatchData {
   std::vector<std::vector<char>> a;
   Blob() : hier::PatchData(hier::Box(tbox::Dimension(NDIM)), hier::IntVector(tbox::Dimension(NDIM), 0)) {}
   void copy(const hier::PatchData&) override {} void miniCopyBox(const hier::PatchData&, const hier::Box&, const hier::IntVector&) override {}
   int miniArrays() const override { return a.size(); } void* miniPtr(int k) override { return a[k].data(); } hier::Box miniBox(int) const override { return getBox(); }
   int miniDepth() const override { return 1; } size_t miniSize() const override { return 1; }
};
struct Wire {
   std::fstream f;
   void raw(void* p, size_t n, bool out) { if (out) f.write((char*)p, n); else f.read((char*)p, n); }
   void num(int& n, bool out) { raw(&n, sizeof n, out); }
   void str(std::string& x, bool out) { int n = x.size(); num(n, out); if (!out) x.resize(n); if (n) raw(&x[0], n, out); }
   void db(tbox::Database& d, bool out)
   {
      int n = d.order.size(); num(n, out);
      for (int k = 0; k < n; k++) {
         std::string key = out ? d.order[k] : ""; str(key, out);
         int t = out ? d.m[key].t : 0; num(t, out);
         if (t == tbox::Database::SAMRAI_DATABASE) { db(out ? *d.getDatabase(key) : *d.putDatabase(key), out); continue; }
         int c = out ? (int)d.getArraySize(key) : 0; num(c, out);
         if (t == tbox::Database::SAMRAI_DOUBLE) { std::vector<double> v(c); if (out) v = d.getDoubleVector(key); raw(v.data(), c * sizeof(double), out); if (!out) d.putDoubleVector(key, v); }
         else if (t == tbox::Database::SAMRAI_INT) { std::vector<int> v(c); if (out) v = d.getIntegerVector(key); raw(v.data(), c * sizeof(int), out); if (!out) d.putIntegerVector(key, v); }
         else if (t == tbox::Database::SAMRAI_BOOL) { std::vector<bool> v(c); if (out) v = d.getBoolVector(key); for (int j = 0; j < c; j++) { int b = v[j]; num(b, out); v[j] = b; } if (!out) d.putBoolVector(key, v); }
         else if (t == tbox::Database::SAMRAI_STRING) { std::vector<std::string> v(c); if (out) v = d.getStringVector(key); for (auto& x : v) str(x, out); if (!out) d.putStringVector(key, v); }
         else TBOX_ERROR("restart: type of " << key);
      }
   }
   void snap(tbox::RestartManager::Snap& x, bool out)
   {
      if (!out) { x.root = std::make_shared<tbox::MemoryDatabase>("restart"); x.hierarchy = std::make_shared<hier::MiniSaved>(); }
      db(*x.root, out);
      auto& h = *(hier::MiniSaved*)x.hierarchy.get();
      int nl = h.l.size(); num(nl, out); h.l.resize(nl);
      for (auto& l : h.l) {
         for (int k = 0; k < NDIM; k++) { int r = out ? l.ratio[k] : 0; num(r, out); if (!out) l.ratio[k] = r; }
         int nb = l.boxes.size(); num(nb, out);
         if (!out) l.data.resize(nb);
         for (int b = 0; b < nb; b++) {
            int lo[3], hi[3];
            if (out) for (int k = 0; k < NDIM; k++) { lo[k] = l.boxes[b].lower(k); hi[k] = l.boxes[b].upper(k); }
            for (int k = 0; k < NDIM; k++) { num(lo[k], out); num(hi[k], out); }
            if (!out) { hier::Index a(tbox::Dimension(NDIM)), e(tbox::Dimension(NDIM)); for (int k = 0; k < NDIM; k++) { a[k] = lo[k]; e[k] = hi[k]; } l.boxes.push_back(hier::Box(a, e, hier::BlockId(0))); }
            int nd = l.data[b].size(); num(nd, out);
            auto it = l.data[b].begin();
            for (int q = 0; q < nd; q++) {
               std::string nm = out ? it->first : ""; str(nm, out);
               std::shared_ptr<Blob> blob;
               double t = out ? it->second->getTime() : 0.; raw(&t, sizeof t, out);
               int na = out ? it->second->miniArrays() : 0; num(na, out);
               if (!out) { blob = std::make_shared<Blob>(); blob->setTime(t); }
               for (int k = 0; k < na; k++) {
                  int n = 0; if (out) n = it->second->miniBox(k).size() * it->second->miniDepth() * it->second->miniSize();
                  num(n, out);
                  if (out) raw(it->second->miniPtr(k), n, true);
                  else { blob->a.emplace_back(n); raw(blob->a.back().data(), n, false); }
               }
               if (out) ++it; else l.data[b][nm] = blob;
            }
         }
      }
   }
};
static int move(const char* s, int n, bool out)
{
   auto* rm = tbox::RestartManager::getManager();
   std::string key = std::string(s) + "#" + std::to_string(n);
   if (out && !rm->files.count(key)) return 1;
   Wire w; w.f.open(("restart." + std::to_string(n) + ".bin").c_str(), std::ios::binary | (out ? std::ios::out | std::ios::trunc : std::ios::in));
   if (!w.f) return 2;
   w.snap(rm->files[key], out);
   return w.f.good() ? 0 : 3;
}
GLUE(model_restart_save) { return move(s, i[0], true); }
GLUE(model_restart_load) { return move(s, i[0], false); }
// events of one interval; s: input; i = [first, last, n, then per step: kind (0 start, 1 step, 2 end), cycle]; d = [default, times...]; oi: what it says
GLUE(event_interval)
{
   Capture cap;
   auto in = std::make_shared<tbox::MemoryDatabase>("input_db");
   tbox::InputManager::getManager()->parseInputString(s, in);
   EventInterval e(in, "It", d[0], i[3] ? "time" : "step", i[0], i[1]);
   oi[0] = e.isActive();
   for (int k = 0; k < i[2]; k++) {
      int kind = i[4 + 2 * k], n = i[5 + 2 * k]; double t = d[1 + k];
      oi[1 + k] = kind == 0 ? e.includeInitial(t) : kind == 1 ? e.hasIntervalPassed(n, t) : e.includeFinal(t);
      oi[1 + k] += 2 * e.eventOccurredAtTime(t);
   }
   return 0;
}
GLUE(model_info)
{
   od[0] = model->d_time; od[1] = model->d_previous_timestep; oi[0] = model->d_cycle; oi[1] = model->d_patch_hierarchy->getNumberOfLevels();
   return 0;
}
// right-hand side at a copy of the state; oi: number of components, then per component the ids of y, y_dot and the current data
static std::shared_ptr<solv::SAMRAIVectorReal<double>> ry, rd;
GLUE(model_rhs)
{
   Capture cap;
   CVODESolver* c = model->d_integrator->d_sundials_solver;
   auto y = c->y->v;
   if (!i[0] || !ry) { ry = y->cloneVector("obs_y"); ry->allocateVectorData(); rd = y->cloneVector("obs_yd"); rd->allocateVectorData(); }
   ry->setToScalar(std::numeric_limits<double>::quiet_NaN(), false);
   rd->setToScalar(std::numeric_limits<double>::quiet_NaN(), false);
   ry->copyVector(y);
   SundialsAbstractVector a, b; a.v = ry; b.v = rd;
   oi[0] = y->getNumberOfComponents();
   for (int k = 0; k < oi[0]; k++) { oi[1 + 3 * k] = ry->getComponentDescriptorIndex(k); oi[2 + 3 * k] = rd->getComponentDescriptorIndex(k); oi[3 + 3 * k] = y->getComponentDescriptorIndex(k); }
   int r = i[1] ? c->f->evaluateJTimesRHSFunction(d[0], &a, &b) : c->f->evaluateRHSFunction(d[0], &a, &b);
   oi[20] = r;
   return 0;
}
// preconditioner at a copy of the state. i[0] = 0: make the vectors, oi: number of components, then per component the ids of residual and solution;
// 1: set it up for gamma = d[1] and apply it with tolerance d[2]; oi: return codes of setup and application, and the flag of the setup
static std::shared_ptr<solv::SAMRAIVectorReal<double>> py, pf, pr, pz;
GLUE(model_precond)
{
   Capture cap;
   CVODESolver* c = model->d_integrator->d_sundials_solver;
   auto y = c->y->v;
   if (!i[0]) {
      for (auto* v : {&py, &pf, &pr, &pz}) { *v = y->cloneVector("obs_p"); (*v)->allocateVectorData(); (*v)->setToScalar(std::numeric_limits<double>::quiet_NaN(), false); }
      oi[0] = y->getNumberOfComponents();
      for (int k = 0; k < oi[0]; k++) { oi[1 + 2 * k] = pr->getComponentDescriptorIndex(k); oi[2 + 2 * k] = pz->getComponentDescriptorIndex(k); }
      return 0;
   }
   SundialsAbstractVector a, f, r, z; a.v = py; f.v = pf; r.v = pr; z.v = pz;
   py->setToScalar(std::numeric_limits<double>::quiet_NaN(), false);
   pz->setToScalar(std::numeric_limits<double>::quiet_NaN(), false);
   py->copyVector(y);
   int jcur = -7;
   c->f->evaluateRHSFunction(d[0], &a, &f);
   oi[0] = c->f->CVSpgmrPrecondSet(d[0], &a, &f, 0, &jcur, d[1]);
   oi[2] = jcur;
   oi[1] = c->f->CVSpgmrPrecondSolve(d[0], &a, &f, &r, &z, d[1], d[2], i[1]);
   return 0;
}
GLUE(model_energy)
{
   Capture cap;
   model->evaluateEnergy(model->d_patch_hierarchy, d[0], od[0], od[1], od[2], od[3], od[4], od[5], od[6], i[0]);
   return 0;
}
// quantities by name
GLUE(model_value)
{
   Capture cap;
   std::string n(s); auto h = model->d_patch_hierarchy;
   auto* db = hier::VariableDatabase::getDatabase();
   (void)db;
   if (n == "conc") od[0] = model->evaluateIntegralConcentration(h, i[0]);
   else if (n == "phaseconc") od[0] = model->evaluateIntegralPhaseConcentration(h, i[0]);
   else if (n == "volume") od[0] = model->evaluateVolumeSolid(h, i[0]);
   else if (n == "fraction") od[0] = model->evaluatePhaseFraction(h, i[0], i[1]);
   else if (n == "thermal") od[0] = model->computeThermalEnergy(h);
   else if (n == "fundamental") model->makeQuatFundamental(h, d[0]);
   else if (n == "rotations") model->computeSymmetryRotations(h, d[0]);
   else if (n == "normalize") model->normalizeQuat(h, i[0]);
   else if (n == "weights") model->computeVectorWeights(h);
   else if (n == "graindiag") { model->computeGrainDiagnostics(); }
   else if (n == "extend") model->extendGrainOrientation();
   else if (n == "write") model->WriteInitialConditionsFile("observed.nc", i[0]);
   else if (n == "resetgrains") od[0] = model->resetGrains();
   else if (n == "numbergrains") { model->findAndNumberGrains(); od[0] = model->d_number_of_grains; }
   else TBOX_ERROR("unknown " << n);
   link();
   return 0;
}
// boxes of the fine levels for the next gridding steps: i = [number of plans, then per plan: number of boxes, then per box: level, lower, upper]
GLUE(model_plans)
{
   auto& p = mesh::GriddingAlgorithm::plans(); p.clear();
   int k = 0, n = i[k++];
   for (int a = 0; a < n; a++) {
      p.emplace_back(); int m = i[k++];
      for (int b = 0; b < m; b++) { int l = i[k++]; hier::Box x(hier::Index(dim(), i + k), hier::Index(dim(), i + k + NDIM), hier::BlockId(0)); k += 2 * NDIM; p.back().boxes[l].push_back(x); }
   }
   return 0;
}
