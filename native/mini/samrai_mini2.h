// Second part of the stand-in: data transfer, boundary conditions, vectors.
#ifndef SAMRAI_MINI2_H
#define SAMRAI_MINI2_H
namespace SAMRAI {
namespace xfer {
class RefinePatchStrategy {
 public:
   RefinePatchStrategy() {}
   virtual ~RefinePatchStrategy() {}
   virtual void setPhysicalBoundaryConditions(hier::Patch&, const double, const hier::IntVector&) = 0;
   virtual hier::IntVector getRefineOpStencilWidth(const tbox::Dimension&) const = 0;
   virtual void preprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) = 0;
   virtual void postprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) = 0;
   virtual void preprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const hier::IntVector&) {}
   virtual void postprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const hier::IntVector&) {}
};
class CoarsenPatchStrategy { public: virtual ~CoarsenPatchStrategy() {} };
class VariableFillPattern { public: virtual ~VariableFillPattern() {} };
class PatchLevelFillPattern { public: virtual ~PatchLevelFillPattern() {} virtual int kind() const { return 0; } };
class PatchLevelFullFillPattern : public PatchLevelFillPattern {};
class PatchLevelBorderFillPattern : public PatchLevelFillPattern {};
class PatchLevelInteriorFillPattern : public PatchLevelFillPattern { public: int kind() const override { return 1; } };
typedef hier::BaseGridGeometry Geometry;

struct Item { int dst, src, scr; std::shared_ptr<hier::RefineOperator> op; std::shared_ptr<hier::CoarsenOperator> cop; };

class RefineSchedule {
 public:
   RefineSchedule(const std::vector<Item>& it, const std::shared_ptr<hier::PatchLevel>& dst, const std::shared_ptr<hier::PatchLevel>& src,
                  int coarser, const std::shared_ptr<hier::PatchHierarchy>& h, RefinePatchStrategy* s)
       : items(it), dst(dst), src(src), coarser(coarser), h(h), strategy(s) {}
   void fillData(double time, bool physical = true) const
   {
      for (auto& p : dst->patches) {
         for (const Item& m : items) {
            std::shared_ptr<hier::PatchData> sd = p->getPatchData(m.scr), dd = p->getPatchData(m.dst);
            assert(sd && dd);
            fillBox(*p, *sd, m, p->getBox(), true);
         }
         hier::IntVector g(tbox::Dimension(NDIM), 0);
         for (const Item& m : items) g.max(p->getPatchData(m.scr)->getGhostCellWidth());
         if (physical && strategy) strategy->setPhysicalBoundaryConditions(*p, time, g);
         for (const Item& m : items) if (m.scr != m.dst) p->getPatchData(m.dst)->copy(*p->getPatchData(m.scr));
         for (const Item& m : items) p->getPatchData(m.dst)->setTime(time);
      }
   }
   void reset(const std::shared_ptr<void>&) {}
   std::shared_ptr<hier::PatchLevel> getDestinationLevel() const { return dst; }
 private:
   // fills the ghost box of sd: same-level data (periodic images included), then coarse data where there is none
   void fillBox(hier::Patch& p, hier::PatchData& sd, const Item& m, const hier::Box& interior, bool) const
   {
      hier::Box gb = sd.getGhostBox();
      hier::BoxContainer todo(gb);
      const hier::IntVector zero(tbox::Dimension(NDIM), 0);
      hier::IntVector ratio = dst->getRatioToLevelZero();
      hier::IntVector per = dst->geometry ? dst->geometry->getPeriodicShift(ratio) : zero;
      std::vector<hier::IntVector> shifts(1, zero);
      for (int d = 0; d < NDIM; d++) if (per[d]) { size_t n = shifts.size(); for (size_t k = 0; k < n; k++) for (int s = -1; s < 2; s += 2) { hier::IntVector t(shifts[k]); t[d] += s * per[d]; shifts.push_back(t); } }
      if (src) {
         // ghost values first, then the patch's own interior, as sides on the patch boundary belong to the patch itself
         std::vector<std::pair<std::shared_ptr<hier::PatchData>, hier::IntVector>> self;
         for (const hier::IntVector& s : shifts)
            for (auto& q : src->patches) {
               hier::Box o = hier::Box::shift(q->getBox(), s) * gb;
               if (o.empty()) continue;
               std::shared_ptr<hier::PatchData> qd = q->getPatchData(m.src);
               if (s == zero && q->getBox() == interior) { self.push_back({qd, s}); todo.removeIntersections(o); continue; }
               if (qd.get() == &sd && s == zero) { todo.removeIntersections(o); continue; }
               hier::PatchData* from = qd.get(); std::shared_ptr<hier::PatchData> tmp;
               sd.miniCopyBox(*from, o, s);
               todo.removeIntersections(o);
            }
         for (auto& s : self) if (s.first.get() != &sd) sd.miniCopyBox(*s.first, interior, s.second);
      }
      if (coarser < 0 || !h || !m.op) return;
      // what is left inside the domain comes from the next coarser level
      hier::Box dom = hier::Box::refine(dst->geometry->getPhysicalDomain().getBoundingBox(), ratio);
      hier::Box lim(dom); for (int d = 0; d < NDIM; d++) if (per[d]) lim.grow(d, gb.numberCells(d));
      todo.intersectBoxes(lim);
      if (todo.empty()) return;
      std::shared_ptr<hier::PatchLevel> cl = h->getPatchLevel(coarser);
      hier::IntVector r = dst->getRatioToLevelZero() / cl->getRatioToLevelZero();
      hier::Box cb = hier::Box::coarsen(todo.getBoundingBox(), r);
      // temporary coarse patch with ghosts, filled recursively
      auto tl = std::make_shared<hier::PatchLevel>();
      tl->ln = coarser; tl->ratio0 = cl->ratio0; tl->ratio = cl->ratio; tl->geometry = cl->geometry; tl->domain = cl->domain;
      auto tp = std::make_shared<hier::Patch>(cb, coarser, 0);
      auto cg = std::dynamic_pointer_cast<geom::CartesianGridGeometry>(cl->geometry);
      tp->setPatchGeometry(cg->miniPatchGeometry(cb, cl->ratio0));
      tl->patches.push_back(tp);
      for (const Item& n : items) if (!tp->checkAllocated(n.scr)) tp->allocatePatchData(n.scr);
      std::vector<Item> its; for (Item n : items) { n.dst = n.scr; its.push_back(n); }
      RefineSchedule rs(its, tl, cl, coarser - 1, h, strategy);
      rs.fillData(0., true);
      if (strategy) { hier::Box fb = todo.getBoundingBox(); strategy->preprocessRefine(p, *tp, fb, r); }
      doRefine(p, *tp, m, todo, r);
      if (strategy) for (const hier::Box& fb : todo) strategy->postprocessRefine(p, *tp, fb, r);
   }
   static void doRefine(hier::Patch& p, hier::Patch& c, const Item& m, const hier::BoxContainer& todo, const hier::IntVector& r)
   {
      if (p.getPatchData(m.scr)->miniArrays() == 1) { pdat::CellOverlap o(todo, hier::IntVector(tbox::Dimension(NDIM), 0)); m.op->refine(p, c, m.scr, m.scr, o, r); }
      else {
         std::vector<hier::BoxContainer> bs;
         for (int k = 0; k < NDIM; k++) { hier::BoxContainer x; for (hier::Box b : todo) { b.setUpper(k, b.upper(k) + 1); x.pushBack(b); } bs.push_back(x); }
         pdat::SideOverlap o(bs); m.op->refine(p, c, m.scr, m.scr, o, r);
      }
   }
 public:
   std::vector<Item> items; std::shared_ptr<hier::PatchLevel> dst, src; int coarser; std::shared_ptr<hier::PatchHierarchy> h; RefinePatchStrategy* strategy;
};
class RefineAlgorithm {
 public:
   RefineAlgorithm() {}
   void resetSchedule(const std::shared_ptr<RefineSchedule>& s) const { s->items = items; }
   void registerRefine(int d, int s, int scr, const std::shared_ptr<hier::RefineOperator>& op, const std::shared_ptr<VariableFillPattern>& = std::shared_ptr<VariableFillPattern>()) { items.push_back(Item{d, s, scr, op, nullptr}); }
   typedef std::shared_ptr<hier::PatchLevel> L; typedef std::shared_ptr<hier::PatchHierarchy> H; typedef std::shared_ptr<RefineSchedule> R; typedef RefinePatchStrategy* S;
   R createSchedule(const L& l, S s = nullptr) const { return std::make_shared<RefineSchedule>(items, l, l, -1, H(), s); }
   R createSchedule(const L& d, const L& f, S s = nullptr) const { return std::make_shared<RefineSchedule>(items, d, f, -1, H(), s); }
   R createSchedule(const L& l, int c, const H& h, S s = nullptr) const { return std::make_shared<RefineSchedule>(items, l, l, c, h, s); }
   R createSchedule(const L& d, const L& f, int c, const H& h, S s = nullptr) const { return std::make_shared<RefineSchedule>(items, d, f, c, h, s); }
   template <class P> R createSchedule(const std::shared_ptr<P>& p, const L& d, const L& f, S s = nullptr, typename std::enable_if<std::is_base_of<PatchLevelFillPattern, P>::value>::type* = 0) const { (void)p; return createSchedule(d, f, s); }
   template <class P> R createSchedule(const std::shared_ptr<P>& p, const L& d, const L& f, int c, const H& h, S s = nullptr, typename std::enable_if<std::is_base_of<PatchLevelFillPattern, P>::value>::type* = 0) const { (void)p; return createSchedule(d, f, c, h, s); }
 private:
   std::vector<Item> items;
};
class CoarsenSchedule {
 public:
   CoarsenSchedule(const std::vector<Item>& it, const std::shared_ptr<hier::PatchLevel>& c, const std::shared_ptr<hier::PatchLevel>& f) : items(it), c(c), f(f) {}
   void coarsenData() const
   {
      hier::IntVector r = f->getRatioToLevelZero() / c->getRatioToLevelZero();
      for (auto& cp : c->patches) for (auto& fp : f->patches) {
         hier::Box b = hier::Box::coarsen(fp->getBox(), r) * cp->getBox();
         if (b.empty()) continue;
         for (const Item& m : items) {
            assert(m.cop);
            m.cop->coarsen(*cp, *fp, m.dst, m.src, b, r);
         }
      }
   }
 public:
   std::vector<Item> items; std::shared_ptr<hier::PatchLevel> c, f;
};
class CoarsenAlgorithm {
 public:
   explicit CoarsenAlgorithm(const tbox::Dimension&, bool = false) {}
   void registerCoarsen(int d, int s, const std::shared_ptr<hier::CoarsenOperator>& op) { items.push_back(Item{d, s, d, nullptr, op}); }
   void resetSchedule(const std::shared_ptr<CoarsenSchedule>& s) const { s->items = items; }
   template <class... A> std::shared_ptr<CoarsenSchedule> createSchedule(const std::shared_ptr<hier::PatchLevel>& c, const std::shared_ptr<hier::PatchLevel>& f, A...) const { return std::make_shared<CoarsenSchedule>(items, c, f); }
 private:
   std::vector<Item> items;
};
}  // namespace xfer

namespace geom {
// average of fine cells / fine sides
template <class T> class MiniConservativeCoarsen : public hier::CoarsenOperator {
 public:
   MiniConservativeCoarsen() : CoarsenOperator("CONSERVATIVE_COARSEN") {}
   int getOperatorPriority() const override { return 0; }
   hier::IntVector getStencilWidth(const tbox::Dimension& d) const override { return hier::IntVector(d, 0); }
   void coarsen(hier::Patch& c, const hier::Patch& f, const int dst, const int src, const hier::Box& cb, const hier::IntVector& r) const override
   {
      auto cd = c.getPatchData(dst), fd = f.getPatchData(src);
      if (auto fc = std::dynamic_pointer_cast<pdat::CellData<T>>(fd)) {
         auto cc = std::dynamic_pointer_cast<pdat::CellData<T>>(cd);
         for (const hier::Index& i : cb) for (int d = 0; d < cc->getDepth(); d++) {
            T s = 0; hier::Box fb(i, i, 0); fb.refine(r);
            for (const hier::Index& k : fb) s += (*fc)(pdat::CellIndex(k), d);
            (*cc)(pdat::CellIndex(i), d) = s / T(r.getProduct());
         }
         return;
      }
      auto cs = std::dynamic_pointer_cast<pdat::SideData<T>>(cd);
      auto fs = std::dynamic_pointer_cast<pdat::SideData<T>>(fd);
      auto fo = std::dynamic_pointer_cast<pdat::OutersideData<T>>(fd);
      assert(cs && (fs || fo));
      for (int a = 0; a < NDIM; a++) for (int side = 0; side < (fo ? 2 : 1); side++) {
         hier::Box sb = pdat::SideGeometry::toSideBox(cb, a) * cs->getArrayData(a).getBox();
         for (const hier::Index& i : sb) {
            hier::Box fb(i, i, 0); fb.refine(r); fb.setUpper(a, fb.lower(a));
            if (fo && !fo->getArrayData(a, side).getBox().contains(fb)) continue;
            for (int d = 0; d < cs->getDepth(); d++) {
               T s = 0;
               for (const hier::Index& k : fb) s += fs ? fs->getArrayData(a)(k, d) : fo->getArrayData(a, side)(k, d);
               cs->getArrayData(a)(i, d) = s * T(r[a]) / T(r.getProduct());
            }
         }
      }
   }
};
template <class T> class MiniConstantRefine : public hier::RefineOperator {
 public:
   explicit MiniConstantRefine(const std::string& n = "CONSTANT_REFINE") : RefineOperator(n) {}
   int getOperatorPriority() const override { return 0; }
   hier::IntVector getStencilWidth(const tbox::Dimension& d) const override { return hier::IntVector(d, 0); }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const hier::BoxOverlap& o, const hier::IntVector& r) const override
   {
      auto fd = std::dynamic_pointer_cast<pdat::CellData<T>>(f.getPatchData(dst)); auto cd = std::dynamic_pointer_cast<pdat::CellData<T>>(c.getPatchData(src));
      assert(fd && cd);
      for (const hier::Box& b : dynamic_cast<const pdat::CellOverlap&>(o).getDestinationBoxContainer()) for (const hier::Index& i : b)
         for (int d = 0; d < fd->getDepth(); d++) (*fd)(pdat::CellIndex(i), d) = (*cd)(pdat::CellIndex(hier::Index::coarsen(i, r)), d);
   }
};
// linear interpolation of cell data (LINEAR_REFINE; also used for CONSERVATIVE_LINEAR_REFINE with central slopes)
template <class T> class MiniLinearRefine : public hier::RefineOperator {
 public:
   explicit MiniLinearRefine(const std::string& n) : RefineOperator(n) {}
   int getOperatorPriority() const override { return 0; }
   hier::IntVector getStencilWidth(const tbox::Dimension& d) const override { return hier::IntVector(d, 1); }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const hier::BoxOverlap& o, const hier::IntVector& r) const override
   {
      auto fd = std::dynamic_pointer_cast<pdat::CellData<T>>(f.getPatchData(dst)); auto cd = std::dynamic_pointer_cast<pdat::CellData<T>>(c.getPatchData(src));
      assert(fd && cd);
      const hier::Box& g = cd->getGhostBox();
      for (const hier::Box& b : dynamic_cast<const pdat::CellOverlap&>(o).getDestinationBoxContainer()) for (const hier::Index& i : b)
         for (int d = 0; d < fd->getDepth(); d++) {
            hier::Index ci = hier::Index::coarsen(i, r);
            T v = (*cd)(pdat::CellIndex(ci), d);
            for (int a = 0; a < NDIM; a++) {
               double x = (i[a] - ci[a] * r[a] + .5) / r[a] - .5;
               hier::Index n(ci); n[a] += x < 0 ? -1 : 1;
               if (!g.contains(n)) continue;
               v += T(std::abs(x)) * ((*cd)(pdat::CellIndex(n), d) - (*cd)(pdat::CellIndex(ci), d));
            }
            (*fd)(pdat::CellIndex(i), d) = v;
         }
   }
};
inline void miniAddOperators(hier::BaseGridGeometry& g)
{
   auto addc = [&](auto m, auto okf) { g.cops.push_back({[=](const std::shared_ptr<hier::Variable>& v, const std::string& n) { return n == "CONSERVATIVE_COARSEN" && v && okf(v); }, [=](const std::shared_ptr<hier::Variable>&) { return m; }}); };
   addc(std::make_shared<MiniConservativeCoarsen<double>>(), [](const std::shared_ptr<hier::Variable>& v) { return std::dynamic_pointer_cast<pdat::CellVariable<double>>(v) || std::dynamic_pointer_cast<pdat::SideVariable<double>>(v) || std::dynamic_pointer_cast<pdat::OutersideVariable<double>>(v); });
   auto addr = [&](std::shared_ptr<hier::RefineOperator> m, auto okf) { g.rops.push_back({[=](const std::shared_ptr<hier::Variable>& v, const std::string& n) { return n == m->getOperatorName() && v && okf(v); }, [=](const std::shared_ptr<hier::Variable>&) { return m; }}); };
   auto isd = [](const std::shared_ptr<hier::Variable>& v) { return (bool)std::dynamic_pointer_cast<pdat::CellVariable<double>>(v); };
   auto isi = [](const std::shared_ptr<hier::Variable>& v) { return (bool)std::dynamic_pointer_cast<pdat::CellVariable<int>>(v); };
   addr(std::make_shared<MiniConstantRefine<double>>(), isd);
   addr(std::make_shared<MiniConstantRefine<int>>(), isi);
   addr(std::make_shared<MiniLinearRefine<double>>("LINEAR_REFINE"), isd);
   addr(std::make_shared<MiniLinearRefine<double>>("CONSERVATIVE_LINEAR_REFINE"), isd);
}
}  // namespace geom
namespace pdat { typedef geom::MiniConstantRefine<double> CellDoubleConstantRefine; }

namespace solv {
class RobinBcCoefStrategy {
 public:
   virtual ~RobinBcCoefStrategy() {}
   virtual void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& a, const std::shared_ptr<pdat::ArrayData<double>>& b, const std::shared_ptr<pdat::ArrayData<double>>& g, const std::shared_ptr<hier::Variable>& v, const hier::Patch& p, const hier::BoundaryBox& bb, double time = 0.) const = 0;
   virtual hier::IntVector numberOfExtensionsFillable() const = 0;
};
class LocationIndexRobinBcCoefs : public RobinBcCoefStrategy {
 public:
   LocationIndexRobinBcCoefs(const tbox::Dimension&, const std::string& n, const std::shared_ptr<tbox::Database>& db) : n(n)
   {
      for (int i = 0; i < 2 * NDIM; i++) { a[i] = b[i] = g[i] = tbox::MathUtilities<double>::getSignalingNaN(); }
      if (!db) return;
      for (int i = 0; i < 2 * NDIM; i++) {
         std::string k = "boundary_" + std::to_string(i);
         if (!db->isString(k)) continue;
         std::vector<std::string> s = db->getStringVector(k);
         if (s[0] == "value") setBoundaryValue(i, atof(s[1].c_str()));
         else if (s[0] == "slope") setBoundarySlope(i, atof(s[1].c_str()));
         else if (s[0] == "coefficients") setRawCoefficients(i, atof(s[1].c_str()), atof(s[2].c_str()), atof(s[3].c_str()));
         else TBOX_ERROR("bad boundary specifier " << s[0]);
      }
   }
   const std::string& getObjectName() const { return n; }
   void setBoundaryValue(int i, double v) { a[i] = 1; b[i] = 0; g[i] = v; }
   void setBoundarySlope(int i, double v) { a[i] = 0; b[i] = 1; g[i] = v; }
   void setRawCoefficients(int i, double x, double y, double z) { a[i] = x; b[i] = y; g[i] = z; }
   void getCoefficients(int i, double& x, double& y, double& z) const { x = a[i]; y = b[i]; z = g[i]; }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& A, const std::shared_ptr<pdat::ArrayData<double>>& B, const std::shared_ptr<pdat::ArrayData<double>>& G, const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox& bb, double = 0.) const override
   { int l = bb.getLocationIndex(); if (A) A->fillAll(a[l]); if (B) B->fillAll(b[l]); if (G) G->fillAll(g[l]); }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1000); }
 private:
   std::string n; double a[2 * NDIM], b[2 * NDIM], g[2 * NDIM];
};
class SimpleCellRobinBcCoefs : public RobinBcCoefStrategy {
 public:
   SimpleCellRobinBcCoefs(const tbox::Dimension&, const std::string& = "") {}
   void setHierarchy(const std::shared_ptr<hier::PatchHierarchy>&, int = -1, int = -1) {}
   void setBoundaries(const std::string& t, int = -1, int = -1, int* = 0) { type = t; }
   template <class... A> void restoreDirichletData(A...) {} void setDiffusionCoefConstant(double) {} void setDiffusionCoefId(int) {} void cacheDirichletData(int) {} void copyCachedDirichletData(int) {}
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& A, const std::shared_ptr<pdat::ArrayData<double>>& B, const std::shared_ptr<pdat::ArrayData<double>>& G, const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox&, double = 0.) const override
   { bool d = type == "Dirichlet"; if (A) A->fillAll(d); if (B) B->fillAll(!d); if (G) G->fillAll(0.); }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1000); }
   std::string type;
};
class GhostCellRobinBcCoefs : public RobinBcCoefStrategy {
 public:
   GhostCellRobinBcCoefs(const tbox::Dimension&, const std::string& = "") {}
   void setGhostDataId(int, const hier::IntVector&) {}
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& A, const std::shared_ptr<pdat::ArrayData<double>>& B, const std::shared_ptr<pdat::ArrayData<double>>& G, const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox&, double = 0.) const override
   { if (A) A->fillAll(1.); if (B) B->fillAll(0.); if (G) G->fillAll(0.); }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1000); }
};
// fills ghost cells beyond the physical boundary from a*u + b*du/dn = g on the sides; edges and corners by averages of
// the neighbouring ghosts' linear extrapolation (SAMRAI's helper fills them linearly)
class CartesianRobinBcHelper : public xfer::RefinePatchStrategy {
 public:
   CartesianRobinBcHelper(const tbox::Dimension&, const std::string& = "", RobinBcCoefStrategy* s = 0) : s(s) {}
   void setTargetDataId(int i) { ids.clear(); ids.insert(i); }
   void setCoefImplementation(const RobinBcCoefStrategy* c) { s = c; }
   void setHomogeneousBc(bool b) { hom = b; }
   void setBoundaryValuesInCells(hier::Patch& p, double t, const hier::IntVector& w, int id, bool homogeneous = false) const
   {
      auto d = std::dynamic_pointer_cast<pdat::CellData<double>>(p.getPatchData(id));
      auto pg = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      const hier::Box& b = p.getBox();
      std::shared_ptr<hier::Variable> var; hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, var);
      for (const hier::BoundaryBox& bb : pg->getCodimensionBoundaries(1)) {
         int l = bb.getLocationIndex(), a = l / 2, up = l % 2;
         hier::Box sb(bb.getBox()); int s0 = up ? b.upper(a) + 1 : b.lower(a); sb.setLower(a, s0); sb.setUpper(a, s0);
         hier::IntVector ext = s->numberOfExtensionsFillable();
         for (int k = 0; k < NDIM; k++) if (k != a) {
            // where the boundary continues past the patch, so do the ghost cells
            int e = std::min(ext[k], d->getGhostCellWidth()[k]);
            if (sb.lower(k) < b.lower(k)) sb.setLower(k, b.lower(k) - e);
            if (sb.upper(k) > b.upper(k)) sb.setUpper(k, b.upper(k) + e);
         }
         auto A = std::make_shared<pdat::ArrayData<double>>(sb, 1), B = std::make_shared<pdat::ArrayData<double>>(sb, 1), G = std::make_shared<pdat::ArrayData<double>>(sb, 1);
         s->setBcCoefs(A, B, G, var, p, bb, t);
         double h = pg->getDx()[a];
         for (const hier::Index& i : sb) for (int q = 0; q < d->getDepth(); q++) for (int m = 0; m < std::min(w[a], d->getGhostCellWidth()[a]); m++) {
            hier::Index in(i), gh(i); in[a] = up ? b.upper(a) - m : b.lower(a) + m; gh[a] = up ? b.upper(a) + 1 + m : b.lower(a) - 1 - m;
            if (in[a] < b.lower(a) || in[a] > b.upper(a)) in[a] = up ? b.lower(a) : b.upper(a);
            double x = h * (2 * m + 1), al = (*A)(i, 0), be = (*B)(i, 0), ga = hom || homogeneous ? 0. : (*G)(i, 0), ui = (*d)(pdat::CellIndex(in), q);
            // al*(ui+ug)/2 + be*(ug-ui)/x = ga
            (*d)(pdat::CellIndex(gh), q) = (ga - ui * (al / 2 - be / x)) / (al / 2 + be / x);
         }
      }
      for (int c = 2; c <= NDIM; c++) for (const hier::BoundaryBox& bb : pg->getCodimensionBoundaries(c)) {
         hier::Box fb = pg->getBoundaryFillBox(bb, b, w) * d->getGhostBox();
         for (const hier::Index& i : fb) for (int q = 0; q < d->getDepth(); q++) {
            hier::Index in(i); int n = 0;
            for (int k = 0; k < NDIM; k++) { if (in[k] < b.lower(k)) in[k] = b.lower(k); if (in[k] > b.upper(k)) in[k] = b.upper(k); }
            double u = (*d)(pdat::CellIndex(in), q), v = u;
            for (int k = 0; k < NDIM; k++) if (i[k] != in[k] && (bb.getBox().lower(k) < b.lower(k) || bb.getBox().upper(k) > b.upper(k))) { hier::Index j(in); j[k] = i[k]; v += (*d)(pdat::CellIndex(j), q) - u; n++; }
            (*d)(pdat::CellIndex(i), q) = v;
         }
      }
   }
   void setBoundaryValuesInCells(const std::shared_ptr<hier::PatchLevel>& l, double t, const hier::IntVector& w, int id, bool h = false) const { for (auto& p : l->patches) setBoundaryValuesInCells(*p, t, w, id, h); }
   void setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector& w) override { for (int i : ids) setBoundaryValuesInCells(p, t, w, i, hom); }
   hier::IntVector getRefineOpStencilWidth(const tbox::Dimension& d) const override { return hier::IntVector(d, 0); }
   void preprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) override {}
   void postprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) override {}
 private:
   std::set<int> ids; const RobinBcCoefStrategy* s; bool hom = false;
};
template <class T> class SAMRAIVectorReal {
 public:
   SAMRAIVectorReal(const std::string& n, const std::shared_ptr<hier::PatchHierarchy>& h, int c, int f) : n(n), h(h), c(c), f(f) {}
   virtual ~SAMRAIVectorReal() {}
   void addComponent(const std::shared_ptr<hier::Variable>& v, int id, int vol = -1) { e.push_back(E{v, id, vol}); }
   int getNumberOfComponents() const { return (int)e.size(); }
   int getComponentDescriptorIndex(int i) const { return e[i].id; }
   int getControlVolumeIndex(int i) const { return e[i].vol; }
   std::shared_ptr<hier::PatchData> getComponentPatchData(int i, const hier::Patch& p) const { return p.getPatchData(e[i].id); }
   std::shared_ptr<hier::Variable> getComponentVariable(int i) const { return e[i].v; }
   std::shared_ptr<hier::PatchHierarchy> getPatchHierarchy() const { return h; }
   int getCoarsestLevelNumber() const { return c; }
   int getFinestLevelNumber() const { return f; }
   const std::string& getName() const { return n; }
   std::shared_ptr<SAMRAIVectorReal> cloneVector(const std::string& nm) const { auto r = std::make_shared<SAMRAIVectorReal>(nm, h, c, f); for (auto& x : e) r->addComponent(x.v, hier::VariableDatabase::getDatabase()->registerClonedPatchDataIndex(x.v, x.id), x.vol); return r; }
   void allocateVectorData(double t = 0.) { for (auto& x : e) for (int l = c; l <= f; l++) h->getPatchLevel(l)->allocatePatchData(x.id, t); }
   void deallocateVectorData() { for (auto& x : e) for (int l = c; l <= f; l++) h->getPatchLevel(l)->deallocatePatchData(x.id); }
   void freeVectorComponents() { deallocateVectorData(); e.clear(); }
   void resetLevels(int a, int b) { c = a; f = b; }
   typedef math::HierarchyDataOps<T, pdat::CellData<T>> O;
   O ops() const { return O(h, c, f); }
   void setToScalar(const T& a, bool i = true) { for (auto& x : e) ops().setToScalar(x.id, a, i); }
   void copyVector(const std::shared_ptr<SAMRAIVectorReal>& s, bool i = true) { for (size_t k = 0; k < e.size(); k++) ops().copyData(e[k].id, s->e[k].id, i); }
   void scale(const T& a, const std::shared_ptr<SAMRAIVectorReal>& s, bool i = true) { for (size_t k = 0; k < e.size(); k++) ops().scale(e[k].id, a, s->e[k].id, i); }
   void linearSum(const T& a, const std::shared_ptr<SAMRAIVectorReal>& s, const T& b, const std::shared_ptr<SAMRAIVectorReal>& t, bool i = true) { for (size_t k = 0; k < e.size(); k++) ops().linearSum(e[k].id, a, s->e[k].id, b, t->e[k].id, i); }
   void add(const std::shared_ptr<SAMRAIVectorReal>& s, const std::shared_ptr<SAMRAIVectorReal>& t, bool i = true) { linearSum(1, s, 1, t, i); }
   void subtract(const std::shared_ptr<SAMRAIVectorReal>& s, const std::shared_ptr<SAMRAIVectorReal>& t, bool i = true) { linearSum(1, s, -1, t, i); }
   void axpy(const T& a, const std::shared_ptr<SAMRAIVectorReal>& s, const std::shared_ptr<SAMRAIVectorReal>& t, bool i = true) { linearSum(a, s, 1, t, i); }
   double dot(const SAMRAIVectorReal& s, bool = false) const { double r = 0; for (size_t k = 0; k < e.size(); k++) r += ops().dot(e[k].id, s.e[k].id, e[k].vol); return r; }
   double L2Norm(bool = false) const { return std::sqrt(dot(*this)); }
   double L1Norm(bool = false) const { double r = 0; for (auto& x : e) r += ops().L1Norm(x.id, x.vol); return r; }
   double maxNorm() const { double r = 0; for (auto& x : e) r = std::max(r, ops().maxNorm(x.id)); return r; }
   double RMSNorm() const { double n = 0; for (auto& x : e) n += x.vol >= 0 ? ops().sumControlVolumes(x.id, x.vol) : ops().entries(x.id); return L2Norm() / std::sqrt(n); }
 private:
   struct E { std::shared_ptr<hier::Variable> v; int id, vol; };
   std::string n; std::shared_ptr<hier::PatchHierarchy> h; int c, f; std::vector<E> e;
};
class FACPreconditioner;
class FACOperatorStrategy {
 public:
   virtual ~FACOperatorStrategy() {}
   virtual void restrictSolution(const SAMRAIVectorReal<double>&, SAMRAIVectorReal<double>&, int) = 0;
   virtual void restrictResidual(const SAMRAIVectorReal<double>&, SAMRAIVectorReal<double>&, int) = 0;
   virtual void prolongErrorAndCorrect(const SAMRAIVectorReal<double>&, SAMRAIVectorReal<double>&, int) = 0;
   virtual void smoothError(SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, int, int) = 0;
   virtual int solveCoarsestLevel(SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, int) = 0;
   virtual void computeCompositeResidualOnLevel(SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, int, bool) = 0;
   virtual double computeResidualNorm(const SAMRAIVectorReal<double>&, int, int) = 0;
   virtual void initializeOperatorState(const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&) {}
   virtual void deallocateOperatorState() {}
   virtual void postprocessOneCycle(int, const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&) {}
};
class CellPoissonFACOps;
class CellPoissonFACSolver;
}  // namespace solv
namespace appu { class VisItDataWriter { public: template <class... A> VisItDataWriter(A...) {}
   template <class... A> void registerPlotQuantity(const std::string& n, const std::string& t, int id, A... a) { int k[] = {0, (int)a...}; q.push_back({n, t, id, sizeof...(a) ? k[1] : 0}); }
   template <class... A> void registerDerivedPlotQuantity(A...) {}
   // the stand-in notes every dump, and any quantity without data on a level
   template <class H> void writePlotData(const std::shared_ptr<H>& h, int n, double t)
   {
      int miss = 0; std::string who;
      for (int ln = 0; ln < h->getNumberOfLevels(); ln++) for (auto& x : q) for (auto& p : *h->getPatchLevel(ln)) if (!p->checkAllocated(x.id)) { miss++; who += " " + x.name; break; }
      std::ostringstream o; o.precision(17); o << "@visit " << n << " " << t << " " << q.size() << " " << miss << who << "\n"; tbox::pout << o.str();
   }
   struct Q { std::string name, type; int id, depth; }; std::vector<Q> q;
}; class VisDerivedDataStrategy {}; }
namespace mesh {
class StandardTagAndInitStrategy {
 public:
   virtual ~StandardTagAndInitStrategy() {}
   typedef std::shared_ptr<hier::PatchHierarchy> H; typedef std::shared_ptr<hier::PatchLevel> L;
   virtual void initializeLevelData(const H& h, const int ln, const double t, const bool can_be_refined, const bool initial, const L& old = L(), const bool alloc = true) = 0;
   virtual void resetHierarchyConfiguration(const H& h, const int c, const int f) = 0;
   virtual void applyGradientDetector(const H&, const int, const double, const int, const bool, const bool) {}
   virtual void setTimes(double, double) {}
};
class TagAndInitializeStrategy { public: StandardTagAndInitStrategy* s = nullptr; void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>& h, int c, int f) { s->resetHierarchyConfiguration(h, c, f); } };
class StandardTagAndInitialize : public TagAndInitializeStrategy { public: StandardTagAndInitialize(const std::string&, StandardTagAndInitStrategy* p, const std::shared_ptr<tbox::Database>&) { s = p; } };
class BergerRigoutsos { public: explicit BergerRigoutsos(const tbox::Dimension&) {} };
class TreeLoadBalancer { public: TreeLoadBalancer(const tbox::Dimension&, const std::string&) {} void setSAMRAI_MPI(const tbox::SAMRAI_MPI&) {} };
class GriddingAlgorithm {
 public:
   typedef std::shared_ptr<hier::PatchHierarchy> H; typedef std::shared_ptr<tbox::Database> D;
   GriddingAlgorithm(const H& h, const std::string&, const D& db, const std::shared_ptr<StandardTagAndInitialize>& s, const std::shared_ptr<BergerRigoutsos>&, const std::shared_ptr<TreeLoadBalancer>&) : h(h), s(s)
   { for (int d = 0; d < NDIM; d++) largest[d] = 1 << 20; if (db && db->isDatabase("largest_patch_size")) { auto l = db->getDatabase("largest_patch_size"); if (l->keyExists("level_0")) { std::vector<int> v = l->getIntegerVector("level_0"); for (int d = 0; d < NDIM; d++) largest[d] = v[d]; } } }
   std::shared_ptr<TagAndInitializeStrategy> getTagAndInitializeStrategy() const { return s; }
   void makeCoarsestLevel(double t)
   {
      if (!plans().empty() && plans().front().boxes.count(0)) {
         auto l = h->miniMakeLevel(0, hier::IntVector(tbox::Dimension(NDIM), 1), plans().front().boxes[0]);
         s->s->initializeLevelData(h, 0, t, false, true, std::shared_ptr<hier::PatchLevel>(), true);
         s->s->resetHierarchyConfiguration(h, 0, 0);
         return;
      }
      std::list<hier::Box> bs; for (const hier::Box& b : h->geometry->getPhysicalDomain()) bs.push_back(b);
      for (auto i = bs.begin(); i != bs.end(); ++i) for (int d = 0; d < NDIM; d++) while (i->numberCells(d) > largest[d]) { hier::Box r(*i); r.setLower(d, i->lower(d) + largest[d]); i->setUpper(d, i->lower(d) + largest[d] - 1); bs.push_back(r); }
      auto l = h->miniMakeLevel(0, hier::IntVector(tbox::Dimension(NDIM), 1), std::vector<hier::Box>(bs.begin(), bs.end()));
      s->s->initializeLevelData(h, 0, t, false, true, std::shared_ptr<hier::PatchLevel>(), true);
      s->s->resetHierarchyConfiguration(h, 0, 0);
   }
   // fine levels are made of the boxes the observer asked for (in index space of the fine level)
   struct Plan { std::map<int, std::vector<hier::Box>> boxes; };
   static std::list<Plan>& plans() { static std::list<Plan> p; return p; }
   void makeFinerLevel(int, bool initial, int, double t)
   {
      if (plans().empty()) return;
      int ln = h->getFinestLevelNumber() + 1; auto& b = plans().front().boxes;
      if (!b.count(ln) || ln >= h->getMaxNumberOfLevels()) return;
      h->miniMakeLevel(ln, h->getRatioToCoarserLevel(ln), b[ln]);
      s->s->initializeLevelData(h, ln, t, h->levelCanBeRefined(ln), initial, std::shared_ptr<hier::PatchLevel>(), true);
      s->s->resetHierarchyConfiguration(h, ln, ln);
   }
   void regridAllFinerLevels(int base, const std::vector<int>&, int, double t)
   {
      if (plans().size() > 1) plans().pop_front();
      if (plans().empty()) return;
      auto& b = plans().front().boxes;
      for (int ln = base + 1; ln < h->getMaxNumberOfLevels(); ln++) {
         std::shared_ptr<hier::PatchLevel> old; hier::IntVector r = h->getRatioToCoarserLevel(ln);
         if (h->levelExists(ln)) old = h->getPatchLevel(ln);
         if (!b.count(ln)) { h->levels.resize(ln); break; }
         h->miniMakeLevel(ln, r, b[ln]);
         s->s->initializeLevelData(h, ln, t, h->levelCanBeRefined(ln), false, old, true);
      }
      s->s->resetHierarchyConfiguration(h, base + 1 <= h->getFinestLevelNumber() ? base + 1 : base, h->getFinestLevelNumber());
   }
 private:
   H h; std::shared_ptr<StandardTagAndInitialize> s; hier::IntVector largest;
};
}
namespace hier {
inline std::shared_ptr<PatchLevel> miniLevel(int ln, const IntVector& ratio0, const IntVector& ratio, const std::vector<Box>& boxes, const std::shared_ptr<BaseGridGeometry>& g)
{
   auto l = std::make_shared<PatchLevel>(); auto cg = std::dynamic_pointer_cast<geom::CartesianGridGeometry>(g);
   l->ln = ln; l->ratio0 = ratio0; l->ratio = ratio; l->geometry = g;
   for (const Box& b : g->getPhysicalDomain()) l->domain.pushBack(Box::refine(b, ratio0));
   l->blevel->ratio = ratio0;
   for (const Box& b : boxes) {
      int k = (int)l->patches.size(); auto p = std::make_shared<Patch>(Box(b, LocalId(k), 0), ln, k);
      p->setPatchGeometry(cg->miniPatchGeometry(b, ratio0)); l->patches.push_back(p); l->blevel->addBox(Box(b, LocalId(k), 0));
   }
   return l;
}
inline std::shared_ptr<PatchLevel> PatchHierarchy::miniMakeLevel(int ln, const IntVector& ratio, const std::vector<Box>& boxes)
{
   IntVector r0(tbox::Dimension(NDIM), 1); if (ln) r0 = levels[ln - 1]->ratio0 * ratio;
   auto l = miniLevel(ln, r0, ratio, boxes, geometry);
   if (ln < (int)levels.size()) levels[ln] = l; else levels.push_back(l);
   return l;
}
struct MiniSaved { struct L { IntVector ratio; std::vector<Box> boxes; std::vector<std::map<std::string, std::shared_ptr<PatchData>>> data; }; std::vector<L> l; };
inline std::string miniName(int id) { auto& e = VariableDatabase::getDatabase()->e[id]; return e.v->getName() + "/" + e.c->getName(); }
inline void PatchHierarchy::miniRegister()
{
   tbox::RestartManager::getManager()->saveHierarchy = [this]() -> std::shared_ptr<void> {
      auto s = std::make_shared<MiniSaved>();
      for (auto& l : levels) {
         MiniSaved::L x; x.ratio = l->ratio;
         for (auto& p : l->patches) {
            x.boxes.push_back(p->getBox()); x.data.emplace_back();
            for (int id : PatchDataRestartManager::getManager()->s) if (p->checkAllocated(id)) {
               auto& e = VariableDatabase::getDatabase()->e[id];
               auto d = e.v->make(p->getBox(), e.g); auto from = p->getPatchData(id);
               for (int k = 0; k < d->miniArrays(); k++) { Box b = d->miniBox(k); memcpy(d->miniPtr(k), from->miniPtr(k), b.size() * d->miniDepth() * d->miniSize()); }
               d->setTime(from->getTime());
               x.data.back()[miniName(id)] = d;
            }
         }
         s->l.push_back(x);
      }
      return s;
   };
}
inline PatchHierarchy::~PatchHierarchy() { tbox::RestartManager::getManager()->saveHierarchy = nullptr; }
inline void PatchHierarchy::initializeHierarchy()
{
   auto* rm = tbox::RestartManager::getManager();
   if (!rm->from || !rm->restored) return;
   MiniSaved& s = *(MiniSaved*)rm->restored.get();
   for (size_t ln = 0; ln < s.l.size(); ln++) {
      auto l = miniMakeLevel((int)ln, s.l[ln].ratio, s.l[ln].boxes);
      for (size_t k = 0; k < l->patches.size(); k++) for (int id : PatchDataRestartManager::getManager()->s) {
         auto f = s.l[ln].data[k].find(miniName(id));
         if (f == s.l[ln].data[k].end()) TBOX_ERROR("no data for " << miniName(id) << " in the restart file");
         l->patches[k]->allocatePatchData(id, f->second->getTime());
         auto d = l->patches[k]->getPatchData(id);
         for (int a = 0; a < d->miniArrays(); a++) memcpy(d->miniPtr(a), f->second->miniPtr(a), d->miniBox(a).size() * d->miniDepth() * d->miniSize());
      }
   }
}
inline PatchLevel::PatchLevel(const BoxLevel& b, const std::shared_ptr<BaseGridGeometry>& g, const std::shared_ptr<PatchDescriptor>&)
{ *this = *miniLevel(0, b.ratio, IntVector(tbox::Dimension(NDIM), 1), std::vector<Box>(b.b.begin(), b.b.end()), g); }
// boxes of ghost cells just outside a patch that lie neither in the level nor outside the domain
inline CoarseFineBoundary::CoarseFineBoundary(const PatchHierarchy& h, int ln, const IntVector&)
{
   auto level = h.getPatchLevel(ln);
   IntVector per = level->geometry ? level->geometry->getPeriodicShift(level->getRatioToLevelZero()) : IntVector();
   Box dom = Box::refine(level->geometry->getPhysicalDomain().getBoundingBox(), level->getRatioToLevelZero());
   for (auto& p : level->patches) {
      auto& out = b[p->getPatchNumber()];
      if (ln == 0) continue;
      const Box& box = p->getBox(); IntVector o; int n = 1; for (int d = 0; d < NDIM; d++) n *= 3;
      for (int m = 0; m < n; m++) {
         int x = m, codim = 0; for (int d = 0; d < NDIM; d++) { o[d] = x % 3 - 1; x /= 3; if (o[d]) codim++; }
         if (!codim) continue;
         Box r(box); int loc = 0;
         for (int d = 0; d < NDIM; d++) { if (o[d] < 0) { r.setUpper(d, box.lower(d) - 1); r.setLower(d, box.lower(d) - 1); } if (o[d] > 0) { r.setLower(d, box.upper(d) + 1); r.setUpper(d, box.upper(d) + 1); } }
         if (codim == 1) { for (int d = 0; d < NDIM; d++) if (o[d]) loc = 2 * d + (o[d] > 0); }
         else if (codim == NDIM) { for (int d = NDIM - 1; d >= 0; d--) loc = 2 * loc + (o[d] > 0); }
         else { int z = 0; for (int d = 0; d < NDIM; d++) if (!o[d]) z = d; int a = z == 0 ? 1 : 0, c = z == 2 ? 1 : 2; loc = 4 * z + (o[a] > 0) + 2 * (o[c % NDIM] > 0); }
         BoxContainer left(r); Box lim(dom); for (int d = 0; d < NDIM; d++) if (per[d]) lim.grow(d, 1);
         left.intersectBoxes(lim);
         std::vector<IntVector> shifts(1, IntVector());
         for (int d = 0; d < NDIM; d++) if (per[d]) { size_t k = shifts.size(); for (size_t j = 0; j < k; j++) for (int s = -1; s < 2; s += 2) { IntVector t(shifts[j]); t[d] += s * per[d]; shifts.push_back(t); } }
         for (auto& q : level->patches) for (auto& s : shifts) left.removeIntersections(Box::shift(q->getBox(), s));
         for (const Box& l : left) out[codim].push_back(BoundaryBox(l, codim, loc));
      }
   }
}
}
}  // namespace SAMRAI
#endif
