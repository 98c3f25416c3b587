// The part of HYPRE AMPE uses: structured-grid matrices and vectors; every solver is the conjugate gradient method run to convergence.
#include "world.h"
#include "HYPRE_struct_ls.h"
#include "HYPRE_sstruct_ls.h"
#include <array>
#include <map>
#include <cmath>
namespace {
typedef std::array<int, 3> I3;
struct Grid { int nd; std::vector<std::pair<I3, I3>> boxes; int per[3] = {0, 0, 0}; std::map<I3, int> at; I3 lo, hi; };
struct Stencil { int nd; std::vector<I3> off; };
struct Graph { Grid* g; Stencil* s = nullptr; };
struct Matrix { Grid* g; Stencil* s; bool sym = false; std::vector<std::vector<double>> v; };
struct Vector { Grid* g; std::vector<double> v; };
struct Solver { double tol = 1e-6, res = -1; int maxit = 200, its = 0; };
void assemble(Grid* g)
{
   g->at.clear(); g->lo = {1 << 30, 1 << 30, 1 << 30}; g->hi = {-(1 << 30), -(1 << 30), -(1 << 30)};
   for (auto& b : g->boxes) {
      I3 i;
      for (int d = 0; d < 3; d++) { g->lo[d] = std::min(g->lo[d], b.first[d]); g->hi[d] = std::max(g->hi[d], b.second[d]); }
      for (i[2] = b.first[2]; i[2] <= b.second[2]; i[2]++) for (i[1] = b.first[1]; i[1] <= b.second[1]; i[1]++) for (i[0] = b.first[0]; i[0] <= b.second[0]; i[0]++)
         { if (g->at.count(i)) throw MiniError("HYPRE grid with overlapping boxes"); int n = (int)g->at.size(); g->at[i] = n; }
   }
}
int find(Grid* g, I3 i)
{
   for (int d = 0; d < 3; d++) if (g->per[d]) { int n = g->per[d]; while (i[d] < g->lo[d]) i[d] += n; while (i[d] > g->hi[d]) i[d] -= n; }
   auto p = g->at.find(i);
   return p == g->at.end() ? -1 : p->second;
}
struct Sparse { int n; std::vector<std::vector<std::pair<int, double>>> r; };
Sparse rows(Matrix* m)
{
   Sparse s; s.n = (int)m->g->at.size(); s.r.resize(s.n);
   for (auto& p : m->g->at) for (size_t e = 0; e < m->s->off.size(); e++) {
      I3 j = p.first; bool c = true;
      for (int d = 0; d < 3; d++) { j[d] += m->s->off[e][d]; c = c && m->s->off[e][d] == 0; }
      int q = find(m->g, j); double a = m->v[e][p.second];
      if (q < 0) continue;
      s.r[p.second].push_back({q, a});
      if (m->sym && !c) s.r[q].push_back({p.second, a});
   }
   return s;
}
void mult(const Sparse& s, const std::vector<double>& x, std::vector<double>& y) { y.assign(s.n, 0.); for (int i = 0; i < s.n; i++) for (auto& p : s.r[i]) y[i] += p.second * x[p.first]; }
double dot(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
int solve(Solver* S, Matrix* A, Vector* b, Vector* x)
{
   Sparse s = rows(A); int n = s.n;
   std::vector<double> r(n), p, q, t, one(n, 1.), bb = b->v, best = x->v, dg(n, 0.);
   for (int i = 0; i < n; i++) for (auto& e : s.r[i]) if (e.first == i) dg[i] += e.second;
   double big = 0; for (double d : dg) big = std::max(big, std::fabs(d));
   mult(s, one, t); double nul = 0; for (double d : t) nul = std::max(nul, std::fabs(d));
   if (nul <= 1e-12 * big) { double m = dot(bb, one) / n; for (double& d : bb) d -= m; }
   double bn = std::sqrt(dot(bb, bb)); if (bn == 0.) bn = 1.;
   mult(s, x->v, t); for (int i = 0; i < n; i++) r[i] = bb[i] - t[i];
   std::vector<double> z(n), xx = x->v;
   auto pre = [&] { for (int i = 0; i < n; i++) z[i] = dg[i] != 0. ? r[i] / dg[i] : r[i]; };
   pre(); p = z; double rz = dot(r, z), bestn = std::sqrt(dot(r, r)); int it = 0;
   for (; it < 20 * n + 50 && bestn > 1e-14 * bn && rz != 0.; it++) {
      mult(s, p, q); double pq = dot(p, q); if (pq == 0. || pq != pq) break;
      double a = rz / pq;
      for (int i = 0; i < n; i++) { xx[i] += a * p[i]; r[i] -= a * q[i]; }
      double rn = std::sqrt(dot(r, r)); if (rn < bestn) { bestn = rn; best = xx; }
      pre(); double r2 = dot(r, z), be = r2 / rz; rz = r2; for (int i = 0; i < n; i++) p[i] = z[i] + be * p[i];
   }
   x->v = best; mult(s, best, t); double e = 0; for (int i = 0; i < n; i++) e += (bb[i] - t[i]) * (bb[i] - t[i]);
   S->res = std::sqrt(e) / bn; S->its = std::min(it, std::max(1, S->maxit));
   return 0;
}
template <class F> void each(Grid* g, const int* lo, const int* up, F f)
{
   I3 i{0, 0, 0}; int l[3] = {lo[0], lo[1], g->nd > 2 ? lo[2] : 0}, u[3] = {up[0], up[1], g->nd > 2 ? up[2] : 0}; size_t n = 0;
   for (i[2] = l[2]; i[2] <= u[2]; i[2]++) for (i[1] = l[1]; i[1] <= u[1]; i[1]++) for (i[0] = l[0]; i[0] <= u[0]; i[0]++) { auto p = g->at.find(i); if (p == g->at.end()) throw MiniError("HYPRE box values outside the grid"); f(p->second, n++); }
}
Grid* G(void* p) { return (Grid*)p; } Matrix* M(void* p) { return (Matrix*)p; } Vector* V(void* p) { return (Vector*)p; } Solver* S(void* p) { return (Solver*)p; }
}  // namespace
typedef HYPRE_Int H; typedef HYPRE_Real D;
extern "C" {
H HYPRE_StructGridCreate(MPI_Comm, H nd, HYPRE_StructGrid* g) { auto* x = new Grid; x->nd = nd; *g = (HYPRE_StructGrid)x; return 0; }
H HYPRE_StructGridDestroy(HYPRE_StructGrid g) { delete G(g); return 0; }
H HYPRE_StructGridSetExtents(HYPRE_StructGrid g, H* lo, H* up) { I3 a{lo[0], lo[1], G(g)->nd > 2 ? lo[2] : 0}, b{up[0], up[1], G(g)->nd > 2 ? up[2] : 0}; G(g)->boxes.push_back({a, b}); return 0; }
H HYPRE_StructGridSetPeriodic(HYPRE_StructGrid g, H* p) { for (int d = 0; d < G(g)->nd; d++) G(g)->per[d] = p[d]; return 0; }
H HYPRE_StructGridAssemble(HYPRE_StructGrid g) { assemble(G(g)); return 0; }
H HYPRE_StructStencilCreate(H nd, H n, HYPRE_StructStencil* s) { auto* x = new Stencil; x->nd = nd; x->off.assign(n, I3{0, 0, 0}); *s = (HYPRE_StructStencil)x; return 0; }
H HYPRE_StructStencilSetElement(HYPRE_StructStencil s, H e, H* o) { auto* x = (Stencil*)s; for (int d = 0; d < x->nd; d++) x->off[e][d] = o[d]; return 0; }
H HYPRE_StructStencilDestroy(HYPRE_StructStencil s) { delete (Stencil*)s; return 0; }
H HYPRE_StructMatrixCreate(MPI_Comm, HYPRE_StructGrid g, HYPRE_StructStencil s, HYPRE_StructMatrix* m) { auto* x = new Matrix; x->g = G(g); x->s = (Stencil*)s; *m = (HYPRE_StructMatrix)x; return 0; }
H HYPRE_StructMatrixDestroy(HYPRE_StructMatrix m) { delete M(m); return 0; }
H HYPRE_StructMatrixSetNumGhost(HYPRE_StructMatrix, H*) { return 0; }
H HYPRE_StructMatrixSetSymmetric(HYPRE_StructMatrix m, H s) { M(m)->sym = s; return 0; }
H HYPRE_StructMatrixInitialize(HYPRE_StructMatrix m) { M(m)->v.assign(M(m)->s->off.size(), std::vector<double>(M(m)->g->at.size(), std::nan(""))); return 0; }
H HYPRE_StructMatrixAssemble(HYPRE_StructMatrix m) { for (auto& a : M(m)->v) for (double d : a) if (d != d) throw MiniError("HYPRE matrix with an entry that is not a number"); return 0; }
H HYPRE_StructMatrixPrint(const char*, HYPRE_StructMatrix, H) { return 0; }
H HYPRE_StructMatrixSetBoxValues(HYPRE_StructMatrix m, H* lo, H* up, H ne, H* e, HYPRE_Complex* v)
{ each(M(m)->g, lo, up, [&](int c, size_t n) { for (int k = 0; k < ne; k++) M(m)->v[e[k]][c] = v[n * ne + k]; }); return 0; }
H HYPRE_StructVectorCreate(MPI_Comm, HYPRE_StructGrid g, HYPRE_StructVector* v) { auto* x = new Vector; x->g = G(g); *v = (HYPRE_StructVector)x; return 0; }
H HYPRE_StructVectorDestroy(HYPRE_StructVector v) { delete V(v); return 0; }
H HYPRE_StructVectorSetNumGhost(HYPRE_StructVector, H*) { return 0; }
H HYPRE_StructVectorInitialize(HYPRE_StructVector v) { V(v)->v.assign(V(v)->g->at.size(), std::nan("")); return 0; }
H HYPRE_StructVectorAssemble(HYPRE_StructVector) { return 0; }
H HYPRE_StructVectorPrint(const char*, HYPRE_StructVector, H) { return 0; }
H HYPRE_StructVectorSetBoxValues(HYPRE_StructVector v, H* lo, H* up, HYPRE_Complex* a) { each(V(v)->g, lo, up, [&](int c, size_t n) { V(v)->v[c] = a[n]; }); return 0; }
H HYPRE_StructVectorGetBoxValues(HYPRE_StructVector v, H* lo, H* up, HYPRE_Complex* a) { each(V(v)->g, lo, up, [&](int c, size_t n) { a[n] = V(v)->v[c]; }); return 0; }
H HYPRE_StructVectorSetConstantValues(HYPRE_StructVector v, HYPRE_Complex c) { for (double& d : V(v)->v) d = c; return 0; }
#define SOLVER(K)                                                                                                                     \
   H HYPRE_Struct##K##Create(MPI_Comm, HYPRE_StructSolver* s) { *s = (HYPRE_StructSolver) new Solver; return 0; }                     \
   H HYPRE_Struct##K##Destroy(HYPRE_StructSolver s) { delete S(s); return 0; }                                                        \
   H HYPRE_Struct##K##Setup(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector) { return 0; }             \
   H HYPRE_Struct##K##Solve(HYPRE_StructSolver s, HYPRE_StructMatrix a, HYPRE_StructVector b, HYPRE_StructVector x) { return solve(S(s), M(a), V(b), V(x)); }
#define OPT(K)                                                                                                                        \
   H HYPRE_Struct##K##SetTol(HYPRE_StructSolver s, D t) { S(s)->tol = t; return 0; }                                                  \
   H HYPRE_Struct##K##SetMaxIter(HYPRE_StructSolver s, H n) { S(s)->maxit = n; return 0; }                                            \
   H HYPRE_Struct##K##SetLogging(HYPRE_StructSolver, H) { return 0; }                                                                 \
   H HYPRE_Struct##K##SetPrintLevel(HYPRE_StructSolver, H) { return 0; }                                                              \
   H HYPRE_Struct##K##GetNumIterations(HYPRE_StructSolver s, H* n) { *n = S(s)->its; return 0; }                                      \
   H HYPRE_Struct##K##GetFinalRelativeResidualNorm(HYPRE_StructSolver s, D* r) { *r = S(s)->res; return 0; }
#define RELAX(K)                                                                                                                      \
   H HYPRE_Struct##K##SetNumPreRelax(HYPRE_StructSolver, H) { return 0; }                                                             \
   H HYPRE_Struct##K##SetNumPostRelax(HYPRE_StructSolver, H) { return 0; }
SOLVER(PCG) OPT(PCG) SOLVER(PFMG) OPT(PFMG) RELAX(PFMG) SOLVER(SMG) OPT(SMG) RELAX(SMG) SOLVER(CycRed)
H HYPRE_StructPFMGSetZeroGuess(HYPRE_StructSolver) { return 0; }
H HYPRE_StructSMGSetMemoryUse(HYPRE_StructSolver, H) { return 0; }
H HYPRE_StructPCGSetPrecond(HYPRE_StructSolver, HYPRE_PtrToStructSolverFcn, HYPRE_PtrToStructSolverFcn, HYPRE_StructSolver) { return 0; }
// semi-structured interface with a single part
H HYPRE_SStructGridCreate(MPI_Comm c, H nd, H, HYPRE_SStructGrid* g) { return HYPRE_StructGridCreate(c, nd, (HYPRE_StructGrid*)g); }
H HYPRE_SStructGridDestroy(HYPRE_SStructGrid g) { return HYPRE_StructGridDestroy((HYPRE_StructGrid)g); }
H HYPRE_SStructGridSetExtents(HYPRE_SStructGrid g, H, H* lo, H* up) { return HYPRE_StructGridSetExtents((HYPRE_StructGrid)g, lo, up); }
H HYPRE_SStructGridSetPeriodic(HYPRE_SStructGrid g, H, H* p) { return HYPRE_StructGridSetPeriodic((HYPRE_StructGrid)g, p); }
H HYPRE_SStructGridSetVariables(HYPRE_SStructGrid, H, H, HYPRE_SStructVariable*) { return 0; }
H HYPRE_SStructGridAssemble(HYPRE_SStructGrid g) { return HYPRE_StructGridAssemble((HYPRE_StructGrid)g); }
H HYPRE_SStructStencilCreate(H nd, H n, HYPRE_SStructStencil* s) { return HYPRE_StructStencilCreate(nd, n, (HYPRE_StructStencil*)s); }
H HYPRE_SStructStencilSetEntry(HYPRE_SStructStencil s, H e, H* o, H) { return HYPRE_StructStencilSetElement((HYPRE_StructStencil)s, e, o); }
H HYPRE_SStructStencilDestroy(HYPRE_SStructStencil s) { return HYPRE_StructStencilDestroy((HYPRE_StructStencil)s); }
H HYPRE_SStructGraphCreate(MPI_Comm, HYPRE_SStructGrid g, HYPRE_SStructGraph* r) { auto* x = new Graph; x->g = G(g); *r = (HYPRE_SStructGraph)x; return 0; }
H HYPRE_SStructGraphDestroy(HYPRE_SStructGraph g) { delete (Graph*)g; return 0; }
H HYPRE_SStructGraphSetObjectType(HYPRE_SStructGraph, H) { return 0; }
H HYPRE_SStructGraphSetStencil(HYPRE_SStructGraph g, H, H, HYPRE_SStructStencil s) { ((Graph*)g)->s = (Stencil*)s; return 0; }
H HYPRE_SStructGraphAssemble(HYPRE_SStructGraph) { return 0; }
H HYPRE_SStructMatrixCreate(MPI_Comm c, HYPRE_SStructGraph g, HYPRE_SStructMatrix* m) { auto* x = (Graph*)g; return HYPRE_StructMatrixCreate(c, (HYPRE_StructGrid)x->g, (HYPRE_StructStencil)x->s, (HYPRE_StructMatrix*)m); }
H HYPRE_SStructMatrixDestroy(HYPRE_SStructMatrix m) { return HYPRE_StructMatrixDestroy((HYPRE_StructMatrix)m); }
H HYPRE_SStructMatrixSetSymmetric(HYPRE_SStructMatrix m, H, H, H, H s) { return HYPRE_StructMatrixSetSymmetric((HYPRE_StructMatrix)m, s); }
H HYPRE_SStructMatrixSetObjectType(HYPRE_SStructMatrix, H t) { if (t != HYPRE_STRUCT) throw MiniGap("HYPRE object type is not available"); return 0; }
H HYPRE_SStructMatrixInitialize(HYPRE_SStructMatrix m) { return HYPRE_StructMatrixInitialize((HYPRE_StructMatrix)m); }
H HYPRE_SStructMatrixAssemble(HYPRE_SStructMatrix m) { return HYPRE_StructMatrixAssemble((HYPRE_StructMatrix)m); }
H HYPRE_SStructMatrixGetObject(HYPRE_SStructMatrix m, void** o) { *o = m; return 0; }
H HYPRE_SStructMatrixPrint(const char*, HYPRE_SStructMatrix, H) { return 0; }
H HYPRE_SStructMatrixSetBoxValues(HYPRE_SStructMatrix m, H, H* lo, H* up, H, H ne, H* e, HYPRE_Complex* v) { return HYPRE_StructMatrixSetBoxValues((HYPRE_StructMatrix)m, lo, up, ne, e, v); }
H HYPRE_SStructVectorCreate(MPI_Comm c, HYPRE_SStructGrid g, HYPRE_SStructVector* v) { return HYPRE_StructVectorCreate(c, (HYPRE_StructGrid)g, (HYPRE_StructVector*)v); }
H HYPRE_SStructVectorDestroy(HYPRE_SStructVector v) { return HYPRE_StructVectorDestroy((HYPRE_StructVector)v); }
H HYPRE_SStructVectorSetObjectType(HYPRE_SStructVector, H) { return 0; }
H HYPRE_SStructVectorInitialize(HYPRE_SStructVector v) { return HYPRE_StructVectorInitialize((HYPRE_StructVector)v); }
H HYPRE_SStructVectorAssemble(HYPRE_SStructVector) { return 0; }
H HYPRE_SStructVectorGather(HYPRE_SStructVector) { return 0; }
H HYPRE_SStructVectorGetObject(HYPRE_SStructVector v, void** o) { *o = v; return 0; }
H HYPRE_SStructVectorPrint(const char*, HYPRE_SStructVector, H) { return 0; }
H HYPRE_SStructVectorSetBoxValues(HYPRE_SStructVector v, H, H* lo, H* up, H, HYPRE_Complex* a) { return HYPRE_StructVectorSetBoxValues((HYPRE_StructVector)v, lo, up, a); }
H HYPRE_SStructVectorGetBoxValues(HYPRE_SStructVector v, H, H* lo, H* up, H var, HYPRE_Complex* a) { (void)var; return HYPRE_StructVectorGetBoxValues((HYPRE_StructVector)v, lo, up, a); }
}
