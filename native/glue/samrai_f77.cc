// The five Fortran routines of SAMRAI itself that AMPE calls: Robin boundary values of ghost cells, and constant-coefficient fluxes.
#include "world.h"
#include <cstdarg>
namespace {
struct Arr { double* p; int lo[3], hi[3]; double& operator()(const int* i) const { size_t n = 0; for (int d = NDIM - 1; d >= 0; d--) { assert(i[d] >= lo[d] && i[d] <= hi[d]); n = n * (hi[d] - lo[d] + 1) + (i[d] - lo[d]); } return p[n]; } };
// a u + b du/dn = g at the face, u = mean of the two cells
void type1(const Arr& D, const Arr& a, const Arr& b, const Arr& g, const int* lo, const int* hi, int face, int ghos, int inte, int loc, double h, int zerog)
{
   int ax = loc / 2, i[3];
   int l[3] = {lo[0], lo[1], NDIM > 2 ? lo[NDIM - 1] : 0}, u[3] = {hi[0], hi[1], NDIM > 2 ? hi[NDIM - 1] : 0};
   for (i[2] = l[2]; i[2] <= u[2]; i[2]++) for (i[1] = l[1]; i[1] <= u[1]; i[1]++) for (i[0] = l[0]; i[0] <= u[0]; i[0]++) {
      int f[3] = {i[0], i[1], i[2]}, gh[3] = {i[0], i[1], i[2]}, in[3] = {i[0], i[1], i[2]};
      f[ax] = face; gh[ax] = ghos; in[ax] = inte;
      double A = a(f), B = b(f), g0 = zerog ? 0. : g(f);
      D(gh) = (2. * h * g0 - D(in) * (h * A - 2. * B)) / (h * A + 2. * B);
   }
}
// value extrapolated linearly from the inner cell through the neighbours along the outward directions
void corner(const Arr& D, const int* lo, const int* up, const int* o)
{
   int i[3] = {0, 0, 0}, l[3] = {lo[0], lo[1], NDIM > 2 ? lo[NDIM - 1] : 0}, u[3] = {up[0], up[1], NDIM > 2 ? up[NDIM - 1] : 0};
   for (i[2] = l[2]; i[2] <= u[2]; i[2]++) for (i[1] = l[1]; i[1] <= u[1]; i[1]++) for (i[0] = l[0]; i[0] <= u[0]; i[0]++) {
      int in[3] = {i[0], i[1], i[2]};
      for (int d = 0; d < NDIM; d++) in[d] -= o[d];
      double c = D(in), v = c; int n = 0;
      for (int d = 0; d < NDIM; d++) n += o[d] != 0;
      // edges: sum of the two sides minus the inner cell; node: sum of the three adjacent edge values minus twice the inner cell
      for (int d = 0; d < NDIM; d++) if (o[d]) {
         int j[3] = {in[0], in[1], in[2]};
         if (n == 2) j[d] += o[d]; else { for (int e = 0; e < NDIM; e++) if (e != d) j[e] += o[e]; }
         v += D(j) - c;
      }
      D(i) = n == 2 ? v : v;
   }
}
// diagonal of div(D grad) + C from the couplings between cells
template <class F> void diagonal(double* diag, const double* const* off, const int* lo, const int* hi, F c, double ds)
{
   Arr D{diag, {lo[0], lo[1], lo[NDIM - 1]}, {hi[0], hi[1], hi[NDIM - 1]}};
   int i[3] = {0, 0, 0}; size_t n = 0;
   for (i[2] = NDIM > 2 ? lo[2] : 0; i[2] <= (NDIM > 2 ? hi[2] : 0); i[2]++) for (i[1] = lo[1]; i[1] <= hi[1]; i[1]++) for (i[0] = lo[0]; i[0] <= hi[0]; i[0]++) {
      double s = 0.;
      for (int d = 0; d < NDIM; d++) {
         Arr O{const_cast<double*>(off[d]), {lo[0], lo[1], lo[NDIM - 1]}, {hi[0] + (d == 0), hi[1] + (d == 1), hi[NDIM - 1] + (d == 2)}};
         if (NDIM == 2) { O.hi[2] = 0; O.lo[2] = 0; }
         int j[3] = {i[0], i[1], i[2]}; s += O(i); j[d]++; s += O(j);
      }
      D(i) = c(n++) - ds * s;
   }
}
// the ghost cell next to a boundary is (h g + u (b - h a / 2)) / (b + h a / 2)
void robin(double* diag, double* const* off, const int* plo, const int* phi, const double* a, const double* b, const int* alo, const int* ahi, double* ak0, const int* klo, const int* khi, const int* lo, const int* hi, int loc, const double* h)
{
   int ax = loc / 2, i[3] = {0, 0, 0};
   Arr A{const_cast<double*>(a), {alo[0], alo[1], alo[NDIM - 1]}, {ahi[0], ahi[1], ahi[NDIM - 1]}}, B{const_cast<double*>(b), {alo[0], alo[1], alo[NDIM - 1]}, {ahi[0], ahi[1], ahi[NDIM - 1]}},
       K{ak0, {klo[0], klo[1], klo[NDIM - 1]}, {khi[0], khi[1], khi[NDIM - 1]}}, D{diag, {plo[0], plo[1], plo[NDIM - 1]}, {phi[0], phi[1], phi[NDIM - 1]}},
       O{off[ax], {plo[0], plo[1], plo[NDIM - 1]}, {phi[0] + (ax == 0), phi[1] + (ax == 1), phi[NDIM - 1] + (ax == 2)}};
   for (i[2] = NDIM > 2 ? lo[NDIM - 1] : 0; i[2] <= (NDIM > 2 ? hi[NDIM - 1] : 0); i[2]++) for (i[1] = lo[1]; i[1] <= hi[1]; i[1]++) for (i[0] = lo[0]; i[0] <= hi[0]; i[0]++) {
      int f[3] = {i[0], i[1], i[2]}, in[3] = {i[0], i[1], i[2]};
      f[ax] = loc % 2 ? lo[ax] : hi[ax] + 1; in[ax] = loc % 2 ? lo[ax] - 1 : hi[ax] + 1;
      double den = B(f) + .5 * h[ax] * A(f);
      D(in) += (B(f) - .5 * h[ax] * A(f)) / den * O(f); K(f) = h[ax] / den * O(f); O(f) = 0.;
   }
}
void robin_rhs(double* rhs, const int* rlo, const int* rhi, const double* ak0, const int* klo, const int* khi, const double* g, const int* glo, const int* ghi, const int* lo, const int* hi, int loc)
{
   int ax = loc / 2, i[3] = {0, 0, 0};
   Arr R{rhs, {rlo[0], rlo[1], rlo[NDIM - 1]}, {rhi[0], rhi[1], rhi[NDIM - 1]}}, K{const_cast<double*>(ak0), {klo[0], klo[1], klo[NDIM - 1]}, {khi[0], khi[1], khi[NDIM - 1]}}, G{const_cast<double*>(g), {glo[0], glo[1], glo[NDIM - 1]}, {ghi[0], ghi[1], ghi[NDIM - 1]}};
   for (i[2] = NDIM > 2 ? lo[NDIM - 1] : 0; i[2] <= (NDIM > 2 ? hi[NDIM - 1] : 0); i[2]++) for (i[1] = lo[1]; i[1] <= hi[1]; i[1]++) for (i[0] = lo[0]; i[0] <= hi[0]; i[0]++) {
      int f[3] = {i[0], i[1], i[2]}, in[3] = {i[0], i[1], i[2]};
      f[ax] = loc % 2 ? lo[ax] : hi[ax] + 1; in[ax] = loc % 2 ? lo[ax] - 1 : hi[ax] + 1;
      R(in) -= K(f) * G(f);
   }
}
}  // namespace
#define R const int&
extern "C" {
void settype1cells2d_(double* data, R d0, R d1, R e0, R e1, const double* a, const double* b, const double* g, R i0, R i1, R j0, R j1, R ib, R ie, R jb, R je, R face, R ghos, R inte, R loc, const double& h, R zerog)
{
   Arr D{data, {d0, e0}, {d1, e1}}; int lo[2] = {ib, jb}, hi[2] = {ie, je};
   auto mk = [&](const double* p) { return Arr{const_cast<double*>(p), {i0, j0}, {i1, j1}}; };
   type1(D, mk(a), mk(b), mk(g), lo, hi, face, ghos, inte, loc, h, zerog);
}
void settype2cells2d_(double* data, R d0, R d1, R e0, R e1, const int* lo, const int* up, R loc) { Arr D{data, {d0, e0}, {d1, e1}}; int o[3] = {loc % 2 ? 1 : -1, loc / 2 ? 1 : -1, 0}; corner(D, lo, up, o); }
void compfluxcondc2d_(double* fx, double* fy, const int* gi, const int* gj, const double& c, const double* s, const int* si, const int* sj, const int* i0, const int* i1, const int* j0, const int* j1, const double* dx)
{
   Arr S{const_cast<double*>(s), {*i0 - *si, *j0 - *sj}, {*i1 + *si, *j1 + *sj}}, X{fx, {*i0 - *gi, *j0 - *gj}, {*i1 + *gi + 1, *j1 + *gj}}, Y{fy, {*i0 - *gi, *j0 - *gj}, {*i1 + *gi, *j1 + *gj + 1}};
   for (int j = *j0; j <= *j1; j++) for (int i = *i0; i <= *i1 + 1; i++) { int k[3] = {i, j, 0}, m[3] = {i - 1, j, 0}; X(k) = c * (S(k) - S(m)) / dx[0]; }
   for (int j = *j0; j <= *j1 + 1; j++) for (int i = *i0; i <= *i1; i++) { int k[3] = {i, j, 0}, m[3] = {i, j - 1, 0}; Y(k) = c * (S(k) - S(m)) / dx[1]; }
}
#define Q const int*
void compdiagvariablec2d_(double* g, const double* c, const double* oi, const double* oj, Q i0, Q i1, Q j0, Q j1, const double* cs, const double* ds)
{ const double* o[] = {oi, oj}; int l[] = {*i0, *j0}, h[] = {*i1, *j1}; diagonal(g, o, l, h, [&](size_t n) { return *cs * c[n]; }, *ds); }
void compdiagscalarc2d_(double* g, const double* c, const double* oi, const double* oj, Q i0, Q i1, Q j0, Q j1, const double* cs, const double* ds)
{ const double* o[] = {oi, oj}; int l[] = {*i0, *j0}, h[] = {*i1, *j1}; diagonal(g, o, l, h, [&](size_t) { return *cs * *c; }, *ds); }
void compdiagzeroc2d_(double* g, const double* oi, const double* oj, Q i0, Q i1, Q j0, Q j1, const double*, const double* ds)
{ const double* o[] = {oi, oj}; int l[] = {*i0, *j0}, h[] = {*i1, *j1}; diagonal(g, o, l, h, [&](size_t) { return 0.; }, *ds); }
void adjbdry2d_(double* g, double* oi, double* oj, Q p0, Q p1, Q q0, Q q1, const double* a, const double* b, Q a0, Q a1, Q b0, Q b1, double* ak, Q k0, Q k1, Q m0, Q m1, Q lo, Q up, Q loc, const double* h)
{ double* o[] = {oi, oj}; int pl[] = {*p0, *q0}, ph[] = {*p1, *q1}, al[] = {*a0, *b0}, ah[] = {*a1, *b1}, kl[] = {*k0, *m0}, kh[] = {*k1, *m1}; robin(g, o, pl, ph, a, b, al, ah, ak, kl, kh, lo, up, *loc, h); }
void adjustrhs2d_(double* r, Q r0, Q r1, Q s0, Q s1, const double* ak, Q k0, Q k1, Q m0, Q m1, const double* g, Q a0, Q a1, Q b0, Q b1, Q lo, Q up, Q loc)
{ int rl[] = {*r0, *s0}, rh[] = {*r1, *s1}, kl[] = {*k0, *m0}, kh[] = {*k1, *m1}, al[] = {*a0, *b0}, ah[] = {*a1, *b1}; robin_rhs(r, rl, rh, ak, kl, kh, g, al, ah, lo, up, *loc); }
#if NDIM == 3
void compdiagvariablec3d_(double* g, const double* c, const double* oi, const double* oj, const double* ok, Q i0, Q i1, Q j0, Q j1, Q k0, Q k1, const double* cs, const double* ds)
{ const double* o[] = {oi, oj, ok}; int l[] = {*i0, *j0, *k0}, h[] = {*i1, *j1, *k1}; diagonal(g, o, l, h, [&](size_t n) { return *cs * c[n]; }, *ds); }
void compdiagscalarc3d_(double* g, const double* c, const double* oi, const double* oj, const double* ok, Q i0, Q i1, Q j0, Q j1, Q k0, Q k1, const double* cs, const double* ds)
{ const double* o[] = {oi, oj, ok}; int l[] = {*i0, *j0, *k0}, h[] = {*i1, *j1, *k1}; diagonal(g, o, l, h, [&](size_t) { return *cs * *c; }, *ds); }
void compdiagzeroc3d_(double* g, const double* oi, const double* oj, const double* ok, Q i0, Q i1, Q j0, Q j1, Q k0, Q k1, const double*, const double* ds)
{ const double* o[] = {oi, oj, ok}; int l[] = {*i0, *j0, *k0}, h[] = {*i1, *j1, *k1}; diagonal(g, o, l, h, [&](size_t) { return 0.; }, *ds); }
void adjbdry3d_(double* g, double* oi, double* oj, double* ok, Q p0, Q p1, Q q0, Q q1, Q u0, Q u1, const double* a, const double* b, Q a0, Q a1, Q b0, Q b1, Q c0, Q c1, double* ak, Q k0, Q k1, Q m0, Q m1, Q n0, Q n1, Q lo, Q up, Q loc, const double* h)
{ double* o[] = {oi, oj, ok}; int pl[] = {*p0, *q0, *u0}, ph[] = {*p1, *q1, *u1}, al[] = {*a0, *b0, *c0}, ah[] = {*a1, *b1, *c1}, kl[] = {*k0, *m0, *n0}, kh[] = {*k1, *m1, *n1}; robin(g, o, pl, ph, a, b, al, ah, ak, kl, kh, lo, up, *loc, h); }
void adjustrhs3d_(double* r, Q r0, Q r1, Q s0, Q s1, Q t0, Q t1, const double* ak, Q k0, Q k1, Q m0, Q m1, Q n0, Q n1, const double* g, Q a0, Q a1, Q b0, Q b1, Q c0, Q c1, Q lo, Q up, Q loc)
{ int rl[] = {*r0, *s0, *t0}, rh[] = {*r1, *s1, *t1}, kl[] = {*k0, *m0, *n0}, kh[] = {*k1, *m1, *n1}, al[] = {*a0, *b0, *c0}, ah[] = {*a1, *b1, *c1}; robin_rhs(r, rl, rh, ak, kl, kh, g, al, ah, lo, up, *loc); }
void settype1cells3d_(double* data, R d0, R d1, R e0, R e1, R f0, R f1, const double* a, const double* b, const double* g, R i0, R i1, R j0, R j1, R k0, R k1, R ib, R ie, R jb, R je, R kb, R ke, R face, R ghos, R inte, R loc, const double& h, R zerog)
{
   Arr D{data, {d0, e0, f0}, {d1, e1, f1}}; int lo[3] = {ib, jb, kb}, hi[3] = {ie, je, ke};
   auto mk = [&](const double* p) { return Arr{const_cast<double*>(p), {i0, j0, k0}, {i1, j1, k1}}; };
   type1(D, mk(a), mk(b), mk(g), lo, hi, face, ghos, inte, loc, h, zerog);
}
void settype2cells3d_(double* data, R d0, R d1, R e0, R e1, R f0, R f1, const int* lo, const int* up, R loc)
{
   Arr D{data, {d0, e0, f0}, {d1, e1, f1}}; int n = 2 - loc / 4, e = loc % 4, a = n == 0 ? 1 : 0, c = n == 2 ? 1 : 2, o[3] = {0, 0, 0};
   o[a] = e % 2 ? 1 : -1; o[c] = e / 2 ? 1 : -1; corner(D, lo, up, o);
}
void settype3cells3d_(double* data, R d0, R d1, R e0, R e1, R f0, R f1, const int* lo, const int* up, R loc) { Arr D{data, {d0, e0, f0}, {d1, e1, f1}}; int o[3] = {loc % 2 ? 1 : -1, (loc / 2) % 2 ? 1 : -1, loc / 4 ? 1 : -1}; corner(D, lo, up, o); }
void compfluxcondc3d_(double* fx, double* fy, double* fz, const int* gi, const int* gj, const int* gk, const double& c, const double* s, const int* si, const int* sj, const int* sk, const int* i0, const int* i1, const int* j0, const int* j1, const int* k0, const int* k1, const double* dx)
{
   Arr S{const_cast<double*>(s), {*i0 - *si, *j0 - *sj, *k0 - *sk}, {*i1 + *si, *j1 + *sj, *k1 + *sk}};
   double* f[3] = {fx, fy, fz};
   for (int d = 0; d < 3; d++) {
      Arr F{f[d], {*i0 - *gi, *j0 - *gj, *k0 - *gk}, {*i1 + *gi + (d == 0), *j1 + *gj + (d == 1), *k1 + *gk + (d == 2)}};
      for (int k = *k0; k <= *k1 + (d == 2); k++) for (int j = *j0; j <= *j1 + (d == 1); j++) for (int i = *i0; i <= *i1 + (d == 0); i++) { int q[3] = {i, j, k}, m[3] = {i, j, k}; m[d]--; F(q) = c * (S(q) - S(m)) / dx[d]; }
   }
}
#endif
}
