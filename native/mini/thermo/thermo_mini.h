// Stand-in for the parts of Thermo4PFM that AMPE calls.  The energies are analytic (one parabola per phase), so that an
// observer can recompute every value the code under test should obtain from them.
#ifndef THERMO_MINI_H
#define THERMO_MINI_H
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <cmath>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#define GASCONSTANT_R_JPKPMOL 8.314472
namespace Thermo4PFM {
enum class EnergyInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class ConcInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class PhaseIndex { phaseL = 0, phaseA = 1, phaseB = 2 };
inline char energyInterpChar(EnergyInterpolationType t)
{
   switch (t) { case EnergyInterpolationType::LINEAR: return 'l'; case EnergyInterpolationType::PBG: return 'p'; case EnergyInterpolationType::HARMONIC: return 'h'; default: return 'u'; }
}
inline char concInterpChar(ConcInterpolationType t)
{
   switch (t) { case ConcInterpolationType::LINEAR: return 'l'; case ConcInterpolationType::PBG: return 'p'; case ConcInterpolationType::HARMONIC: return 'h'; default: return 'u'; }
}
inline double interp_func(ConcInterpolationType t, double phi)
{
   double p = phi < 0. ? 0. : phi > 1. ? 1. : phi;
   switch (t) { case ConcInterpolationType::PBG: return p * p * p * (10. - 15. * p + 6. * p * p); case ConcInterpolationType::HARMONIC: return p * p * (3. - 2. * p); default: return p; }
}
// f_p(T, c) = sum_i a_pi (c_i - x_pi(T))^2 + s * prod c_i (ternary) + e_p + g_p T,   x_pi = x0_pi + m_p (T - Tref)
struct MiniPhase { double a[2] = {1., 1.}, x0[2] = {0., 0.}, m = 0., s = 0., e = 0., g = 0., tref = 0.; };
struct MiniThermo {
   // one table, read from the database (key A/x0/... of "mini") or given by the quadratic constructors
   static MiniPhase* table() { static MiniPhase t[3] = {{{100., 90.}, {.30, .20}, 1e-4, 3., 1., -.01, 1000.}, {{140., 160.}, {.10, .35}, 2e-4, 5., 2., -.012, 1000.}, {{170., 150.}, {.55, .12}, -1e-4, 7., 2.5, -.013, 1000.}}; return t; }
};
template <int NC, int NP> class MiniEnergy {
 public:
   MiniEnergy() { for (int p = 0; p < 3; p++) ph[p] = MiniThermo::table()[p]; }
   virtual ~MiniEnergy() {}
   double x(int p, int i, double T) const { return ph[p].x0[i] + ph[p].m * (T - ph[p].tref); }
   double computeFreeEnergy(double T, const double* c, PhaseIndex pi, bool gp = false) const
   {
      const MiniPhase& q = ph[(int)pi]; double f = q.e + q.g * T;
      for (int i = 0; i < NC; i++) { double d = c[i] - x((int)pi, i, T); f += q.a[i] * d * d; }
      if (NC > 1) f += q.s * c[0] * c[NC - 1];
      if (gp) { double mu[2]; computeDerivFreeEnergy(T, c, pi, mu); for (int i = 0; i < NC; i++) f -= mu[i] * c[i]; }
      return f;
   }
   void computeDerivFreeEnergy(double T, const double* c, PhaseIndex pi, double* mu) const
   {
      const MiniPhase& q = ph[(int)pi];
      for (int i = 0; i < NC; i++) { mu[i] = 2. * q.a[i] * (c[i] - x((int)pi, i, T)); if (NC > 1) mu[i] += q.s * c[1 - i]; }
   }
   void computeSecondDerivativeFreeEnergy(double T, const double* c, PhaseIndex pi, double* d2) const
   {
      (void)T; (void)c; const MiniPhase& q = ph[(int)pi];
      // 2 a_p, made dependent on (T, c) so that the arguments used can be told apart
      double k = NC == 1 ? 1. + .1 * c[0] + 1e-4 * T : 1. + .1 * c[0] + .2 * c[1] + 1e-4 * T;
      if (NC == 1) d2[0] = 2. * q.a[0] * k; else { d2[0] = 2. * q.a[0] * k; d2[1] = d2[2] = q.s * k; d2[3] = 2.5 * q.a[1] * k; }
   }
   // concentrations of the phases with h_p as the weights: equal slopes at given average
   int computePhaseConcentrations(double T, const double* c, const double* h, double* out) const
   {
      double w[3] = {0., 0., 0.};
      if (NP == 2) { w[1] = h[0]; w[0] = 1. - h[0]; } else for (int p = 0; p < NP; p++) w[p] = h[p];
      // slopes mu = H c - g with H = 2 diag(a) + s (off the diagonal), g = 2 a x
      double A[2][2] = {{0., 0.}, {0., 0.}}, r[2] = {c[0], c[NC - 1]}, mu[2] = {0., 0.};
      for (int p = 0; p < NP; p++) {
         double I[2][2]; inv(p, I);
         for (int i = 0; i < NC; i++) for (int j = 0; j < NC; j++) { A[i][j] += w[p] * I[i][j]; r[i] -= w[p] * I[i][j] * 2. * ph[p].a[j] * x(p, j, T); }
      }
      if (NC == 1) mu[0] = r[0] / A[0][0];
      else { double d = A[0][0] * A[1][1] - A[0][1] * A[1][0]; mu[0] = (A[1][1] * r[0] - A[0][1] * r[1]) / d; mu[1] = (A[0][0] * r[1] - A[1][0] * r[0]) / d; }
      for (int p = 0; p < NP; p++) {
         double I[2][2]; inv(p, I);
         for (int i = 0; i < NC; i++) { out[p * NC + i] = 0.; for (int j = 0; j < NC; j++) out[p * NC + i] += I[i][j] * (mu[j] + 2. * ph[p].a[j] * x(p, j, T)); }
      }
      return 3;
   }
   void inv(int p, double (*I)[2]) const
   {
      double a = 2. * ph[p].a[0], b = 2. * ph[p].a[1], s = NC > 1 ? ph[p].s : 0., d = a * b - s * s;
      if (NC == 1) I[0][0] = 1. / a; else { I[0][0] = b / d; I[1][1] = a / d; I[0][1] = I[1][0] = -s / d; }
   }
   bool computeCeqT(double T, double* ceq, int = 50, bool = false) const { for (int p = 0; p < NP; p++) for (int i = 0; i < NC; i++) ceq[p * NC + i] = x(p, i, T); return true; }
   bool computeCeqT(double T, PhaseIndex, PhaseIndex, double* ceq, int = 50, bool = false) const { return computeCeqT(T, ceq); }
   bool computeTieLine(double T, double, double, double* ceq, int = 50, bool = false) const { return computeCeqT(T, ceq); }
   bool computeCeqT(double T, double, double, double* ceq, int = 50, bool = false) const { return computeCeqT(T, ceq); }
   void preRunDiagnostics(double, double = 0) {}
   template <class... A> void energyVsPhiAndC(A...) {}
   template <class... A> void printEnergyVsComposition(A...) {}
   double fchem(double, const double*, double) const { return 0.; }
   MiniPhase ph[3];
};
#define MINI_CALPHAD(Name, NC, NP) \
   class Name : public MiniEnergy<NC, NP> { public: Name(boost::property_tree::ptree&, boost::optional<boost::property_tree::ptree&>, EnergyInterpolationType, ConcInterpolationType) {} };
MINI_CALPHAD(CALPHADFreeEnergyFunctionsBinary, 1, 2)
MINI_CALPHAD(CALPHADFreeEnergyFunctionsBinary2Ph1Sl, 1, 2)
MINI_CALPHAD(CALPHADFreeEnergyFunctionsBinaryThreePhase, 1, 3)
MINI_CALPHAD(CALPHADFreeEnergyFunctionsBinary3Ph2Sl, 1, 3)
MINI_CALPHAD(CALPHADFreeEnergyFunctionsTernary, 2, 2)
#undef MINI_CALPHAD
class KKSFreeEnergyFunctionDiluteBinary : public MiniEnergy<1, 2> { public: KKSFreeEnergyFunctionDiluteBinary(boost::property_tree::ptree&, EnergyInterpolationType, ConcInterpolationType t) : ct(t) {}
   // this one is given the phase itself
   int computePhaseConcentrations(double T, const double* c, const double* phi, double* out) const { double h = interp_func(ct, phi[0]); return MiniEnergy<1, 2>::computePhaseConcentrations(T, c, &h, out); }
   ConcInterpolationType ct;
};
class QuadraticFreeEnergyFunctionsBinary : public MiniEnergy<1, 2> {
 public:
   QuadraticFreeEnergyFunctionsBinary(double tref, double al, double cl, double ml, double aa, double ca, double ma, EnergyInterpolationType, ConcInterpolationType)
   {
      for (int p = 0; p < 3; p++) { ph[p] = MiniPhase(); ph[p].tref = tref; }
      ph[0].a[0] = al; ph[0].x0[0] = cl; ph[0].m = ml; ph[1].a[0] = aa; ph[1].x0[0] = ca; ph[1].m = ma;
   }
};
class QuadraticFreeEnergyFunctionsTernaryThreePhase : public MiniEnergy<2, 3> {
 public:
   QuadraticFreeEnergyFunctionsTernaryThreePhase(const double* al, const double* cl, const double* aa, const double* ca, const double* ab, const double* cb, EnergyInterpolationType, ConcInterpolationType)
   {
      const double *a[3] = {al, aa, ab}, *c[3] = {cl, ca, cb};
      for (int p = 0; p < 3; p++) { ph[p] = MiniPhase(); ph[p].a[0] = a[p][0]; ph[p].a[1] = a[p][1]; ph[p].x0[0] = c[p][0]; ph[p].x0[1] = c[p][1]; }
   }
};
inline bool checkSublattice(const boost::property_tree::ptree& p) { return p.count("mini_sublattice") > 0; }
inline bool checkSublattice(const std::string&, const boost::property_tree::ptree& p) { return checkSublattice(p); }
class CALPHADSpeciesPhaseGibbsEnergy { public: CALPHADSpeciesPhaseGibbsEnergy() {} template <class... A> void initialize(A...) {} };
}  // namespace Thermo4PFM
#endif
