// Stand-in for AMPE's wrapper of CVODE: explicit Euler steps, or only the value of the independent variable.
#ifndef MINI_CVODE_SOLVER_H
#define MINI_CVODE_SOLVER_H
#include "samrai_mini.h"
enum { MINI_BDF = 2 };
#define CV_BDF 2
#define CV_ADAMS 1
#define CV_ONE_STEP 2
#define PREC_LEFT 1
#define PREC_NONE 0
class SundialsAbstractVector {
 public:
   SundialsAbstractVector() {}
   virtual ~SundialsAbstractVector() {}
   void setToScalar(double c) { v->setToScalar(c, false); }
   double dotWith(const SundialsAbstractVector* x) const { return v->dot(*x->v); }
   double maxNorm() const { return v->maxNorm(); }
   std::shared_ptr<SAMRAI::solv::SAMRAIVectorReal<double>> v;
};
class Sundials_SAMRAIVector : public SundialsAbstractVector {
 public:
   static SundialsAbstractVector* createSundialsVector(const std::shared_ptr<SAMRAI::solv::SAMRAIVectorReal<double>>& s) { auto* p = new SundialsAbstractVector; p->v = s; return p; }
   static void destroySundialsVector(SundialsAbstractVector* p) { delete p; }
   static std::shared_ptr<SAMRAI::solv::SAMRAIVectorReal<double>> getSAMRAIVector(SundialsAbstractVector* p) { return p->v; }
};
class CVODEAbstractFunctions {
 public:
   virtual ~CVODEAbstractFunctions() {}
   virtual int evaluateRHSFunction(double t, SundialsAbstractVector* y, SundialsAbstractVector* y_dot) = 0;
   virtual int CVSpgmrPrecondSet(double t, SundialsAbstractVector* y, SundialsAbstractVector* fy, int jok, int* jcurPtr, double gamma) = 0;
   virtual int CVSpgmrPrecondSolve(double t, SundialsAbstractVector* y, SundialsAbstractVector* fy, SundialsAbstractVector* r, SundialsAbstractVector* z, double gamma, double delta, int lr) = 0;
   virtual int applyProjection(double t, SundialsAbstractVector* y, SundialsAbstractVector* corr, double epsProj, SundialsAbstractVector* err) = 0;
   virtual int evaluateJTimesRHSFunction(double t, SundialsAbstractVector* y, SundialsAbstractVector* y_dot) = 0;
};
class CVODESolver {
 public:
   CVODESolver(const std::string&, CVODEAbstractFunctions* f, bool) : f(f) {}
   virtual ~CVODESolver() {}
   void initialize(SundialsAbstractVector*) {}
   int solve()
   {
      if (!rhs) { rv = y->v->cloneVector("mini_rhs"); rv->allocateVectorData(); rhs = Sundials_SAMRAIVector::createSundialsVector(rv); }
      if (nrhs++ && t >= tf) return 0;
      // as CVODE does, the right-hand side is asked for at a copy of the state
      if (!yv) { yv = y->v->cloneVector("mini_y"); yv->allocateVectorData(); yv->setToScalar(0., false); yc = Sundials_SAMRAIVector::createSundialsVector(yv); }
      yv->copyVector(y->v);
      int r = f->evaluateRHSFunction(t, yc, rhs);
      if (r) return r;
      double hh = step() > 0. ? step() : h0;
      h = t + hh > tf ? tf - t : hh;
      y->v->axpy(h, rv, y->v);
      t = h == tf - t ? tf : t + h;
      if (marks()) SAMRAI::tbox::pout << "@step\n";
      if (proj) { auto c = y->v->cloneVector("mini_corr"); c->allocateVectorData(); c->setToScalar(0.); SundialsAbstractVector cs; cs.v = c; auto e = y->v->cloneVector("mini_err"); e->allocateVectorData(); e->setToScalar(0., false); SundialsAbstractVector es; es.v = e; f->applyProjection(t, y, &cs, 0., &es); y->v->add(y->v, c); c->freeVectorComponents(); e->freeVectorComponents(); }
      return 0;
   }
   void setMaxPrecondSteps(int) {} void setLinearMultistepMethod(int) {} void setSteppingMethod(int) {} void setInitialStepSize(double d) { h0 = d; }
   void setRelativeTolerance(double) {} void setAbsoluteTolerance(double) {} void setInitialValueOfIndependentVariable(double d) { t = d; }
   void setMaximumLinearMultistepMethodOrder(int) {} void setPreconditioningType(int) {} void setMaximumAbsoluteStepSize(double) {} void setMaximumNumberOfInternalSteps(int) {}
   void setMaxKrylovDimension(int) {} void setFinalValueOfIndependentVariable(double d, bool) { tf = d; } void setProjectionFunction(bool b) { proj = b; } void setJTimesRhsFunction(bool) {}
   void setInitialConditionVector(SundialsAbstractVector* v) { y = v; if (rhs) { rhs = nullptr; } }
   void reinitializeAfterRegrid() {}
   double getActualFinalValueOfIndependentVariable() const { return t; }
   double getStepSizeForLastInternalStep() const { return h; }
   int getNumberOfNewtonIterations() const { return 0; } int getNumberOfLinearIterations() const { return 0; } int getNumberOfNonlinearConvergenceFailures() const { return 0; }
   int getNumberOfLinearConvergenceFailures() const { return 0; } int getNumberOfLocalErrorTestFailures() const { return 0; } int getOrderUsedDuringLastInternalStep() const { return 1; }
   int getNumberOfRHSFunctionCalls() const { return nrhs; } int getNumberOfPreconditionerEvaluations() const { return 0; } int getNumberOfPrecondSolveCalls() const { return 0; }
   std::vector<SundialsAbstractVector*>* getVectorsRequiringRegrid() { auto* v = new std::vector<SundialsAbstractVector*>; return v; }
   void printStatistics(std::ostream&) const {} void printClassData(std::ostream&) const {}
   // additions of the stand-in
   static bool& marks() { static bool m = false; return m; }
   static double& step() { static double s = 0.; return s; }
   std::shared_ptr<SAMRAI::solv::SAMRAIVectorReal<double>> yv; SundialsAbstractVector* yc = nullptr;
   double t = 0., h = 0., h0 = 0., tf = 1e300; int nrhs = 0; bool proj = false;
   CVODEAbstractFunctions* f; SundialsAbstractVector *y = nullptr, *rhs = nullptr; std::shared_ptr<SAMRAI::solv::SAMRAIVectorReal<double>> rv;
};
#endif
