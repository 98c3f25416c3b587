// extern "C" access to the SAMRAI-free C++ of AMPE (header signatures only; judged by behaviour).
#include "TiltingFolchPlapp2005.h"
#include "TiltingMoelans2011.h"
#include "ArrayOperation.h"
#include "AMPE_internal.h"
extern "C" {
double v_fp_g0(double a, double b, double c) { return TiltingFolchPlapp2005::g0(a, b, c); }
double v_fp_dg0dp0(double a, double b, double c) { return TiltingFolchPlapp2005::dg0dp0(a, b, c); }
double v_fp_dg0dp1(double a, double b, double c) { return TiltingFolchPlapp2005::dg0dp1(a, b, c); }
double v_mo_g0(double a, double b, double c) { return TiltingMoelans2011::g0(a, b, c); }
double v_mo_dg0dp0(double a, double b, double c) { return TiltingMoelans2011::dg0dp0(a, b, c); }
double v_mo_dg0dp1(double a, double b, double c) { return TiltingMoelans2011::dg0dp1(a, b, c); }
void v_weights3(double a, double b, double c, double* w)
{
   computeWeights3Pairs(a, b, c, w[0], w[1], w[2]);
}
double v_mulop(double a, double b) { MultiplyOperation<double> op; op(a, b); return a; }
double v_addop(double a, double b) { AddOperation<double> op; op(a, b); return a; }
}

