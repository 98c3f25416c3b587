// A kernel that executes Fortran STOP ends the whole run: make that observable (exit code 77).
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
extern "C" {
void _gfortran_stop_string(const char* s, size_t n, bool)
{
   fflush(stdout);
   fprintf(stderr, "VERIF-STOP: Fortran STOP executed: %.*s\n", (int)n, s ? s : "");
   fflush(stderr);
   _exit(77);
}
void _gfortran_error_stop_string(const char* s, size_t n, bool q) { _gfortran_stop_string(s, n, q); }
void _gfortran_stop_numeric(int, bool) { _gfortran_stop_string("", 0, false); }
}
