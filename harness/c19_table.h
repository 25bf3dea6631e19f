// Written by tools/gen_blas_table.py: the documented BLAS routines and their arguments.
#define BLAS_TABLE(X) \
  X(float, scabs1, (const std::complex<float>* a0), (a0)) \
  X(float, sasum, (const int* a0, const float* a1, const int* a2), (a0, a1, a2)) \
  X(void, saxpy, (const int* a0, const float* a1, const float* a2, const int* a3, float* a4, const int* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, saxpby, (const int* a0, const float* a1, const float* a2, const int* a3, const float* a4, float* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(float, scasum, (const int* a0, const std::complex<float>* a1, const int* a2), (a0, a1, a2)) \
  X(float, scnrm2, (const int* a0, const std::complex<float>* a1, const int* a2), (a0, a1, a2)) \
  X(void, scopy, (const int* a0, const float* a1, const int* a2, float* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(float, sdot, (const int* a0, const float* a1, const int* a2, const float* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(float, sdsdot, (const int* a0, const float* a1, const float* a2, const int* a3, const float* a4, const int* a5), (a0, a1, a2, a3, a4, a5)) \
  X(float, snrm2, (const int* a0, const float* a1, const int* a2), (a0, a1, a2)) \
  X(void, srot, (const int* a0, float* a1, const int* a2, float* a3, const int* a4, const float* a5, const float* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, srotg, (float* a0, float* a1, float* a2, float* a3), (a0, a1, a2, a3)) \
  X(void, srotm, (const int* a0, float* a1, const int* a2, float* a3, const int* a4, const float* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, srotmg, (float* a0, float* a1, float* a2, const float* a3, float* a4), (a0, a1, a2, a3, a4)) \
  X(void, sscal, (const int* a0, const float* a1, float* a2, const int* a3), (a0, a1, a2, a3)) \
  X(void, sswap, (const int* a0, float* a1, const int* a2, float* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(int, isamax, (const int* a0, const float* a1, const int* a2), (a0, a1, a2)) \
  X(int, isamin, (const int* a0, const float* a1, const int* a2), (a0, a1, a2)) \
  X(void, caxpy, (const int* a0, const std::complex<float>* a1, const std::complex<float>* a2, const int* a3, std::complex<float>* a4, const int* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, caxpby, (const int* a0, const std::complex<float>* a1, const std::complex<float>* a2, const int* a3, const std::complex<float>* a4, std::complex<float>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, ccopy, (const int* a0, const std::complex<float>* a1, const int* a2, std::complex<float>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(void, crotg, (std::complex<float>* a0, const std::complex<float>* a1, float* a2, std::complex<float>* a3), (a0, a1, a2, a3)) \
  X(void, cscal, (const int* a0, const std::complex<float>* a1, std::complex<float>* a2, const int* a3), (a0, a1, a2, a3)) \
  X(void, csrot, (const int* a0, std::complex<float>* a1, const int* a2, std::complex<float>* a3, const int* a4, const float* a5, const float* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, csscal, (const int* a0, const float* a1, std::complex<float>* a2, const int* a3), (a0, a1, a2, a3)) \
  X(void, cswap, (const int* a0, std::complex<float>* a1, const int* a2, std::complex<float>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(int, icamax, (const int* a0, const std::complex<float>* a1, const int* a2), (a0, a1, a2)) \
  X(int, icamin, (const int* a0, const std::complex<float>* a1, const int* a2), (a0, a1, a2)) \
  X(double, dcabs1, (const std::complex<double>* a0), (a0)) \
  X(double, dasum, (const int* a0, const double* a1, const int* a2), (a0, a1, a2)) \
  X(void, daxpy, (const int* a0, const double* a1, const double* a2, const int* a3, double* a4, const int* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, daxpby, (const int* a0, const double* a1, const double* a2, const int* a3, const double* a4, double* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, dcopy, (const int* a0, const double* a1, const int* a2, double* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(double, ddot, (const int* a0, const double* a1, const int* a2, const double* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(double, dsdot, (const int* a0, const float* a1, const int* a2, const float* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(double, dnrm2, (const int* a0, const double* a1, const int* a2), (a0, a1, a2)) \
  X(void, drot, (const int* a0, double* a1, const int* a2, double* a3, const int* a4, const double* a5, const double* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, drotg, (double* a0, double* a1, double* a2, double* a3), (a0, a1, a2, a3)) \
  X(void, drotm, (const int* a0, double* a1, const int* a2, double* a3, const int* a4, const double* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, drotmg, (double* a0, double* a1, double* a2, const double* a3, double* a4), (a0, a1, a2, a3, a4)) \
  X(void, dscal, (const int* a0, const double* a1, double* a2, const int* a3), (a0, a1, a2, a3)) \
  X(void, dswap, (const int* a0, double* a1, const int* a2, double* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(double, dzasum, (const int* a0, const std::complex<double>* a1, const int* a2), (a0, a1, a2)) \
  X(double, dznrm2, (const int* a0, const std::complex<double>* a1, const int* a2), (a0, a1, a2)) \
  X(int, idamax, (const int* a0, const double* a1, const int* a2), (a0, a1, a2)) \
  X(int, idamin, (const int* a0, const double* a1, const int* a2), (a0, a1, a2)) \
  X(void, zaxpy, (const int* a0, const std::complex<double>* a1, const std::complex<double>* a2, const int* a3, std::complex<double>* a4, const int* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, zaxpby, (const int* a0, const std::complex<double>* a1, const std::complex<double>* a2, const int* a3, const std::complex<double>* a4, std::complex<double>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, zcopy, (const int* a0, const std::complex<double>* a1, const int* a2, std::complex<double>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(void, zdrot, (const int* a0, std::complex<double>* a1, const int* a2, std::complex<double>* a3, const int* a4, const double* a5, const double* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, zdscal, (const int* a0, const double* a1, std::complex<double>* a2, const int* a3), (a0, a1, a2, a3)) \
  X(void, zrotg, (std::complex<double>* a0, const std::complex<double>* a1, double* a2, std::complex<double>* a3), (a0, a1, a2, a3)) \
  X(void, zscal, (const int* a0, const std::complex<double>* a1, std::complex<double>* a2, const int* a3), (a0, a1, a2, a3)) \
  X(void, zswap, (const int* a0, std::complex<double>* a1, const int* a2, std::complex<double>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(int, izamax, (const int* a0, const std::complex<double>* a1, const int* a2), (a0, a1, a2)) \
  X(int, izamin, (const int* a0, const std::complex<double>* a1, const int* a2), (a0, a1, a2)) \
  X(void, sgbmv, (const char* a0, const int* a1, const int* a2, const int* a3, const int* a4, const float* a5, const float* a6, const int* a7, const float* a8, const int* a9, const float* a10, float* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, sgemv, (const char* a0, const int* a1, const int* a2, const float* a3, const float* a4, const int* a5, const float* a6, const int* a7, const float* a8, float* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, sger, (const int* a0, const int* a1, const float* a2, const float* a3, const int* a4, const float* a5, const int* a6, float* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, ssbmv, (const char* a0, const int* a1, const int* a2, const float* a3, const float* a4, const int* a5, const float* a6, const int* a7, const float* a8, float* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, sspmv, (const char* a0, const int* a1, const float* a2, const float* a3, const float* a4, const int* a5, const float* a6, float* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, sspr, (const char* a0, const int* a1, const float* a2, const float* a3, const int* a4, float* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, sspr2, (const char* a0, const int* a1, const float* a2, const float* a3, const int* a4, const float* a5, const int* a6, float* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, ssymv, (const char* a0, const int* a1, const float* a2, const float* a3, const int* a4, const float* a5, const int* a6, const float* a7, float* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, ssyr, (const char* a0, const int* a1, const float* a2, const float* a3, const int* a4, float* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, ssyr2, (const char* a0, const int* a1, const float* a2, const float* a3, const int* a4, const float* a5, const int* a6, float* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, stbmv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const float* a5, const int* a6, float* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, stbsv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const float* a5, const int* a6, float* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, stpmv, (const char* a0, const char* a1, const char* a2, const int* a3, const float* a4, float* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, stpsv, (const char* a0, const char* a1, const char* a2, const int* a3, const float* a4, float* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, strmv, (const char* a0, const char* a1, const char* a2, const int* a3, const float* a4, const int* a5, float* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, strsv, (const char* a0, const char* a1, const char* a2, const int* a3, const float* a4, const int* a5, float* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, cgbmv, (const char* a0, const int* a1, const int* a2, const int* a3, const int* a4, const std::complex<float>* a5, const std::complex<float>* a6, const int* a7, const std::complex<float>* a8, const int* a9, const std::complex<float>* a10, std::complex<float>* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, cgemv, (const char* a0, const int* a1, const int* a2, const std::complex<float>* a3, const std::complex<float>* a4, const int* a5, const std::complex<float>* a6, const int* a7, const std::complex<float>* a8, std::complex<float>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, cgerc, (const int* a0, const int* a1, const std::complex<float>* a2, const std::complex<float>* a3, const int* a4, const std::complex<float>* a5, const int* a6, std::complex<float>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, cgeru, (const int* a0, const int* a1, const std::complex<float>* a2, const std::complex<float>* a3, const int* a4, const std::complex<float>* a5, const int* a6, std::complex<float>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, chbmv, (const char* a0, const int* a1, const int* a2, const std::complex<float>* a3, const std::complex<float>* a4, const int* a5, const std::complex<float>* a6, const int* a7, const std::complex<float>* a8, std::complex<float>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, chemv, (const char* a0, const int* a1, const std::complex<float>* a2, const std::complex<float>* a3, const int* a4, const std::complex<float>* a5, const int* a6, const std::complex<float>* a7, std::complex<float>* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, cher, (const char* a0, const int* a1, const float* a2, const std::complex<float>* a3, const int* a4, std::complex<float>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, cher2, (const char* a0, const int* a1, const std::complex<float>* a2, const std::complex<float>* a3, const int* a4, const std::complex<float>* a5, const int* a6, std::complex<float>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, chpmv, (const char* a0, const int* a1, const std::complex<float>* a2, const std::complex<float>* a3, const std::complex<float>* a4, const int* a5, const std::complex<float>* a6, std::complex<float>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, chpr, (const char* a0, const int* a1, const float* a2, const std::complex<float>* a3, const int* a4, std::complex<float>* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, chpr2, (const char* a0, const int* a1, const std::complex<float>* a2, const std::complex<float>* a3, const int* a4, const std::complex<float>* a5, const int* a6, std::complex<float>* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, ctbmv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const std::complex<float>* a5, const int* a6, std::complex<float>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, ctbsv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const std::complex<float>* a5, const int* a6, std::complex<float>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, ctpmv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<float>* a4, std::complex<float>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, ctpsv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<float>* a4, std::complex<float>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, ctrmv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<float>* a4, const int* a5, std::complex<float>* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, ctrsv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<float>* a4, const int* a5, std::complex<float>* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, dgbmv, (const char* a0, const int* a1, const int* a2, const int* a3, const int* a4, const double* a5, const double* a6, const int* a7, const double* a8, const int* a9, const double* a10, double* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, dgemv, (const char* a0, const int* a1, const int* a2, const double* a3, const double* a4, const int* a5, const double* a6, const int* a7, const double* a8, double* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, dger, (const int* a0, const int* a1, const double* a2, const double* a3, const int* a4, const double* a5, const int* a6, double* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, dsbmv, (const char* a0, const int* a1, const int* a2, const double* a3, const double* a4, const int* a5, const double* a6, const int* a7, const double* a8, double* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, dspmv, (const char* a0, const int* a1, const double* a2, const double* a3, const double* a4, const int* a5, const double* a6, double* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, dspr, (const char* a0, const int* a1, const double* a2, const double* a3, const int* a4, double* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, dspr2, (const char* a0, const int* a1, const double* a2, const double* a3, const int* a4, const double* a5, const int* a6, double* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, dsymv, (const char* a0, const int* a1, const double* a2, const double* a3, const int* a4, const double* a5, const int* a6, const double* a7, double* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, dsyr, (const char* a0, const int* a1, const double* a2, const double* a3, const int* a4, double* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, dsyr2, (const char* a0, const int* a1, const double* a2, const double* a3, const int* a4, const double* a5, const int* a6, double* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, dtbmv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const double* a5, const int* a6, double* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, dtbsv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const double* a5, const int* a6, double* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, dtpmv, (const char* a0, const char* a1, const char* a2, const int* a3, const double* a4, double* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, dtpsv, (const char* a0, const char* a1, const char* a2, const int* a3, const double* a4, double* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, dtrmv, (const char* a0, const char* a1, const char* a2, const int* a3, const double* a4, const int* a5, double* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, dtrsv, (const char* a0, const char* a1, const char* a2, const int* a3, const double* a4, const int* a5, double* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, zgbmv, (const char* a0, const int* a1, const int* a2, const int* a3, const int* a4, const std::complex<double>* a5, const std::complex<double>* a6, const int* a7, const std::complex<double>* a8, const int* a9, const std::complex<double>* a10, std::complex<double>* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, zgemv, (const char* a0, const int* a1, const int* a2, const std::complex<double>* a3, const std::complex<double>* a4, const int* a5, const std::complex<double>* a6, const int* a7, const std::complex<double>* a8, std::complex<double>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, zgerc, (const int* a0, const int* a1, const std::complex<double>* a2, const std::complex<double>* a3, const int* a4, const std::complex<double>* a5, const int* a6, std::complex<double>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, zgeru, (const int* a0, const int* a1, const std::complex<double>* a2, const std::complex<double>* a3, const int* a4, const std::complex<double>* a5, const int* a6, std::complex<double>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, zhbmv, (const char* a0, const int* a1, const int* a2, const std::complex<double>* a3, const std::complex<double>* a4, const int* a5, const std::complex<double>* a6, const int* a7, const std::complex<double>* a8, std::complex<double>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, zhemv, (const char* a0, const int* a1, const std::complex<double>* a2, const std::complex<double>* a3, const int* a4, const std::complex<double>* a5, const int* a6, const std::complex<double>* a7, std::complex<double>* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, zher, (const char* a0, const int* a1, const double* a2, const std::complex<double>* a3, const int* a4, std::complex<double>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, zher2, (const char* a0, const int* a1, const std::complex<double>* a2, const std::complex<double>* a3, const int* a4, const std::complex<double>* a5, const int* a6, std::complex<double>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, zhpmv, (const char* a0, const int* a1, const std::complex<double>* a2, const std::complex<double>* a3, const std::complex<double>* a4, const int* a5, const std::complex<double>* a6, std::complex<double>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, zhpr, (const char* a0, const int* a1, const double* a2, const std::complex<double>* a3, const int* a4, std::complex<double>* a5), (a0, a1, a2, a3, a4, a5)) \
  X(void, zhpr2, (const char* a0, const int* a1, const std::complex<double>* a2, const std::complex<double>* a3, const int* a4, const std::complex<double>* a5, const int* a6, std::complex<double>* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, ztbmv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const std::complex<double>* a5, const int* a6, std::complex<double>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, ztbsv, (const char* a0, const char* a1, const char* a2, const int* a3, const int* a4, const std::complex<double>* a5, const int* a6, std::complex<double>* a7, const int* a8), (a0, a1, a2, a3, a4, a5, a6, a7, a8)) \
  X(void, ztpmv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<double>* a4, std::complex<double>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, ztpsv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<double>* a4, std::complex<double>* a5, const int* a6), (a0, a1, a2, a3, a4, a5, a6)) \
  X(void, ztrmv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<double>* a4, const int* a5, std::complex<double>* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, ztrsv, (const char* a0, const char* a1, const char* a2, const int* a3, const std::complex<double>* a4, const int* a5, std::complex<double>* a6, const int* a7), (a0, a1, a2, a3, a4, a5, a6, a7)) \
  X(void, sgemm, (const char* a0, const char* a1, const int* a2, const int* a3, const int* a4, const float* a5, const float* a6, const int* a7, const float* a8, const int* a9, const float* a10, float* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, ssymm, (const char* a0, const char* a1, const int* a2, const int* a3, const float* a4, const float* a5, const int* a6, const float* a7, const int* a8, const float* a9, float* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, ssyr2k, (const char* a0, const char* a1, const int* a2, const int* a3, const float* a4, const float* a5, const int* a6, const float* a7, const int* a8, const float* a9, float* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, ssyrk, (const char* a0, const char* a1, const int* a2, const int* a3, const float* a4, const float* a5, const int* a6, const float* a7, float* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, strmm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const float* a6, const float* a7, const int* a8, float* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, strsm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const float* a6, const float* a7, const int* a8, float* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, cgemm, (const char* a0, const char* a1, const int* a2, const int* a3, const int* a4, const std::complex<float>* a5, const std::complex<float>* a6, const int* a7, const std::complex<float>* a8, const int* a9, const std::complex<float>* a10, std::complex<float>* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, cgemm3m, (const char* a0, const char* a1, const int* a2, const int* a3, const int* a4, const std::complex<float>* a5, const std::complex<float>* a6, const int* a7, const std::complex<float>* a8, const int* a9, const std::complex<float>* a10, std::complex<float>* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, chemm, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<float>* a4, const std::complex<float>* a5, const int* a6, const std::complex<float>* a7, const int* a8, const std::complex<float>* a9, std::complex<float>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, cher2k, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<float>* a4, const std::complex<float>* a5, const int* a6, const std::complex<float>* a7, const int* a8, const float* a9, std::complex<float>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, cherk, (const char* a0, const char* a1, const int* a2, const int* a3, const float* a4, const std::complex<float>* a5, const int* a6, const float* a7, std::complex<float>* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, csymm, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<float>* a4, const std::complex<float>* a5, const int* a6, const std::complex<float>* a7, const int* a8, const std::complex<float>* a9, std::complex<float>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, csyr2k, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<float>* a4, const std::complex<float>* a5, const int* a6, const std::complex<float>* a7, const int* a8, const std::complex<float>* a9, std::complex<float>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, csyrk, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<float>* a4, const std::complex<float>* a5, const int* a6, const std::complex<float>* a7, std::complex<float>* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, ctrmm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const std::complex<float>* a6, const std::complex<float>* a7, const int* a8, std::complex<float>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, ctrsm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const std::complex<float>* a6, const std::complex<float>* a7, const int* a8, std::complex<float>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, dgemm, (const char* a0, const char* a1, const int* a2, const int* a3, const int* a4, const double* a5, const double* a6, const int* a7, const double* a8, const int* a9, const double* a10, double* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, dsymm, (const char* a0, const char* a1, const int* a2, const int* a3, const double* a4, const double* a5, const int* a6, const double* a7, const int* a8, const double* a9, double* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, dsyr2k, (const char* a0, const char* a1, const int* a2, const int* a3, const double* a4, const double* a5, const int* a6, const double* a7, const int* a8, const double* a9, double* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, dsyrk, (const char* a0, const char* a1, const int* a2, const int* a3, const double* a4, const double* a5, const int* a6, const double* a7, double* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, dtrmm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const double* a6, const double* a7, const int* a8, double* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, dtrsm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const double* a6, const double* a7, const int* a8, double* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, zgemm, (const char* a0, const char* a1, const int* a2, const int* a3, const int* a4, const std::complex<double>* a5, const std::complex<double>* a6, const int* a7, const std::complex<double>* a8, const int* a9, const std::complex<double>* a10, std::complex<double>* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, zgemm3m, (const char* a0, const char* a1, const int* a2, const int* a3, const int* a4, const std::complex<double>* a5, const std::complex<double>* a6, const int* a7, const std::complex<double>* a8, const int* a9, const std::complex<double>* a10, std::complex<double>* a11, const int* a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) \
  X(void, zhemm, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<double>* a4, const std::complex<double>* a5, const int* a6, const std::complex<double>* a7, const int* a8, const std::complex<double>* a9, std::complex<double>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, zher2k, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<double>* a4, const std::complex<double>* a5, const int* a6, const std::complex<double>* a7, const int* a8, const double* a9, std::complex<double>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, zherk, (const char* a0, const char* a1, const int* a2, const int* a3, const double* a4, const std::complex<double>* a5, const int* a6, const double* a7, std::complex<double>* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, zsymm, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<double>* a4, const std::complex<double>* a5, const int* a6, const std::complex<double>* a7, const int* a8, const std::complex<double>* a9, std::complex<double>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, zsyr2k, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<double>* a4, const std::complex<double>* a5, const int* a6, const std::complex<double>* a7, const int* a8, const std::complex<double>* a9, std::complex<double>* a10, const int* a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)) \
  X(void, zsyrk, (const char* a0, const char* a1, const int* a2, const int* a3, const std::complex<double>* a4, const std::complex<double>* a5, const int* a6, const std::complex<double>* a7, std::complex<double>* a8, const int* a9), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)) \
  X(void, ztrmm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const std::complex<double>* a6, const std::complex<double>* a7, const int* a8, std::complex<double>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \
  X(void, ztrsm, (const char* a0, const char* a1, const char* a2, const char* a3, const int* a4, const int* a5, const std::complex<double>* a6, const std::complex<double>* a7, const int* a8, std::complex<double>* a9, const int* a10), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)) \

#define ZDOT_TABLE(X) \
  X(std::complex<float>, cdotc, (const int* a0, const std::complex<float>* a1, const int* a2, const std::complex<float>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(std::complex<float>, cdotu, (const int* a0, const std::complex<float>* a1, const int* a2, const std::complex<float>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(std::complex<double>, zdotc, (const int* a0, const std::complex<double>* a1, const int* a2, const std::complex<double>* a3, const int* a4), (a0, a1, a2, a3, a4)) \
  X(std::complex<double>, zdotu, (const int* a0, const std::complex<double>* a1, const int* a2, const std::complex<double>* a3, const int* a4), (a0, a1, a2, a3, a4)) \

#define SPBLAS_TABLE(X) \
  X(void, dcsrmm, (const char* a0, const int* a1, const int* a2, const int* a3, const double* a4, const char* a5, const double* a6, const int* a7, const int* a8, const int* a9, const double* a10, const int* a11, const double* a12, double* a13, const int* a14), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14)) \
  X(void, dcsrmultcsr, (const char* a0, const int* a1, const int* a2, const int* a3, const int* a4, const int* a5, double* a6, int* a7, int* a8, double* a9, int* a10, int* a11, double* a12, int* a13, int* a14, const int* a15, int* a16), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16)) \
  X(void, scsrmm, (const char* a0, const int* a1, const int* a2, const int* a3, const float* a4, const char* a5, const float* a6, const int* a7, const int* a8, const int* a9, const float* a10, const int* a11, const float* a12, float* a13, const int* a14), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14)) \
  X(void, scsrmultcsr, (const char* a0, const int* a1, const int* a2, const int* a3, const int* a4, const int* a5, float* a6, int* a7, int* a8, float* a9, int* a10, int* a11, float* a12, int* a13, int* a14, const int* a15, int* a16), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16)) \

