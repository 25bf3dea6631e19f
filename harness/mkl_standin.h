// Stand-ins for the sparse routines of Intel MKL, written from their documentation. They check
// every argument the documentation restricts. The dense routines come from OpenBLAS, whose
// argument checks end the call like those of MKL do.
#pragma once
#include "vh.h"
#include <mutex>

namespace mkl {

static std::mutex one;   // several threads may call
inline void seen(char const* routine) { std::lock_guard<std::mutex> l(one); vh::count(routine); }
inline void refuse(char const* routine, std::string const& why) { std::lock_guard<std::mutex> l(one); vh::fail(std::string(routine) + " called with invalid arguments", why); }

/// Compressed rows with indices from one: offsets rise, columns are in range.
inline bool rows(char const* routine, int m, int n, int const* col, int const* from, int const* to)
{
    for (int i = 0; i < m; ++i) {
        if (from[i] < 1 || to[i] < from[i] || (i && from[i] < to[i - 1])) { refuse(routine, vh::cat("row ", i, " is at ", from[i], " to ", to[i])); return false; }
        for (int k = from[i] - 1; k < to[i] - 1; ++k) if (col[k] < 1 || col[k] > n) { refuse(routine, vh::cat("row ", i, " has column ", col[k], " of ", n)); return false; }
    }
    return true;
}

template <class T> void csrmm(char const* name, char const* trans, int const* m, int const* n, int const* k, T const* alpha, char const* descr, T const* val, int const* col, int const* from, int const* to,
    T const* b, int const* ldb, T const* beta, T* c, int const* ldc)
{
    seen(name);
    if (*trans != 'N' || descr[0] != 'G' || descr[3] != 'F' || *m < 0 || *n < 0 || *k < 0 || *ldb < std::max(1, *k) || *ldc < std::max(1, *m)) return refuse(name, vh::cat(*trans, descr[0], descr[3], " ", *m, " ", *n, " ", *k, " ", *ldb, " ", *ldc));
    if (!rows(name, *m, *k, col, from, to)) return;
    for (int i = 0; i < *m; ++i) for (int j = 0; j < *n; ++j) {
        T s = 0; for (int p = from[i] - 1; p < to[i] - 1; ++p) s += val[p] * b[col[p] - 1 + j * *ldb];
        T& e = c[i + j * *ldc]; e = *beta == T(0) ? *alpha * s : *alpha * s + *beta * e;
    }
}

/// request 1 counts, request 2 computes into arrays that are large enough, request 0 does both up to nzmax.
template <class T> void csrmultcsr(char const* name, char const* trans, int const* request, int const* sort, int const* m, int const* n, int const* k, T* a, int* ja, int* ia, T* b, int* jb, int* ib, T* c, int* jc, int* ic, int const* nzmax, int* info)
{
    seen(name);
    if (*trans != 'N' || *request < 0 || *request > 2 || *sort < 0 || *sort > 8 || *m < 0 || *n < 0 || *k < 0) return refuse(name, vh::cat(*trans, " ", *request, " ", *sort, " ", *m, " ", *n, " ", *k));
    if (!rows(name, *m, *n, ja, ia, ia + 1) || !rows(name, *n, *k, jb, ib, ib + 1)) return;
    *info = 0; std::vector<T> row(static_cast<size_t>(*k)); std::vector<char> is(static_cast<size_t>(*k)); int at = 1;
    for (int i = 0; i < *m; ++i) {
        std::fill(row.begin(), row.end(), T(0)); std::fill(is.begin(), is.end(), 0);
        for (int p = ia[i] - 1; p < ia[i + 1] - 1; ++p) for (int q = ib[ja[p] - 1] - 1; q < ib[ja[p]] - 1; ++q) { row[size_t(jb[q] - 1)] += a[p] * b[q]; is[size_t(jb[q] - 1)] = 1; }
        if (*request != 2) ic[i] = at; else if (ic[i] != at) return refuse(name, "offsets are not those of the first step");
        for (int j = 0; j < *k; ++j) if (is[size_t(j)]) {
            if (*request == 0 && at > *nzmax) { *info = i + 1; return; }
            if (*request != 1) { c[at - 1] = row[size_t(j)]; jc[at - 1] = j + 1; }
            ++at;
        }
    }
    if (*request != 2) ic[*m] = at;
}

} // namespace mkl

extern "C" {
void mkl_dcsrmm(const char* t, const int* m, const int* n, const int* k, const double* al, const char* d, const double* v, const int* i, const int* pb, const int* pe, const double* b, const int* lb, const double* be, double* c, const int* lc)
{ mkl::csrmm("dcsrmm", t, m, n, k, al, d, v, i, pb, pe, b, lb, be, c, lc); }
void mkl_scsrmm(const char* t, const int* m, const int* n, const int* k, const float* al, const char* d, const float* v, const int* i, const int* pb, const int* pe, const float* b, const int* lb, const float* be, float* c, const int* lc)
{ mkl::csrmm("scsrmm", t, m, n, k, al, d, v, i, pb, pe, b, lb, be, c, lc); }
void mkl_dcsrmultcsr(const char* t, const int* r, const int* s, const int* m, const int* n, const int* k, double* a, int* ja, int* ia, double* b, int* jb, int* ib, double* c, int* jc, int* ic, const int* z, int* info)
{ mkl::csrmultcsr("dcsrmultcsr", t, r, s, m, n, k, a, ja, ia, b, jb, ib, c, jc, ic, z, info); }
void mkl_scsrmultcsr(const char* t, const int* r, const int* s, const int* m, const int* n, const int* k, float* a, int* ja, int* ia, float* b, int* jb, int* ib, float* c, int* jc, int* ic, const int* z, int* info)
{ mkl::csrmultcsr("scsrmultcsr", t, r, s, m, n, k, a, ja, ia, b, jb, ib, c, jc, ic, z, info); }
void MKL_Set_Dynamic(int) {}
void MKL_Set_Num_Threads(int) {}
}
