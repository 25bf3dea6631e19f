// Just enough of Blaze for Multiplication_Blaze.h: column-major views of memory and their product.
// Real Blaze also refuses spacings that do not fit the vector registers; that is not judged here.
#pragma once
#include <cstddef>
#include <stdexcept>

namespace blaze {

enum AlignmentFlag { unaligned = 0, aligned = 1 };
enum PaddingFlag { unpadded = 0, padded = 1 };
enum StorageOrder { rowMajor = 0, columnMajor = 1 };

template <class A, class B> struct Product { A const& a; B const& b; };

template <class T, AlignmentFlag, PaddingFlag, StorageOrder SO> class CustomMatrix
{
    static_assert(SO == columnMajor, "only column-major views are emulated");
    T* p_; std::size_t r_, c_, s_;
public:
    CustomMatrix(T* p, std::size_t rows, std::size_t columns, std::size_t spacing) : p_(p), r_(rows), c_(columns), s_(spacing)
    { if (spacing < rows) throw std::invalid_argument("spacing is smaller than the number of rows"); }
    std::size_t rows() const { return r_; }
    std::size_t columns() const { return c_; }
    T const& at(std::size_t i, std::size_t j) const { return p_[i + j * s_]; }
    template <class A, class B> CustomMatrix& operator = (Product<A, B> const& x)
    {
        if (x.a.columns() != x.b.rows() || x.a.rows() != r_ || x.b.columns() != c_) throw std::invalid_argument("matrix sizes do not match");
        for (std::size_t j = 0; j < c_; ++j) for (std::size_t i = 0; i < r_; ++i) {
            T s = 0; for (std::size_t k = 0; k < x.a.columns(); ++k) s += T(x.a.at(i, k)) * T(x.b.at(k, j));
            p_[i + j * s_] = s;
        }
        return *this;
    }
};

template <class T, AlignmentFlag A, PaddingFlag P, StorageOrder S, class U, AlignmentFlag B, PaddingFlag Q, StorageOrder R>
Product<CustomMatrix<T, A, P, S>, CustomMatrix<U, B, Q, R>> operator * (CustomMatrix<T, A, P, S> const& a, CustomMatrix<U, B, Q, R> const& b)
{ if (a.columns() != b.rows()) throw std::invalid_argument("matrix sizes do not match"); return {a, b}; }

} // namespace blaze
