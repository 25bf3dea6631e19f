// Reference matrices and bridges to the library's matrix types.
// The bridges use only the most basic interface (element access for dense matrices, the
// three arrays for sparse ones), so that they do not rely on the operations under test.
#pragma once
#include "vh.h"
#include <cassert>
#include <array>
#include <complex>
#include <memory>
#include <tuple>
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
#include "BlasBooster/Core/AllMatrixTypes.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"

namespace vh {
using namespace BlasBooster;

using CM = Parameter<size_t, ColumnMajor>;
using RM = Parameter<size_t, RowMajor>;
using DD = Matrix<Dense, double>;
using DF = Matrix<Dense, float>;
using SD = Matrix<Sparse, double>;
using SF = Matrix<Sparse, float>;
using ZZ = Matrix<Zero>;
using RDD = Matrix<Dense, double, RM>;
using RDF = Matrix<Dense, float, RM>;
using RSD = Matrix<Sparse, double, RM>;
using RSF = Matrix<Sparse, float, RM>;
using RZZ = Matrix<Zero, NullType, RM>;
using MSS = MultipleMatrix<SD, SF>;
using MSD = MultipleMatrix<SD, DF>;
using MDD = MultipleMatrix<DD, DF>;

/// Reference matrix: plain row-wise array.
struct Ref
{
    size_t r = 0, c = 0;
    std::vector<double> a;
    Ref() {}
    Ref(size_t r, size_t c, double v = 0) : r(r), c(c), a(r * c, v) {}
    double& operator()(size_t i, size_t j) { return a[i * c + j]; }
    double operator()(size_t i, size_t j) const { return a[i * c + j]; }
    std::string str() const
    {
        std::ostringstream o; o.precision(17);
        o << r << "x" << c << " [";
        for (size_t i = 0; i < r && i < 12; ++i) { o << (i ? "; " : ""); for (size_t j = 0; j < c && j < 12; ++j) o << (j ? " " : "") << (*this)(i, j); }
        return o.str() + "]";
    }
    size_t nnz() const { size_t n = 0; for (double v : a) n += v != 0; return n; }
    uint64_t hash() const
    {
        uint64_t h = mix(r * 1000003 + c);
        for (double v : a) { uint64_t b; memcpy(&b, &v, 8); h = mix(h ^ b); }
        return h;
    }
};

/// Where two reference matrices differ, "" if nowhere.
inline std::string diff(Ref const& got, Ref const& want, double rel = 0, double abs = 0)
{
    if (got.r != want.r || got.c != want.c) return cat("shape ", got.r, "x", got.c, " instead of ", want.r, "x", want.c);
    for (size_t i = 0; i < got.r; ++i) for (size_t j = 0; j < got.c; ++j) {
        double g = got(i, j), w = want(i, j);
        if (g == w) continue;
        if (std::abs(g - w) <= abs + rel * std::abs(w)) continue;
        return cat("element (", i, ",", j, ") is ", g, " instead of ", w);
    }
    return "";
}

// ---------------------------------------------------------------- kinds
template <class X> struct Kind;
template <class T, class P> struct Kind<Matrix<Dense,T,P>> {
    static std::string name() { return std::string(std::is_same<typename P::orientation, RowMajor>::value ? "r" : "") + "Dense" + (sizeof(T) == 8 ? "D" : "F"); }
    static constexpr bool single = sizeof(T) == 4; };
template <class T, class P> struct Kind<Matrix<Sparse,T,P>> {
    static std::string name() { return std::string(std::is_same<typename P::orientation, RowMajor>::value ? "r" : "") + "Sparse" + (sizeof(T) == 8 ? "D" : "F"); }
    static constexpr bool single = sizeof(T) == 4; };
template <class P> struct Kind<Matrix<Zero,NullType,P>> {
    static std::string name() { return std::string(std::is_same<typename P::orientation, RowMajor>::value ? "r" : "") + "Zero"; }
    static constexpr bool single = false; };
template <class A, class B> struct Kind<MultipleMatrix<A,B>> {
    static std::string name() { return "Multi<" + Kind<A>::name() + "," + Kind<B>::name() + ">"; }
    static constexpr bool single = Kind<A>::single && Kind<B>::single; };

template <class T, class P> Matrix<Dense,T,P> make(Ref const& m, Rng&, Matrix<Dense,T,P>*)
{
    Matrix<Dense,T,P> A(m.r, m.c);
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) A(i, j) = T(m(i, j));
    return A;
}

/// How many zeros a made sparse matrix stores (as after elements that cancelled).
inline double& storedZeros() { static double p = 0; return p; }

template <class T, class P> Matrix<Sparse,T,P> make(Ref const& m, Rng& r, Matrix<Sparse,T,P>*)
{
    // Zero significant elements asks for room for all, so an empty matrix comes from a conversion.
    if (!m.nnz()) { Matrix<Dense,T,P> Z(m.r, m.c); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) Z(i, j) = T(0); return Matrix<Sparse,T,P>(Z); }
    constexpr bool rm = std::is_same<typename P::orientation, RowMajor>::value;
    size_t nnz = m.nnz(), outer = rm ? m.r : m.c, inner = rm ? m.c : m.r;
    std::vector<char> zero(storedZeros() > 0 && r.chance(0.25) ? m.a.size() : 0);
    for (size_t i = 0; i < zero.size(); ++i) if (m.a[i] == 0 && r.chance(storedZeros())) { zero[i] = 1; ++nnz; }
    if (!zero.empty()) count("matrices storing zeros");
    Matrix<Sparse,T,P> A(m.r, m.c, nnz);
    auto v = A.begin(); auto k = A.beginKey(); auto o = A.beginOffset();
    size_t n = 0;
    for (size_t x = 0; x < outer; ++x) {
        *o++ = n;
        for (size_t y = 0; y < inner; ++y) {
            double e = rm ? m(x, y) : m(y, x);
            if (e != 0 || (!zero.empty() && zero[rm ? x * m.c + y : y * m.c + x])) { *v++ = T(e); *k++ = y; ++n; }
        }
    }
    *o = n;
    return A;
}

template <class P> Matrix<Zero,NullType,P> make(Ref const& m, Rng&, Matrix<Zero,NullType,P>*) { return Matrix<Zero,NullType,P>(m.r, m.c); }

/// What the parts of a zero matrix are multiples of.
inline double& splitUnit() { static double u = 1; return u; }

/// Splits a matrix into two summands, each exact in its precision.
inline void split(Ref const& m, Rng& r, Ref& a, Ref& b)
{
    a = Ref(m.r, m.c); b = Ref(m.r, m.c);
    int how = int(r.below(4));
    double unit = 0; for (double e : m.a) if (e != 0 && (unit == 0 || std::abs(e) < unit)) unit = std::abs(e);
    if (unit == 0) unit = splitUnit();
    for (size_t i = 0; i < m.a.size(); ++i) {
        if (m.a[i] == 0 && how != 3) continue;
        switch (how == 0 ? 0 : how == 1 ? 1 : int(r.below(3))) {
            case 0: a.a[i] = m.a[i]; break;
            case 1: b.a[i] = m.a[i]; break;
            default: { double x = double(r.in(-7, 7)) * unit; a.a[i] = m.a[i] - x; b.a[i] = x; }
        }
    }
}

template <class X> X make(Ref const& m, Rng& r) { return make(m, r, static_cast<X*>(nullptr)); }

template <class A, class B> MultipleMatrix<A,B> make(Ref const& m, Rng& r, MultipleMatrix<A,B>*)
{
    Ref a, b; split(m, r, a, b);
    return MultipleMatrix<A,B>(std::make_shared<A>(make<A>(a, r)), std::make_shared<B>(make<B>(b, r)));
}

/// Memory of the caller: dense matrices over it start at any element and lie between guards.
struct Callers
{
    struct Block { std::vector<double> d; std::vector<float> f; size_t first = 0, size = 0; };
    std::vector<std::unique_ptr<Block>> blocks;
    static double guard(size_t k) { return 4096.5 + double(k % 64); }
    template <class T> static std::vector<T>& in(Block& b) { if constexpr (sizeof(T) == 8) return b.d; else return b.f; }
    /// A matrix over memory of the caller if it is dense, any other as ever.
    template <class X> X make(Ref const& m, Rng& r) { return make(m, r, static_cast<X*>(nullptr)); }
    template <class X> X make(Ref const& m, Rng& r, X*) { return vh::make<X>(m, r); }
    template <class T, class P> Matrix<Dense,T,P> make(Ref const& m, Rng& r, Matrix<Dense,T,P>*)
    {
        if (m.a.empty() || r.chance(0.4)) return vh::make<Matrix<Dense,T,P>>(m, r);
        blocks.push_back(std::make_unique<Block>()); Block& b = *blocks.back();
        b.first = 1 + r.below(8); b.size = m.a.size(); auto& v = in<T>(b); v.resize(b.first + b.size + 8);
        for (size_t k = 0; k < v.size(); ++k) v[k] = T(guard(k));
        constexpr bool rm = std::is_same<typename P::orientation, RowMajor>::value;
        for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) v[b.first + (rm ? i * m.c + j : j * m.r + i)] = T(m(i, j));
        count("operands in memory of the caller");
        return Matrix<Dense,T,P>(m.r, m.c, v.data() + b.first);
    }
    template <class T> static bool intact(std::vector<T> const& v, Block const& b)
    {
        for (size_t k = 0; k < v.size(); ++k) if ((k < b.first || k >= b.first + b.size) && v[k] != T(guard(k))) return false;
        return true;
    }
    bool intact() const { for (auto& b : blocks) if (!intact(b->d, *b) || !intact(b->f, *b)) return false; return true; }
};

template <class T, class P> Ref read(Matrix<Dense,T,P> const& A, std::string* = nullptr)
{
    Ref m(A.getNbRows(), A.getNbColumns());
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) m(i, j) = double(A(i, j));
    return m;
}

/// Reads a sparse matrix and judges whether it is well formed.
template <class T, class P> Ref read(Matrix<Sparse,T,P> const& A, std::string* bad = nullptr)
{
    constexpr bool rm = std::is_same<typename P::orientation, RowMajor>::value;
    Ref m(A.getNbRows(), A.getNbColumns());
    size_t outer = rm ? m.r : m.c, inner = rm ? m.c : m.r;
    std::string b;
    size_t stored = size_t(A.end() - A.begin()), keys = size_t(A.endKey() - A.beginKey()), offs = size_t(A.endOffset() - A.beginOffset());
    auto v = A.begin(); auto k = A.beginKey(); auto o = A.beginOffset();
    if (offs != outer + 1) b = cat("has ", offs, " offsets for ", outer, " lines");
    else if (keys != stored) b = cat("has ", keys, " indices for ", stored, " elements");
    else if (o[0] != 0) b = cat("first offset is ", o[0]);
    else {
        for (size_t x = 0; x < outer && b.empty(); ++x) {
            size_t lo = o[x], hi = o[x + 1];
            if (hi < lo || hi > stored) { b = cat("offsets ", lo, "..", hi, " with ", stored, " elements"); break; }
            for (size_t p = lo; p < hi; ++p) {
                if (k[p] >= inner) { b = cat("index ", k[p], " out of ", inner); break; }
                if (p > lo && k[p] <= k[p - 1]) { b = cat("indices ", k[p - 1], ",", k[p], " not increasing"); break; }
                (rm ? m(x, k[p]) : m(k[p], x)) = double(v[p]);
            }
        }
        if (b.empty() && o[outer] != stored) b = cat("stores ", stored, " elements, last offset is ", o[outer]);
        if (b.empty() && size_t(A.nnz()) != stored) b = cat("nnz ", A.nnz(), " of ", stored);
    }
    if (bad) *bad = b;
    return m;
}

template <class P> Ref read(Matrix<Zero,NullType,P> const& A, std::string* = nullptr) { return Ref(A.getNbRows(), A.getNbColumns()); }

template <class A, class B> Ref read(MultipleMatrix<A,B> const& M, std::string* bad = nullptr)
{
    Ref a = read(M.getMatrix1(), bad), b;
    if (bad && !bad->empty()) return a;
    b = read(M.getMatrix2(), bad);
    if (a.r != b.r || a.c != b.c) { if (bad) *bad = "summands differ in shape"; return a; }
    for (size_t i = 0; i < a.a.size(); ++i) a.a[i] += b.a[i];
    return a;
}

/// Reads a runtime-typed matrix through its real C++ type and reports kind mismatches.
struct DynRead { Ref m; size_t kind = 99; std::string bad; };
inline DynRead readDyn(DynamicMatrix const& d)
{
    DynRead x;
    if (!d) { x.bad = "null matrix"; return x; }
    auto tryit = [&](auto* p, size_t kind) { if (p && x.kind == 99) { x.kind = kind; std::string b; x.m = read(*p, &b); x.bad = b; } };
    MatrixBase* q = d.get();
    tryit(dynamic_cast<ZZ*>(q), 0); tryit(dynamic_cast<SF*>(q), 1); tryit(dynamic_cast<DF*>(q), 2); tryit(dynamic_cast<SD*>(q), 3);
    tryit(dynamic_cast<MSS*>(q), 4); tryit(dynamic_cast<MSD*>(q), 5); tryit(dynamic_cast<DD*>(q), 6);
    if (x.kind == 99) x.bad = "unknown concrete kind";
    else if (d->getTypeIndex() != x.kind) x.bad = cat("reports kind ", d->getTypeIndex(), " but is kind ", x.kind);
    return x;
}

template <size_t K> struct KindAt;
template <> struct KindAt<0> { using type = ZZ; };
template <> struct KindAt<1> { using type = SF; };
template <> struct KindAt<2> { using type = DF; };
template <> struct KindAt<3> { using type = SD; };
template <> struct KindAt<4> { using type = MSS; };
template <> struct KindAt<5> { using type = MSD; };
template <> struct KindAt<6> { using type = DD; };
constexpr size_t nbKinds = 7;

inline DynamicMatrix makeDyn(Ref const& m, Rng& r, size_t kind)
{
    switch (kind) {
        case 0: return std::make_shared<ZZ>(make<ZZ>(m, r));
        case 1: return std::make_shared<SF>(make<SF>(m, r));
        case 2: return std::make_shared<DF>(make<DF>(m, r));
        case 3: return std::make_shared<SD>(make<SD>(m, r));
        case 4: return std::make_shared<MSS>(make<MSS>(m, r));
        case 5: return std::make_shared<MSD>(make<MSD>(m, r));
        default: return std::make_shared<DD>(make<DD>(m, r));
    }
}

inline DynamicMatrix makeDyn(Callers& mem, Ref const& m, Rng& r, size_t kind)
{
    if (kind == 2) return std::make_shared<DF>(mem.make<DF>(m, r));
    if (kind == 6) return std::make_shared<DD>(mem.make<DD>(m, r));
    return makeDyn(m, r, kind);
}

// ---------------------------------------------------------------- generators
/// Magnitude bound and binary scale of the values: v * 2^exp with |v| <= bound.
struct Values { int64_t bound = 9; int exp = 0; };

inline double value(Rng& r, Values const& v)
{
    int64_t x;
    do { x = r.chance(0.3) ? r.in(-3, 3) : r.in(-v.bound, v.bound); } while (x == 0);
    return std::ldexp(double(x), v.exp);
}

/// A matrix with one of many sparsity patterns.
inline Ref gen(Rng& r, size_t nr, size_t nc, Values const& v, int style = -1)
{
    Ref m(nr, nc);
    if (!nr || !nc) return m;
    if (style < 0) style = st().mode && r.chance(0.6) ? 1 : int(r.below(12));
    auto put = [&](size_t i, size_t j) { m(i, j) = value(r, v); };
    switch (style) {
        case 0: break;                                                            // all zero
        case 1: case 2: for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) put(i, j); break; // full
        case 3: put(r.below(nr), r.below(nc)); break;                              // single
        case 4: put(nr - 1, nc - 1); if (r.chance(0.5)) put(0, 0); break;          // corners
        case 5: for (size_t i = 0; i < nr && i < nc; ++i) put(i, i); break;        // diagonal
        case 6: { size_t j = r.below(nc); for (size_t i = 0; i < nr; ++i) put(i, j); break; } // one column
        case 7: { size_t i = r.below(nr); for (size_t j = 0; j < nc; ++j) put(i, j); break; } // one row
        case 8: for (size_t j = 0; j < nc; ++j) if (r.chance(0.5)) for (size_t i = 0; i < nr; ++i) if (r.chance(0.6)) put(i, j); break; // empty columns
        case 9: for (size_t i = 0; i < nr; ++i) if (r.chance(0.5)) for (size_t j = 0; j < nc; ++j) if (r.chance(0.6)) put(i, j); break; // empty rows
        case 10: for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j <= i && j < nc; ++j) put(i, j); break; // triangle
        default: { double p = r.unit(); for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) if (r.chance(p)) put(i, j); }
    }
    return m;
}

/// Dimensions: mostly small, often 1, sometimes 0, now and then large.
inline size_t dim(Rng& r, bool zero = false, size_t large = 40)
{
    if (st().mode == 1) return r.chance(0.5) ? size_t(r.in(255, 300)) : size_t(r.in(1, 4));
    if (st().mode == 2) return size_t(r.in(256, 262));
    if (st().mode == 3) { if (!st().tallUsed && r.chance(0.5)) { st().tallUsed = true; return size_t(r.in(65537, 65600)); } return size_t(r.in(1, 2)); }
    double u = r.unit();
    if (zero && u < 0.03) return 0;
    if (u < 0.20) return 1;
    if (u < 0.85) return size_t(r.in(2, 6));
    if (u < 0.97) return size_t(r.in(7, 13));
    if (u > 0.985 && st().stretch) { static const size_t edge[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}; return edge[r.below(12)]; }
    return size_t(r.in(14, int64_t(large)));
}

/// Second operand related to the first: shared positions, cancelling values, ...
inline Ref partner(Rng& r, Ref const& a, Values const& v)
{
    Ref b = gen(r, a.r, a.c, v);
    double p = r.chance(0.5) ? 0.0 : r.unit();
    int how = int(r.below(3));
    for (size_t i = 0; i < b.a.size(); ++i) if (r.chance(p)) b.a[i] = how == 0 ? -a.a[i] : how == 1 ? a.a[i] : (a.a[i] == 0 ? b.a[i] : 0);
    return b;
}

} // namespace vh
