// Random programs of whole-matrix operations and questions over several matrices of one kind.
#pragma once
#include "bb.h"

namespace vh {

template <class X> struct IsDense : std::false_type {};
template <class T, class P> struct IsDense<Matrix<Dense,T,P>> : std::true_type {};
template <class X> struct IsSparse : std::false_type {};
template <class T, class P> struct IsSparse<Matrix<Sparse,T,P>> : std::true_type {};

/// The same kind of matrix with another default norm.
template <class X, class N> struct WithNorm;
template <class M, class T, class I, class O, class S, class L, class U, class N0, class St, class N>
struct WithNorm<Matrix<M,T,Parameter<I,O,S,L,U,N0,St>>, N> { using type = Matrix<M,T,Parameter<I,O,S,L,U,N,St>>; };

/// The same kind of matrix in the other precision.
template <class X> struct OtherPrecision;
template <class M, class P> struct OtherPrecision<Matrix<M,double,P>> { using type = Matrix<M,float,P>; };
template <class M, class P> struct OtherPrecision<Matrix<M,float,P>> { using type = Matrix<M,double,P>; };

/// Fills a sparse matrix that was just resized.
template <class X> void fillSparse(X& A, Ref const& m)
{
    constexpr bool rm = std::is_same<typename X::parameter::orientation, RowMajor>::value;
    auto v = A.begin(); auto k = A.beginKey(); auto o = A.beginOffset();
    size_t n = 0;
    for (size_t x = 0; x < (rm ? m.r : m.c); ++x) {
        *o++ = n;
        for (size_t y = 0; y < (rm ? m.c : m.r); ++y) {
            double e = rm ? m(x, y) : m(y, x);
            if (e != 0) { *v++ = typename X::value_type(e); *k++ = y; ++n; }
        }
    }
    *o = n;
}

/// Runs a random program; ask(matrix, what it holds, trace) judges the answers.
template <class X, class Ask> void history(Rng& r, Ask const& ask, size_t most = 16)
{
    using T = typename X::value_type;
    constexpr size_t N = 3;
    Values v; v.exp = int(r.in(-6, 6));
    std::string trace;
    auto fresh = [&] { return gen(r, dim(r, true, most), dim(r, true, most), v); };
    std::vector<Ref> m; std::vector<X> x; x.reserve(N);
    for (size_t i = 0; i < N; ++i) { m.push_back(fresh()); x.push_back(make<X>(m.back(), r)); }
    // Some of the programs act on matrices of equal shape.
    if (r.chance(0.3)) for (size_t i = 1; i < N; ++i) { m[i] = gen(r, m[0].r, m[0].c, v); x[i] = make<X>(m[i], r); }
    size_t steps = size_t(r.in(8, 30));
    for (size_t s = 0; s < steps; ++s) {
        size_t i = r.below(N), j = r.below(N);
        if (r.chance(0.7)) { trace += cat(" ask ", i); doing("question"); ask(x[i], m[i], trace); }
        int op = int(r.below(12));
        std::string name;
        size_t touched[2] = {i, i};
        auto begin = [&](std::string const& n) { name = n; trace += cat("; ", n, " ", i, ",", j); doing(n); count("steps"); };
        switch (op) {
            case 0: begin("copy assignment"); x[i] = x[j]; m[i] = m[j]; touched[1] = j; break;
            case 1: { begin("move assignment from a new matrix"); Ref w = fresh(); X t(make<X>(w, r)); if (r.chance(0.5)) ask(t, w, trace); x[i] = std::move(t); m[i] = w; break; }
            case 2: { begin("swap"); swap(x[i], x[j]); if (i != j) std::swap(m[i], m[j]); touched[1] = j; break; }
            case 3: { begin("copy construction"); X t(x[j]); ask(t, m[j], trace); x[i] = t; m[i] = m[j]; break; }
            case 4: { begin("move construction"); X t(std::move(x[i])); ask(t, m[i], trace); x[i] = std::move(t); break; }
            case 5: { begin("self assignment"); X& self = x[i]; x[i] = self; break; }
            case 6: if constexpr (IsDense<X>::value) { begin("resize and fill"); Ref w(dim(r, true, most), dim(r, true, most), value(r, v)); if (r.chance(0.3)) { w.r = m[i].c; w.c = m[i].r; w.a.assign(w.r * w.c, value(r, v)); }
                        x[i].resize(w.r, w.c, AllFiller<T>(T(w.a.empty() ? 1 : w.a[0]))); m[i] = w; }
                    else { begin("resize and write"); Ref w = fresh(); if (!w.nnz()) break; x[i].resize(w.r, w.c, w.nnz()); fillSparse(x[i], w); m[i] = w; }
                    break;
            case 7: if constexpr (IsDense<X>::value) { begin("all elements set"); double e = value(r, v); x[i] = T(e); for (double& a : m[i].a) a = e; } break;
            case 8: if constexpr (IsDense<X>::value) {
                        bool plus = r.chance(0.5); begin(plus ? "+=" : "-=");
                        Ref w = partner(r, m[i], v); auto y = make<Matrix<Sparse,T,typename X::parameter>>(w, r); auto z = make<X>(w, r);
                        if constexpr (std::is_same<typename X::parameter::orientation, ColumnMajor>::value) { if (r.chance(0.5)) { if (plus) x[i] += y; else x[i] -= y; } else { if (plus) x[i] += z; else x[i] -= z; } }
                        else { if (plus) x[i] += z; else x[i] -= z; }
                        for (size_t k = 0; k < w.a.size(); ++k) m[i].a[k] += plus ? w.a[k] : -w.a[k];
                    } break;
            case 9: { begin("conversion"); using Y = typename OtherPrecision<X>::type; Ref w = fresh(); Y y = make<Y>(w, r); x[i] = y; m[i] = w; break; }
            case 10: { begin("assignment of a sum"); Ref w = partner(r, m[j], v); X y = make<X>(w, r); x[i] = x[j] + y; Ref u = m[j]; for (size_t k = 0; k < u.a.size(); ++k) u.a[k] += w.a[k]; m[i] = u; break; }
            case 11: { begin("conversion of the other form");
                       using Y = std::conditional_t<IsDense<X>::value, Matrix<Sparse,T,typename X::parameter>, Matrix<Dense,T,typename X::parameter>>;
                       Ref w = fresh(); Y y = make<Y>(w, r); x[i] = X(y); m[i] = w; break; }
            default: break;
        }
        if (name.empty()) continue;
        for (size_t t : touched) {
            std::string bad, d; Ref got = read(x[t], &bad); d = bad.empty() ? diff(got, m[t]) : bad;
            if (!d.empty()) return;   // wrong contents are judged by the checks of the operation
            if (r.chance(0.8)) { trace += cat(" ask ", t); ask(x[t], m[t], name + " |" + trace); }
        }
    }
}

} // namespace vh
