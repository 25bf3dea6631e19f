// Results of operations whose operands and destinations were asked before.
#pragma once
#include "history.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/Transposition.h"

namespace vh {

template <class X> constexpr bool isZeroKind = std::is_same<X,ZZ>::value || std::is_same<X,RZZ>::value;
template <class X> constexpr bool isMultiKind = !IsDense<X>::value && !IsSparse<X>::value && !isZeroKind<X>;

/// Random questions: they leave answers behind in the matrix.
template <class X> void curious(X const& A, Rng& r)
{
    for (int k = int(r.below(4)); k > 0; --k) switch (r.below(4)) {
        case 0: (void)A.getNorm(); break;
        case 1: if constexpr (!isMultiKind<X>) { if (r.chance(0.5)) { (void)A.isNormSmallerThan(double(r.in(-1, 9))); break; } } (void)A.isNormLargerThan(double(r.in(-1, 9))); break;
        case 2: (void)A.getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(r.chance(0.5) ? 0.0 : double(r.below(5)))); break;
        default: (void)A.getOccupation(AbsoluteValueRangeChecker<float, ExclusiveBound, InclusiveBound>(float(r.below(2)), float(3 + r.below(3))));
    }
}

/// ask(matrix, what it holds, name of the operation) judges; results that are wrong themselves are judged elsewhere.
template <class X, class Y, bool Times, class Ask> void results(size_t n, Ask const& ask)
{
    std::string const name = Kind<X>::name() + "," + Kind<Y>::name();
    group("results " + name, n, [&](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-6, 6)); splitUnit() = std::ldexp(1, v.exp);
        Ref a = isZeroKind<X> ? Ref(dim(r, true), dim(r, true)) : gen(r, dim(r, true), dim(r, true), v);
        Ref b = isZeroKind<Y> ? Ref(a.r, a.c) : partner(r, a, v);
        X A = make<X>(a, r); Y B = make<Y>(b, r);
        saw(mix(hash(name)) ^ a.hash() ^ mix(b.hash()));
        auto questions = [&] { curious(A, r); curious(B, r); };
        auto judge = [&](auto const& C, Ref const& w, char const* op) {
            std::string bad; Ref got = read(C, &bad);
            if (!bad.empty() || !diff(got, w).empty()) return;
            ask(C, w, cat(op, " ", name)); count("results asked");
        };
        questions(); doing("sum " + name);
        Ref s = a, d = a; for (size_t k = 0; k < a.a.size(); ++k) { s.a[k] += b.a[k]; d.a[k] -= b.a[k]; }
        auto S = A + B; judge(S, s, "sum");
        questions(); doing("difference " + name);
        auto D = A - B; judge(D, d, "difference");
        questions(); S = A - B; judge(S, d, "difference into a used variable");
        curious(D, r); D = A + B; judge(D, s, "sum into a used variable");
        auto into = [&]<class M1, class T1, class P1, class M2, class T2, class P2, class M3, class T3, class P3>(Matrix<M1,T1,P1> const& x, Matrix<M2,T2,P2> const& y, Matrix<M3,T3,P3>& z)
            { BinaryOperationFunctor<Minus,M1,T1,P1,M2,T2,P2,M3,T3,P3>()(x, y, z); };
        if constexpr (!isMultiKind<X> && !isMultiKind<Y>) if constexpr (IsDense<decltype(D)>::value || IsSparse<decltype(D)>::value) {
            using Z = std::decay_t<decltype(D)>; Z Q = make<Z>(gen(r, a.r, a.c, v), r); questions(); curious(Q, r); doing("difference into an asked matrix " + name);
            into(A, B, Q); judge(Q, d, "difference into an asked matrix"); }
        questions(); judge(A, a, "operand of sums"); judge(B, b, "second operand of sums");
        { X U(A); curious(U, r); curious(B, r); bool done = true; doing("update " + name); bool plus = r.chance(0.5);
          try { if (plus) U += B; else U -= B; } catch (std::exception const&) { done = false; }
          judge(U, done ? plus ? s : d : a, done ? "update" : "refused update"); judge(A, a, "source of an updated copy"); }
        if constexpr (Times) {
            Ref k = isZeroKind<Y> ? Ref(a.c, dim(r, true)) : gen(r, a.c, dim(r, true), v), p(a.r, k.c); Y K = make<Y>(k, r);
            for (size_t i = 0; i < p.r; ++i) for (size_t j = 0; j < p.c; ++j) for (size_t q = 0; q < a.c; ++q) p(i, j) += a(i, q) * k(q, j);
            curious(A, r); curious(K, r); doing("product " + name);
            auto P = (A * K).template execute<Native>(); judge(P, p, "product");
            curious(P, r); P = (A * K).template execute<TheBestPolicy>(); judge(P, p, "product into a used variable");
            using C = std::decay_t<decltype(P)>;
            if constexpr (!isMultiKind<X> && !isMultiKind<Y> && !isZeroKind<C>) {
                C Q = make<C>(r.chance(0.5) ? gen(r, p.r, p.c, v) : gen(r, dim(r), dim(r), v), r); curious(Q, r); curious(A, r); doing("product into an asked matrix " + name);
                auto go = [&]<class M1, class E1, class P1, class M2, class E2, class P2, class M3, class E3, class P3>
                    (Matrix<M1,E1,P1> const& x, Matrix<M2,E2,P2> const& y, Matrix<M3,E3,P3>& z) { MultiplicationFunctor<M1,E1,P1,M2,E2,P2,M3,E3,P3,Native>()(x, y, z); };
                go(A, K, Q); judge(Q, p, "product into an asked matrix");
            }
        }
        if constexpr ((IsDense<X>::value || IsSparse<X>::value) && !isMultiKind<Y> && !isZeroKind<Y>) {
            curious(B, r); doing("conversion " + name);
            if constexpr (!std::is_same<X, Y>::value || true) { X U(B); judge(U, b, "conversion"); curious(U, r); U = X(B); judge(U, b, "conversion into a used variable"); }
            if constexpr (IsDense<X>::value && IsDense<Y>::value) { X U = make<X>(gen(r, b.r, b.c, v), r); curious(U, r); curious(B, r); doing("copy " + name); copy(B, U); judge(U, b, "elements copied into an asked matrix"); }
            Ref t(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) t(j, i) = a(i, j);
            curious(A, r); doing("transposition " + name); X T = transpose(A); judge(T, t, "transposition"); curious(T, r); T = transpose(T); judge(T, a, "transposition into itself");
        }
    });
}

template <class X, class Ask, class... Y> void resultRow(size_t n, Ask const& ask) { (void)std::initializer_list<int>{(results<X, Y, true>(n, ask), 0)...}; }
template <class X, class Ask, class... Y> void resultRowSums(size_t n, Ask const& ask) { (void)std::initializer_list<int>{(results<X, Y, false>(n, ask), 0)...}; }

template <class Ask> void allResults(size_t n, Ask const& ask)
{
    resultRow<DD, Ask, DD, DF, SD, SF, ZZ>(n, ask); resultRow<DF, Ask, DD, DF, SD, SF, ZZ>(n, ask);
    resultRow<SD, Ask, DD, DF, SD, SF, ZZ>(n, ask); resultRow<SF, Ask, DD, DF, SD, SF, ZZ>(n, ask);
    resultRow<ZZ, Ask, DD, DF, SD, SF, ZZ>(n, ask);
    resultRowSums<RDD, Ask, RDD, RDF, RSD, RSF, RZZ>(n, ask); resultRowSums<RSD, Ask, RDD, RDF, RSD, RSF, RZZ>(n, ask); resultRowSums<RZZ, Ask, RDD, RSD>(n, ask);
    resultRow<MSD, Ask, DD, SD, MSD>(n, ask); resultRow<DD, Ask, MSS, MSD, MDD>(n, ask);
}

} // namespace vh
