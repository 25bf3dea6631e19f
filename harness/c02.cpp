// C02: products over all pairs of representations and all backends accepting them.
#include "bb.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#if PART == 9
#include "mkl_standin.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#endif
#if PART == 10
#include "BlasBooster/Core/Multiplication_Blaze.h"
#endif
using namespace vh;

template <class X> constexpr bool isZero = std::is_same<X,ZZ>::value || std::is_same<X,RZZ>::value;

template <class X> void judge(X const& c, Ref const& want, double rel, double abs, std::string const& key)
{
    std::string bad; Ref got = read(c, &bad);
    expect(bad.empty(), key + ": malformed result", [&]{ return bad; });
    std::string d = diff(got, want, rel, abs);
    expect(d.empty(), key, [&]{ return cat(d, ", want ", want.str()); });
    expect(c.getSize() == want.r * want.c, key + ": size", [&]{ return cat("getSize ", c.getSize()); });
}

struct Ops { Ref a, b, p; double rel = 0, abs = 0; bool exact = true; };

/// Operands whose product is exact in either precision, or ones that need rounding.
template <class X, class Y> Ops operands(Rng& r)
{
    Ops o;
    size_t m = dim(r, true), k = dim(r, true), n = dim(r, true);
    if (st().mode == 1) { size_t w = r.below(3); m = r.in(1, 4); k = r.in(1, 4); n = r.in(1, 4); (w == 0 ? m : w == 1 ? k : n) = size_t(r.in(255, 300)); }
    if (st().mode == 2) k = r.in(1, 3);
    Values v; v.exp = int(r.in(-9, 9));
    o.a = isZero<X> ? Ref(m, k) : gen(r, m, k, v);
    o.b = isZero<Y> ? Ref(k, n) : gen(r, k, n, v);
    if (st().mode == 3 && m && k && n) {   // something in the last lines
        size_t q = k > 65536 ? k - 1 : r.below(k);
        if (!isZero<X>) o.a(m - 1, q) = value(r, v);
        if (!isZero<Y>) o.b(q, n - 1) = value(r, v);
    }
    bool anyMulti = Kind<X>::name().find("Multi") == 0 || Kind<Y>::name().find("Multi") == 0;
    if (r.chance(0.3)) {
        // rows of the left and columns of the right operand scaled by powers of two: every element stays exact
        bool fx = Kind<X>::name().find('F') != std::string::npos, fy = Kind<Y>::name().find('F') != std::string::npos;
        int lx = fx ? 55 : 480, ly = fy ? 55 : 480;
        auto e = [&](int l) { return int(r.in(-l, l)); };
        int ex = e(lx - 60 > 0 ? lx - 60 : 25), ey = e(ly - 60 > 0 ? ly - 60 : 25); bool same = anyMulti || r.chance(0.4);
        for (size_t i = 0; i < m; ++i) { int s = same ? ex : ex + e(fx ? 20 : 40); for (size_t q = 0; q < k; ++q) o.a(i, q) = std::ldexp(o.a(i, q), s); }
        for (size_t j = 0; j < n; ++j) { int s = same ? ey : ey + e(fy ? 20 : 40); for (size_t q = 0; q < k; ++q) o.b(q, j) = std::ldexp(o.b(q, j), s); }
        count("scaled operands");
    }
    // a single-precision part times a single-precision part is rounded in single precision
    bool single = Kind<X>::name().find('F') != std::string::npos && Kind<Y>::name().find('F') != std::string::npos;
    double big = 0;
    if (r.chance(0.35) && !isZero<X> && !isZero<Y>) {   // tolerance relative to the largest elements
        o.exact = false;
        auto rough = [&](Ref& x, bool narrow) { for (double& e : x.a) if (e != 0) { e = e * (1 + r.unit()); if (narrow) e = double(float(e)); } };
        bool nx = Kind<X>::name().find('F') != std::string::npos, ny = Kind<Y>::name().find('F') != std::string::npos;
        rough(o.a, nx); rough(o.b, ny);
        for (double e : o.a.a) big = std::max(big, std::abs(e));
        double bb = 0; for (double e : o.b.a) bb = std::max(bb, std::abs(e));
        o.abs = big * bb * double(k + 1) * 4 * (single ? 1.2e-7 : 2.3e-16);
        // two summands whose parts do not cancel exactly need more room
        if (anyMulti) { if (big == 0) big = 1; if (bb == 0) bb = 1; }   // the parts of a zero matrix need not be zero
        if (anyMulti) o.abs += big * bb * double(k + 1) * 100 * (single ? 1.2e-7 : 2.3e-16);
    }
    o.p = Ref(m, n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) {
        long double s = 0;
        for (size_t q = 0; q < k; ++q) s += (long double)o.a(i, q) * o.b(q, j);
        o.p(i, j) = double(s);
    }
    return o;
}

/// Splitting into two summands is exact for integers only, so the reference is what the operand really holds.
template <class X> void hold(Ref& m, X const& A) { m = read(A); }

template <class X, class Y, class I> void pair(char const* backend, size_t n)
{
    std::string const name = std::string(backend) + " " + Kind<X>::name() + "*" + Kind<Y>::name();
    using C = decltype((std::declval<X const&>() * std::declval<Y const&>()).template execute<I>());
    group(name, n, [&](Rng& r, size_t) {
        Ops o = operands<X, Y>(r);
        Callers mem;
        X A = mem.make<X>(o.a, r); Y B = mem.make<Y>(o.b, r);
        if (!o.exact) {
            hold(o.a, A); hold(o.b, B);
            for (size_t i = 0; i < o.p.r; ++i) for (size_t j = 0; j < o.p.c; ++j) {
                long double s = 0;
                for (size_t q = 0; q < o.a.c; ++q) s += (long double)o.a(i, q) * o.b(q, j);
                o.p(i, j) = double(s);
            }
        }
        if ((isZero<X> || o.a.nnz()) && (isZero<Y> || o.b.nnz())) saw(mix(hash(name)) ^ o.a.hash() ^ mix(o.b.hash()));
        if (!o.a.c) count("inner dimension zero");
        if (!o.p.r || !o.p.c) count("empty products");
        if (want_sample()) sample(cat(o.a.str(), " * ", o.b.str()));
        constexpr bool wantSingle = Kind<X>::single && Kind<Y>::single;
        if (!isZero<C>) expect(Kind<C>::single == wantSingle, "precision of " + name, [&]{ return Kind<C>::name(); });
        doing(name);
        C P = (A * B).template execute<I>();
        judge(P, o.p, 0, o.abs, name);
        // into a variable that already held something else, and once more
        doing("into used " + name);
        C Q = make<C>(isZero<C> ? Ref(dim(r), dim(r)) : gen(r, dim(r), dim(r), Values()), r);
        Q = (A * B).template execute<I>();
        judge(Q, o.p, 0, o.abs, name + " into a used variable");
        if (!o.p.a.empty()) {
            std::string d = diff(read(Q), read(P)); expect(d.empty(), name + " differs when repeated", [&]{ return d; });
        }
        std::string da = diff(read(A), o.a), db = diff(read(B), o.b);
        expect(da.empty() && db.empty(), "operands changed by " + name, [&]{ return da + " / " + db; });
        expect(mem.intact(), "memory beside the operands changed by " + name);
        count(std::string("products ") + backend);
    });
}

/// The functor writes into a destination that held something else before.
template <class X, class Y, class I> void dirty(char const* backend, size_t n)
{
    std::string const name = std::string(backend) + " destination " + Kind<X>::name() + "*" + Kind<Y>::name();
    using C = decltype((std::declval<X const&>() * std::declval<Y const&>()).template execute<I>());
    group(name, n, [&](Rng& r, size_t) {
        Ops o = operands<X, Y>(r);
        Callers mem; X A = mem.make<X>(o.a, r); Y B = mem.make<Y>(o.b, r);
        size_t m = r.chance(0.5) ? o.p.r : dim(r, true), q = r.chance(0.5) ? o.p.c : dim(r, true);
        if (r.chance(0.3)) m = o.p.r, q = o.p.c;
        Ref old = isZero<C> ? Ref(m, q) : gen(r, m, q, Values(), r.chance(0.6) ? 1 : -1);
        // memory of the caller has room for the product only when it has its size
        C P = m == o.p.r && q == o.p.c ? mem.make<C>(old, r) : make<C>(old, r);
        saw(mix(hash(name)) ^ o.a.hash() ^ mix(o.b.hash()));
        doing(name);
        using T1 = typename std::conditional<isZero<X>, NullType, double>::type; (void)sizeof(T1);
        auto go = [&]<class M1, class E1, class P1, class M2, class E2, class P2, class M3, class E3, class P3>
            (Matrix<M1,E1,P1> const& a, Matrix<M2,E2,P2> const& b, Matrix<M3,E3,P3>& c) { MultiplicationFunctor<M1,E1,P1,M2,E2,P2,M3,E3,P3,I>()(a, b, c); };
        go(A, B, P);
        judge(P, o.p, 0, o.abs, name);
        expect(mem.intact(), "memory beside operands or product changed by " + name);
        count("products into dirty destinations");
    });
}

template <class X, class... Y> void native(size_t n)
{
    (void)std::initializer_list<int>{(pair<X, Y, Native>("Native", n), pair<X, Y, TheBestPolicy>("TheBestPolicy", n / 2), 0)...};
}
template <class X, class... Y> void nativeDirty(size_t n) { (void)std::initializer_list<int>{(dirty<X, Y, Native>("Native", n), 0)...}; }

/// Products assigned from the expression itself.
template <class X, class Y, class C> void assigned(size_t n)
{
    std::string const name = "expression " + Kind<X>::name() + "*" + Kind<Y>::name();
    group(name, n, [&](Rng& r, size_t) {
        Ops o = operands<X, Y>(r);
        if (!o.exact) return;
        X A = make<X>(o.a, r); Y B = make<Y>(o.b, r);
        saw(mix(hash(name)) ^ o.a.hash() ^ mix(o.b.hash()));
        doing(name);
        C P(A * B);
        judge(P, o.p, 0, 0, name);
        C Q = make<C>(gen(r, dim(r), dim(r), Values()), r);
        Q = A * B;
        judge(Q, o.p, 0, 0, name + " assigned");
        if (o.a.r == o.a.c && std::is_same<X,C>::value && o.a.c == o.b.r && o.b.r == o.b.c) {
            // the target is an operand
            if constexpr (std::is_same<X,C>::value) { A = A * B; judge(A, o.p, 0, 0, name + " assigned to its operand"); count("products assigned to an operand"); }
        }
    });
}

/// One matrix on both sides.
template <class X, class I> void square(char const* backend, size_t n)
{
    std::string const name = std::string(backend) + " square of " + Kind<X>::name();
    group(name, n, [&](Rng& r, size_t) {
        size_t m = dim(r, true); Values v; v.exp = int(r.in(-9, 9)); Ref a = isZero<X> ? Ref(m, m) : gen(r, m, m, v), p(m, m), q(m, m);
        X A = make<X>(a, r);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) for (size_t k = 0; k < m; ++k) p(i, j) += a(i, k) * a(k, j);
        saw(mix(hash(name)) ^ a.hash()); doing(name);
        auto P = (A * A).template execute<I>();
        judge(P, p, 0, 0, name);
        std::string d = diff(read(A), a); expect(d.empty(), "operand changed by " + name, [&]{ return d; });
        if constexpr (std::is_same<X, decltype(P)>::value) { A = (A * A).template execute<I>(); judge(A, p, 0, 0, name + " into the operand"); }
        count("squares");
    });
}
template <class I, class... X> void squares(char const* backend, size_t n) { (void)std::initializer_list<int>{(square<X, I>(backend, n), 0)...}; }

/// Shapes around the block sizes of optimised kernels.
template <class X, class Y, class I> void shapes(char const* backend, size_t n)
{
    std::string const name = std::string(backend) + " shapes " + Kind<X>::name() + "*" + Kind<Y>::name();
    group(name, n, [&](Rng& r, size_t i) {
        static const size_t d[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 47, 64, 65};
        size_t m = r.pick(std::vector<size_t>(d, d + 19)), k = r.pick(std::vector<size_t>(d, d + 19)), q = r.pick(std::vector<size_t>(d, d + 19));
        Ref a = gen(r, m, k, Values(), r.chance(0.7) ? 1 : -1), b = gen(r, k, q, Values(), r.chance(0.7) ? 1 : -1), p(m, q);
        for (size_t x = 0; x < m; ++x) for (size_t y = 0; y < q; ++y) for (size_t z = 0; z < k; ++z) p(x, y) += a(x, z) * b(z, y);
        Callers mem; X A = mem.make<X>(a, r); Y B = mem.make<Y>(b, r);
        saw(mix(hash(name)) ^ a.hash() ^ mix(b.hash()));
        doing(name);
        auto P = (A * B).template execute<I>();
        judge(P, p, 0, 0, name); expect(mem.intact(), "memory beside the operands changed by " + name);
    });
}

/// One dimension beyond 65536.
template <class X, class... Ys> void tall(size_t n)
{
    st().stretch = 2; st().huge = false; st().tall = true;
    (pair<X, Ys, Native>("tall Native", n), ...);
    st().stretch = 22; st().huge = true; st().tall = false;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    st().stretch = 22; st().huge = true; storedZeros() = 0.3;
    constexpr size_t N = 44;
#define COLS DD, DF, SD, SF, ZZ, MSS, MSD, MDD
#if PART == 0
    tall<DD, DD, SD, MSS>(16);
    native<DD, COLS>(N); nativeDirty<DD, DD, DF, SD, SF, ZZ>(N);
    pair<DD, DD, OpenBLAS>("OpenBLAS", 2 * N); pair<DD, DD, EigenI>("Eigen", 2 * N); pair<DD, DF, EigenI>("Eigen", N); pair<DF, DD, EigenI>("Eigen", N);
    dirty<DD, DD, OpenBLAS>("OpenBLAS", 2 * N); dirty<DD, DD, EigenI>("Eigen", 2 * N); dirty<DD, DD, TheBestPolicy>("TheBestPolicy", 2 * N);
    shapes<DD, DD, OpenBLAS>("OpenBLAS", N); shapes<DD, DD, EigenI>("Eigen", N); shapes<DD, DD, Native>("Native", N);
#endif
#if PART == 1
    native<DF, COLS>(N); nativeDirty<DF, DD, DF, SD, SF, ZZ>(N);
    pair<DF, DF, OpenBLAS>("OpenBLAS", 2 * N); pair<DF, DF, EigenI>("Eigen", 2 * N);
    dirty<DF, DF, OpenBLAS>("OpenBLAS", 2 * N); dirty<DF, DF, EigenI>("Eigen", 2 * N); dirty<DF, DF, TheBestPolicy>("TheBestPolicy", 2 * N);
    shapes<DF, DF, OpenBLAS>("OpenBLAS", N); shapes<DF, DF, EigenI>("Eigen", N);
#endif
#if PART == 2
    tall<SD, DD, SD, SF, MSD>(16);
    native<SD, COLS>(N); nativeDirty<SD, DD, DF, SD, SF, ZZ>(N); shapes<SD, SD, Native>("Native", N); shapes<SD, DD, Native>("Native", N); shapes<DD, SD, Native>("Native", N);
#endif
#if PART == 3
    tall<SF, DF, SF>(16);
    native<SF, COLS>(N); nativeDirty<SF, DD, DF, SD, SF, ZZ>(N);
#endif
#if PART == 4
    native<ZZ, DD, DF, SD, SF, ZZ, MSS, MSD, MDD>(N); nativeDirty<ZZ, DD, DF, SD, SF, ZZ>(N);
#endif
#if PART == 5
    tall<MSS, DD, SD>(16);
    native<MSS, COLS>(N);
#endif
#if PART == 6
    native<MSD, COLS>(N); native<MDD, COLS>(N);
#endif
#if PART == 7
    tall<RSD, RSD, RDD>(16); tall<RDD, RDD, RSD>(16);
    native<RDD, RDD, RDF, RSD, RSF, DD, SD>(N); native<RDF, RDD, RDF, RSD, RSF>(N);
    native<RSD, RDD, RDF, RSD, RSF, DD, SD>(N); native<RSF, RDD, RSD>(N); native<DD, RDD, RSD>(N); native<SD, RDD, RSD>(N);
    nativeDirty<RDD, RDD, RSD, DD, SD>(N); nativeDirty<RSD, RDD, RSD, DD, SD>(N); nativeDirty<DD, RDD, RSD>(N); nativeDirty<SD, RDD, RSD>(N);
#endif
#if PART == 8
    assigned<DD, DD, DD>(N); assigned<DD, SD, DD>(N); assigned<SD, DD, DD>(N); assigned<SD, SD, SD>(N); assigned<DF, DF, DF>(N); assigned<SF, SF, SF>(N); assigned<DF, SF, DF>(N); assigned<SF, DF, DF>(N);
    squares<Native, DD, DF, SD, SF, ZZ, MSS, MSD, MDD, RDD, RSD>("Native", N); squares<TheBestPolicy, DD, DF, SD, SF, ZZ, MSS, MSD>("TheBestPolicy", N); squares<OpenBLAS, DD, DF>("OpenBLAS", N); squares<EigenI, DD, DF>("Eigen", N);
    assigned<DF, DD, DD>(N); assigned<SD, SF, SD>(N); assigned<MSD, DD, DD>(N); assigned<DD, MSS, DD>(N);
#endif
#if PART == 9
    pair<DD, DD, IntelMKL>("IntelMKL", 2 * N); pair<DF, DF, IntelMKL>("IntelMKL", 2 * N); dirty<DD, DD, IntelMKL>("IntelMKL", 2 * N); dirty<DF, DF, IntelMKL>("IntelMKL", 2 * N);
    pair<SD, DD, IntelMKL>("IntelMKL", 2 * N); pair<SF, DF, IntelMKL>("IntelMKL", 2 * N); dirty<SD, DD, IntelMKL>("IntelMKL", 2 * N); dirty<SF, DF, IntelMKL>("IntelMKL", 2 * N);
    pair<SD, SD, IntelMKL>("IntelMKL", 2 * N); pair<SF, SF, IntelMKL>("IntelMKL", 2 * N); dirty<SD, SD, IntelMKL>("IntelMKL", 2 * N); dirty<SF, SF, IntelMKL>("IntelMKL", 2 * N);
    shapes<DD, DD, IntelMKL>("IntelMKL", N); shapes<SD, DD, IntelMKL>("IntelMKL", N); shapes<SD, SD, IntelMKL>("IntelMKL", N); squares<IntelMKL, DD, DF, SD, SF>("IntelMKL", N);
#endif
#if PART == 10
    pair<DD, DD, Blaze>("Blaze", 2 * N); pair<DF, DF, Blaze>("Blaze", 2 * N); pair<DD, DF, Blaze>("Blaze", 2 * N); pair<DF, DD, Blaze>("Blaze", 2 * N);
    dirty<DD, DD, Blaze>("Blaze", 2 * N); dirty<DF, DF, Blaze>("Blaze", 2 * N); dirty<DD, DF, Blaze>("Blaze", 2 * N); dirty<DF, DD, Blaze>("Blaze", 2 * N);
    shapes<DD, DD, Blaze>("Blaze", N); shapes<DF, DD, Blaze>("Blaze", N); squares<Blaze, DD, DF>("Blaze", N);
#endif
    return finish();
}
