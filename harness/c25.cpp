// C25: reported deviations and the equality within accuracy are the true ones.
#include "bb.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
#include "BlasBooster/Core/Transposition.h"
#include "BlasBooster/Utilities/EqualWithinNumericalAccuracy.h"
using namespace vh;

template <class T, class O> using Win = Matrix<Dense, T, Parameter<size_t, O, VariableSize, LeadingDimension>>;
template <class X> constexpr bool isView = false;
template <class T, class O> constexpr bool isView<Matrix<Dense, T, Parameter<size_t, O, VariableSize, LeadingDimension>>> = true;

/// A matrix, or a view into a larger one which it keeps.
template <class X> struct Held { std::shared_ptr<void> whole; std::shared_ptr<X> x; X const& operator*() const { return *x; } };
template <class X> Held<X> hold(Ref const& m, Rng& r)
{
    Held<X> h;
    if constexpr (isView<X>) {
        typedef Matrix<Dense, typename X::value_type, Parameter<size_t, typename X::orientation>> W;
        size_t i = r.below(3), j = r.below(3); auto w = std::make_shared<W>(m.r + i + r.below(3), m.c + j + r.below(3), AllFiller<typename X::value_type>(99));
        for (size_t a = 0; a < m.r; ++a) for (size_t b = 0; b < m.c; ++b) (*w)(i + a, j + b) = typename X::value_type(m(a, b));
        h.whole = w; h.x = std::make_shared<X>(*w, m.r, m.c, i, j);
    } else h.x = std::make_shared<X>(make<X>(m, r));
    return h;
}
template <class X> Ref held(X const& x) { return read(x); }

static double tolerance(bool single) { return single ? 1e-4 : 1e-12; }

/// A second matrix near to or far from the first.
static Ref second(Ref const& a, Rng& r, Values const& v, int& how)
{
    Ref b = a; how = int(r.below(8)); double unit = 1;
    auto each = [&](double p, auto const& f) { for (double& e : b.a) if (r.chance(p)) e = f(e); };
    switch (how) {
        case 0: break;                                                              // the same
        case 1: b = gen(r, a.r, a.c, v); break;                                     // unrelated
        case 2: if (b.a.size()) { double& e = b.a[r.below(b.a.size())]; e += r.chance(0.5) ? unit : -unit; } break;   // one element
        case 3: if (b.a.size()) { double& e = r.chance(0.5) ? b.a.back() : b.a.front(); e += r.chance(0.5) ? 2e-12 : -2e-4; } break;
        case 4: each(0.5, [&](double e) { return e + (r.unit() - 0.5) * 1e-3; }); break;
        case 5: each(0.5, [&](double e) { return e + (r.unit() - 0.5) * 4e-12; }); break;
        case 6: each(0.3, [](double e) { return -e; }); break;
        default: each(1, [&](double e) { return e + (r.unit() - 0.5) * std::pow(10.0, -double(r.below(14))); });
    }
    return b;
}

template <class X, class Y> void pair(size_t n)
{
    constexpr bool sx = sizeof(typename X::value_type) == 4, sy = sizeof(typename Y::value_type) == 4;
    auto nm = [](auto* p) { typedef std::remove_pointer_t<decltype(p)> Z; if constexpr (isView<Z>) return std::string("view of ") + (std::is_same<typename Z::orientation, RowMajor>::value ? "r" : "") + (sizeof(typename Z::value_type) == 4 ? "F" : "D"); else return Kind<Z>::name(); };
    std::string const name = nm((X*)nullptr) + ", " + nm((Y*)nullptr);
    group(name, n, [&](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-4, 4)); int how = 0;
        Ref a = gen(r, dim(r, true), dim(r, true), v); if (r.chance(0.4)) for (double& e : a.a) if (e != 0) e *= 1 + r.unit();
        if (r.chance(0.03)) { a = Ref(a.r, a.c); }
        Ref b = second(a, r, v, how); if (r.chance(0.5)) std::swap(a, b);
        auto A = hold<X>(a, r); auto B = hold<Y>(b, r);
        a = held(*A); b = held(*B);                                                  // as rounded to the precision held
        long double big = 0, sq = 0; size_t at = 0; bool same = true;
        for (size_t k = 0; k < a.a.size(); ++k) { long double d = std::abs((long double)a.a[k] - b.a[k]); if (d > big) { big = d; at = k; } sq += d * d; same = same && a.a[k] == b.a[k]; }
        double md = double(big), rm = a.a.empty() ? 0 : double(sqrtl(sq / a.a.size()));
        if (same) count("equal matrices"); else count("different matrices"); if (a.a.empty()) count("empty");
        auto near = [](double got, double want) { return got == want || std::abs(got - want) <= 1e-12 * std::abs(want); };
        auto check = [&](double got, double want, char const* what) { expect(same ? got == 0 : near(got, want) && (want == 0 || got > 0), std::string(what) + " of " + name, [&]{ return cat(got, " instead of ", want, " largest at ", at, " of ", a.str(), " and ", b.str()); }); };
        doing("deviation of " + name);
        check(getMaximalDeviation(*A, *B), md, "maximal deviation"); check(getMaximalDeviation(*B, *A), md, "maximal deviation, exchanged");
        check(getRootMeanSquareDeviation(*A, *B), rm, "mean deviation"); check(getRootMeanSquareDeviation(*B, *A), rm, "mean deviation, exchanged");
        expect(getMaximalDeviation(*A, *A) == 0 && getRootMeanSquareDeviation(*A, *A) == 0, "deviation from itself of " + name);
        expect(diff(held(*A), a).empty() && diff(held(*B), b).empty(), "deviation changed an operand of " + name);
        saw(mix(hash(name)) ^ a.hash() ^ mix(b.hash()));
        if (want_sample(1)) sample(cat(a.str(), " and ", b.str(), ": ", md, ", ", rm));
    });
}

/// Elements at and around the tolerance; only cases whose verdict does not depend on rounding of the difference.
template <class X, class Y> void equality(size_t n)
{
    constexpr bool sx = sizeof(typename X::value_type) == 4, sy = sizeof(typename Y::value_type) == 4;
    constexpr bool sparse = std::is_same<typename X::matrix_type, Sparse>::value;
    auto nm = [](auto* p) { typedef std::remove_pointer_t<decltype(p)> Z; if constexpr (isView<Z>) return std::string("view of ") + (std::is_same<typename Z::orientation, RowMajor>::value ? "r" : "") + (sizeof(typename Z::value_type) == 4 ? "F" : "D"); else return Kind<Z>::name(); };
    std::string const name = nm((X*)nullptr) + " equal " + nm((Y*)nullptr);
    group(name, n, [&](Rng& r, size_t) {
        Values v; double tol = tolerance(sx || sy);
        Ref a = gen(r, dim(r, true), dim(r, true), v), b = a;
        int how = int(r.below(7)); bool shape = true;
        auto nudge = [&](double f) { if (b.a.empty()) return; double& e = b.a[r.chance(0.3) ? b.a.size() - 1 : r.chance(0.3) ? 0 : r.below(b.a.size())]; if (sparse && e == 0) return; e += (r.chance(0.5) ? f : -f) * tol; };
        switch (how) {
            case 0: break;
            case 1: nudge(0.5); break;
            case 2: nudge(2); break;
            case 3: for (int k = 0; k < 5; ++k) nudge(0.1); break;
            case 4: nudge(1e8); break;
            case 5: shape = false; b = r.chance(0.5) ? Ref(a.c, a.r) : gen(r, dim(r, true), dim(r, true), v); if (b.r == a.c && b.c == a.r) for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) b(j, i) = a(i, j); break;
            default: if (a.a.size() > 1) std::swap(b.a[r.below(b.a.size())], b.a[r.below(b.a.size())]);
        }
        if (how == 6) { a = Ref(a.r, a.c); size_t k = 0; for (double& e : a.a) e = double(++k); b = a; if (r.chance(0.5) && a.a.size() > 1) { size_t x = r.below(a.a.size()), y = r.below(a.a.size()); std::swap(b.a[x], b.a[y]); } }
        auto A = hold<X>(a, r); auto B = hold<Y>(b, r); a = held(*A); b = held(*B);
        bool want = a.r == b.r && a.c == b.c, unsure = false;
        if (want) for (size_t k = 0; k < a.a.size(); ++k) { double d = std::abs(a.a[k] - b.a[k]); if (d > tol * 1.01 || (d > tol * 0.99 && d <= tol * 1.01)) want = false; if (d > tol * 0.99 && d <= tol * 1.01) unsure = true; }
        if (unsure) return;
        doing(name);
        bool got = (*A).equal(*B), back = (*B).equal(*A);
        expect(got == want, name, [&]{ return cat(got, " for ", a.str(), " and ", b.str()); }); expect(back == want, name + ", exchanged", [&]{ return cat(back, " for ", a.str(), " and ", b.str()); });
        expect((*A).notEqual(*B) == !want, name + ": not equal"); expect((*A).equal(*A), name + ": itself");
        count(want ? "equal within accuracy" : shape ? "not equal within accuracy" : "other shape"); saw(mix(hash(name)) ^ a.hash() ^ mix(b.hash()));
    });
}

template <class A, class B> void scalars(char const* name, double tol, size_t n)
{
    group(std::string("scalars ") + name, n, [&](Rng& r, size_t) {
        double x = double(r.in(-9, 9)) * std::pow(10.0, double(r.in(-3, 3))), f[] = {0, 0.5, 0.9, 1.1, 2, 1e3}; double d = f[r.below(6)] * tol * (r.chance(0.5) ? 1 : -1);
        if (std::numeric_limits<A>::is_integer) { x = double(r.in(-1000, 1000)); if (std::is_unsigned<A>::value) x = std::abs(x); d = double(r.in(0, 2)); }
        A a = A(x); B b = B(x + d); long double e = std::abs((long double)a - (long double)b); double t = std::numeric_limits<A>::is_integer ? 0 : tol;
        if (t > 0 && e > t * 0.99L && e < t * 1.01L) return;
        bool want = e <= t; doing(name);
        expect(equalWithinNumericalAccuracy(a, b) == want, std::string("scalars ") + name, [&]{ return cat(a, " and ", b); }); expect(equalWithinNumericalAccuracy(b, a) == want, std::string("scalars exchanged ") + name, [&]{ return cat(a, " and ", b); });
        saw(mix(hash(name)) ^ mix(uint64_t(int64_t(x * 1000)) * 31 + uint64_t(int64_t(d / (tol ? tol : 1) * 10)))); count("scalars");
    });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 40; st().tall = st().huge = true;
    size_t const N = 60;
    typedef Win<double, ColumnMajor> WD; typedef Win<float, RowMajor> WF;
#define ROW(X) pair<X, DD>(N); pair<X, DF>(N); pair<X, RDD>(N); pair<X, RDF>(N); pair<X, SD>(N); pair<X, SF>(N); pair<X, RSD>(N); pair<X, RSF>(N);
    ROW(DD) ROW(DF) ROW(RDD) ROW(RDF) ROW(SD) ROW(SF) ROW(RSD) ROW(RSF)
    pair<WD, DD>(N); pair<WD, RDF>(N); pair<WF, SD>(N); pair<WD, WF>(N); pair<DF, WD>(N);
    size_t const M = 150;
    equality<DD, DD>(M); equality<DD, DF>(M); equality<DF, DF>(M); equality<RDD, RDD>(M); equality<DD, RDD>(M); equality<RDF, DD>(M); equality<RDF, DF>(M); equality<DD, WD>(M); equality<WF, DD>(M); equality<WD, WD>(M);
    equality<SD, SD>(M); equality<SD, SF>(M); equality<SF, SF>(M); equality<RSD, RSD>(M); equality<RSD, SD>(M); equality<SF, RSD>(M);
    scalars<double, double>("double", 1e-12, 400); scalars<float, float>("float", 1e-4, 400); scalars<double, float>("mixed", 1e-4, 400); scalars<int, int>("int", 1, 200); scalars<unsigned, unsigned>("unsigned", 1, 200); scalars<size_t, size_t>("size", 1, 200);
    group("zero matrices", 200, [](Rng& r, size_t) { size_t a = dim(r, true), b = dim(r, true), c = r.chance(0.5) ? a : dim(r, true), d = r.chance(0.5) ? b : dim(r, true); ZZ A(a, b), B(c, d); bool w = a == c && b == d; expect(A.equal(B) == w && A.notEqual(B) == !w && (A == B) == w, "zero matrices equal", [&]{ return cat(a, "x", b, " ", c, "x", d); }); saw(mix(a * 100 + b) ^ (c * 100 + d)); });
    return finish();
}
