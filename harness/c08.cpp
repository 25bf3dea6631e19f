// C08: explicit conversions between representations, storage orders and precisions.
#include "bb.h"
using namespace vh;

template <class X> struct Sub { using type = void; };
template <class T, class P> struct Sub<Matrix<Dense,T,P>> { using type = Matrix<Dense, T, Parameter<size_t, typename P::orientation, VariableSize, LeadingDimension>>; };

/// A magnitude range of one of the four kinds; bounds often equal to an element.
struct Range { int kind = 0; double lo = 0, hi = 0; bool in(double v) const {
    double a = std::abs(v);
    switch (kind) { case 0: return a > lo; case 1: return a > lo && a <= hi; case 2: return a >= lo && a <= hi; default: return a > lo && a < hi; } }
    std::string str() const { return cat("range kind ", kind, " ", lo, " ", hi); } };

template <class F> void withRange(Range const& g, F const& f)
{
    switch (g.kind) {
        case 0: f(AbsoluteValueRangeChecker<double>(g.lo)); break;
        case 1: f(AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(g.lo, g.hi)); break;
        case 2: f(AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound>(g.lo, g.hi)); break;
        default: f(AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>(g.lo, g.hi)); }
}

static Range range(Rng& r, Ref const& m)
{
    Range g; g.kind = int(r.below(4));
    auto some = [&] {
        if (m.a.empty() || r.chance(0.3)) return r.unit() * 10;
        double e = std::abs(m.a[r.below(m.a.size())]), f = double(float(e));
        // also next to an element, and between an element and what single precision makes of it
        switch (r.below(6)) { case 0: return f; case 1: return e + (f - e) / 2; case 2: return std::nextafter(e, r.chance(0.5) ? 1e300 : 0.0); default: return e; } };
    g.lo = r.chance(0.2) ? 0 : some(); g.hi = some();
    if (g.hi < g.lo) std::swap(g.lo, g.hi);
    if (!(g.hi > g.lo)) g.hi = g.lo + 1;
    return g;
}

/// Source contents: exact integers, values needing rounding, tiny values.
static Ref contents(Rng& r, size_t R, size_t C, bool single)
{
    Ref m = gen(r, R, C, Values());
    int how = int(r.below(4));
    for (double& e : m.a) if (e != 0) {
        if (how == 1) e *= 1 + r.unit();
        if (how == 2) e = e * (1 + r.unit()) * std::pow(10.0, double(r.in(-12, 12)));
        if (how == 3 && r.chance(0.3)) e = e < 0 ? -0.0 : std::ldexp(e, -150);
        if (single) e = double(float(e));
    }
    return m;
}

template <class X> double rounded(double v) { return Kind<X>::single ? double(float(v)) : v; }

template <class To> void judge(To const& t, Ref const& src, std::function<bool(double)> const& kept, std::string const& key, std::string const& more)
{
    std::string bad; Ref got = read(t, &bad);
    if (!expect(bad.empty(), key + ": malformed", [&]{ return bad + ", " + more + ", " + src.str(); })) return;
    constexpr bool zero = std::is_same<To,ZZ>::value || std::is_same<To,RZZ>::value;   // keeps the shape only
    Ref want(src.r, src.c);
    for (size_t i = 0; i < src.a.size(); ++i) want.a[i] = !zero && kept(src.a[i]) ? rounded<To>(src.a[i]) : 0;
    std::string d = diff(got, want);
    expect(d.empty(), key, [&]{ return d + ", " + more + ", " + src.str(); });
    expect(t.getSize() == src.r * src.c, key + ": size", [&]{ return cat(t.getSize()); });
}

template <class T, class P> size_t storedIn(Matrix<Sparse,T,P> const& m) { return m.nnz(); }
template <class X> struct IsSparse { static constexpr bool value = false; };
template <class T, class P> struct IsSparse<Matrix<Sparse,T,P>> { static constexpr bool value = true; };
template <class X> struct IsDense { static constexpr bool value = false; };
template <class T, class P> struct IsDense<Matrix<Dense,T,P>> { static constexpr bool value = true; };

/// One conversion without and, if there is one, with a range; then back.
template <class From, class To, bool Ranged, class Source> void convert(Rng& r, Source const& s, Ref const& m, std::string const& key)
{
    doing(key);
    To t(s);
    judge(t, m, [](double v) { return v != 0; }, key, "");
    if constexpr (IsSparse<To>::value)
        expect(storedIn(t) == m.nnz(), key + ": number of stored elements", [&]{ return cat(storedIn(t), " for ", m.nnz(), " ", m.str()); });
    count("conversions");
    if constexpr (Ranged) {
        Range g = range(r, m);
        withRange(g, [&](auto const& c) {
            doing(key + " with range");
            To u(s, c);
            judge(u, m, [&](double v) { return g.in(v); }, key + " with range", g.str());
            if constexpr (IsSparse<To>::value) {
                size_t n = 0; for (double v : m.a) n += v != 0 && g.in(v);
                size_t z = 0; for (double v : m.a) z += g.in(v);
                expect(storedIn(u) >= n && storedIn(u) <= z, key + " with range: number of stored elements", [&]{ return cat(storedIn(u), " for ", n, " ", g.str(), " ", m.str()); });
                doing(key + " and back");
                Matrix<Dense, typename To::value_type, typename To::parameter> back(u);
                std::string bad; Ref w = read(u, &bad);
                std::string d = diff(read(back), w);
                expect(d.empty(), key + " and back", [&]{ return d; });
                Matrix<Dense,double> back2(u);
                d = diff(read(back2), w);
                expect(d.empty(), key + " and back to column-major", [&]{ return d; });
                count("converted back");
            }
            count("conversions with range");
        });
    }
}

template <class From, class To, bool Ranged> void pair(size_t n)
{
    std::string const key = Kind<From>::name() + " to " + Kind<To>::name();
    constexpr bool zero = std::is_same<From,ZZ>::value || std::is_same<From,RZZ>::value;
    constexpr bool multi = !IsDense<From>::value && !IsSparse<From>::value && !zero;
    group(key, n, [&](Rng& r, size_t) {
        size_t R = dim(r, true), C = dim(r, true);
        Ref m = zero ? Ref(R, C) : multi ? gen(r, R, C, Values()) : contents(r, R, C, Kind<From>::single);
        Callers mem; From s = mem.make<From>(m, r);
        if (zero || m.nnz()) saw(mix(hash(key)) ^ m.hash());
        if (want_sample()) sample(m.str());
        convert<From, To, Ranged>(r, s, m, key);
        std::string d = diff(read(s), m);
        expect(d.empty() && mem.intact(), key + ": source changed", [&]{ return d; });
    });
}

template <class From, class To, bool Ranged> void view(size_t n)
{
    std::string const key = "view of " + Kind<From>::name() + " to " + Kind<To>::name();
    group(key, n, [&](Rng& r, size_t) {
        size_t R = dim(r), C = dim(r), h = 1 + r.below(R), w = 1 + r.below(C), i = r.below(R - h + 1), j = r.below(C - w + 1);
        Ref m = contents(r, R, C, Kind<From>::single), v(h, w);
        for (size_t x = 0; x < h; ++x) for (size_t y = 0; y < w; ++y) v(x, y) = m(i + x, j + y);
        From s = make<From>(m, r);
        if (v.nnz()) saw(mix(hash(key)) ^ m.hash() ^ mix(h * 100 + w));
        typename Sub<From>::type V(s, h, w, i, j);
        convert<From, To, Ranged>(r, V, v, key);
        std::string d = diff(read(s), m);
        expect(d.empty(), key + ": source changed", [&]{ return d; });
        count("conversions of views");
    });
}

template <class From, bool Ranged, class... To> void pairs(size_t n) { (void)std::initializer_list<int>{(pair<From, To, Ranged>(n), 0)...}; }
template <class From, bool Ranged, class... To> void views(size_t n) { (void)std::initializer_list<int>{(view<From, To, Ranged>(n), 0)...}; }

int main(int argc, char** argv)
{
    init(argc, argv);
    st().stretch = 35; storedZeros() = 0.3; st().huge = st().tall = true;
    size_t const n = 150;
#if PART == 0
    pairs<DD, true, DF, RDD, RDF, SD, SF, RSD, RSF>(n); pairs<DD, false, DD, ZZ, RZZ>(n);
    pairs<DF, true, DD, RDD, RDF, SD, SF, RSD, RSF>(n);
#elif PART == 1
    pairs<RDD, true, DD, DF, RDF, SD, SF, RSD, RSF>(n); pairs<RDD, false, ZZ, RZZ>(n);
    pairs<RDF, true, DD, DF, RDD, SD, SF, RSD, RSF>(n);
#elif PART == 2
    pairs<SD, true, SF, RSD, RSF>(n); pairs<SD, false, DD, DF, RDD, RDF, ZZ>(n);
    pairs<SF, true, SD, RSD, RSF>(n); pairs<SF, false, DD, DF, RDD, RDF, ZZ>(n);
#elif PART == 3
    pairs<RSD, true, SD, SF, RSF>(n); pairs<RSD, false, DD, DF, RDD, RDF, RZZ>(n);
    pairs<RSF, true, SD, SF, RSD>(n); pairs<RSF, false, DD, DF, RDD, RDF, RZZ>(n);
    pairs<ZZ, false, DD, DF, RDD, RDF, RZZ>(n / 3); pairs<RZZ, false, DD, DF, RDD, RDF, ZZ>(n / 3);
#else
    pairs<MSS, false, DD, DF>(n); pairs<MSD, false, DD, DF>(n); pairs<MDD, false, DD, DF>(n);
    views<DD, true, DD, DF, SD, SF, RSD, RSF>(n); views<DF, true, DD, DF, SD, SF, RSD>(n);
    views<RDD, true, RDD, RDF, RSD, RSF, SD>(n); views<RDF, true, RDD, RDF, RSD, RSF>(n);
    views<DD, false, ZZ>(n / 3);
    // a chain of conversions through every kind keeps what every kind can hold
    group("chains", 800, [](Rng& r, size_t) {
        Ref m = gen(r, dim(r, true), dim(r, true), Values());
        if (m.nnz()) saw(mix(m.hash()));
        DD a = make<DD>(m, r);
        std::string how;
        for (int k = 0; k < 8; ++k) {
            size_t s = r.below(7); how += cat(" ", s);
            doing("chain");
            switch (s) {
                case 0: a = DD(SD(a)); break;
                case 1: a = DD(SF(a)); break;
                case 2: a = DD(RSD(RDD(a))); break;
                case 3: a = DD(DF(a)); break;
                case 4: a = DD(RDF(a)); break;
                case 5: a = DD(SD(RSF(SF(a)))); break;
                default: a = DD(RSD(SD(a))); }
            std::string d = diff(read(a), m);
            if (!expect(d.empty(), "chain of conversions", [&]{ return d + ", steps" + how; })) break;
        }
    });
#endif
    return finish();
}
