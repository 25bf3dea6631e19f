// C15: magnitude ranges and their order.
#include "bb.h"
#include <limits>
using namespace vh;

using VC = std::shared_ptr<ValueCheckerBase>;

/// A range together with what it is meant to be.
struct Item
{
    int kind; bool single; double lo, hi; VC p;
    std::function<bool(double)> d; std::function<bool(float)> f; std::function<bool(int)> i; std::function<bool(std::complex<double>)> z;
    bool in(double a) const { switch (kind) { case 0: return a > lo; case 1: return a > lo && a <= hi; case 2: return a >= lo && a <= hi; default: return a > lo && a < hi; } }
    bool same(Item const& o) const { return kind == o.kind && single == o.single && lo == o.lo && (kind == 0 || hi == o.hi); }
    std::string str() const { static char const* const n[] = {"(lo,inf)", "(lo,hi]", "[lo,hi]", "(lo,hi)"}; return cat(n[kind], single ? " float " : " double ", lo, " ", hi); }
};

template <class C> Item wrap(C const& c, int kind, bool single, double lo, double hi)
{
    Item x; x.kind = kind; x.single = single; x.lo = lo; x.hi = hi; x.p = std::make_shared<C>(c);
    x.d = [c](double v) { return c(v); }; x.f = [c](float v) { return c(v); }; x.i = [c](int v) { return c(v); }; x.z = [c](std::complex<double> v) { return c(v); };
    return x;
}

template <class T> Item build(int kind, double lo, double hi)
{
    bool s = sizeof(T) == 4;
    switch (kind) {
        case 0: return wrap(AbsoluteValueRangeChecker<T>(T(lo)), 0, s, lo, hi);
        case 1: return wrap(AbsoluteValueRangeChecker<T, ExclusiveBound, InclusiveBound>(T(lo), T(hi)), 1, s, lo, hi);
        case 2: return wrap(AbsoluteValueRangeChecker<T, InclusiveBound, InclusiveBound>(T(lo), T(hi)), 2, s, lo, hi);
        default: return wrap(AbsoluteValueRangeChecker<T, ExclusiveBound, ExclusiveBound>(T(lo), T(hi)), 3, s, lo, hi);
    }
}

/// Numbers with many equal ones, exact in single precision.
static double bound(Rng& r)
{
    static double const some[] = {0, 0, 0.125, 0.5, 1, 1, 1.5, 2, 3, 1e10, 1.1754943508222875e-38, 1.401298464324817e-45, 3.4028234663852886e38};
    return r.chance(0.75) ? some[r.below(13)] : r.chance(0.1) ? std::numeric_limits<double>::infinity() : double(float(std::ldexp(1 + r.unit(), int(r.in(-40, 40)))));
}

/// Numbers of double precision: neighbours, and numbers whose squares or products leave the range.
static double fine(Rng& r)
{
    double b = bound(r);
    switch (r.below(4)) {
        case 0: return b;
        case 1: return std::nextafter(b, r.chance(0.5) ? 1e308 : 0);
        case 2: return std::ldexp(1 + r.unit(), int(r.in(-1070, 1020)));
        default: return b + (std::isinf(b) ? 0 : b * std::ldexp(double(r.in(1, 9)), -int(r.in(24, 52))));
    }
}

static Item item(Rng& r)
{
    if (r.chance(0.4)) {
        int kind = int(r.below(4)); double lo = fine(r), hi = r.chance(0.4) ? lo : fine(r);
        if (r.chance(0.3)) { hi = lo; for (int k = int(r.below(3)); k >= 0; --k) hi = std::nextafter(hi, std::numeric_limits<double>::infinity()); }
        if (lo > hi) std::swap(lo, hi);
        if (lo == hi && kind != 2) kind = std::isinf(lo) ? 2 : 0;
        if (kind == 0 && std::isinf(lo)) lo = 4;
        return build<double>(kind, lo, hi);
    }
    int kind = int(r.below(4)); double lo = bound(r), hi = bound(r);
    if (lo > hi) std::swap(lo, hi);
    if (lo == hi && kind != 2) { if (lo == std::numeric_limits<double>::infinity()) lo = 1; else hi = std::numeric_limits<double>::infinity(); }
    if (kind == 0 && lo == std::numeric_limits<double>::infinity()) lo = 4;
    return r.chance(0.3) ? build<float>(kind, lo, hi) : build<double>(kind, lo, hi);
}

template <class T, int K> bool refused(double lo, double hi) { try { build<T>(K, lo, hi); } catch (CoreException const&) { return true; } return false; }

int main(int argc, char** argv)
{
    init(argc, argv);
    group("membership", 8000, [](Rng& r, size_t) {
        Item x = item(r);
        doing("membership");
        saw(hash(x.str()));
        if (want_sample()) sample(x.str());
        for (int k = 0; k < 12; ++k) {
            double v = r.chance(0.35) ? x.lo : r.chance(0.4) ? x.hi : bound(r);
            if (r.chance(0.3)) v = std::nextafter(v, r.chance(0.5) ? 1e308 : 0);
            if (r.chance(0.2)) v = double(r.in(-9, 9));
            if (r.chance(0.2)) v = fine(r);
            if (r.chance(0.15) && !std::isinf(x.hi)) v = x.lo + (x.hi - x.lo) * r.unit();
            if (r.chance(0.1)) v = x.lo * (1 + std::ldexp(1.0, -int(r.in(1, 52))));
            if (r.chance(0.5)) v = -v;
            bool want = x.in(std::abs(v));
            expect(x.d(v) == want, "membership " + x.str().substr(0, x.str().find(' ')), [&]{ return cat(v, want ? " not in " : " in ", x.str()); });
            if (std::abs(v) <= 3.4028234663852886e38 || std::isinf(v)) {
                float w = float(v);
                expect(x.f(w) == x.in(std::abs(double(w))), "membership of floats " + x.str().substr(0, x.str().find(' ')), [&]{ return cat(w, " in ", x.str()); });
            }
            int i = int(r.in(-5, 5));
            expect(x.i(i) == x.in(std::abs(double(i))), "membership of integers", [&]{ return cat(i, " in ", x.str()); });
            std::complex<double> z(3 * double(i), 4 * double(i));
            expect(x.z(z) == x.in(std::abs(5.0 * i)), "membership of complex numbers", [&]{ return cat(i, " in ", x.str()); });
            count("memberships", 4);
            count(want ? "values inside" : "values outside");
        }
    });
    group("bounds", 6000, [](Rng& r, size_t) {
        auto b = [&] { double v = bound(r); if (r.chance(0.2)) v = -v; return r.chance(0.1) ? std::nextafter(v, -1.0) : v; };
        double lo = b(), hi = r.chance(0.2) ? lo : b();
        lo = double(float(lo)); hi = double(float(hi));
        saw(mix(hash(cat(lo, " ", hi))));
        doing("bounds");
        bool negative = lo < 0 || hi < 0;
        auto say = [&]{ return cat("bounds ", lo, " ", hi); };
        expect(refused<double,0>(lo, hi) == (lo < 0) && refused<float,0>(lo, hi) == (lo < 0), "bounds of (lo,inf)", say);
        expect(refused<double,1>(lo, hi) == (negative || lo >= hi) && refused<float,1>(lo, hi) == (negative || lo >= hi), "bounds of (lo,hi]", say);
        expect(refused<double,2>(lo, hi) == (negative || lo > hi) && refused<float,2>(lo, hi) == (negative || lo > hi), "bounds of [lo,hi]", say);
        expect(refused<double,3>(lo, hi) == (negative || lo >= hi) && refused<float,3>(lo, hi) == (negative || lo >= hi), "bounds of (lo,hi)", say);
        count(negative ? "negative bounds" : lo > hi ? "reversed bounds" : lo == hi ? "equal bounds" : "good bounds");
    });
    group("order", 600, [](Rng& r, size_t) {
        std::vector<Item> v; size_t n = 6 + r.below(14);
        while (v.size() < n) { if (!v.empty() && r.chance(0.2)) { Item x = r.pick(v); v.push_back(x.single ? build<float>(x.kind, x.lo, x.hi) : build<double>(x.kind, x.lo, x.hi)); } else v.push_back(item(r)); }
        std::string all; for (auto const& x : v) all += x.str(); saw(all);
        doing("order");
        ValueCheckerLess less;
        std::vector<std::vector<char>> lt(n, std::vector<char>(n));
        for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) lt[a][b] = less(v[a].p, v[b].p);
        for (size_t a = 0; a < n; ++a) {
            expect(!lt[a][a], "a range is less than itself", [&]{ return v[a].str(); });
            for (size_t b = 0; b < n; ++b) {
                expect(!(lt[a][b] && lt[b][a]), "two ranges are less than each other", [&]{ return v[a].str() + " and " + v[b].str(); });
                bool eq = !lt[a][b] && !lt[b][a];
                expect(eq == v[a].same(v[b]), eq ? "different ranges are equivalent" : "equal ranges are not equivalent", [&]{ return v[a].str() + " and " + v[b].str(); });
                for (size_t c = 0; c < n; ++c) if (lt[a][b] && lt[b][c]) expect(lt[a][c], "order not transitive", [&]{ return v[a].str() + " < " + v[b].str() + " < " + v[c].str(); });
            }
        }
        // as keys: every distinct range has its own entry, found again by an equal one
        std::map<VC, size_t, ValueCheckerLess> m; size_t distinct = 0;
        for (size_t a = 0; a < n; ++a) { bool first = true; for (size_t b = 0; b < a; ++b) first = first && !v[a].same(v[b]); if (first) { ++distinct; m[v[a].p] = a; } }
        expect(m.size() == distinct, "keys collide", [&]{ return cat(m.size(), " of ", distinct); });
        for (size_t a = 0; a < n; ++a) { auto it = m.find(v[a].p); expect(it != m.end() && v[it->second].same(v[a]), "key not found again", [&]{ return v[a].str(); }); }
        count("ordered triples", n * n * n);
    });
    return finish();
}
