// Magnitude ranges for the harness programs.
#pragma once
#include "bb.h"

namespace vh {

/// A range: kind 0 (lo,inf), 1 (lo,hi], 2 [lo,hi], 3 (lo,hi); bounds exact in single precision if single.
struct Range
{
    int kind = 0; bool single = false; double lo = 0, hi = 0;
    bool in(double v) const { double a = std::abs(v); switch (kind) { case 0: return a > lo; case 1: return a > lo && a <= hi; case 2: return a >= lo && a <= hi; default: return a > lo && a < hi; } }
    std::string str() const { static char const* const n[] = {"(lo,inf)", "(lo,hi]", "[lo,hi]", "(lo,hi)"}; return cat(n[kind], single ? " float " : " double ", lo, " ", hi); }
    template <class T, class F> void callT(F const& f) const
    {
        switch (kind) {
            case 0: f(AbsoluteValueRangeChecker<T>(T(lo))); break;
            case 1: f(AbsoluteValueRangeChecker<T, ExclusiveBound, InclusiveBound>(T(lo), T(hi))); break;
            case 2: f(AbsoluteValueRangeChecker<T, InclusiveBound, InclusiveBound>(T(lo), T(hi))); break;
            default: f(AbsoluteValueRangeChecker<T, ExclusiveBound, ExclusiveBound>(T(lo), T(hi))); break;
        }
    }
    /// Calls f with the library's checker for this range.
    template <class F> void call(F const& f) const { if (single) callT<float>(f); else callT<double>(f); }
};

/// A range whose bounds are often magnitudes of elements.
inline Range range(Rng& r, Ref const& m, int exp, bool withZero)
{
    Range x; x.kind = int(r.below(4)); x.single = r.chance(0.3);
    auto bound = [&] {
        double u = r.unit(), b;
        if (u < 0.6 && !m.a.empty()) b = std::abs(r.pick(m.a)); else if (u < 0.9) b = std::ldexp(double(r.below(10)), exp); else b = 0;
        if (r.chance(0.1)) b = std::nextafter(b, 1e300);
        return x.single ? double(float(b)) : b;
    };
    x.lo = bound(); x.hi = bound();
    // Narrow ranges: bounds a few units in the last place apart.
    if (r.chance(0.2)) {
        x.hi = x.lo;
        for (int k = int(r.below(4)); k >= 0; --k) x.hi = x.single ? double(std::nextafter(float(x.hi), 1e30f)) : std::nextafter(x.hi, 1e300);
        if (r.chance(0.3)) x.lo = x.single ? double(std::nextafter(float(x.lo), 0.0f)) : std::nextafter(x.lo, 0.0);
    }
    if (x.lo > x.hi) std::swap(x.lo, x.hi);
    double step = std::ldexp(1, exp);
    if (x.lo == x.hi && x.kind != 2) x.hi = x.lo + step;
    if (x.lo == x.hi && x.kind != 2) x.hi = x.lo * 2;
    if (x.single) { x.hi = double(float(x.hi)); if (x.lo == x.hi && x.kind != 2) x.hi = x.lo * 2; }
    if (!withZero && x.kind == 2 && x.lo == 0) x.kind = 1, x.hi = x.hi > 0 ? x.hi : step;
    return x;
}

} // namespace vh
