// Blocked matrices and threshold settings for the harness programs.
#pragma once
#include "bb.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"

namespace vh {

static char const* const kindName[] = {"Zero", "SparseF", "DenseF", "SparseD", "Multi<SparseD,SparseF>", "Multi<SparseD,DenseF>", "DenseD"};

/// At most n, but one long line in a stretched case.
inline size_t few(Rng& r, size_t n)
{
    if (!st().mode) return 1 + r.below(n);
    if (st().tallUsed || r.chance(0.5)) return size_t(r.in(1, 3));
    st().tallUsed = true;
    return st().mode == 3 ? size_t(r.in(65537, 65600)) : size_t(r.in(255, 300));
}

/// Cuts a dimension into positive parts.
inline std::vector<size_t> partition(Rng& r, size_t n)
{
    std::vector<size_t> p;
    int how = int(r.below(4));
    if (how == 0) { if (n) p.push_back(n); return p; }
    if (how == 1) { for (size_t i = 0; i < n; ++i) p.push_back(1); return p; }
    size_t most = how == 2 ? 3 : 1 + n / 2;
    while (n) { size_t k = 1 + r.below(std::min(n, most)); p.push_back(k); n -= k; }
    return p;
}

inline std::string str(std::vector<size_t> const& p) { std::string s = "("; for (size_t k : p) s += (s.size() > 1 ? "," : "") + std::to_string(k); return s + ")"; }

inline Ref window(Ref const& m, size_t i, size_t j, size_t r, size_t c)
{
    Ref w(r, c);
    for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < c; ++y) w(x, y) = m(i + x, j + y);
    return w;
}

/// Kind for a block: any, but zero only for all-zero windows.
inline size_t blockKind(Rng& r, Ref const& w) { return w.nnz() ? 1 + r.below(nbKinds - 1) : r.chance(0.5) ? 0 : r.below(nbKinds); }

inline BlockedDenseMatrix makeBlocked(Ref const& m, std::vector<size_t> const& rows, std::vector<size_t> const& cols, Rng& r, int kind = -1)
{
    BlockedDenseMatrix B(rows.size(), cols.size(), m.r, m.c);
    size_t i = 0;
    for (size_t x = 0; x < rows.size(); i += rows[x++]) {
        size_t j = 0;
        for (size_t y = 0; y < cols.size(); j += cols[y++]) {
            Ref w = window(m, i, j, rows[x], cols[y]);
            B(x, y) = makeDyn(w, r, kind >= 0 ? size_t(kind) : blockKind(r, w));
        }
    }
    return B;
}

/// Lets some blocks repeat the elements of an earlier one.
inline void repeatBlocks(Ref& m, std::vector<size_t> const& rows, std::vector<size_t> const& cols, Rng& r)
{
    std::vector<std::array<size_t, 4>> b; size_t i = 0;
    for (size_t h : rows) { size_t j = 0; for (size_t w : cols) { b.push_back({i, j, h, w}); j += w; } i += h; }
    for (size_t k = 1; k < b.size() && k < 400; ++k) {
        auto const &x = b[k], &y = b[r.below(k)];
        if (x[2] != y[2] || x[3] != y[3] || r.chance(0.4)) continue;
        for (size_t p = 0; p < x[2]; ++p) for (size_t q = 0; q < x[3]; ++q) m(x[0] + p, x[1] + q) = m(y[0] + p, y[1] + q);
    }
}

/// Stores most of the blocks with equal elements once.
inline void shareBlocks(BlockedDenseMatrix& B, Ref const& m, std::vector<size_t> const& rows, std::vector<size_t> const& cols, Rng& r)
{
    std::map<uint64_t, std::pair<Ref, DynamicMatrix>> known; size_t i = 0;
    for (size_t x = 0; x < rows.size(); i += rows[x++]) {
        size_t j = 0;
        for (size_t y = 0; y < cols.size(); j += cols[y++]) {
            Ref w = window(m, i, j, rows[x], cols[y]);
            auto it = known.find(w.hash());
            if (it == known.end()) { known.emplace(w.hash(), std::make_pair(w, B(x, y))); continue; }
            if (it->second.first.r != w.r || it->second.first.c != w.c || !diff(it->second.first, w).empty() || r.chance(0.2)) continue;
            B(x, y) = it->second.second; count("blocks stored once for several positions");
        }
    }
}

/// Judges grid, block shapes and overall dimensions, and assembles the blocks.
inline Ref readBlocked(BlockedDenseMatrix const& B, std::vector<size_t> const& rows, std::vector<size_t> const& cols, std::string const& key, std::vector<size_t>* kinds = nullptr)
{
    size_t R = 0, C = 0; for (size_t k : rows) R += k; for (size_t k : cols) C += k;
    Ref m(R, C);
    if (!expect(B.getNbRows() == rows.size() && B.getNbColumns() == cols.size(), key + ": block grid", [&]{ return cat(B.getNbRows(), "x", B.getNbColumns(), " blocks instead of ", rows.size(), "x", cols.size()); })) return m;
    expect(B.getSize() == rows.size() * cols.size(), key + ": number of blocks", [&]{ return cat(B.getSize()); });
    expect(B.getUnblockedRows() == R && B.getUnblockedColumns() == C, key + ": overall dimensions", [&]{ return cat(B.getUnblockedRows(), "x", B.getUnblockedColumns(), " instead of ", R, "x", C); });
    size_t i = 0;
    for (size_t x = 0; x < rows.size(); i += rows[x++]) {
        size_t j = 0;
        for (size_t y = 0; y < cols.size(); j += cols[y++]) {
            DynRead d = readDyn(B(x, y));
            if (!expect(d.bad.empty(), key + ": malformed block", [&]{ return cat("block ", x, ",", y, ": ", d.bad); })) continue;
            if (!expect(d.m.r == rows[x] && d.m.c == cols[y], key + ": block shape", [&]{ return cat("block ", x, ",", y, " is ", d.m.r, "x", d.m.c, " instead of ", rows[x], "x", cols[y]); })) continue;
            if (kinds) kinds->push_back(d.kind);
            for (size_t p = 0; p < rows[x]; ++p) for (size_t q = 0; q < cols[y]; ++q) m(i + p, j + q) = d.m(p, q);
        }
    }
    return m;
}

/// Significance thresholds and occupation limits of all kinds in order: (double, single).
struct Limits { double thrD, thrS; std::array<double, 7> d, s; };

inline Threshold threshold(Limits const& l, int mn = 200, int mx = 1000)
{
    Threshold const t(ThresholdSettings()
        .set_significanceThresholdSinglePrecision(l.thrS)
        .set_significanceThresholdDoublePrecision(l.thrD)
        .set_occupationThresholdMatrixZeroSinglePrecision(l.s[0])
        .set_occupationThresholdMatrixZeroDoublePrecision(l.d[0])
        .set_occupationThresholdMatrixSparseFloatSinglePrecision(l.s[1])
        .set_occupationThresholdMatrixSparseFloatDoublePrecision(l.d[1])
        .set_occupationThresholdMatrixDenseFloatSinglePrecision(l.s[2])
        .set_occupationThresholdMatrixDenseFloatDoublePrecision(l.d[2])
        .set_occupationThresholdMatrixSparseDoubleSinglePrecision(l.s[3])
        .set_occupationThresholdMatrixSparseDoubleDoublePrecision(l.d[3])
        .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(l.s[4])
        .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(l.d[4])
        .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(l.s[5])
        .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(l.d[5])
        .set_occupationThresholdMatrixDenseDoubleSinglePrecision(l.s[6])
        .set_occupationThresholdMatrixDenseDoubleDoublePrecision(l.d[6])
        .set_min_block_size(mn).set_max_block_size(mx));
    // The settings are what was assigned last, whatever an object held before.
    uint64_t how = 0; for (double v : l.d) { uint64_t b; memcpy(&b, &v, 8); how = mix(how ^ b); }
    if (how % 4 == 0) return t;
    if (how % 4 == 1) { Threshold u(t); return u; }
    ThresholdSettings o;
    if (how % 4 == 2) { o.set_significanceThresholdSinglePrecision(l.thrS).set_significanceThresholdDoublePrecision(l.thrD)
        .set_occupationThresholdMatrixSparseFloatDoublePrecision(1 - l.d[1]).set_occupationThresholdMatrixDenseFloatDoublePrecision(1 - l.d[2]).set_occupationThresholdMatrixSparseDoubleDoublePrecision(1 - l.d[3])
        .set_occupationThresholdMatrixSparseDoubleSinglePrecision(1 - l.s[3]).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(1 - l.s[5]); }
    Threshold u(o); u = t; Threshold const& self = u; u = self;
    return u;
}

/// Random limits which let no form hold an element it cannot hold: zero holds none, single forms
/// none above the single-precision threshold. Limits often equal a multiple of 1/size.
inline Limits limits(Rng& r, size_t size)
{
    Limits l;
    double const thr[][2] = {{2.220446049250313e-16, 1.1920928955078125e-07}, {1e-10, 1e-5}, {0.0, 1e-3}, {1e-3, 1.0}, {0.25, 4.0}, {1e-30, 1e-2}};
    auto const& t = thr[r.below(6)]; l.thrD = t[0]; l.thrS = t[1];
    auto any = [&] { double u = r.unit(); return u < 0.15 ? 0.0 : u < 0.3 ? 1.0 : u < 0.65 ? r.unit() : size ? double(r.below(size + 1)) / double(size) : 0.5; };
    l.d = {0.0, 0.2, 1.0, 0.2, 0.4, 1.0, 1.0}; l.s = {0.0, 0.0, 0.0, 0.2, 0.2, 0.2, 1.0};
    if (r.chance(0.8)) { for (size_t k = 1; k < 6; ++k) if (r.chance(0.8)) l.d[k] = any(); for (size_t k = 3; k < 6; ++k) if (r.chance(0.8)) l.s[k] = any(); }
    return l;
}

/// An element in a given class: 0 zero, 1 insignificant, 2 single, 3 double; often on a threshold.
inline double element(Rng& r, Limits const& l, int cls)
{
    double s = r.chance(0.5) ? 1 : -1, f = 0.05 + 0.9 * r.unit();
    switch (cls) {
        case 0: return 0;
        case 1: return s * (r.chance(0.3) ? l.thrD : l.thrD * f);
        case 2: { double v = r.chance(0.25) ? l.thrS : r.chance(0.3) ? std::nextafter(l.thrD, 1e300) : l.thrD == 0 || r.chance(0.3) ? l.thrS * f : l.thrD * std::pow(l.thrS / l.thrD, f);
                  return s * (v > l.thrD && v <= l.thrS ? v : l.thrS); }
        default: return s * (r.chance(0.25) ? std::nextafter(l.thrS, 1e300) : l.thrS * (r.chance(0.3) ? 1.0000001 + f : 1 + f * std::pow(10.0, double(r.in(0, 8)))));
    }
}

/// A matrix whose elements are spread over the four classes in one of several ways.
inline Ref significant(Rng& r, Limits const& l, size_t nr, size_t nc)
{
    Ref m(nr, nc);
    double p[4];
    switch (r.below(8)) {
        case 0: p[0] = 1; p[1] = p[2] = p[3] = 0; break;
        case 1: p[0] = 0.5; p[1] = 0.5; p[2] = p[3] = 0; break;
        case 2: p[0] = r.unit(); p[1] = 0; p[2] = 1 - p[0]; p[3] = 0; break;
        case 3: p[0] = 0.85; p[1] = 0; p[2] = 0.0; p[3] = 0.15; break;
        case 4: p[0] = 0; p[1] = 0; p[2] = 0; p[3] = 1; break;
        case 5: p[0] = 0.5; p[1] = 0.2; p[2] = 0.2; p[3] = 0.1; break;
        default: for (double& x : p) x = r.unit() * (r.chance(0.3) ? 0.1 : 1); }
    double t = p[0] + p[1] + p[2] + p[3];
    for (double& e : m.a) { double u = r.unit() * t; int c = 0; while (c < 3 && u >= p[c]) u -= p[c++]; e = element(r, l, c); }
    return m;
}

/// Is every element of the converted matrix what the thresholds allow? "" if so.
/// source values are doubles; single: the source was held in single precision.
inline std::string keptAsAllowed(Ref const& got, Ref const& src, Limits const& l)
{
    if (got.r != src.r || got.c != src.c) return cat("shape ", got.r, "x", got.c);
    for (size_t i = 0; i < src.a.size(); ++i) {
        double v = src.a[i], g = got.a[i], a = std::abs(v);
        if (g == v) continue;
        if (a > l.thrS) return cat("element ", v, " above the single-precision threshold ", l.thrS, " became ", g);
        if (g == double(float(v))) continue;
        if (a > l.thrD) return cat("element ", v, " between the thresholds ", l.thrD, " and ", l.thrS, " became ", g);
        if (g != 0) return cat("insignificant element ", v, " became ", g);
    }
    return "";
}

} // namespace vh
