// C05: block size detection.
#include "bb.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
using namespace vh;

static std::string str(std::vector<size_t> const& p) { std::string s = "("; for (size_t k : p) s += (s.size() > 1 ? "," : "") + std::to_string(k); return s + ")"; }
template <class T> std::string vstr(std::vector<T> const& p) { std::string s = "("; for (size_t i = 0; i < p.size() && i < 60; ++i) s += cat(i ? "," : "", p[i]); return s + ")"; }

/// Limits: the sizes partition n and respect the limits.
static bool partitions(std::vector<size_t> const& s, size_t n, size_t mn, size_t mx, std::string const& key)
{
    size_t sum = 0; bool positive = true, small = false, large = false;
    for (size_t k : s) { sum += k; positive = positive && k; large = large || k > mx; small = small || k < mn; }
    auto say = [&]{ return cat(str(s), " for ", n, ", limits ", mn, " to ", mx); };
    bool ok = expect(!s.empty() && sum == n, key + ": sizes do not add up", say);
    ok = expect(positive, key + ": empty block", say) && ok;
    ok = expect(!large, key + ": block above the maximum", say) && ok;
    ok = expect(!small || s.size() == 1, key + ": block below the minimum", say) && ok;
    if (s.size() == 1) count("dimensions left whole"); else { count("dimensions cut"); count("cuts", s.size() - 1); }
    return ok;
}

/// Placement: stronger places were only passed over because of the minimum size, and there is no superfluous cut.
template <class T> void placement(std::vector<size_t> const& s, std::vector<T> const& detect, size_t mn, size_t mx, std::string const& key)
{
    size_t n = detect.size() + 1;
    std::set<size_t> cuts; size_t at = 0;
    for (size_t i = 0; i + 1 < s.size(); ++i) cuts.insert(at += s[i]);
    auto say = [&]{ return cat(str(s), " for profile ", vstr(detect), ", limits ", mn, " to ", mx); };
    // a place where a cut would respect the minimum next to the cuts given
    auto open = [&](std::set<size_t> const& c, size_t p) {
        size_t left = 0, right = n;
        for (size_t q : c) { if (q <= p) left = q; if (q > p) { right = q; break; } }
        return left != p && p - left >= mn && right - p >= mn;
    };
    if (cuts.empty()) {
        bool possible = false; for (size_t p = 1; p < n; ++p) possible = possible || open({}, p);
        if (n > mx) expect(!possible, key + ": not cut although above the maximum", say);
        return;
    }
    T weakest = detect[*cuts.begin() - 1];
    for (size_t c : cuts) weakest = std::min(weakest, detect[c - 1]);
    for (size_t p = 1; p < n; ++p)
        if (!cuts.count(p) && detect[p - 1] > weakest && !expect(!open(cuts, p), key + ": a stronger change was passed over", [&]{ return cat("at ", p, ": ", say()); })) return;
    // strict order: the cuts are exactly those a greedy choice takes
    std::set<T> distinct(detect.begin(), detect.end());
    if (distinct.size() == detect.size()) {
        std::vector<size_t> order; for (size_t p = 1; p < n; ++p) order.push_back(p);
        std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return detect[a - 1] > detect[b - 1]; });
        std::set<size_t> want; bool done = false;
        for (size_t p : order) {
            if (done) break;
            if (!open(want, p)) continue;
            want.insert(p);
            size_t prev = 0, big = 0; for (size_t q : want) { big = std::max(big, q - prev); prev = q; } big = std::max(big, n - prev);
            done = big <= mx;
        }
        expect(want == cuts, key + ": cuts not where the profile changes most", [&]{ std::vector<size_t> w(want.begin(), want.end()); return cat("cuts expected at ", str(w), ": ", say()); });
        count("strictly ordered profiles");
    }
    // one of the weakest cuts was needed, unless it is the only one
    if (cuts.size() > 1) {
        bool needed = false;
        for (size_t c : cuts) if (detect[c - 1] == weakest) {
            std::set<size_t> rest(cuts); rest.erase(c);
            size_t prev = 0, big = 0; for (size_t q : rest) { big = std::max(big, q - prev); prev = q; } big = std::max(big, n - prev);
            needed = needed || big > mx;
        }
        expect(needed, key + ": superfluous cut", say);
    }
}

static void limits(Rng& r, size_t n, size_t& mn, size_t& mx)
{
    mn = r.chance(0.1) ? 0 : r.chance(0.5) ? 1 + r.below(4) : 1 + r.below(1 + n);
    mx = std::max<size_t>(1, 2 * mn + (r.chance(0.4) ? 0 : r.below(r.chance(0.5) ? 4 : 1 + n)));
}

template <class T> void vectors(Rng& r, std::string const& key)
{
    size_t n = 1 + r.below(r.chance(0.1) ? 400 : r.chance(0.3) ? 80 : 24), mn, mx;
    limits(r, n, mn, mx);
    std::vector<T> d(n - 1);
    int style = int(r.below(7));
    for (size_t i = 0; i < d.size(); ++i)
        switch (style) {
            case 0: d[i] = T(0); break;
            case 1: d[i] = T(r.below(3)); break;
            case 2: d[i] = T(r.chance(0.15) ? 15 : 0); break;
            case 3: d[i] = T(r.below(10000)) * T(401) + T(i); break;                     // distinct
            case 4: d[i] = T(i); break;
            case 5: d[i] = T(1000000) + T(r.below(r.chance(0.5) ? 60 : 8000)); break;    // strong everywhere, little difference
            default: d[i] = T(d.size() - i); }
    if (style == 3 && r.chance(0.5)) std::reverse(d.begin(), d.end());
    uint64_t h = mix(mn * 1000 + mx); for (T x : d) h = mix(h ^ uint64_t(x)); if (n > 1) saw(h);
    if (want_sample()) sample(cat(vstr(d), ", limits ", mn, " to ", mx));
    doing(key);
    auto s = BlockSizeGenerator(mn, mx).get_block_size(d);
    if (partitions(s, n, mn, mx, key)) placement(s, d, mn, mx, key);
    if (BlockSizeGenerator(mn, mx).get_block_size(d) != s) fail(key + ": differs when repeated", vstr(d));
    count("profiles");
}

/// Row and column profiles by definition: summed changes of the binary exponent.
template <class M> void profiles(M const& A, std::vector<double>& row, std::vector<double>& col)
{
    size_t R = A.getNbRows(), C = A.getNbColumns();
    auto ex = [&](size_t i, size_t j) { int e; std::frexp(double(A(i, j)), &e); return double(e); };
    row.assign(R - 1, 0); col.assign(C - 1, 0);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) {
        if (i + 1 < R) row[i] += std::abs(ex(i, j) - ex(i + 1, j));
        if (j + 1 < C) col[j] += std::abs(ex(i, j) - ex(i, j + 1));
    }
}

template <class T, class P> Matrix<Dense,T,P> spread(Rng& r, size_t R, size_t C)
{
    Matrix<Dense,T,P> A(R, C);
    int style = int(r.below(5));
    size_t bi = 1 + r.below(R), bj = 1 + r.below(C);
    int const wide = r.chance(0.3) ? std::is_same<T, float>::value ? 120 : 1020 : 0;   // the whole range of the type
    int e0 = int(r.in(-20, 20)), e1 = int(r.in(-20, 20)); if (wide) { e0 = int(r.in(-wide, wide)); e1 = r.chance(0.4) ? e0 + (e0 > 0 ? -256 : 256) : int(r.in(-wide, wide)); if (std::abs(e1) > wide) e1 = int(r.in(-wide, wide)); }
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) {
        double x = 0;
        switch (style) {
            case 0: x = 0; break;
            case 1: x = std::ldexp(1 + r.unit(), wide ? int(r.in(-wide, wide)) : int(r.in(-30, 30))); break;
            case 2: x = std::ldexp(1.0, (i / bi + j / bj) % 2 ? e0 : e1); break;           // chessboard of blocks
            case 3: x = r.chance(0.2) ? std::ldexp(1.0, e0) : 0; break;
            default: x = std::ldexp(1.0, i < bi && j < bj ? e0 : e1); }
        A(i, j) = T(r.chance(0.5) ? x : -x);
    }
    return A;
}

template <class T, class P> void matrices(Rng& r, std::string const& key)
{
    bool large = r.chance(0.1);
    size_t R = 1 + r.below(large ? 60 : 14), C = 1 + r.below(large ? 60 : 14), mn, mx;
    limits(r, std::max(R, C) / 2, mn, mx);
    auto A = spread<T,P>(r, R, C);
    Ref before = read(A);
    saw(before.hash() ^ mix(mn * 1000 + mx));
    if (want_sample()) sample(cat(before.str(), ", limits ", mn, " to ", mx));
    std::vector<double> row, col; profiles(A, row, col);
    BlockSizeGenerator g(mn, mx);
    doing(key + " profile");
    auto det = g.get_detection_arrays(A);
    std::vector<double> r2(std::get<0>(det).begin(), std::get<0>(det).end()), c2(std::get<1>(det).begin(), std::get<1>(det).end());
    expect(r2 == row && c2 == col, key + ": magnitude profile", [&]{ return cat(vstr(r2), vstr(c2), " instead of ", vstr(row), vstr(col)); });
    doing(key);
    auto s = g(A);
    bool ok = partitions(std::get<0>(s), R, mn, mx, key + " rows");
    ok = partitions(std::get<1>(s), C, mn, mx, key + " columns") && ok;
    if (ok) {
        if (R <= mx && C <= mx) expect(std::get<0>(s).size() == 1 && std::get<1>(s).size() == 1, key + ": cut although within the maximum", [&]{ return str(std::get<0>(s)) + str(std::get<1>(s)); });
        else { placement(std::get<0>(s), row, mn, mx, key + " rows"); placement(std::get<1>(s), col, mn, mx, key + " columns"); }
    }
    // product
    size_t N = 1 + r.below(large ? 60 : 14);
    auto B = spread<T,P>(r, C, N);
    std::vector<double> rowB, colB; profiles(B, rowB, colB);
    doing(key + " product");
    auto t = g.matrix_matrix_mult(A, B);
    ok = partitions(std::get<0>(t), R, mn, mx, key + " product rows");
    ok = partitions(std::get<1>(t), C, mn, mx, key + " product inner") && ok;
    ok = partitions(std::get<2>(t), N, mn, mx, key + " product columns") && ok;
    if (ok) {
        std::vector<double> in(col); for (size_t i = 0; i < in.size(); ++i) in[i] += rowB[i];
        placement(std::get<0>(t), row, mn, mx, key + " product rows");
        placement(std::get<1>(t), in, mn, mx, key + " product inner");
        placement(std::get<2>(t), colB, mn, mx, key + " product columns");
    }
    std::string d = diff(read(A), before);
    expect(d.empty(), key + ": matrix changed", [&]{ return d; });
    count("matrices");
}

int main(int argc, char** argv)
{
    init(argc, argv);
    group("profiles of integers", 2500, [](Rng& r, size_t) { vectors<size_t>(r, "integer profile"); }, true, 30);
    group("profiles of doubles", 2500, [](Rng& r, size_t) { vectors<double>(r, "double profile"); }, true, 30);
    group("profiles of floats", 1500, [](Rng& r, size_t) { vectors<float>(r, "float profile"); }, true, 30);
    group("double matrices", 1500, [](Rng& r, size_t) { matrices<double, CM>(r, "double"); }, true, 30);
    group("single matrices", 800, [](Rng& r, size_t) { matrices<float, CM>(r, "single"); }, true, 30);
    group("row-major matrices", 800, [](Rng& r, size_t) { matrices<double, RM>(r, "row-major"); }, true, 30);
    group("limits", 3000, [](Rng& r, size_t i) {
        size_t mn = i < 400 ? i / 20 : r.chance(0.3) ? ~size_t(0) - r.below(5) : r.chance(0.3) ? (size_t(1) << 63) + size_t(r.in(-3, 3)) : r.next() >> r.below(64);
        size_t mx = i < 400 ? i % 20 : r.chance(0.5) ? size_t(r.below(100)) : r.next() >> r.below(64);
        if (i >= 400 && r.chance(0.3)) mx = 2 * mn + size_t(r.in(-2, 2));
        bool refused = false, want = (unsigned __int128)mn * 2 > mx;
        saw(mix(mn) ^ mx);
        doing("limits");
        try { BlockSizeGenerator g(mn, mx); } catch (BlasBoosterException const&) { refused = true; }
        expect(refused == want, "limits checked", [&]{ return cat(mn, " to ", mx, refused ? " refused" : " accepted"); });
        count(refused ? "limits refused" : "limits accepted");
    });
    return finish();
}
