// C04: products of blocked matrices.
#include "blocked.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/MatrixFiller.h"
using namespace vh;

static Ref times(Ref const& a, Ref const& b)
{
    Ref p(a.r, b.c);
    for (size_t i = 0; i < p.r; ++i) for (size_t j = 0; j < p.c; ++j) { long double s = 0; for (size_t q = 0; q < a.c; ++q) s += (long double)a(i, q) * b(q, j); p(i, j) = double(s); }
    return p;
}

template <class I> void product(Rng& r, std::string const& key, int ka, int kb)
{
    size_t m = few(r, 12), k = few(r, 12), n = few(r, 12);
    auto rows = partition(r, m), inner = partition(r, k), cols = partition(r, n);
    Values v; v.exp = int(r.in(-9, 9));
    // blocks of double precision hold numbers of any size, whose squares need not be representable
    bool const anySize = (ka == 0 || ka == 3 || ka == 6) && (kb == 0 || kb == 3 || kb == 6) && r.chance(0.5);
    Values w = v, x = v;
    if (anySize) {
        v.exp = r.chance(0.5) ? -int(r.in(200, 480)) : int(r.in(200, 480)); w = x = v; count("products of extreme blocks");
        if (r.chance(0.5)) { int s = r.chance(0.5) ? 1 : -1; x.exp = s * int(r.in(540, 980)); w.exp = -s * int(r.in(0, 480)); if (r.chance(0.5)) std::swap(x, w); count("products of opposite extremes"); }
    }
    int const old = anySize ? 6 : -1;
    Ref a = ka == 0 ? Ref(m, k) : gen(r, m, k, x), b = kb == 0 ? Ref(k, n) : gen(r, k, n, w);
    bool const repeats = r.chance(0.4);
    if (repeats) { repeatBlocks(a, rows, inner, r); repeatBlocks(b, inner, cols, r); }
    if (a.nnz() && b.nnz()) saw(a.hash() ^ mix(b.hash()) ^ hash(str(rows) + str(inner) + str(cols)));
    if (want_sample()) sample(cat(str(rows), "x", str(inner), "x", str(cols), " ", a.str(), " * ", b.str()));
    BlockedDenseMatrix A = makeBlocked(a, rows, inner, r, ka), B = makeBlocked(b, inner, cols, r, kb);
    if (repeats) { shareBlocks(A, a, rows, inner, r); shareBlocks(B, b, inner, cols, r); }
    doing(key);
    BlockedDenseMatrix C = (A * B).template execute<I>();
    Ref want = times(a, b);
    Ref got = readBlocked(C, rows, cols, key);
    std::string d = diff(got, want);
    expect(d.empty(), key + ": product", [&]{ return cat(str(rows), "x", str(inner), "x", str(cols), " ", d); });
    doing(key + " assemble");
    DD D(C);
    d = diff(read(D), want);
    expect(d.empty(), key + ": assembled product", [&]{ return d; });
    Ref a2 = readBlocked(A, rows, inner, key + " left"), b2 = readBlocked(B, inner, cols, key + " right");
    expect(diff(a2, a).empty() && diff(b2, b).empty(), key + ": operands changed", [&]{ return diff(a2, a) + " / " + diff(b2, b); });
    // into a matrix that held other blocks, then a chain
    doing(key + " into used");
    size_t m2 = 1 + r.below(5), n2 = 1 + r.below(5);
    auto p2 = partition(r, m2), q2 = partition(r, n2);
    BlockedDenseMatrix E = makeBlocked(gen(r, m2, n2, v), p2, q2, r, old);
    E = (A * B).template execute<I>();
    got = readBlocked(E, rows, cols, key + " into used");
    d = diff(got, want); expect(d.empty(), key + ": product into a used matrix", [&]{ return d; });
    if (r.chance(0.5)) {
        // the functor writes over what the result held, often the same number of blocks of other sizes
        doing(key + " functor over used"); typedef typename BlockedDenseMatrix::parameter P;
        size_t m4 = r.chance(0.7) ? rows.size() : 1 + r.below(4), n4 = r.chance(0.7) ? cols.size() : 1 + r.below(4); size_t R = m4 + r.below(6), Q = n4 + r.below(6);
        std::vector<size_t> p4(m4, 1), q4(n4, 1); p4[r.below(m4)] += R - m4; q4[r.below(n4)] += Q - n4;
        BlockedDenseMatrix H = makeBlocked(gen(r, R, Q, v), p4, q4, r, old);
        MultiplicationFunctor<Dense, DynamicMatrix, P, Dense, DynamicMatrix, P, Dense, DynamicMatrix, P, I>()(A, B, H);
        got = readBlocked(H, rows, cols, key + " over used");
        d = diff(got, want); expect(d.empty(), key + ": product over a used matrix", [&]{ return d; }); count("products over used matrices");
    }
    if (m < 30 && r.chance(0.4)) {
        // a matrix times itself
        doing(key + " square"); Ref q = gen(r, m, m, v);
        BlockedDenseMatrix S = makeBlocked(q, rows, rows, r, ka), T = (S * S).template execute<I>();
        Ref sq = ka == 0 ? Ref(m, m) : readBlocked(S, rows, rows, key + " squared");
        got = readBlocked(T, rows, rows, key + " square"); d = diff(got, times(sq, sq)); expect(d.empty(), key + ": square", [&]{ return d; });
        S = (S * S).template execute<I>(); d = diff(readBlocked(S, rows, rows, key + " square into itself"), got); expect(d.empty(), key + ": square into itself", [&]{ return d; }); count("squares");
    }
    if (r.chance(0.5)) {
        size_t n3 = 1 + r.below(6); auto cols3 = partition(r, n3);
        Ref c = gen(r, n, n3, Values());
        BlockedDenseMatrix F = makeBlocked(c, cols, cols3, r);
        doing(key + " chain");
        BlockedDenseMatrix G = (C * F).template execute<I>();
        got = readBlocked(G, rows, cols3, key + " chain");
        bool exact = true; double big = 0; for (double x : want.a) big = std::max(big, std::abs(x)); if (std::ldexp(big, -x.exp - w.exp) * 9 * double(n) > 16777216.0) exact = false;
        if (exact) { d = diff(got, times(want, c)); expect(d.empty(), key + ": chain of products", [&]{ return d; }); count("chains"); }
    }
    count("products"); count("block products", rows.size() * inner.size() * cols.size());
    if (inner.size() > 1) count("products over several inner blocks");
}

/// The way the library is meant to be used: find block sizes, cut, multiply, assemble.
static void pipeline(Rng& r)
{
    if (st().mode == 3) st().mode = 1;
    size_t m = few(r, 24), k = few(r, 24), n = few(r, 24);
    Limits l = limits(r, 16);
    Ref a = significant(r, l, m, k), b = significant(r, l, k, n);
    DD A = make<DD>(a, r), B = make<DD>(b, r);
    size_t mn = 1 + r.below(3), mx = 2 * mn + r.below(8);
    saw(a.hash() ^ mix(b.hash()) ^ mix(mn * 100 + mx));
    doing("pipeline");
    std::vector<size_t> rows, inner, cols;
    std::tie(rows, inner, cols) = BlockSizeGenerator(mn, mx).matrix_matrix_mult(A, B);
    size_t s[3] = {0, 0, 0}; for (size_t x : rows) s[0] += x; for (size_t x : inner) s[1] += x; for (size_t x : cols) s[2] += x;
    if (!expect(s[0] == m && s[1] == k && s[2] == n, "pipeline: block sizes", [&]{ return str(rows) + str(inner) + str(cols); })) return;
    BlockedDenseMatrix bA = BlockedMatrixGenerator()(A, rows, inner, threshold(l)), bB = BlockedMatrixGenerator()(B, inner, cols, threshold(l));
    BlockedDenseMatrix bC = (bA * bB).execute<Native>();
    Ref got = readBlocked(bC, rows, cols, "pipeline");
    DD C(bC);
    std::string d = diff(read(C), got);
    expect(d.empty(), "pipeline: assembled", [&]{ return d; });
    auto err = [&](double v) { double x = std::abs(v); return x <= l.thrD ? x : x <= l.thrS ? std::abs(v - double(float(v))) : 0.0; };
    auto sg = [&](double v) { return std::min(std::abs(v), l.thrS); };
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) {
        long double w = 0; double e = 0;
        for (size_t q = 0; q < k; ++q) {
            double x = a(i, q), y = b(q, j);
            w += (long double)x * y;
            e += err(x) * std::abs(y) + std::abs(x) * err(y) + err(x) * err(y) + std::abs(x * y) * double(k + 8) * 2.3e-16 + sg(x) * sg(y) * double(k + 8) * 1.2e-7;
        }
        e += 1e-37 * double(k + 1);        // products of single-precision values may underflow
        expect(std::abs(got(i, j) - double(w)) <= e, "pipeline: product", [&]{ return cat("element (", i, ",", j, ") is ", got(i, j), " instead of ", double(w), ", bound ", e); });
    }
    count("pipelines");
}

int main(int argc, char** argv)
{
    init(argc, argv); storedZeros() = 0.3; st().stretch = 250; st().tall = true;
#if PART == 0
    group("mixed blocks", 2500, [](Rng& r, size_t) { product<Native>(r, "blocked", -1, -1); });
    // blocks of large or tiny elements, whose squares need not be representable
    group("extreme blocks", 400, [](Rng& r, size_t) { int const k[] = {0, 3, 6, 6}; product<Native>(r, "extreme blocks", k[r.below(4)], k[r.below(4)]); });
    for (int x = 0; x < int(nbKinds); ++x) for (int y = 0; y < int(nbKinds); ++y)
        group(cat(kindName[x], " blocks times ", kindName[y], " blocks"), 25, [&](Rng& r, size_t) { product<Native>(r, cat("blocked ", kindName[x], " ", kindName[y]), x, y); });
#else
    group("pipeline", 2500, [](Rng& r, size_t) { pipeline(r); });
#endif
    return finish();
}
