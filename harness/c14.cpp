// C14: views address exactly their window; walkers, storage order and element access agree.
#include "bb.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/Transposition.h"
using namespace vh;
static size_t const Z0 = 0;

template <class O> using P_ = Parameter<size_t, O>;
template <class T, class O> using Mat = Matrix<Dense, T, P_<O>>;
template <class T, class O> using Win = Matrix<Dense, T, Parameter<size_t, O, VariableSize, LeadingDimension>>;

/// The addresses a matrix or view has to address: one per element, row-wise.
template <class T> struct Addr
{
    size_t r = 0, c = 0; std::vector<T const*> p;
    T const* operator()(size_t i, size_t j) const { return p[i * c + j]; }
};
enum class Order { byRow, byColumn };

template <class T, class O> Addr<T> addresses(T const* base, size_t ld, size_t r, size_t c)
{
    Addr<T> a; a.r = r; a.c = c;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a.p.push_back(base + (std::is_same<O, RowMajor>::value ? i * ld + j : i + j * ld));
    return a;
}
template <class T> std::vector<T const*> order(Addr<T> const& a, Order o)
{
    std::vector<T const*> v;
    if (o == Order::byRow) { for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) v.push_back(a(i, j)); }
    else for (size_t j = 0; j < a.c; ++j) for (size_t i = 0; i < a.r; ++i) v.push_back(a(i, j));
    return v;
}
template <class T> std::string differ(std::vector<T const*> const& got, std::vector<T const*> const& want)
{
    if (got.size() != want.size()) return cat("visits ", got.size(), " elements instead of ", want.size());
    for (size_t k = 0; k < got.size(); ++k) if (got[k] != want[k]) return cat("visit ", k, " is ", got[k] - want[k], " places off");
    return "";
}

/// Walks with cursors: outer direction D1, inner direction D2; order o.
template <class D1, class D2, class M, class T> void cursors(M& A, Addr<T> const& a, Order o, size_t outer, std::string const& key)
{
    typedef Cursor<M, D1> Outer; typedef Cursor<Outer, D2> Inner;
    std::vector<T const*> got, back; size_t lines = 0;
    auto want = order(a, o); size_t most = want.size() + a.r + a.c + 2;
    bool square = o == Order::byRow;
    expect(outer == (square ? a.r : a.c), key + ": lines");
    doing(key);
    for (Outer x(A, 0), xe(A, outer); x != xe && lines < most; ++x, ++lines) {
        expect(*x == lines, key + ": line number");
        for (Inner y(A, x.begin()), ye(A, x.end()); y != ye && got.size() < most; ++y) got.push_back(&*y);
    }
    std::string d = differ(got, want);
    expect(d.empty(), key, d);
    // the same backwards
    doing(key + " backwards");
    lines = 0;
    if (outer) for (Outer x(A, outer); lines < most; ) {
        --x; ++lines;
        Inner y(A, x.end()), yb(A, x.begin());
        while (y != yb && back.size() < most) { --y; back.push_back(&*y); }
        if (*x == 0) break;
    }
    std::reverse(back.begin(), back.end());
    d = differ(back, want);
    expect(d.empty(), key + " backwards", d);
    // an equal cursor stays equal, a moved one does not
    if (outer) { Outer x(A, 0), y(A, 0); expect(x == y, key + ": equality"); ++y; expect(x != y && !(x == y), key + ": inequality"); --y; expect(x == y, key + ": equality after a step back"); }
    count("walks", 2);
}

template <class It> auto const* at(It i) { return &*i; }

/// Iteration in storage order, forwards and backwards.
template <class M, class T> void iteration(M& A, Addr<T> const& a, Order o, std::string const& key, bool reverse)
{
    auto want = order(a, o); size_t most = want.size() + 3;
    std::vector<T const*> got;
    doing(key + " in storage order");
    for (auto i = A.begin(); i != A.end() && got.size() < most; ++i) got.push_back(at(i));
    std::string d = differ(got, want); expect(d.empty(), key + " in storage order", d);
    got.clear();
    for (auto i = A.begin(); i != A.end() && got.size() < most; ) got.push_back(at(i++));
    d = differ(got, want); expect(d.empty(), key + " in storage order, postfix", d);
    // stepping back from the end
    got.clear();
    doing(key + " back from the end");
    for (auto i = A.end(); i != A.begin() && got.size() < most; ) { --i; got.push_back(at(i)); }
    std::reverse(got.begin(), got.end()); d = differ(got, want); expect(d.empty(), key + " back from the end", d);
    // to and fro
    got.clear();
    doing(key + " to and fro");
    auto i = A.begin();
    for (size_t k = 0; k + 1 < want.size(); ++k) { got.push_back(at(i)); ++i; --i; ++i; }
    if (!want.empty()) got.push_back(at(i));
    d = differ(got, want); expect(d.empty(), key + " to and fro", d);
    expect(size_t(std::distance(A.begin(), A.end())) == want.size(), key + ": distance");
    count("walks", 4);
    (void)reverse;
}
template <class M, class T> void reversed(M& A, Addr<T> const& a, Order o, std::string const& key)
{
    auto want = order(a, o); size_t most = want.size() + 3; std::vector<T const*> got;
    doing(key + " from rbegin");
    for (auto i = A.rbegin(); i != A.rend() && got.size() < most; --i) got.push_back(at(i));
    std::reverse(got.begin(), got.end()); std::string d = differ(got, want); expect(d.empty(), key + " from rbegin", d);
    got.clear();
    if (!want.empty()) { auto i = A.rend(); for (++i; got.size() < want.size(); ++i) got.push_back(at(i)); d = differ(got, want); expect(d.empty(), key + " from rend", d); }
    count("walks", 2);
}

template <class M, class T> void walks(M& A, Addr<T> const& a, std::string const& key)
{
    constexpr bool rm = std::is_same<typename M::orientation, RowMajor>::value;
    Order const storage = rm ? Order::byRow : Order::byColumn, across = rm ? Order::byColumn : Order::byRow;
    using namespace Direction;
    std::string const k = std::string(std::is_const<M>::value ? "const " : "") + key;
    expect(A.getNbRows() == a.r && A.getNbColumns() == a.c && A.getSize() == a.r * a.c, k + ": shape");
    cursors<Row, Column>(A, a, Order::byRow, A.getNbRows(), k + " by row");
    cursors<Column, Row>(A, a, Order::byColumn, A.getNbColumns(), k + " by column");
    // the minor direction numbers the contiguous lines
    cursors<Minor, Major>(A, a, storage, rm ? a.r : a.c, k + " by contiguous line");
    cursors<Major, Minor>(A, a, across, rm ? a.c : a.r, k + " across the lines");
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) expect(&A(i, j) == a(i, j), k + ": element access", [&]{ return cat("(", i, ",", j, ") is ", &A(i, j) - a(i, j), " places off"); });
    iteration(A, a, storage, k, false);
}

template <class T, class O> struct Window { size_t i, j, r, c; };

template <class T, class O> void all(std::string const& name, size_t n)
{
    constexpr bool rm = std::is_same<O, RowMajor>::value;
    auto any = [](Rng& r, size_t nr, size_t nc) {
        size_t i, j, a, b;
        switch (r.below(5)) {
            case 0: i = j = 0; a = nr; b = nc; break;
            case 1: a = std::min<size_t>(1, nr); b = std::min<size_t>(1, nc); i = r.below(nr - a + 1); j = r.below(nc - b + 1); break;
            case 2: a = nr ? 1 + r.below(nr) : 0; b = nc ? 1 + r.below(nc) : 0; i = nr - a; j = nc - b; break;
            case 3: a = r.below(nr + 1); b = r.below(nc + 1); i = r.below(nr - a + 1); j = r.below(nc - b + 1); break;
            default: a = nr ? 1 + r.below(nr) : 0; b = nc ? 1 + r.below(nc) : 0; i = r.below(nr - a + 1); j = r.below(nc - b + 1); break;
        }
        return std::array<size_t, 4>{i, j, a, b};
    };

    group("matrix " + name, n, [&](Rng& r, size_t) {
        Values v; Ref m = gen(r, dim(r, true, 60), dim(r, true, 60), v, 1);
        Mat<T, O> A = make<Mat<T, O>>(m, r); Mat<T, O> const& C = A;
        if (m.a.empty()) count("empty");
        auto a = addresses<T, O>(A.getDataPointer(), rm ? m.c : m.r, m.r, m.c);
        walks(A, a, name); walks(C, a, name);
        // element access through positions, written through walkers
        Ref want = m; size_t x = 0;
        typedef Cursor<Mat<T, O>, Direction::Row> RC; typedef Cursor<RC, Direction::Column> CC;
        for (RC p(A, 0), e(A, A.getNbRows()); p != e; ++p) for (CC q(A, p.begin()), f(A, p.end()); q != f; ++q) *q = T(++x);
        x = 0; for (double& e : want.a) e = double(++x);
        std::string d = diff(read(A), want); expect(d.empty(), name + ": written by row", d);
        // elements further along a contiguous line
        typedef Cursor<Mat<T, O>, Direction::Minor> LC; typedef Cursor<LC, Direction::Major> EC;
        if (!m.a.empty()) { size_t lines = rm ? m.r : m.c, len = rm ? m.c : m.r, l = r.below(lines), k = r.below(len); LC p(A, l); EC q(A, p.begin()); expect(&q[k] == (rm ? a(l, k) : a(k, l)), name + ": element along a line"); }
        saw(mix(hash(name)) ^ m.hash());
    });

    group("view " + name, 2 * n, [&](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-2, 2));
        Ref m = gen(r, dim(r, true, 60), dim(r, true, 60), v, r.chance(0.7) ? 1 : -1);
        std::vector<T> mem(m.a.size() + 4, T(77));
        bool own = r.chance(0.6);
        Mat<T, O> A = own ? make<Mat<T, O>>(m, r) : Mat<T, O>(m.r, m.c, mem.data() + 2);
        if (!own) for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) A(i, j) = T(m(i, j));
        Mat<T, O> const& CA = A;
        auto w = any(r, m.r, m.c);
        size_t ld = rm ? m.c : m.r;
        T* base = A.getDataPointer() + (rm ? w[0] * ld + w[1] : w[0] + w[1] * ld);
        bool dflt = w[0] == 0 && w[1] == 0 && r.chance(0.5);
        doing("view " + name);
        Win<T, O> V1 = dflt ? Win<T, O>(A, w[2], w[3]) : r.chance(0.5) ? Win<T, O>(A, w[2], w[3], w[0], w[1]) : Win<T, O>(CA, w[2], w[3], w[0], w[1]);
        // copies of a view address the same elements
        Win<T, O> V2(V1), V3(A, Z0, Z0); V3 = V2; Win<T, O> V4(std::move(V2)), V5(A, Z0, Z0), V6(A, Z0, Z0); V5 = V4; swap(V5, V6);
        Win<T, O>& V = r.chance(0.4) ? V1 : r.chance(0.4) ? V3 : r.chance(0.5) ? V4 : V6;
        // a view of a view
        size_t wi = w[0], wj = w[1], wr = w[2], wc = w[3]; bool nested = r.chance(0.35);
        auto u = any(r, wr, wc);
        Win<T, O> N(V, u[2], u[3], u[0], u[1]);
        if (nested) { base += rm ? u[0] * ld + u[1] : u[0] + u[1] * ld; wi += u[0]; wj += u[1]; wr = u[2]; wc = u[3]; count("views of views"); }
        Win<T, O>& W = nested ? N : V; Win<T, O> const& CW = W;
        auto a = addresses<T, O>(base, ld, wr, wc);
        std::string const key = "view " + name;
        count("views"); if (!wr || !wc) count("empty views"); if (wr == m.r && wc == m.c) count("whole views");
        Order const st = rm ? Order::byRow : Order::byColumn;
        walks(W, a, key); walks(CW, a, key); reversed(W, a, st, key); reversed(CW, a, st, "const " + key);
        if (wr && wc) { typename Win<T, O>::const_iterator ci = W.begin(); expect(at(ci) == a(0, 0), key + ": constant iterator"); }
        Ref sub(wr, wc); for (size_t i = 0; i < wr; ++i) for (size_t j = 0; j < wc; ++j) sub(i, j) = m(wi + i, wj + j);
        // reading through the view
        doing("reading a " + key);
        std::string d = diff(read(CW), sub); expect(d.empty(), key + ": read", d);
        Mat<T, O> D(CW); d = diff(read(D), sub); expect(d.empty(), key + ": converted to dense", d);
        double one = 0, two = 0, mx = 0; size_t big = 0; for (double e : sub.a) { one += std::abs(e); two += e * e; mx = std::max(mx, std::abs(e)); big += std::abs(e) >= 2; }
        expect(std::abs(norm<NormOne>(CW) - one) <= 1e-5 * one, key + ": norm one"); expect(std::abs(norm<NormTwo>(CW) - std::sqrt(two)) <= 1e-5 * std::sqrt(two), key + ": norm two"); expect(norm<NormMax>(CW) == mx, key + ": norm max");
        expect(countDesiredElements(CW, AbsoluteValueRangeChecker<T>(T(1.9))) == big, key + ": elements counted", [&]{ return cat(countDesiredElements(CW, AbsoluteValueRangeChecker<T>(T(1.9))), " instead of ", big); });
        Mat<T, O> E(wr, wc, AllFiller<T>(T(-1))); copy(W, E); d = diff(read(E), sub); expect(d.empty(), key + ": copied out", d);
        typedef typename std::conditional<rm, ColumnMajor, RowMajor>::type Other;
        Mat<T, Other> F(wr, wc, AllFiller<T>(T(-1))); copy(CW, F); d = diff(read(F), sub); expect(d.empty(), key + ": copied out to the other order", d);
        d = diff(read(CA), m); expect(d.empty(), key + ": reading changed the matrix", d);
        // writing through the view
        Ref want = m, fresh = gen(r, wr, wc, v, 1); int how = int(r.below(6));
        auto put = [&](Ref const& x) { for (size_t i = 0; i < wr; ++i) for (size_t j = 0; j < wc; ++j) want(wi + i, wj + j) = x(i, j); };
        doing(cat("writing to a ", key, " ", how));
        switch (how) {
            case 0: for (size_t i = 0; i < wr; ++i) for (size_t j = 0; j < wc; ++j) W(i, j) = T(fresh(i, j)); put(fresh); break;
            case 1: { size_t k = 0; Ref x(wr, wc); if (rm) for (double& e : x.a) e = double(++k); else for (size_t j = 0; j < wc; ++j) for (size_t i = 0; i < wr; ++i) x(i, j) = double(++k); k = 0; for (auto& e : W) e = T(++k); put(x); break; }
            case 2: W = T(5); put(Ref(wr, wc, 5)); break;
            case 3: { Mat<T, O> X = make<Mat<T, O>>(fresh, r); copy(X, W); put(fresh); break; }
            case 4: { Mat<T, Other> X = make<Mat<T, Other>>(fresh, r); copy(X, W); put(fresh); break; }
            default: { typedef Cursor<Win<T, O>, Direction::Column> CC; typedef Cursor<CC, Direction::Row> RC; size_t j = 0;
                for (CC p(W, 0), e(W, W.getNbColumns()); p != e; ++p, ++j) { size_t i = 0; for (RC q(W, p.begin()), f(W, p.end()); q != f; ++q, ++i) *q = T(fresh(i, j)); } put(fresh); }
        }
        count(cat("writes ", how));
        d = diff(read(CA), want); expect(d.empty(), cat(key, ": written"), [&]{ return cat("way ", how, ": ", d, " window ", wi, ",", wj, " ", wr, "x", wc, " of ", m.r, "x", m.c); });
        expect(mem[0] == T(77) && mem[1] == T(77) && mem[mem.size() - 1] == T(77) && mem[mem.size() - 2] == T(77), key + ": written beside the matrix");
        // changes of the matrix are seen in the view
        if (wr && wc) { size_t i = r.below(wr), j = r.below(wc); A(wi + i, wj + j) = T(42); expect(CW(i, j) == T(42), key + ": change of the matrix not seen"); A(wi + i, wj + j) = T(want(wi + i, wj + j)); }
        // arithmetic with a view and into a view
        doing("arithmetic with a " + key);
        Ref now(wr, wc); for (size_t i = 0; i < wr; ++i) for (size_t j = 0; j < wc; ++j) now(i, j) = want(wi + i, wj + j);
        Ref k = gen(r, wr, wc, v), s(wr, wc); Mat<T, O> K = make<Mat<T, O>>(k, r);
        for (size_t q = 0; q < s.a.size(); ++q) s.a[q] = now.a[q] - k.a[q];
        W -= Win<T, O>(K, wr, wc); put(s); d = diff(read(CA), want); expect(d.empty(), key + ": subtracted from", d);
        // two views into the same matrix
        auto y = any(r, m.r, m.c); y[2] = std::min(y[2], wr); y[3] = std::min(y[3], wc);
        Win<T, O> S(A, y[2], y[3], y[0], y[1]), Tt(W, y[2], y[3]);
        bool apart = y[0] + y[2] <= wi || wi + y[2] <= y[0] || y[1] + y[3] <= wj || wj + y[3] <= y[1];
        if (apart) { Ref from = want; for (size_t i = 0; i < y[2]; ++i) for (size_t j = 0; j < y[3]; ++j) want(wi + i, wj + j) = from(y[0] + i, y[1] + j); copy(S, Tt); d = diff(read(CA), want); expect(d.empty(), key + ": copied between views", d); count("copies between views"); }
        saw(mix(hash(name)) ^ m.hash() ^ mix(wi * 1000003 + wj * 10007 + wr * 101 + wc));
        if (want_sample()) sample(cat("window ", wr, "x", wc, " at ", wi, ",", wj, nested ? " (nested)" : "", " of ", m.str()));
    });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 150; st().tall = st().huge = true;
    size_t const N = 1500;
    all<double, ColumnMajor>("DenseD", N); all<double, RowMajor>("rDenseD", N); all<float, ColumnMajor>("DenseF", N); all<float, RowMajor>("rDenseF", N);
    // a matrix of matrices is walked like any other
    group("blocked", 400, [](Rng& r, size_t) {
        size_t nr = dim(r, true, 14), nc = dim(r, true, 14);
        BlockedDenseMatrix B(nr, nc, nr, nc); BlockedDenseMatrix const& C = B;
        for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) B(i, j) = std::make_shared<DD>(1, 1, AllFiller<double>(double(i * nc + j)));
        auto a = addresses<DynamicMatrix, ColumnMajor>(B.getDataPointer(), nr, nr, nc);
        walks(B, a, "blocked"); walks(C, a, "blocked"); saw(mix(nr * 1000 + nc));
    });
    return finish();
}
