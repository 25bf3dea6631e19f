// C16: construction, resizing and filling give exactly the described matrix, whatever was there before.
#include "bb.h"
#include "BlasBooster/Core/Transposition.h"
using namespace vh;

template <class X> constexpr bool rowMajor = std::is_same<typename X::parameter::orientation, RowMajor>::value;

/// Shape, sizes and the place of the elements fit each other.
template <class X> std::string shape(X const& A, size_t r, size_t c)
{
    if (A.getNbRows() != r || A.getNbColumns() != c) return cat("shape ", A.getNbRows(), "x", A.getNbColumns(), " instead of ", r, "x", c);
    if (A.getSize() != r * c) return cat("size ", A.getSize(), " of ", r, "x", c);
    if (size_t(A.end() - A.begin()) != r * c) return cat(A.end() - A.begin(), " elements stored for ", r, "x", c);
    if (A.getMajorDimension() != (rowMajor<X> ? c : r) || A.getMinorDimension() != (rowMajor<X> ? r : c)) return "major or minor dimension";
    if (A.getLdRows() != r || A.getLdColumns() != c) return "leading dimension";
    return "";
}

enum class Fill { all, continuous, hilbert, diagonal, assigned, none };
static char const* const fillName[] = {"equal elements", "consecutive numbers", "reciprocal index sums", "constant diagonal", "assigned value", "no filler"};

template <class X> Ref describe(Fill f, size_t r, size_t c, double v)
{
    using T = typename X::value_type;
    Ref m(r, c); size_t n = 0;
    switch (f) {
        case Fill::all: case Fill::assigned: m = Ref(r, c, double(T(v))); break;
        case Fill::continuous: if (rowMajor<X>) { for (double& e : m.a) e = double(++n); } else for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = double(++n); break;
        case Fill::hilbert: for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = 1.0 / double(i + j + 1); break;
        case Fill::diagonal: for (size_t i = 0; i < r && i < c; ++i) m(i, i) = double(T(v)); break;
        default: break;
    }
    return m;
}

/// The norm a matrix reports.
template <class X> double norm(Ref const& m)
{
    double one = 0, two = 0; for (double e : m.a) { one += std::abs(e); two += e * e; }
    return std::is_same<typename X::parameter::NormType, NormOne>::value ? one : std::sqrt(two);
}

/// Calls f with the library's filler.
template <class T, class F> void withFiller(Fill f, double v, bool other, F const& g)
{
    switch (f) {
        case Fill::all: if (other) g(AllFiller<int>(int(v))); else g(AllFiller<T>(T(v))); break;
        case Fill::continuous: g(ContinuousNumberFiller()); break;
        case Fill::hilbert: g(HilbertFiller()); break;
        case Fill::diagonal: if (other) g(DiagonalFiller<int>(int(v))); else g(DiagonalFiller<T>(T(v))); break;
        default: g(NoFiller());
    }
}

template <class X> std::string content(X const& A, Ref const& want)
{
    double eps = sizeof(typename X::value_type) == 4 ? 1.2e-7 : 2.3e-16;
    Ref got = read(A);
    // integers and given values are exact, quotients are rounded once
    for (size_t i = 0; i < want.a.size(); ++i) { double w = want.a[i]; bool whole = w == std::floor(w); if (got.a[i] != w && (whole || std::abs(got.a[i] - w) > 2 * eps * std::abs(w))) return cat("element ", i / want.c, ",", i % want.c, " is ", got.a[i], " instead of ", w); }
    return "";
}

template <class X> void dense(std::string const& name, size_t n)
{
    using T = typename X::value_type;
    auto size = [](Rng& r, size_t& a, size_t& b) {
        double u = r.unit();
        if (u < 0.02) { a = size_t(r.in(100, 260)); b = size_t(r.in(100, 260)); }
        else { a = dim(r, true, 70); b = a < 1000 && r.chance(0.4) ? a : dim(r, true, 70); }
        if (r.chance(0.1)) std::swap(a, b);
    };
    auto val = [](Rng& r) { return double(r.in(-9, 9)); };
    auto fill = [](Rng& r) { return Fill(r.below(5)); };

    group("constructed " + name, n, [&](Rng& r, size_t) {
        size_t a, b; size(r, a, b); Fill f = fill(r); double v = val(r); bool other = r.chance(0.3);
        if (f == Fill::assigned) f = Fill::none;
        std::string const key = name + " constructed with " + fillName[int(f)];
        doing(key);
        if (f == Fill::diagonal && a != b) {
            bool thrown = false;
            try { X A(a, b, DiagonalFiller<T>(T(v))); } catch (CoreException const&) { thrown = true; }
            expect(thrown, name + ": diagonal of a non-square matrix constructed"); count("refused diagonals"); return;
        }
        withFiller<T>(f, v, other, [&](auto const& filler) {
            X A(a, b, filler);
            std::string d = shape(A, a, b); if (d.empty() && f != Fill::none) d = content(A, describe<X>(f, a, b, v));
            expect(d.empty(), key, d);
            if (f != Fill::none) { double w = norm<X>(read(A)); expect(std::abs(A.getNorm() - w) <= 1e-4 * w, key + ": norm"); }
        });
        if (f == Fill::none) { X A(a, b); X B; std::string d = shape(A, a, b); if (d.empty()) d = shape(B, 0, 0); expect(d.empty(), key, d); }
        count(std::string("constructed ") + fillName[int(f)]); saw(mix(hash(key)) ^ mix(a * 1000 + b) ^ uint64_t(int64_t(v)));
    });

    group("resized " + name, n, [&](Rng& r, size_t) {
        size_t a, b; Values v; Ref now = gen(r, dim(r, true), dim(r, true), v); bool known = true;
        bool external = r.chance(0.25);
        std::vector<T> mem(now.a.size() + 8, T(-77)); std::vector<T> old;
        auto guarded = [&] { for (size_t k = 0; k < 4; ++k) if (mem[k] != T(-77) || mem[mem.size() - 1 - k] != T(-77)) return false; return true; };
        X A = external ? X(now.r, now.c, mem.data() + 4) : make<X>(now, r);
        if (external) for (size_t i = 0; i < now.r; ++i) for (size_t j = 0; j < now.c; ++j) A(i, j) = T(now(i, j));
        X witness(A); Ref const first = now;
        // what it is before
        bool moved = false;
        if (!external) switch (r.below(6)) {
            case 0: { X B(std::move(A)); moved = true; break; }                                  // moved from
            case 1: { X B; B = std::move(A); moved = true; break; }                // moved from by assignment
            case 2: { X B(3, 2, AllFiller<T>(4)); swap(A, B); break; }
            case 3: { X B(2, 3, AllFiller<T>(4)); A = B; break; }
            case 4: A = X(); break;
            default: break;
        }
        size_t steps = 1 + r.below(5); std::string trace; bool caches = r.chance(0.5);
        for (size_t k = 0; k < steps; ++k) {
            if (caches) { A.getNorm(); A.getOccupation(AbsoluteValueRangeChecker<double>(0.5)); }
            size(r, a, b); if (r.chance(0.3)) { a = A.getNbRows(); b = A.getNbColumns(); } else if (r.chance(0.2)) { a = A.getNbColumns(); b = A.getNbRows(); }
            Fill f = fill(r); double x = val(r); bool other = r.chance(0.3); if (r.chance(0.1)) f = Fill::none;
            if (moved && !k && f == Fill::assigned) f = Fill::all;   // a moved-from matrix has no elements
            if (f == Fill::assigned) { a = A.getNbRows(); b = A.getNbColumns(); }
            trace += cat(" ", a, "x", b, " ", fillName[int(f)]);
            std::string const key = name + " resized with " + fillName[int(f)];
            doing(key);
            size_t r0 = A.getNbRows(), c0 = A.getNbColumns();
            bool refuse = external && a * b != now.a.size(), diag = f == Fill::diagonal && a != b;
            bool thrown = false; bool core = false;
            Ref before; if (refuse && known) before = read(A);
            try {
                if (f == Fill::assigned) A = T(x);
                else if (f == Fill::none && r.chance(0.5)) A.resize(a, b);
                else withFiller<T>(f, x, other, [&](auto const& filler) { A.resize(a, b, filler); });
            } catch (CoreException const&) { thrown = core = true; } catch (std::exception const&) { thrown = true; }
            if (refuse) {
                expect(thrown, name + ": memory of the caller resized", [&]{ return trace; });
                std::string d = shape(A, r0, c0); expect(d.empty(), name + ": refused resize", [&]{ return d + trace; });
                if (known) { d = diff(read(A), before); expect(d.empty(), name + ": refused resize changes elements", d); }
                count("refused resizes");
            } else if (diag) {
                expect(thrown, name + ": diagonal of a non-square matrix filled", [&]{ return trace; });
                expect(size_t(A.end() - A.begin()) == A.getNbRows() * A.getNbColumns() && A.getSize() == A.getNbRows() * A.getNbColumns(), name + ": malformed after a refused diagonal", [&]{ return trace; });
                count("refused diagonals"); known = false; (void)core;
            } else {
                expect(!thrown, key + ": refused", [&]{ return trace; });
                std::string d = shape(A, a, b); expect(d.empty(), key + ": shape", [&]{ return d + " |" + trace; });
                known = f != Fill::none;
                if (known) {
                    Ref want = describe<X>(f, a, b, x); d = content(A, want); expect(d.empty(), key, [&]{ return d + " |" + trace; });
                    double w = norm<X>(want); size_t big = 0; for (double e : want.a) big += std::abs(e) > 0.55;
                    expect(std::abs(A.getNorm() - w) <= 1e-4 * w, key + ": norm", [&]{ return cat(A.getNorm(), " instead of ", w, " |", trace); });
                    if (want.a.size()) expect(std::abs(A.getOccupation(AbsoluteValueRangeChecker<double>(0.55)) * double(want.a.size()) - double(big)) < 1e-3, key + ": occupation", [&]{ return trace; });
                }
                count(std::string("resized ") + fillName[int(f)]);
            }
            if (external) { expect(guarded(), key + ": beside the memory of the caller"); expect(A.getDataPointer() == mem.data() + 4, key + ": no longer the memory of the caller"); }
            if (f == Fill::none && a * b && r.chance(0.5) && !thrown) { for (auto& e : A) e = T(3); std::string d = content(A, Ref(a, b, 3)); expect(d.empty(), key + ": elements cannot be written", d); known = true; }
        }
        std::string d = diff(read(witness), first); expect(d.empty(), name + ": resizing changed a copy", d);
        saw(mix(hash(name + trace)) ^ first.hash());
        if (want_sample()) sample(name + trace);
    });

    if (sizeof(typename X::IndexType) == 8) group("refused allocation " + name, 30, [&](Rng& r, size_t) {
        Values v; Ref m = gen(r, dim(r), dim(r), v); X A = make<X>(m, r); doing("enormous " + name);
        bool thrown = false; try { A.resize(size_t(1) << 26, size_t(1) << 25); } catch (std::bad_alloc const&) { thrown = true; }
        expect(thrown, name + ": enormous resize accepted"); std::string d = shape(A, m.r, m.c); if (d.empty()) d = diff(read(A), m); expect(d.empty(), name + ": enormous resize", d);
        thrown = false; try { X B(size_t(1) << 26, size_t(1) << 25); } catch (std::bad_alloc const&) { thrown = true; } expect(thrown, name + ": enormous matrix constructed"); count("enormous sizes");
    });
}

template <class X> void sparse(std::string const& name, size_t n)
{
    using T = typename X::value_type;
    group("sparse " + name, n, [&](Rng& r, size_t) {
        Values v; Ref m = gen(r, dim(r, true), dim(r, true), v); X A = make<X>(m, r), W(A);
        switch (r.below(5)) { case 0: { X B(std::move(A)); break; } case 1: { X B; B = std::move(A); break; } case 2: A = X(); break; case 3: { X B(2, 2, 0, ContinuousNumberFiller()); swap(A, B); break; } default: break; }
        std::string trace;
        for (size_t k = 0; k < 1 + r.below(4); ++k) {
            size_t a = dim(r, true, 70), b = dim(r, true, 70), z = r.below(a * b + 1);
            if (r.chance(0.5)) { A.getNorm(); A.getOccupation(AbsoluteValueRangeChecker<double>(0.5)); }
            bool fill = r.chance(0.5), fresh = r.chance(0.3); if (fill) z = r.chance(0.5) ? 0 : a * b;
            trace += cat(" ", a, "x", b, "/", z, fill ? " filled" : "");
            std::string const key = name + (fresh ? " constructed" : " resized") + (fill ? " and filled" : "");
            doing(key);
            if (fresh) A = fill ? X(a, b, z, ContinuousNumberFiller()) : X(a, b, z);
            else { A.resize(a, b, z); if (fill) ContinuousNumberFiller()(A); }
            size_t room = z ? z : a * b;
            expect(A.getNbRows() == a && A.getNbColumns() == b && A.getSize() == a * b, key + ": shape", [&]{ return cat(A.getNbRows(), "x", A.getNbColumns(), " size ", A.getSize(), " |", trace); });
            expect(size_t(A.end() - A.begin()) == room && size_t(A.endKey() - A.beginKey()) == room && size_t(A.nnz()) == room, key + ": room for the elements", [&]{ return cat(A.end() - A.begin(), ", ", A.endKey() - A.beginKey(), ", nnz ", A.nnz(), " instead of ", room, " |", trace); });
            expect(size_t(A.endOffset() - A.beginOffset()) == (rowMajor<X> ? a : b) + 1, key + ": room for the offsets", [&]{ return cat(A.endOffset() - A.beginOffset(), " |", trace); });
            if (fill) {
                std::string bad; Ref got = read(A, &bad); expect(bad.empty(), key + ": malformed", [&]{ return bad + trace; });
                Ref want(a, b); size_t x = 0; if (rowMajor<X>) { for (double& e : want.a) e = double(++x); } else for (size_t j = 0; j < b; ++j) for (size_t i = 0; i < a; ++i) want(i, j) = double(++x);
                std::string d = diff(got, want); expect(d.empty(), key, [&]{ return d + trace; });
                double two = 0; for (double e : want.a) two += e * e; expect(std::abs(A.getNorm() - std::sqrt(two)) <= 1e-4 * std::sqrt(two), key + ": norm");
                if (a * b) expect(A.getOccupation(AbsoluteValueRangeChecker<double>(0.5)) == 1.0, key + ": occupation");
            } else for (size_t p = 0; p < room; ++p) { A.begin()[p] = T(1); A.beginKey()[p] = 0; }
            if (!fill) for (auto i = A.beginOffset(); i != A.endOffset(); ++i) *i = 0;
            count(fill ? "sparse filled" : "sparse resized");
        }
        std::string bad; Ref got = read(W, &bad); expect(bad.empty() && diff(got, m).empty(), name + ": resizing changed a copy", [&]{ return bad + diff(got, m); });
        saw(mix(hash(name + trace)) ^ m.hash());
        doing("enormous " + name); bool thrown = false; X Q = make<X>(m, r); try { Q.resize(size_t(1) << 26, size_t(1) << 25); } catch (std::bad_alloc const&) { thrown = true; } expect(thrown, name + ": enormous resize accepted");
    });
}

template <class X> void zero(std::string const& name, size_t n)
{
    group("zero " + name, n, [&](Rng& r, size_t) {
        size_t a = dim(r, true), b = dim(r, true); X A(a, b); doing(name);
        auto check = [&](X const& x, char const* how) { expect(x.getNbRows() == a && x.getNbColumns() == b && x.getSize() == a * b && x.getNorm() == 0, name + ": " + how); };
        check(A, "constructed"); a = dim(r, true); b = dim(r, true); A.resize(a, b); check(A, "resized"); X B(A); check(B, "copied"); X C; C = B; check(C, "assigned"); X D(std::move(B)); check(D, "moved");
        Ref m = gen(r, a, b, Values()); X E(make<DD>(m, r)); check(E, "converted"); X F(make<SF>(m, r)); check(F, "converted from sparse"); saw(mix(a * 1000 + b)); count("zero");
    });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 90; st().tall = st().huge = true;
    size_t const N = 700;
    dense<DD>("DenseD", N); dense<DF>("DenseF", N); dense<RDD>("rDenseD", N); dense<RDF>("rDenseF", N);
    dense<Matrix<Dense, double, Parameter<unsigned, ColumnMajor>>>("DenseD (unsigned indices)", N / 4);
    dense<Matrix<Dense, float, Parameter<int, RowMajor, VariableSize, NoLeadingDimension, NoUnblockedDimension, NormOne>>>("rDenseF (int indices, one-norm)", N / 4);
    sparse<SD>("SparseD", N); sparse<SF>("SparseF", N); sparse<RSD>("rSparseD", N); sparse<RSF>("rSparseF", N);
    zero<ZZ>("Zero", N); zero<RZZ>("rZero", N);

    group("blocked", N, [&](Rng& r, size_t) {
        size_t a = dim(r, true, 20), b = dim(r, true, 20), ua = a * (1 + r.below(4)), ub = b * (1 + r.below(4)); doing("blocked");
        BlockedDenseMatrix B(a, b, ua, ub);
        auto check = [&](BlockedDenseMatrix const& x, char const* how) { expect(x.getNbRows() == a && x.getNbColumns() == b && x.getSize() == a * b && size_t(x.end() - x.begin()) == a * b && x.getUnblockedRows() == ua && x.getUnblockedColumns() == ub, std::string("blocked matrix ") + how,
            [&]{ return cat(x.getNbRows(), "x", x.getNbColumns(), " of ", x.getUnblockedRows(), "x", x.getUnblockedColumns(), " instead of ", a, "x", b, " of ", ua, "x", ub); }); };
        check(B, "constructed");
        for (size_t k = 0; k < 3; ++k) {
            bool moved = false; if (r.chance(0.2)) { moved = true; BlockedDenseMatrix M(std::move(B)); check(M, "moved"); }
            else if (r.chance(0.2)) { moved = true; BlockedDenseMatrix M; M = std::move(B); check(M, "moved by assignment"); }
            else if (r.chance(0.2)) { BlockedDenseMatrix M(1, 1, 7, 9); swap(M, B); check(M, "swapped"); }
            if (!moved) for (size_t i = 0; i < B.getNbRows(); ++i) for (size_t j = 0; j < B.getNbColumns(); ++j) B(i, j) = std::make_shared<DD>(1, 1, AllFiller<double>(2));
            a = dim(r, true, 20); b = dim(r, true, 20); ua = a * (1 + r.below(4)); ub = b * (1 + r.below(4)); B.resize(a, b, ua, ub); check(B, "resized"); count("blocked resized");
        }
        BlockedDenseMatrix E; expect(E.getNbRows() == 0 && E.getNbColumns() == 0 && E.getSize() == 0 && E.getUnblockedRows() == 0, "blocked matrix default"); saw(mix(a * 1000 + b) ^ mix(ua * 1000 + ub));
    });

    group("dimensions", 400, [](Rng& r, size_t) {
        size_t a = dim(r, true, 40), b = r.chance(0.5) ? a : dim(r, true, 40), c = r.chance(0.5) ? a : dim(r, true, 40), d = r.chance(0.5) ? b : dim(r, true, 40);
        auto run = [&](auto* t, bool row) {
            using D = std::remove_pointer_t<decltype(t)>; D x(a, b), y(c, d), z(x), e; doing("dimensions");
            auto is = [&](D const& q, size_t nr, size_t nc, char const* what) { expect(q.getNbRows() == nr && q.getNbColumns() == nc && q.getSize() == nr * nc && q.getMajorDimension() == (row ? nc : nr) && q.getMinorDimension() == (row ? nr : nc), cat("dimension ", what)); };
            is(x, a, b, "constructed"); is(e, 0, 0, "default"); is(z, a, b, "copied");
            bool same = a == c && b == d; expect((x == y) == same && (y == x) == same && (x != y) == !same && x == z && !(z != x), "dimensions compared");
            swap(x, y); is(x, c, d, "swapped"); is(y, a, b, "swapped"); e = x; is(e, c, d, "assigned"); e.resize(b, a); is(e, b, a, "resized"); D m(std::move(e)); is(m, b, a, "moved"); y = std::move(m); is(y, b, a, "move-assigned");
        };
        run(static_cast<Dimension<VariableSize, ColumnMajor>*>(nullptr), false); run(static_cast<Dimension<VariableSize, RowMajor>*>(nullptr), true);
        UnblockedDimension u(a, b), v(u), w; w = v; expect(v.getUnblockedRows() == a && v.getUnblockedColumns() == b && w.getUnblockedRows() == a && w.getUnblockedColumns() == b, "unblocked dimension"); LeadingDimension l(a, b), k(l); k = l; expect(k.getLdRows() == a && k.getLdColumns() == b && l.getLdRows() == a && l.getLdColumns() == b, "leading dimension");
        saw(mix(a * 1000003 + b) ^ mix(c * 77 + d + 5)); count("dimensions");
    });

    // More elements than a single-precision counter can tell apart.
    group("very many elements", 2, [](Rng& r, size_t k) {
        auto run = [&](auto* t) {
            using X = std::remove_pointer_t<decltype(t)>; size_t a = 4097 + r.below(3), b = 4099; if (r.chance(0.3)) { b = a * b; a = 1; } else if (r.chance(0.3)) { a = a * b; b = 1; }
            doing("very many elements"); X A(2, 2, AllFiller<typename X::value_type>(3)); A.resize(a, b, ContinuousNumberFiller());
            size_t bad = 0; double n = 0; auto e = A.begin(); for (size_t q = 0; q < a * b; ++q, ++e) bad += *e != (n += 1); expect(!bad && e == A.end(), "consecutive numbers in very many elements", [&]{ return cat(bad, " of ", a * b, " elements wrong"); });
            A = 2; bad = 0; for (auto x : A) bad += x != 2; expect(!bad, "assigned value in very many elements"); A(a - 1, b - 1) = 5; expect(A(a - 1, b - 1) == 5 && *(A.end() - 1) == 5 && A(0, 0) == 2, "last of very many elements");
            count("very many elements", a * b);
        };
        if (k % 2) run(static_cast<DD*>(nullptr)); else run(static_cast<RDD*>(nullptr));
    }, false);

    group("lists", 40, [&](Rng& r, size_t) {
        double a = double(r.in(-9, 9)), b = double(r.in(-9, 9)), c = double(r.in(-9, 9)), d = double(r.in(-9, 9)), e = double(r.in(-9, 9)), f = double(r.in(-9, 9));
        auto check = [&](auto const& A, size_t nr, size_t nc, char const* how) { Ref m(nr, nc); double x[] = {a, b, c, d, e, f}; for (size_t i = 0; i < m.a.size(); ++i) m.a[i] = x[i]; std::string s = shape(A, nr, nc); if (s.empty()) s = diff(read(A), m); expect(s.empty(), std::string("list ") + how, s); };
        doing("lists"); check(DD{{a, b, c}, {d, e, f}}, 2, 3, "DenseD 2x3"); check(DD{{a, b}, {c, d}, {e, f}}, 3, 2, "DenseD 3x2"); check(RDD{{a, b, c}, {d, e, f}}, 2, 3, "rDenseD 2x3"); check(RDD{{a, b}, {c, d}, {e, f}}, 3, 2, "rDenseD 3x2");
        check(DD{{a}, {b}, {c}}, 3, 1, "column"); check(RDD{{a, b, c, d, e, f}}, 1, 6, "row"); check(DF{{float(a), float(b)}, {float(c), float(d)}}, 2, 2, "DenseF"); check(RDF{{float(a), float(b)}, {float(c), float(d)}}, 2, 2, "rDenseF");
        // A list whose rows differ in length describes no matrix
        auto refuses = [](auto const& l, auto* p) { try { std::remove_pointer_t<decltype(p)> A(l); return false; } catch (std::exception const&) { return true; } };
        std::initializer_list<std::initializer_list<double>> shorter{{a, b, c}, {d, e}}, longer{{a}, {b, c, d}, {e}}, none{}, holes{{}, {}, {}}, late{{}, {a}};
        for (auto const& l : {shorter, longer, late}) expect(refuses(l, static_cast<DD*>(nullptr)) && refuses(l, static_cast<RDD*>(nullptr)), "list with rows of different length accepted");
        check(DD(none), 0, 0, "empty"); check(RDD(none), 0, 0, "empty"); check(DD(holes), 3, 0, "without columns"); check(RDD(holes), 3, 0, "without columns");
        count("refused lists", 6);
        saw(mix(uint64_t(int64_t(a * 99991 + b * 9973 + c * 991 + d * 97 + e * 11 + f)))); count("lists");
    });
    return finish();
}
