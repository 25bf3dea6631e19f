// C01: sums, differences and compound updates over all pairs of representations.
#include "bb.h"
using namespace vh;

template <class X> std::string state(X const& x) { std::string bad; Ref m = read(x, &bad); return bad.empty() ? m.str() : bad; }

/// Judges a result against the reference.
template <class X> void judge(X const& c, Ref const& want, std::string const& key)
{
    std::string bad; Ref got = read(c, &bad);
    expect(bad.empty(), key + ": malformed result", [&]{ return bad; });
    std::string d = diff(got, want);
    expect(d.empty(), key, [&]{ return cat(d, ", want ", want.str()); });
    expect(c.getSize() == want.r * want.c, key + ": size", [&]{ return cat("getSize ", c.getSize()); });
}

template <class M, class T, class P> void overwrite(Matrix<M,T,P>& m) { if constexpr (!std::is_same<M,Zero>::value) for (auto& e : m) e = T(77); }

template <class X> constexpr bool multi = false;
template <class A, class B> constexpr bool multi<MultipleMatrix<A,B>> = true;

static double rounded(double v, bool single) { return single ? double(float(v)) : v; }

/// Binary scale of the values; now and then near the ends of the range of the narrowest precision.
static int scale(Rng& r, std::string const& name)
{
    if (!r.chance(0.2)) return int(r.in(-20, 20));
    bool single = name.find('F') != std::string::npos;
    int e = single ? int(r.in(-125, 105)) : int(r.in(-1020, 990));
    count("extreme scales");
    return e;
}

template <class X, class Y> void pair(size_t n)
{
    std::string const name = Kind<X>::name() + "," + Kind<Y>::name();
    // The result type is that of the wider precision.
    using Sum = decltype(std::declval<X const&>() + std::declval<Y const&>());
    using Dif = decltype(std::declval<X const&>() - std::declval<Y const&>());
    constexpr bool zx = std::is_same<X,ZZ>::value || std::is_same<X,RZZ>::value, zy = std::is_same<Y,ZZ>::value || std::is_same<Y,RZZ>::value;
    constexpr bool wantSingle = zx && zy ? false : zx ? Kind<Y>::single : zy ? Kind<X>::single : Kind<X>::single && Kind<Y>::single;

    group("sum " + name, n, [&](Rng& r, size_t) {
        bool wide = !wantSingle && r.chance(0.4);
        Values v; v.bound = r.chance(0.5) ? 9 : 1000; v.exp = scale(r, name); splitUnit() = std::ldexp(1, v.exp);
        size_t nr = dim(r, true), nc = dim(r, true);
        bool mixed = !multi<X> && !multi<Y> && r.chance(0.25);
        if (mixed) { wide = false; v.exp = int(r.in(-20, 20)); }
        Ref a = zx ? Ref(nr, nc) : gen(r, nr, nc, v);
        Ref b = zy ? Ref(nr, nc) : partner(r, a, v);
        if (mixed) {
            // elements of very different magnitude; each sum is rounded once
            int e = r.chance(0.5) ? 30 : 80;
            for (Ref* m : {&a, &b}) for (double& x : m->a) x = std::ldexp(x, int(r.in(-e, e)));
            count("operands of mixed magnitude");
        }
        // Elements needing double precision in the operand that can hold them.
        if (wide) {
            auto widen = [&](Ref& m) { for (double& e : m.a) if (e != 0 && r.chance(0.5)) e += std::ldexp(double(r.in(1, 1000)), v.exp - 30); };
            if (!Kind<X>::single && !zx && std::string(Kind<X>::name()).find("F") == std::string::npos) widen(a);
            if (!Kind<Y>::single && !zy && std::string(Kind<Y>::name()).find("F") == std::string::npos) widen(b);
        }
        Ref s(nr, nc), d(nr, nc);
        for (size_t i = 0; i < a.a.size(); ++i) { s.a[i] = rounded(a.a[i] + b.a[i], wantSingle); d.a[i] = rounded(a.a[i] - b.a[i], wantSingle); }
        Callers mem; X A = mem.make<X>(a, r); Y B = mem.make<Y>(b, r);
        if ((zx || a.nnz()) && (zy || b.nnz())) saw(mix(hash(name)) ^ a.hash() ^ mix(b.hash()));
        if (want_sample()) sample(cat(a.str(), " and ", b.str()));

        expect(Kind<Sum>::single == wantSingle, "precision of " + name, [&]{ return std::string("result is ") + Kind<Sum>::name(); });
        expect(Kind<Dif>::single == wantSingle, "precision of difference " + name, [&]{ return std::string("result is ") + Kind<Dif>::name(); });
        doing("sum " + name);
        Sum S = A + B;
        judge(S, s, "sum " + name);
        doing("difference " + name);
        Dif D = A - B;
        judge(D, d, "difference " + name);
        // into a variable that already held something else
        doing("sum into used " + name);
        D = Dif(make<Dif>(zx && zy ? Ref(2, 3) : gen(r, dim(r), dim(r), v), r));
        D = A - B;
        judge(D, d, "difference into a used variable " + name);
        // results are usable as operands
        doing("chain " + name);
        auto T = S + D;
        Ref t(nr, nc); for (size_t i = 0; i < a.a.size(); ++i) t.a[i] = rounded(s.a[i] + d.a[i], wantSingle);
        judge(T, t, "sum of results " + name);

        // the results are values of their own
        overwrite(S); overwrite(D);
        std::string da = diff(read(A), a), db = diff(read(B), b);
        expect(da.empty() && db.empty(), "operands of sum or difference changed " + name, [&]{ return da + " / " + db; });
        expect(mem.intact(), "memory beside the operands changed " + name);
        count("sums and differences", 4);
    });

    group("update " + name, n, [&](Rng& r, size_t i) {
        Values v; v.bound = r.chance(0.5) ? 9 : 1000; v.exp = scale(r, name); splitUnit() = std::ldexp(1, v.exp);
        size_t nr = dim(r, true), nc = dim(r, true);
        Ref a = zx ? Ref(nr, nc) : gen(r, nr, nc, v);
        Ref b = zy ? Ref(nr, nc) : partner(r, a, v);
        Callers mem; X A = mem.make<X>(a, r); Y B = mem.make<Y>(b, r);
        if ((zx || a.nnz()) && (zy || b.nnz())) saw(mix(hash("u" + name)) ^ a.hash() ^ mix(b.hash()));
        Ref w = a;
        int steps = 1 + int(r.below(3));
        for (int s = 0; s < steps; ++s) {
            bool plus = r.chance(0.5);
            std::string op = std::string(plus ? "+= " : "-= ") + name;
            Ref before = w;
            for (size_t k = 0; k < w.a.size(); ++k) w.a[k] += plus ? b.a[k] : -b.a[k];
            bool refused = false;
            doing(op);
            try { X& back = plus ? (A += B) : (A -= B); expect(&back == &A, op + " returns another object"); }
            catch (std::exception const&) { refused = true; }
            std::string bad; Ref got = read(A, &bad);
            expect(bad.empty(), op + ": malformed", [&]{ return bad; });
            if (refused) { std::string d = diff(got, before); expect(d.empty(), op + " refused but changed the target", [&]{ return d; }); count("updates refused"); w = before; }
            else { std::string d = diff(got, w); expect(d.empty(), op, [&]{ return cat(d, " from ", before.str(), " and ", b.str()); }); count("updates done"); }
            std::string db = diff(read(B), b);
            expect(db.empty(), op + " changed its operand", [&]{ return db; });
            expect(mem.intact(), op + " changed memory beside its operands");
        }
    });
}

/// Same object on both sides.
template <class X> void self(size_t n)
{
    std::string const name = Kind<X>::name();
    group("self " + name, n, [&](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-9, 9));
        Ref a = gen(r, dim(r), dim(r), v);
        if (name.find("Zero") != std::string::npos) a = Ref(a.r, a.c);
        X A = make<X>(a, r);
        Ref twice = a; for (double& e : twice.a) e *= 2;
        doing("A + A " + name); judge(A + A, twice, "A + A " + name);
        doing("A - A " + name); judge(A - A, Ref(a.r, a.c), "A - A " + name);
        saw(mix(hash("s" + name)) ^ a.hash());
        bool refused = false;
        doing("A += A " + name);
        try { A += A; } catch (std::exception const&) { refused = true; }
        std::string d = diff(read(A), refused ? a : twice);
        expect(d.empty(), "A += A " + name, [&]{ return d; });
        X B = make<X>(a, r); refused = false;
        doing("A -= A " + name);
        try { B -= B; } catch (std::exception const&) { refused = true; }
        d = diff(read(B), refused ? a : Ref(a.r, a.c));
        expect(d.empty(), "A -= A " + name, [&]{ return d; });
    });
}

/// Updates of a window of a matrix, by another window, a matrix or a sparse matrix.
template <class T, class O> void views(std::string const& name, size_t n)
{
    typedef Parameter<size_t, O, VariableSize, LeadingDimension> PV; typedef Parameter<size_t, O> PD;
    typedef Matrix<Dense,T,PV> View; typedef Matrix<Dense,T,PD> M;
    group("windows " + name, n, [&](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-20, 20));
        size_t R = dim(r), C = dim(r), h = 1 + r.below(R), w = 1 + r.below(C), i = r.below(R - h + 1), j = r.below(C - w + 1);
        bool same = r.chance(0.4); size_t R2 = same ? R : h + r.below(4), C2 = same ? C : w + r.below(4), i2 = same ? r.below(R - h + 1) : r.below(R2 - h + 1), j2 = same ? r.below(C - w + 1) : r.below(C2 - w + 1);
        if (same && !(i == i2 && j == j2) && i2 < i + h && i < i2 + h && j2 < j + w && j < j2 + w) { i2 = i; j2 = j; }   // windows do not overlap in part
        Ref a = gen(r, R, C, v, r.chance(0.7) ? 1 : -1), b = same ? a : gen(r, R2, C2, v, r.chance(0.7) ? 1 : -1), want = a;
        M A = make<M>(a, r), B = make<M>(b, r); View V(A, h, w, i, j), W(same ? A : B, h, w, i2, j2);
        Ref win(h, w); for (size_t x = 0; x < h; ++x) for (size_t y = 0; y < w; ++y) win(x, y) = b(i2 + x, j2 + y);
        saw(mix(hash("v" + name)) ^ a.hash() ^ mix(b.hash()) ^ mix(h * 7919 + w));
        bool plus = r.chance(0.5); int how = int(r.below(4)); std::string op = cat(plus ? "+= " : "-= ", name, " ", how);
        for (size_t x = 0; x < h; ++x) for (size_t y = 0; y < w; ++y) want(i + x, j + y) += plus ? win(x, y) : -win(x, y);
        doing("window " + op);
        auto go = [&]<class M2, class T2, class P2, class M1, class T1, class P1>(Matrix<M1,T1,P1>& x, Matrix<M2,T2,P2> const& y) { if (plus) BinaryAssignmentOperationFunctor<Plus,M1,T1,P1,M2,T2,P2>()(x, y); else BinaryAssignmentOperationFunctor<Minus,M1,T1,P1,M2,T2,P2>()(x, y); };
        if (how == 0) { if (plus) V += W; else V -= W; }
        else if (how == 1) { M D = make<M>(win, r); go(V, D); }
        else if (how == 2) { typedef Matrix<Sparse,T,PD> S; S D = make<S>(win, r); go(V, D); }
        else { M D = make<M>(a, r); View X(D, h, w, i, j); Ref sub(h, w); for (size_t x = 0; x < h; ++x) for (size_t y = 0; y < w; ++y) sub(x, y) = a(i + x, j + y);
            M E = make<M>(sub, r); go(E, W); std::string d = diff(read(E), [&]{ Ref t(h, w); for (size_t x = 0; x < h; ++x) for (size_t y = 0; y < w; ++y) t(x, y) = want(i + x, j + y); return t; }()); expect(d.empty(), "update by a window " + op, [&]{ return d; }); if (plus) V += W; else V -= W; }
        std::string d = diff(read(A), want); expect(d.empty(), "update of a window " + op, [&]{ return cat(d, " window ", i, ",", j, " ", h, "x", w); });
        if (!same) { d = diff(read(B), b); expect(d.empty(), "update of a window changed its operand " + op, [&]{ return d; }); }
        count("updates of windows");
    });
}

template <class X, class... Y> void row(size_t n) { (void)std::initializer_list<int>{(pair<X, Y>(n), 0)...}; self<X>(n); }

int main(int argc, char** argv)
{
    init(argc, argv);
    st().stretch = 14; st().huge = st().tall = true; storedZeros() = 0.3;
    constexpr size_t N = 60;
#define COLS DD, DF, SD, SF, ZZ, MSS, MSD, MDD
#define ROWS RDD, RDF, RSD, RSF, RZZ
#if PART == 0
    { row<DD, COLS>(N); row<RDD, ROWS>(N); }
#endif
#if PART == 1
    { row<DF, COLS>(N); row<RDF, ROWS>(N); }
#endif
#if PART == 2
    { row<SD, COLS>(N); row<RSD, ROWS>(N); }
#endif
#if PART == 3
    { row<SF, COLS>(N); row<RSF, ROWS>(N); }
#endif
#if PART == 4
    { row<ZZ, COLS>(N); row<RZZ, ROWS>(N); }
#endif
#if PART == 5
    row<MSS, COLS>(N);
#endif
#if PART == 6
    row<MSD, COLS>(N);
#endif
#if PART == 7
    row<MDD, COLS>(N);
    views<double, ColumnMajor>("double", 6 * N); views<double, RowMajor>("double by rows", 6 * N); views<float, ColumnMajor>("float", 6 * N); views<float, RowMajor>("float by rows", 6 * N);
#endif
    return finish();
}
