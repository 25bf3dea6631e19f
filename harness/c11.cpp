// C11: numbers of elements in magnitude ranges.
#include "blocked.h"
#include "results.h"
#include "ranges.h"
using namespace vh;

static size_t countIn(Ref const& m, Range const& x) { size_t n = 0; for (double v : m.a) n += x.in(v); return n; }

/// Is zero a countable element of this kind of matrix?
template <class X> constexpr bool countsZero() { return IsDense<X>::value; }

template <class X> void judge(X const& A, Ref const& m, Range const& x, std::string const& key, std::string const& info)
{
    size_t want = countIn(m, x);
    double occ = m.a.empty() ? 0.0 : double(want) / double(m.a.size());
    x.call([&](auto const& c) {
        // The first question may be any of them, with any number.
        uint64_t first = mix(m.hash() ^ hash(x.str())); double const some[] = {-1, 0, 1, 2, occ, std::nextafter(occ, 2.0), std::nextafter(occ, -1.0), 0.5}; double q = some[(first >> 8) % 8];
        if (first % 3 == 0) expect(A.isOccupationLargerThan(q, c) == (occ > q), key + ": larger, asked first", [&]{ return cat(q, " occupation ", occ); });
        if constexpr (!std::is_same<X, MSS>::value && !std::is_same<X, MSD>::value && !std::is_same<X, MDD>::value)
            if (first % 3 == 1) expect(A.isOccupationSmallerThan(q, c) == (occ < q), key + ": smaller, asked first", [&]{ return cat(q, " occupation ", occ); });
        size_t n = A.getNbOfSignificantElements(c);
        if (!expect(n == want, key, [&]{ return cat(n, " instead of ", want, " in ", x.str(), " of ", m.str(), " ", info); })) return;
        double o = A.getOccupation(c);
        expect(o == occ, key + ": occupation", [&]{ return cat(o, " instead of ", occ, " in ", x.str(), " ", info); });
        for (double v : {occ, std::nextafter(occ, 2.0), std::nextafter(occ, -1.0), 0.0, 0.5, 1.0}) {
            expect(A.isOccupationLargerThan(v, c) == (occ > v), key + ": larger", [&]{ return cat(v, " occupation ", occ); });
            if constexpr (!std::is_same<X, MSS>::value && !std::is_same<X, MSD>::value && !std::is_same<X, MDD>::value)
                expect(A.isOccupationSmallerThan(v, c) == (occ < v), key + ": smaller", [&]{ return cat(v, " occupation ", occ); });
        }
        count("questions", 14);
    });
    if (want && want < m.a.size()) count("ranges splitting the elements");
}

template <class X> void definition(size_t n)
{
    std::string const name = Kind<X>::name();
    bool zero = name.find("Zero") != std::string::npos;
    group("definition " + name, n, [&](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-20, 20)); v.bound = r.chance(0.6) ? 5 : 1000;
        Ref m = gen(r, dim(r, true), dim(r, true), v); if (zero) m = Ref(m.r, m.c);
        X A = make<X>(m, r);
        saw(mix(hash(name)) ^ m.hash());
        if (want_sample()) sample(m.str());
        if (r.chance(0.5)) curious(A, r);
        // Elements next to each other, told apart by narrow ranges only.
        if (!zero && r.chance(0.3)) {
            bool single = name.find("F") != std::string::npos;
            for (double& e : m.a) if (e != 0 && r.chance(0.5)) { double big = e < 0 ? -1e30 : 1e30; e = single ? double(std::nextafter(float(e), float(big))) : std::nextafter(e, big); }
            if constexpr (IsDense<X>::value || IsSparse<X>::value) A = make<X>(m, r); else m = read(A);
            count("matrices of neighbouring numbers");
        }
        // Many ranges in random order, some of them again; answers must not influence each other.
        std::vector<Range> asked;
        size_t q = 3 + r.below(15);
        for (size_t k = 0; k < q; ++k) {
            Range x = !asked.empty() && r.chance(0.3) ? r.pick(asked) : range(r, m, v.exp, countsZero<X>());
            // Neighbours of ranges already asked: other kind, other type, one bound moved.
            if (!asked.empty() && r.chance(0.5)) {
                x = r.pick(asked);
                switch (r.below(4)) {
                    case 0: if (x.lo != x.hi && (x.lo != 0 || countsZero<X>())) x.kind = int(r.below(4)); if (x.kind && x.hi <= x.lo && x.kind != 2) x.kind = 0; break;
                    case 1: if (double(float(x.lo)) == x.lo && double(float(x.hi)) == x.hi) x.single = !x.single; break;
                    case 2: x.hi += std::ldexp(1, v.exp); break;
                    default: if (x.lo + std::ldexp(1, v.exp) < x.hi) x.lo += std::ldexp(1, v.exp);
                }
                if (x.single) { x.lo = double(float(x.lo)); x.hi = double(float(x.hi)); if (x.kind && x.kind != 2 && x.lo >= x.hi) continue; }
            }
            if (x.kind && x.kind != 2 && x.lo >= x.hi) continue;
            if (x.kind == 2 && (x.lo > x.hi || (x.lo == 0 && !countsZero<X>()))) continue;
            if (r.chance(0.2)) curious(A, r);
            doing("occupation " + name);
            judge(A, m, x, "number of elements of " + name, cat("question ", k));
            asked.push_back(x);
        }
        if constexpr (IsDense<X>::value || IsSparse<X>::value) {
            // Written elements show after a reset.
            if (m.nnz()) {
                size_t p; do p = r.below(m.a.size()); while (m.a[p] == 0);
                double e = std::ldexp(double(r.in(1, 9)), v.exp);
                m.a[p] = e;
                if constexpr (IsDense<X>::value) A(p / m.c, p % m.c) = typename X::value_type(e); else A = make<X>(m, r);
                A.reset();
                for (Range const& x : asked) judge(A, m, x, "number of elements of " + name + " after a reset", "");
                count("resets");
            }
        }
        std::string d = diff(read(A), m);
        expect(d.empty(), "questions changed the matrix " + name, [&]{ return d; });
    });
}

template <class X> void cached(size_t n)
{
    std::string const name = Kind<X>::name();
    group("history " + name, n, [&](Rng& r, size_t) {
        std::vector<Range> pool;
        Ref some(3, 3); for (double& e : some.a) e = double(r.in(1, 9));
        int exp = int(r.in(-6, 6));
        for (int k = 0; k < 6; ++k) pool.push_back(range(r, some, exp, countsZero<X>()));
        uint64_t h = 0;
        history<X>(r, [&](X const& A, Ref const& m, std::string const& info) {
            h = mix(h ^ m.hash());
            for (int k = 0; k < 3; ++k) judge(A, m, r.pick(pool), ("number of elements of " + name + " after " + info.substr(0, info.find('|'))).substr(0, 70), info);
            count("answers");
        });
        saw(h);
        count("histories");
    });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 60; st().tall = true;
#if PART == 0
    definition<DD>(500); definition<DF>(500); definition<RDD>(400); definition<RDF>(400);
    definition<SD>(500); definition<SF>(500); definition<RSD>(400); definition<RSF>(400);
    definition<ZZ>(60); definition<RZZ>(60);
    definition<MSS>(400); definition<MSD>(400); definition<MDD>(400);

    group("runtime-typed", 1400, [](Rng& r, size_t i) {
        size_t k = i % nbKinds;
        Values v; v.exp = int(r.in(-9, 9)); v.bound = 5;
        Ref m = gen(r, dim(r, true), dim(r, true), v); if (!k) m = Ref(m.r, m.c);
        DynamicMatrix D = makeDyn(m, r, k);
        std::string const name = kindName[k];
        doing("runtime-typed occupation " + name);
        saw(mix(k) ^ m.hash());
        for (int q = 0; q < 6; ++q) {
            Range x = range(r, m, v.exp, k == 2 || k == 6);
            size_t want = countIn(m, x); double occ = m.a.empty() ? 0 : double(want) / double(m.a.size());
            x.call([&](auto const& c) {
                size_t n = countDesiredElements(D, c); double o = getOccupation(D, c);
                expect(n == want, "number of elements of runtime-typed " + name, [&]{ return cat(n, " instead of ", want, " in ", x.str(), " of ", m.str()); });
                expect(o == occ, "occupation of runtime-typed " + name, [&]{ return cat(o, " instead of ", occ, " in ", x.str(), " of ", m.str()); });
                for (double t : {occ, 0.0, 0.5, 1.0, std::nextafter(occ, -1.0)}) expect(isOccupationLargerThan(D, t, c) == (occ > t), "larger of runtime-typed " + name, [&]{ return cat(t, " occupation ", occ); });
            });
            count("questions", 7);
        }
        DynRead d = readDyn(D);
        expect(d.bad.empty() && diff(d.m, m).empty(), "questions changed runtime-typed " + name);
    });

    group("blocked", 500, [](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-9, 9)); v.bound = 5;
        auto one = [&](BlockedDenseMatrix& B, Ref& m) {
            m = gen(r, dim(r, true), dim(r, true), v); auto p = partition(r, m.r), q = partition(r, m.c); bool const repeats = r.chance(0.4);
            if (repeats) repeatBlocks(m, p, q, r);
            B = makeBlocked(m, p, q, r);
            if (repeats) shareBlocks(B, m, p, q, r);
        };
        Ref m; BlockedDenseMatrix A; one(A, m);
        doing("occupation of a blocked matrix");
        saw(m.hash());
        auto judge = [&] {
            for (int q = 0; q < 6; ++q) {
                Range x = range(r, m, v.exp, false);
                if (x.in(0)) continue;
                size_t want = countIn(m, x);
                x.call([&](auto const& c) { size_t n = A.getNbOfSignificantElements(c); expect(n == want, "number of elements of a blocked matrix", [&]{ return cat(n, " instead of ", want, " in ", x.str(), " of ", m.str()); }); });
                count("questions of blocked matrices");
            }
        };
        judge();
        one(A, m);
        judge();
        { Ref k; BlockedDenseMatrix B; one(B, k); if (r.chance(0.5)) swap(A, B); else A = B; m = k; }
        judge();
    });

    group("views", 400, [](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-9, 9)); v.bound = 5;
        Ref m = gen(r, dim(r), dim(r), v);
        size_t i = r.below(m.r), j = r.below(m.c), nr = 1 + r.below(m.r - i), nc = 1 + r.below(m.c - j);
        Ref w = window(m, i, j, nr, nc);
        doing("occupation of a view");
        saw(w.hash());
        DD A = make<DD>(m, r); RDD B = make<RDD>(m, r);
        Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> V(A, nr, nc, i, j);
        Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> W(B, nr, nc, i, j);
        for (int q = 0; q < 5; ++q) { Range x = range(r, w, v.exp, true); judge(V, w, x, "number of elements of a view by columns", ""); judge(W, w, x, "number of elements of a view by rows", ""); }
    });
#elif PART == 2
    allResults(60, [](auto const& A, Ref const& m, std::string const& key) {
        using X = std::decay_t<decltype(A)>; Rng r(mix(st().checks)); Values v;
        for (int k = 0; k < 2; ++k) judge(A, m, range(r, m, int(r.in(-6, 6)), countsZero<X>()), "number of elements of the result: " + key, "");
    });
#else
    cached<DD>(250); cached<DF>(200); cached<RDD>(200); cached<RDF>(200);
    cached<SD>(250); cached<SF>(200); cached<RSD>(200); cached<RSF>(200);
#endif
    return finish();
}
