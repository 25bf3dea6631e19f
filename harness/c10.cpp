// C10: norms by definition, and norms after whole-matrix operations.
#include "blocked.h"
#include "results.h"
using namespace vh;

struct Norms { double one, two, max; };
static Norms define(Ref const& m)
{
    long double o = 0, t = 0, x = 0;
    for (double v : m.a) { long double a = std::abs((long double)v); o += a; t += a * a; x = std::max(x, a); }
    return {double(o), double(std::sqrt(t)), double(x)};
}

static bool close(double got, double want, size_t n) { return got == want || std::abs(got - want) <= 4e-16 * double(n + 8) * want; }

/// Questions about norms judged against the value that was reported and against the definition.
template <class X> void ask(X const& A, double want, size_t n, std::string const& key, std::string const& info)
{
    auto say = [&](char const* q, double v) { return [&, q, v]{ return cat(q, " with ", v, ", norm is ", want, " ", info); }; };
    // The first question may be any of them.
    uint64_t bits; memcpy(&bits, &want, 8);
    uint64_t first = std::isfinite(want) ? mix(bits ^ mix(n) ^ hash(key)) % 8 : 0;
    if (first == 1 && want > 0) { expect(!A.isNormSmallerThan(want * 0.5), key + ": smaller, asked first", say("smaller", want * 0.5)); }
    if (first == 2 && want > 0) { expect(A.isNormLargerThan(want * 0.5), key + ": larger, asked first", say("larger", want * 0.5)); }
    if (first == 3) { expect(A.isNormSmallerThan(want * 2 + 1e-300), key + ": smaller, asked first", say("smaller", want * 2)); }
    // ... with any number, also those the answer is known for
    if (first >= 4) { double const v[] = {0, -1, -0.0, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity(), 1e300}; double x = v[bits % 6];
        if (first & 1) expect(A.isNormSmallerThan(x) == (want < x), key + ": smaller, asked first", say("smaller", x)); else expect(A.isNormLargerThan(x) == (want > x), key + ": larger, asked first", say("larger", x)); }
    double got = A.getNorm();
    if (!expect(close(got, want, n), key, [&]{ return cat(got, " instead of ", want, " ", info); })) return;
    double const values[] = {got, got * 0.5, got * 2, -1, 0, std::nextafter(got, 1e300), std::nextafter(got, -1e300)};
    for (double v : values) {
        expect(A.isNormLargerThan(v) == (got > v), key + ": larger", say("larger", v));
        expect(A.isNormSmallerThan(v) == (got < v), key + ": smaller", say("smaller", v));
    }
    expect(A.getNorm() == got, key + ": second answer", say("again", got));
    count("questions", 16);
}

template <class N> double pick(Norms const& n) { return std::is_same<N, NormOne>::value ? n.one : std::is_same<N, NormTwo>::value ? n.two : n.max; }
template <class N> char const* normName() { return std::is_same<N, NormOne>::value ? "one" : std::is_same<N, NormTwo>::value ? "two" : "max"; }

/// Elements of any magnitude whose squares neither overflow nor underflow.
template <class X> Ref source(Rng& r, size_t big)
{
    bool single = std::string(Kind<X>::name()).find("F") != std::string::npos;
    Values v; v.bound = r.chance(0.5) ? 9 : 1000; v.exp = single ? int(r.in(-60, 60)) : int(r.in(-300, 300));
    Ref m = gen(r, dim(r, true, big), dim(r, true, big), v);
    if (r.chance(0.3)) for (double& e : m.a) if (r.chance(0.5)) e = double(float(std::ldexp(e, int(r.in(-30, 30)))));
    if (!single && r.chance(0.5)) for (double& e : m.a) e *= 1 + r.unit();
    if (std::string(Kind<X>::name()).find("Zero") != std::string::npos) m = Ref(m.r, m.c);
    return m;
}

template <class X> void definition(size_t n)
{
    std::string const name = Kind<X>::name();
    group("definition " + name, n, [&](Rng& r, size_t) {
        constexpr bool multi = std::is_base_of<MSS, X>::value || std::is_base_of<MSD, X>::value || std::is_base_of<MDD, X>::value;
        Ref m;
        if (multi) { Values v; v.exp = int(r.in(-9, 9)); m = gen(r, dim(r, true, 90), dim(r, true, 90), v); } else m = source<X>(r, 90);
        Callers mem; X const A = mem.make<X>(m, r);
        Norms w = define(m);
        doing("norm " + name);
        if (m.nnz()) saw(mix(hash(name)) ^ m.hash());
        if (want_sample()) sample(m.str());
        auto one = [&](double got, double want, char const* what) { expect(close(got, want, m.a.size()), std::string(what) + " norm of " + name, [&]{ return cat(got, " instead of ", want, " of ", m.str()); }); count("norms"); };
        one(norm<NormOne>(A), w.one, "one"); one(norm<NormTwo>(A), w.two, "two"); one(norm<NormMax>(A), w.max, "max");
        if constexpr (!multi) ask(A, w.two, m.a.size(), "norm of a new " + name, m.str());
        else { double g = A.getNorm(); one(g, w.two, "own"); for (double v : {g, g * 0.5, g * 2, -1.0}) expect(A.isNormLargerThan(v) == (g > v), "larger " + name); }
        std::string d = diff(read(A), m);
        expect(d.empty() && mem.intact(), "norm changed the matrix " + name, [&]{ return d; });
    });
}

template <class X> void cached(size_t n)
{
    std::string const base = Kind<X>::name();
    group("history " + base, n, [&](Rng& r, size_t) {
        int which = int(r.below(3));
        auto run = [&](auto* tag) {
            using N = std::remove_pointer_t<decltype(tag)>; using Y = typename WithNorm<X, N>::type;
            uint64_t h = 0;
            history<Y>(r, [&](Y const& A, Ref const& m, std::string const& info) {
                h = mix(h ^ m.hash());
                ask(A, pick<N>(define(m)), m.a.size(), cat(normName<N>(), " norm of ", base, " after ", info.substr(0, info.find('|'))).substr(0, 70), m.str() + info);
                count(cat("answers ", normName<N>()));
            });
            saw(h);
        };
        if (which == 0) run(static_cast<NormOne*>(nullptr)); else if (which == 1) run(static_cast<NormTwo*>(nullptr)); else run(static_cast<NormMax*>(nullptr));
        count("histories");
    });
}

/// Questions about a result; of a sum of two matrices there are fewer.
template <class X> void askResult(X const& A, Ref const& m, std::string const& key)
{
    Norms w = define(m); size_t n = m.a.size();
    if (mix(st().checks) % 2) {
        auto one = [&](double got, double want, char const* what) { expect(close(got, want, n), cat(what, " norm of the result: ", key), [&]{ return cat(got, " instead of ", want, " of ", m.str()); }); };
        one(norm<NormOne>(A), w.one, "one"); one(norm<NormTwo>(A), w.two, "two"); one(norm<NormMax>(A), w.max, "max");
    }
    if constexpr (!isMultiKind<X>) ask(A, w.two, n, "norm of the result: " + key, m.str());
    else { double g = A.getNorm(); if (expect(close(g, w.two, n), "norm of the result: " + key, [&]{ return cat(g, " instead of ", w.two, " of ", m.str()); })) for (double v : {g, g * 0.5, g * 2, -1.0}) expect(A.isNormLargerThan(v) == (g > v), "larger, of the result: " + key); }
}

int main(int argc, char** argv)
{
    init(argc, argv); storedZeros() = 0.3; st().stretch = 60; st().huge = st().tall = true;
#if PART == 0
    definition<DD>(300); definition<DF>(300); definition<RDD>(300); definition<RDF>(300);
    definition<SD>(300); definition<SF>(300); definition<RSD>(300); definition<RSF>(300);
    definition<ZZ>(60); definition<RZZ>(60);
    definition<MSS>(300); definition<MSD>(300); definition<MDD>(300);

    group("runtime-typed", 1500, [](Rng& r, size_t i) {
        size_t k = i % nbKinds;
        Values v; v.exp = int(r.in(-9, 9));
        Ref m = gen(r, dim(r, true), dim(r, true), v); if (!k) m = Ref(m.r, m.c);
        DynamicMatrix D = makeDyn(m, r, k);
        Norms w = define(m); size_t n = m.a.size();
        std::string const name = kindName[k];
        doing("runtime-typed norm " + name);
        if (m.nnz()) saw(mix(k) ^ m.hash());
        double a = norm<NormOne>(D), b = norm<NormTwo>(D), c = norm<NormMax>(D), g = getNorm(D);
        expect(close(a, w.one, n), "one norm of runtime-typed " + name, [&]{ return cat(a, " instead of ", w.one); });
        expect(close(b, w.two, n), "two norm of runtime-typed " + name, [&]{ return cat(b, " instead of ", w.two); });
        expect(close(c, w.max, n), "max norm of runtime-typed " + name, [&]{ return cat(c, " instead of ", w.max); });
        expect(close(g, w.two, n), "own norm of runtime-typed " + name, [&]{ return cat(g, " instead of ", w.two); });
        for (double t : {g, g * 0.5, g * 2, -1.0, 0.0}) expect(isNormLargerThan(D, t) == (g > t), "larger of runtime-typed " + name, [&]{ return cat(t, " norm ", g); });
        DynRead d = readDyn(D);
        expect(d.bad.empty() && diff(d.m, m).empty(), "norm changed runtime-typed " + name);
        count("norms", 4);
    });

    group("blocked", 600, [](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-9, 9));
        auto one = [&](BlockedDenseMatrix& B, Ref& m) {
            m = gen(r, dim(r, true), dim(r, true), v); auto p = partition(r, m.r), q = partition(r, m.c); bool const repeats = r.chance(0.4);
            if (repeats) repeatBlocks(m, p, q, r);
            B = makeBlocked(m, p, q, r);
            if (repeats) shareBlocks(B, m, p, q, r);
        };
        BlockedDenseMatrix A, B; Ref m, k; one(A, m); one(B, k);
        auto judge = [&](BlockedDenseMatrix const& A, Ref const& m, std::string const& what) {
            Norms w = define(m); size_t n = 2 * m.a.size();
            double a = norm<NormOne>(A), b = norm<NormTwo>(A), c = norm<NormMax>(A);
            expect(close(a, w.one, n), "one norm of blocked " + what, [&]{ return cat(a, " instead of ", w.one); });
            expect(close(b, w.two, n), "two norm of blocked " + what, [&]{ return cat(b, " instead of ", w.two); });
            expect(close(c, w.max, n), "max norm of blocked " + what, [&]{ return cat(c, " instead of ", w.max); });
            ask(A, w.two, n, "norm of blocked " + what, m.str());
            count("norms", 3);
        };
        doing("blocked norm");
        if (m.nnz()) saw(m.hash());
        judge(A, m, "new"); judge(B, k, "new");
        for (int s = 0; s < 6; ++s) {
            switch (r.below(6)) {
                case 0: A = B; m = k; judge(A, m, "copied"); break;
                case 1: swap(A, B); std::swap(m, k); judge(A, m, "swapped"); judge(B, k, "swapped"); break;
                case 2: { BlockedDenseMatrix C(B); judge(C, k, "copy"); A = std::move(C); m = k; judge(A, m, "moved"); break; }
                case 3: one(A, m); judge(A, m, "assigned"); break;
                case 4: { BlockedDenseMatrix C(std::move(B)); judge(C, k, "move constructed"); B = std::move(C); judge(B, k, "moved back"); break; }
                default: { auto p = partition(r, k.r), q = partition(r, k.c); BlockedDenseMatrix C = makeBlocked(k, p, q, r);
                           A.resize(C.getNbRows(), C.getNbColumns(), k.r, k.c); std::copy(C.begin(), C.end(), A.begin()); m = k; judge(A, m, "resized"); }
            }
        }
    });

    // Views have norms of their window.
    group("views", 300, [](Rng& r, size_t) {
        Values v; v.exp = int(r.in(-9, 9));
        Ref m = gen(r, dim(r), dim(r), v);
        size_t i = r.below(m.r), j = r.below(m.c), nr = 1 + r.below(m.r - i), nc = 1 + r.below(m.c - j);
        Ref w = window(m, i, j, nr, nc);
        Norms n = define(w); doing("norm of a view");
        if (w.nnz()) saw(w.hash());
        auto judge = [&](auto const& V, std::string const& name) {
            expect(close(norm<NormOne>(V), n.one, w.a.size()) && close(norm<NormTwo>(V), n.two, w.a.size()) && close(norm<NormMax>(V), n.max, w.a.size()) && close(V.getNorm(), n.two, w.a.size()),
                "norm of a view " + name, [&]{ return cat(norm<NormOne>(V), " ", norm<NormTwo>(V), " ", norm<NormMax>(V), " of ", w.str()); });
        };
        { DD A = make<DD>(m, r); Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> V(A, nr, nc, i, j); judge(V, "by columns"); }
        { RDF A = make<RDF>(m, r); Matrix<Dense, float, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> V(A, nr, nc, i, j); judge(V, "by rows"); }
        count("views");
    });
#elif PART == 2
    allResults(60, [](auto const& A, Ref const& m, std::string const& key) { askResult(A, m, key); });
#else
    cached<DD>(900); cached<DF>(900); cached<RDD>(700); cached<RDF>(700);
    cached<SD>(900); cached<SF>(900); cached<RSD>(700); cached<RSF>(700);
#endif
    return finish();
}
