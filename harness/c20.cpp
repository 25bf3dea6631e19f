// C20: usage tracking counts every tracked operation once, under its own name.
#include "blocked.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "mkl_standin.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#include "BlasBooster/Core/Multiplication_Blaze.h"
#include <atomic>
#include <thread>
using namespace vh;

// The clock of the day may be set back while the program runs.
static std::atomic<bool> unsteady{false};
static std::atomic<uint64_t> asked{0};
#include <time.h>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    timespec t; clock_gettime(CLOCK_REALTIME, &t);
    int64_t ns = int64_t(t.tv_sec) * 1000000000 + t.tv_nsec;
    if (unsteady) ns -= int64_t(++asked) * 3600 * int64_t(1000000000);
    return time_point(duration(ns));
}
}}}

using Counts = std::map<size_t, uint64_t>;
constexpr size_t NB = size_t(TrackerID::size);
static size_t id(TrackerID t) { return size_t(t); }

static std::vector<uint64_t> counts() { return std::vector<uint64_t>(TrackerRegister::count.begin(), TrackerRegister::count.end()); }
static std::vector<int64_t> times()
{
    std::vector<int64_t> t; for (auto const& d : TrackerRegister::time) t.push_back(int64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count())); return t;
}
static char const* const names[] = {
    "OpenBLAS_dgemm", "OpenBLAS_sgemm", "IntelMKL_dgemm", "IntelMKL_sgemm", "IntelMKL_dcsrmm", "IntelMKL_scsrmm", "IntelMKL_dcsrmultcsr", "IntelMKL_scsrmultcsr",
    "Eigen_dgemm", "Eigen_sgemm", "Eigen_sdgemm", "Eigen_dsgemm", "Blaze_dgemm", "Blaze_sgemm", "Blaze_sdgemm", "Blaze_dsgemm",
    "Native_GeneralDense", "Native_sparse", "Native_sparse_dense", "Native_dense_sparse", "Native_matrix_zero", "Native_zero_matrix", "Native_zero_zero",
    "get_detection_arrays", "get_block_size" };
static TrackerID const ids[] = {
    TrackerID::OpenBLAS_dgemm, TrackerID::OpenBLAS_sgemm, TrackerID::IntelMKL_dgemm, TrackerID::IntelMKL_sgemm, TrackerID::IntelMKL_dcsrmm, TrackerID::IntelMKL_scsrmm, TrackerID::IntelMKL_dcsrmultcsr, TrackerID::IntelMKL_scsrmultcsr,
    TrackerID::Eigen_dgemm, TrackerID::Eigen_sgemm, TrackerID::Eigen_sdgemm, TrackerID::Eigen_dsgemm, TrackerID::Blaze_dgemm, TrackerID::Blaze_sgemm, TrackerID::Blaze_sdgemm, TrackerID::Blaze_dsgemm,
    TrackerID::Native_GeneralDense, TrackerID::Native_sparse, TrackerID::Native_sparse_dense, TrackerID::Native_dense_sparse, TrackerID::Native_matrix_zero, TrackerID::Native_zero_matrix, TrackerID::Native_zero_zero,
    TrackerID::get_detection_arrays, TrackerID::get_block_size };
static_assert(sizeof ids / sizeof *ids == sizeof names / sizeof *names, "");
static std::string nameOf(size_t k) { for (size_t i = 0; i < sizeof ids / sizeof *ids; ++i) if (id(ids[i]) == k) return names[i]; return cat("entry ", k); }

/// What a product has to count: the sum over the parts of its operands.
template <class X> struct Parts { template <class F> static void each(F f) { f(static_cast<X*>(nullptr)); } };
template <class A, class B> struct Parts<MultipleMatrix<A,B>> { template <class F> static void each(F f) { f(static_cast<A*>(nullptr)); f(static_cast<B*>(nullptr)); } };
template <class X> struct Is;
template <class T, class P> struct Is<Matrix<Dense,T,P>> { static constexpr int kind = 0; static constexpr bool dbl = sizeof(T) == 8, cm = std::is_same<typename P::orientation, ColumnMajor>::value; };
template <class T, class P> struct Is<Matrix<Sparse,T,P>> { static constexpr int kind = 1; static constexpr bool dbl = sizeof(T) == 8, cm = true; };
template <class P> struct Is<Matrix<Zero,NullType,P>> { static constexpr int kind = 2; static constexpr bool dbl = false, cm = true; };

template <class X, class Y, class I> TrackerID single()
{
    constexpr int a = Is<X>::kind, b = Is<Y>::kind; constexpr bool same = Is<X>::dbl == Is<Y>::dbl;
    if (std::is_same<I, IntelMKL>::value) return a == 1 ? b == 1 ? Is<X>::dbl ? TrackerID::IntelMKL_dcsrmultcsr : TrackerID::IntelMKL_scsrmultcsr : Is<X>::dbl ? TrackerID::IntelMKL_dcsrmm : TrackerID::IntelMKL_scsrmm
        : Is<X>::dbl ? TrackerID::IntelMKL_dgemm : TrackerID::IntelMKL_sgemm;
    if (std::is_same<I, Blaze>::value) return same ? (Is<X>::dbl ? TrackerID::Blaze_dgemm : TrackerID::Blaze_sgemm) : (Is<X>::dbl ? TrackerID::Blaze_dsgemm : TrackerID::Blaze_sdgemm);
    if (a == 2 && b == 2) return TrackerID::Native_zero_zero;
    if (a == 2) return TrackerID::Native_zero_matrix;
    if (b == 2) return TrackerID::Native_matrix_zero;
    if (a == 1 && b == 1) return TrackerID::Native_sparse;
    if (a == 1) return TrackerID::Native_sparse_dense;
    if (b == 1) return TrackerID::Native_dense_sparse;
    if (std::is_same<I, EigenI>::value) return same ? (Is<X>::dbl ? TrackerID::Eigen_dgemm : TrackerID::Eigen_sgemm) : (Is<X>::dbl ? TrackerID::Eigen_dsgemm : TrackerID::Eigen_sdgemm);
    if (std::is_same<I, OpenBLAS>::value || (std::is_same<I, TheBestPolicy>::value && same && Is<X>::cm && Is<Y>::cm)) return Is<X>::dbl ? TrackerID::OpenBLAS_dgemm : TrackerID::OpenBLAS_sgemm;
    return TrackerID::Native_GeneralDense;
}
template <class X, class Y, class I> void want(Counts& c)
{
    Parts<X>::each([&](auto* x) { Parts<Y>::each([&](auto* y) {
        using A = std::remove_pointer_t<decltype(x)>; using B = std::remove_pointer_t<decltype(y)>;
        ++c[id(single<A, B, I>())];
    }); });
}

struct Op { std::string name; std::function<void(Rng&, Counts&)> run; };
static std::vector<Op> ops;

template <class X, class Y, class I> void product(char const* backend)
{
    ops.push_back({cat(backend, " ", Kind<X>::name(), "*", Kind<Y>::name()), [](Rng& r, Counts& c) {
        size_t m = dim(r, true, 14), k = dim(r, true, 14), n = dim(r, true, 14); Values v;
        X A = make<X>(gen(r, m, k, v), r); Y B = make<Y>(gen(r, k, n, v), r);
        auto P = (A * B).template execute<I>(); (void)P; want<X, Y, I>(c);
        if (r.chance(0.2)) { (A * B).template execute<I>(); want<X, Y, I>(c); }
        // things that are not tracked
        if (r.chance(0.3)) { X C(A); Y D; D = B; (void)A.getNorm(); (void)B.getOccupation(AbsoluteValueRangeChecker<double>(1.0)); auto e = A * B; (void)e; }
    }});
}
template <class X, class... Y> void products() { (void)std::initializer_list<int>{(product<X, Y, Native>("Native"), product<X, Y, TheBestPolicy>("TheBestPolicy"), 0)...}; }

static void wantDyn(size_t a, size_t b, bool best, Counts& c)
{
    auto go = [&](auto* x) { using X = std::remove_pointer_t<decltype(x)>; auto go2 = [&](auto* y) { using Y = std::remove_pointer_t<decltype(y)>; best ? want<X, Y, TheBestPolicy>(c) : want<X, Y, Native>(c); };
        switch (b) { case 0: go2((ZZ*)0); break; case 1: go2((SF*)0); break; case 2: go2((DF*)0); break; case 3: go2((SD*)0); break; case 4: go2((MSS*)0); break; case 5: go2((MSD*)0); break; default: go2((DD*)0); } };
    switch (a) { case 0: go((ZZ*)0); break; case 1: go((SF*)0); break; case 2: go((DF*)0); break; case 3: go((SD*)0); break; case 4: go((MSS*)0); break; case 5: go((MSD*)0); break; default: go((DD*)0); }
}

static void build()
{
    products<DD, DD, DF, SD, SF, ZZ, MSS, MSD>(); products<DF, DD, DF, SD, SF, ZZ, MSS>(); products<SD, DD, DF, SD, SF, ZZ, MSD>(); products<SF, DD, DF, SD, SF, ZZ>();
    products<ZZ, DD, DF, SD, SF, ZZ, MSS>(); products<MSS, DD, SD, ZZ, MSS, MSD>(); products<MSD, DD, DF, SF, MSS, MSD>();
    products<RDD, RDD, DD, RDF, RSD>(); products<RSD, RDD, RSD, SD>(); products<DD, RDD>(); products<SD, RSD>();
    product<DD, DD, OpenBLAS>("OpenBLAS"); product<DF, DF, OpenBLAS>("OpenBLAS");
    product<DD, DD, EigenI>("Eigen"); product<DF, DF, EigenI>("Eigen"); product<DF, DD, EigenI>("Eigen"); product<DD, DF, EigenI>("Eigen");
    product<DD, DD, IntelMKL>("IntelMKL"); product<DF, DF, IntelMKL>("IntelMKL"); product<SD, DD, IntelMKL>("IntelMKL"); product<SF, DF, IntelMKL>("IntelMKL"); product<SD, SD, IntelMKL>("IntelMKL"); product<SF, SF, IntelMKL>("IntelMKL");
    product<DD, DD, Blaze>("Blaze"); product<DF, DF, Blaze>("Blaze"); product<DF, DD, Blaze>("Blaze"); product<DD, DF, Blaze>("Blaze");
    for (bool best : {false, true}) for (size_t a = 0; a < nbKinds; ++a) for (size_t b = 0; b < nbKinds; ++b) ops.push_back({cat("runtime ", best ? "best " : "native ", a, "*", b), [=](Rng& r, Counts& c) {
        size_t m = dim(r, false, 14), k = dim(r, false, 14), n = dim(r, false, 14);
        DynamicMatrix A = makeDyn(a ? gen(r, m, k, Values()) : Ref(m, k), r, a), B = makeDyn(b ? gen(r, k, n, Values()) : Ref(k, n), r, b);
        if (best) (A * B).execute<TheBestPolicy>(); else (A * B).execute<Native>();
        wantDyn(a, b, best, c);
    }});
    ops.push_back({"blocked product", [](Rng& r, Counts& c) {
        size_t m = size_t(r.in(1, 3)), k = size_t(r.in(1, 3)), n = size_t(r.in(1, 3));
        std::vector<size_t> h(m), w(k), v(n); for (auto& x : h) x = size_t(r.in(1, 4)); for (auto& x : w) x = size_t(r.in(1, 4)); for (auto& x : v) x = size_t(r.in(1, 4));
        size_t um = 0, uk = 0, un = 0; for (size_t x : h) um += x; for (size_t x : w) uk += x; for (size_t x : v) un += x;
        using BM = BlockedDenseMatrix; BM A(m, k, um, uk), B(k, n, uk, un);
        std::vector<size_t> ka(m * k), kb(k * n);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) { size_t q = ka[i * k + j] = r.below(nbKinds); A(i, j) = makeDyn(q ? gen(r, h[i], w[j], Values()) : Ref(h[i], w[j]), r, q); }
        for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) { size_t q = kb[i * n + j] = r.below(nbKinds); B(i, j) = makeDyn(q ? gen(r, w[i], v[j], Values()) : Ref(w[i], v[j]), r, q); }
        BM C = (A * B).execute<Native>();
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) for (size_t q = 0; q < k; ++q) wantDyn(ka[i * k + q], kb[q * n + j], true, c);
    }});
    ops.push_back({"change profiles", [](Rng& r, Counts& c) {
        BlockSizeGenerator g(1, 2 + r.below(4)); DD A = make<DD>(gen(r, dim(r, false, 14), dim(r, false, 14), Values(), 1), r);
        (void)g.get_detection_arrays(A); ++c[id(TrackerID::get_detection_arrays)];
        if (r.chance(0.5)) { RDF B = make<RDF>(gen(r, 3, 4, Values(), 1), r); (void)g.get_detection_arrays(B); ++c[id(TrackerID::get_detection_arrays)]; }
    }});
    ops.push_back({"block sizes of a profile", [](Rng& r, Counts& c) {
        BlockSizeGenerator g(1, 2 + r.below(4)); std::vector<double> p(r.below(20)); for (auto& x : p) x = double(r.below(5));
        (void)g.get_block_size(p); ++c[id(TrackerID::get_block_size)];
    }});
    ops.push_back({"block sizes of a matrix", [](Rng& r, Counts& c) {
        size_t most = 2 + r.below(4); BlockSizeGenerator g(1, most); DD A = make<DD>(gen(r, most + 1 + r.below(9), dim(r, false, 14), Values(), 1), r);
        (void)g(A); ++c[id(TrackerID::get_detection_arrays)]; c[id(TrackerID::get_block_size)] += 2;
    }});
    ops.push_back({"block sizes of a product", [](Rng& r, Counts& c) {
        size_t k = 1 + r.below(9); BlockSizeGenerator g(1, 2 + r.below(4)); DD A = make<DD>(gen(r, 1 + r.below(9), k, Values(), 1), r), B = make<DD>(gen(r, k, 1 + r.below(9), Values(), 1), r);
        (void)g.matrix_matrix_mult(A, B); c[id(TrackerID::get_detection_arrays)] += 2; c[id(TrackerID::get_block_size)] += 3;
    }});
}

/// The report has one line for each used entry.
static void report(std::vector<uint64_t> const& c, std::vector<int64_t> const& t, std::string const& where)
{
    std::ostringstream o; TrackerRegister::print(o);
    std::istringstream in(o.str()); std::string line; std::map<std::string, std::pair<uint64_t, int64_t>> seen; size_t lines = 0; bool body = false;
    while (std::getline(in, line)) {
        if (line.find("---") != std::string::npos) { body = true; continue; }
        if (!body || line.find_first_not_of(" \t") == std::string::npos) continue;
        std::istringstream f(line); std::string name, unit; uint64_t n = 0; int64_t ns = -1; f >> name >> n >> ns >> unit;
        if (!expect(bool(f) && unit == "ns", "report line", line)) continue;
        expect(seen.insert({name, {n, ns}}).second, "report lists an entry twice", line); ++lines;
    }
    size_t used = 0;
    for (size_t k = 0; k < NB; ++k) {
        auto p = seen.find(nameOf(k));
        if (!c[k]) { expect(p == seen.end(), "report lists an entry that was not used", nameOf(k)); continue; }
        ++used;
        if (expect(p != seen.end(), "report misses an entry", [&]{ return nameOf(k) + " " + where; })) {
            expect(p->second.first == c[k], "report shows another count", [&]{ return cat(nameOf(k), " ", p->second.first, " instead of ", c[k]); });
            expect(p->second.second == t[k], "report shows another time", [&]{ return cat(nameOf(k), " ", p->second.second, " instead of ", t[k]); });
        }
    }
    expect(lines == used, "lines of the report", [&]{ return cat(lines, " for ", used, " entries\n", o.str()); });
    count("reports");
}

static void compare(std::vector<uint64_t> const& before, Counts const& w, std::string const& what)
{
    auto now = counts();
    for (size_t k = 0; k < NB; ++k) {
        uint64_t exp = w.count(k) ? w.at(k) : 0;
        expect(now[k] - before[k] == exp, cat("count of ", nameOf(k)), [&]{ return cat("raised by ", now[k] - before[k], " instead of ", exp, " by ", what); });
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    build();

    group("names", 1, [](Rng&, size_t) {
        doing("names");
        expect(NB == sizeof ids / sizeof *ids, "number of entries", [&]{ return cat(NB); });
        EnumParser<TrackerID> p; std::set<std::string> s;
        for (size_t k = 0; k < NB; ++k) {
            std::string n = p(TrackerID(k)); expect(s.insert(n).second, "two entries of one name", n); expect(!n.empty() && n == nameOf(k), "name of an entry", [&]{ return n + " for " + nameOf(k); });
            expect(p(n) == TrackerID(k), "name does not map back", n); expect(p(p(p(n))) == TrackerID(k), "name does not map back");
            count("entries"); saw(mix(k));
        }
        for (size_t k = 0; k < NB; ++k) expect(id(p(std::string(names[k]))) == id(ids[k]), "entry of a name", names[k]);
    }, false);

    // nothing executed, nothing counted; then each operation alone
    group("alone", 260, [](Rng& r, size_t i) {
        Op const& o = ops[i % ops.size()]; doing(o.name);
        auto c = counts(); auto t = times(); Counts w; auto begin = std::chrono::steady_clock::now();
        o.run(r, w); auto span = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - begin).count();
        compare(c, w, o.name); auto u = times(); int64_t sum = 0;
        for (size_t k = 0; k < NB; ++k) { expect(u[k] >= t[k], "time lowered", [&]{ return nameOf(k); }); expect(w.count(k) || u[k] == t[k], "time of an entry not executed", [&]{ return nameOf(k) + " by " + o.name; }); sum += u[k] - t[k]; }
        expect(sum <= span, "more time than there was", [&]{ return cat(sum, " ns of ", span, " by ", o.name); });
        report(counts(), times(), o.name);
        saw(mix(hash(o.name))); count("operations alone");
    });

    group("sequences", 250, [](Rng& r, size_t i) {
        auto c = counts(); Counts w; std::string what; size_t n = 1 + r.below(25); uint64_t h = 0;
        bool back = i % 3 == 2; if (back) { unsteady = true; count("sequences while the clock is set back"); }
        auto t = times();
        for (size_t q = 0; q < n; ++q) {
            Op const& o = ops[r.chance(0.3) && q ? h % ops.size() : r.below(ops.size())]; h = mix(h ^ hash(o.name)); doing(o.name); if (what.size() < 300) what += (q ? ", " : "") + o.name;
            o.run(r, w); auto u = times(); for (size_t k = 0; k < NB; ++k) expect(u[k] >= t[k], "time lowered", [&]{ return cat(nameOf(k), " from ", t[k], " to ", u[k], back ? ", the clock of the day was set back" : ""); }); t = u;
        }
        unsteady = false;
        compare(c, w, what); report(counts(), times(), what); saw(h); count("operations in sequences", n); if (want_sample()) sample(what);
    });

    group("threads", 60, [](Rng& r, size_t) {
        doing("threads"); auto c = counts(); auto t = times(); size_t nt = 2 + r.below(7), n = 20 + r.below(60); Counts w; std::vector<Counts> ws(nt); std::vector<std::thread> ts; std::atomic<size_t> ready{0}, left{nt};
        uint64_t seed = r.next(); bool few = r.chance(0.5); size_t common = r.below(ops.size());
        for (size_t q = 0; q < nt; ++q) ts.emplace_back([&, q] {
            Rng s(mix(seed + q)); ++ready; while (ready < nt) ;
            // short operations of the same entry hit the register hardest
            for (size_t z = 0; z < n; ++z) (few ? ops[common] : ops[s.below(ops.size())]).run(s, ws[q]);
            --left;
        });
        size_t looked = 0; while (left) { std::ostringstream o; TrackerRegister::print(o); ++looked; std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
        for (auto& x : ts) x.join();
        for (auto const& x : ws) for (auto const& p : x) w[p.first] += p.second;
        compare(c, w, cat(nt, " threads ", few ? ops[common].name : "mixed operations")); auto u = times(); for (size_t k = 0; k < NB; ++k) expect(u[k] >= t[k], "time lowered"); report(counts(), times(), "threads");
        saw(mix(seed)); count("operations on threads", nt * n); count("threads", nt); count("reports during operations", looked);
    });

    // nothing but the tracked scope itself
    group("scopes", 20, [](Rng& r, size_t) {
        doing("scopes"); auto c = counts(); size_t nt = 8, n = 4000; std::vector<std::thread> ts; std::atomic<size_t> ready{0};
        for (size_t q = 0; q < nt; ++q) ts.emplace_back([&, q] { ++ready; while (ready < nt) ; for (size_t z = 0; z < n; ++z) { Tracker<TrackerID::Blaze_dgemm> a; if (q & 1) Tracker<TrackerID::IntelMKL_dcsrmm> b; } });
        for (auto& x : ts) x.join();
        Counts w; w[id(TrackerID::Blaze_dgemm)] = nt * n; w[id(TrackerID::IntelMKL_dcsrmm)] = nt / 2 * n; compare(c, w, "scopes on threads"); count("scopes", nt * n * 3 / 2); saw(r.next());
        try { Tracker<TrackerID::Blaze_sgemm> a; throw 1; } catch (int) {}
        w[id(TrackerID::Blaze_sgemm)] = 1; compare(c, w, "a scope left by an exception");
    });

    return finish();
}
