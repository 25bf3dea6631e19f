// C21: threads that work on different matrices, or only read the same ones, never interfere.
// Runs under the race detector; results are compared with the same programs run one after another.
#include "program.h"
#include <atomic>
#include <sys/wait.h>
#include <thread>
using namespace vh;

/// Operands that all threads read at once.
struct Common
{
    std::vector<Ref> m; std::vector<std::vector<DynamicMatrix>> d; DD dd; DF df; SD sd; SF sf; RDD rdd; RSD rsd; ZZ zz; std::vector<size_t> cut; BlockedDenseMatrix b; Limits l;
    Common(Rng& r) : zz(6, 6)
    {
        for (int k = 0; k < 3; ++k) { m.push_back(gen(r, 6, 6, Values(), k ? -1 : 2)); d.emplace_back(); for (size_t q = 0; q < nbKinds; ++q) d.back().push_back(makeDyn(q ? m.back() : Ref(6, 6), r, q)); }
        dd = make<DD>(m[0], r); df = make<DF>(m[1], r); sd = make<SD>(m[1], r); sf = make<SF>(m[2], r); rdd = make<RDD>(m[0], r); rsd = make<RSD>(m[1], r);
        cut = {2, 1, 3}; b = makeBlocked(m[0], cut, cut, r); l = limits(r, 36);
    }
};

static void read(Common const& c, Rng& r, Digest& d)
{
    auto any = [&]() -> DynamicMatrix const& { return c.d[r.below(3)][r.below(nbKinds)]; };
    switch (r.below(12)) {
        case 0: d((any() * any()).execute<Native>()); break;
        case 1: d((any() * any()).execute<TheBestPolicy>()); break;
        case 2: d(any() + any()); break;
        case 3: d(any() - any()); break;
        case 4: { DynamicMatrix a = makeDyn(c.m[0], r, 1 + r.below(6)); try { a += any(); } catch (std::runtime_error const&) {} d(a); break; }
        case 5: d((c.dd * c.dd).execute<OpenBLAS>()); d((c.dd * c.df).execute<EigenI>()); d((c.dd * c.sd).execute<Native>()); d((c.sd * c.sd).execute<Native>()); d((c.rdd * c.rdd).execute<Native>()); d((c.rsd * c.sd).execute<Native>()); d((c.dd * c.zz).execute<Native>()); break;
        case 6: d(c.dd + c.sd); d(c.sd + c.sf); d(c.df - c.sd); d(c.zz + c.dd); { DD A(c.dd); A += c.sf; A -= c.zz; d(A); } break;
        case 7: d(transpose(c.dd)); d(transpose(c.sd)); d(RDD(c.dd)); d(DF(c.dd)); d(DD(c.sd)); d(RSD(c.sd)); d(DD(c.rsd)); break;
        case 8: { BlockedDenseMatrix z = (c.b * c.b).execute<TheBestPolicy>(); d(DD(z)); d(DD(c.b)); d(generateTypeMatrix(c.b)); for (size_t n : get_type_counting(c.b)) d(uint64_t(n)); break; }
        case 9: { View v(const_cast<DD&>(c.dd), size_t(3), size_t(2), size_t(1), r.below(4)); walk(static_cast<View const&>(v), d, false); d(DD(v)); walk(c.rdd, d, false); break; }
        case 10: { std::ostringstream o; o << c.dd << c.sd << c.df << c.zz; d(o.str()); d(getMaximalDeviation(c.dd, c.sd)); d(getRootMeanSquareDeviation(c.df, c.sf)); d(uint64_t(c.dd.equal(c.df))); d(norm<NormMax>(c.dd)); d(norm<NormOne>(c.sd)); d(norm<NormTwo>(c.sf)); break; }
        default: { auto p = BlockSizeGenerator(1, 3).matrix_matrix_mult(c.dd, c.dd); for (size_t n : std::get<1>(p)) d(uint64_t(n)); DynamicMatrix a = any(); d(uint64_t(getNbRows(a) * 7 + getNbColumns(a) + getSize(a))); d(a); }
    }
}

/// What one thread does: its own matrices and, now and then, the common ones.
struct Script { uint64_t seed; size_t length; int first; int style; };
static Digest run(Script const& s, Common const& c, bool delays)
{
    Rng r(s.seed); Digest d; std::vector<DynamicMatrix> pool; Rng pause(mix(s.seed) ^ 5);
    for (size_t k = 0; k < s.length; ++k) {
        if (delays) switch (pause.below(8)) { case 0: std::this_thread::yield(); break; case 1: usleep(useconds_t(pause.below(300))); break; default: break; }
        if (s.style == 1 || (s.style == 2 && r.chance(0.5))) read(c, r, d);
        else step(!k && s.first >= 0 ? s.first : s.style == 3 ? s.first : int(r.below(nbOps)), r, pool, d);
    }
    return d;
}

/// Runs the scripts at the same time; no synchronisation but the start.
static std::vector<Digest> together(std::vector<Script> const& s, Common const& c)
{
    std::vector<Digest> d(s.size()); std::vector<std::thread> t; std::atomic<size_t> ready{0};
    for (size_t k = 0; k < s.size(); ++k) t.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < s.size()) ; d[k] = run(s[k], c, true); });
    for (auto& x : t) x.join();
    return d;
}

static std::vector<Script> scripts(Rng& r, size_t i, size_t most)
{
    size_t n = 2 + r.below(5); std::vector<Script> s; int how = int(r.below(5)), op = int(i % nbOps); uint64_t seed = r.next();
    for (size_t k = 0; k < n; ++k) {
        Script x; x.seed = how == 0 ? seed : r.next(); x.length = 1 + r.below(most); x.first = how <= 2 ? op : int(r.below(nbOps)); x.style = how == 2 ? 3 : how == 3 ? 1 : how == 4 ? 2 : int(r.below(2)) * 2;
        if (how == 0) { x.length = 4; x.style = 0; }
        s.push_back(x);
    }
    return s;
}

static void compare(std::vector<Script> const& s, std::vector<Digest> const& d, Common const& c, bool log)
{
    for (size_t k = 0; k < s.size(); ++k) {
        d[k].judge(); Digest e = run(s[k], c, false); e.judge();
        expect(d[k].h == e.h, cat("a thread got another result than alone, program of style ", s[k].style, " starting with ", opName[s[k].first]), [&]{ return cat("program ", s[k].seed, " of ", s[k].length, " operations, ", s.size(), " threads"); });
        if (log) { count("programs on threads"); count("operations on threads", s[k].length); saw(mix(s[k].seed) ^ uint64_t(s[k].style * 100 + s[k].first)); }
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);

    // A process of its own for each case: its first operations run on several threads at once.
    group("first use", 210, [](Rng& r, size_t i) {
        doing(cat("first use of ", opName[i % nbOps]));
        pid_t p = fork();
        if (!p) {
            Common c(r); auto s = scripts(r, i, 6); if (i < size_t(nbOps)) for (auto& x : s) { x.first = int(i); x.style = i % 2 ? 3 : 0; }
            auto d = together(s, c); auto before = st().viols.size(); compare(s, d, c, false); fflush(nullptr); _exit(st().viols.size() == before ? 0 : 55);
        }
        int w = 0; waitpid(p, &w, 0);
        if (WIFEXITED(w) && WEXITSTATUS(w) == 97) _exit(97);   // the race detector's report is the parent's
        expect(WIFEXITED(w) && WEXITSTATUS(w) != 55, "first use on threads: another result than alone");
        if (!WIFEXITED(w) || (WEXITSTATUS(w) && WEXITSTATUS(w) != 55)) { fprintf(stderr, "first use ended with status %d\n", w); _exit(97); }
        count("first uses"); saw(mix(i) ^ r.next());
    });

    group("programs", 1500, [](Rng& r, size_t i) {
        doing("programs on threads"); Common c(r); auto s = scripts(r, i, 12);
        auto d = together(s, c); compare(s, d, c, true); for (auto const& x : s) if (x.style == 1 || x.style == 2) count("programs reading common matrices");
        if (want_sample()) sample(cat(s.size(), " threads, first operation ", opName[s[0].first], ", style ", s[0].style));
    });

    // Large products: the libraries underneath keep buffers of their own.
    group("large products", 30, [](Rng& r, size_t) {
        doing("large products"); size_t nt = 2 + r.below(5); std::vector<Ref> a, b; for (size_t k = 0; k < nt; ++k) { size_t n = 40 + r.below(60); a.push_back(gen(r, n, n, Values(), 1)); b.push_back(gen(r, n, n, Values(), 1)); }
        std::vector<Ref> got(nt * 3); std::vector<std::thread> t; Rng q(1);
        for (size_t k = 0; k < nt; ++k) t.emplace_back([&, k] { Rng z(k); DD A = make<DD>(a[k], z), B = make<DD>(b[k], z); got[3 * k] = vh::read((A * B).execute<OpenBLAS>()); got[3 * k + 1] = vh::read((A * B).execute<EigenI>()); DF C = make<DF>(a[k], z), D = make<DF>(b[k], z); got[3 * k + 2] = vh::read((C * D).execute<TheBestPolicy>()); });
        for (auto& x : t) x.join();
        for (size_t k = 0; k < nt; ++k) { Ref p(a[k].r, b[k].c); for (size_t i = 0; i < p.r; ++i) for (size_t e = 0; e < a[k].c; ++e) for (size_t j = 0; j < p.c; ++j) p(i, j) += a[k](i, e) * b[k](e, j);
            for (int v = 0; v < 3; ++v) { std::string x = diff(got[3 * k + size_t(v)], p); expect(x.empty(), "large product on threads", [&]{ return x; }); } count("large products", 3); }
        saw(r.next());
    });
    return finish();
}
