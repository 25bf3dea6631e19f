// C13: random programs over the whole interface: everything released, no element made up from
// unset memory, nothing lost when an allocation fails at any point.
#include "program.h"
#include "history.h"
#include "faults.h"
using namespace vh;

/// Runs a program; what it observed.
static uint64_t program(uint64_t seed, size_t length, int first, bool trace)
{
    Rng r(seed); Digest d; std::vector<DynamicMatrix> pool;
    for (size_t k = 0; k < length; ++k) {
        int op = !k && first >= 0 ? first : int(r.below(nbOps));
        if (trace) { bool on = alloc::on; alloc::on = false; doing(opName[op]); count(std::string("op ") + opName[op]); alloc::on = on; }
        step(op, r, pool, d);
    }
    d.judge();
    return d.h;
}

// ------------------------------------------------ what failed operations leave behind
/// Reads a matrix by its own account of itself; "" if it is in order and holds one of the two.
template <class X> std::string holds(X const& A, Ref const& one, Ref const& other)
{
    std::string bad; Ref m = read(A, &bad); if (!bad.empty()) return bad;
    if (size_t(A.getSize()) != m.r * m.c) return cat("size ", A.getSize(), " for ", m.r, "x", m.c);
    if constexpr (std::is_same<typename X::matrix_type, Dense>::value) {
        if (size_t(A.end() - A.begin()) != m.r * m.c) return cat(A.end() - A.begin(), " elements for ", m.r, "x", m.c);
        double s = 0; for (double v : A) s += std::abs(v); double t = 0; for (double v : m.a) t += std::abs(v); if (std::abs(s - t) > 1e-9 * (1 + s)) return "iteration differs from access";
    }
    std::string d = diff(m, one); if (!d.empty() && !diff(m, other).empty()) return "neither the old nor the new matrix: " + d;
    double n = 0; for (double v : m.a) n += v * v; n = std::sqrt(n);
    if (std::abs(A.getNorm() - n) > 1e-5 * (n + 1e-30)) return cat("norm ", A.getNorm(), " instead of ", n);
    AbsoluteValueRangeChecker<double> large(1.5); size_t k = 0; for (double v : m.a) k += std::abs(v) > 1.5;
    if (A.getNbOfSignificantElements(large) != k) return cat(A.getNbOfSignificantElements(large), " large elements instead of ", k);
    return "";
}

/// Refuses every allocation of an operation in turn and looks at the matrix afterwards.
template <class X, class F> void survives(X const& before, Ref const& m, Ref const& after, Rng& r, char const* name, std::string const& kind, F const& f)
{
    for (long k = 0;; ++k) {
        X A(before); if (r.chance(0.5)) { (void)A.getNorm(); (void)A.getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(1.5)); }
        bool thrown = false; doing(cat(name, " failing"));
        try { alloc::Scope s(k); f(A); } catch (std::bad_alloc const&) { thrown = true; }
        std::string d = thrown ? holds(A, m, after) : "";
        if (!expect(d.empty(), cat("after a failed ", name, ": ", kind), [&]{ return cat("allocation ", k, ": ", d, "\n", m.str()); })) return;
        if (!thrown) { count("operations survived", uint64_t(k)); return; }
        X B(A); d = holds(B, m, after); expect(d.empty(), cat("copy after a failed ", name, ": ", kind), d);
        X C(before); C = A; d = holds(C, m, after); expect(d.empty(), cat("assigned after a failed ", name, ": ", kind), d);
        A = before; d = holds(A, m, m); expect(d.empty(), cat("assignment after a failed ", name, ": ", kind), d);
        count("matrices used after a failed operation");
    }
}

template <class X> void survivors(Rng& r)
{
    std::string kind = Kind<X>::name(); Ref m = any(r, 8), n = r.chance(0.3) ? some(r, m.r, m.c) : any(r, 8);
    if (!m.r || !m.c) m = some(r, 3, 4); 
    X A = make<X>(m, r), B = make<X>(n, r);
    survives(A, m, n, r, "assignment", kind, [&](X& a) { a = B; });
    if (r.chance(0.5)) { (void)B.getNorm(); (void)B.getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(1.5)); (void)B.getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(0.25)); survives(A, m, n, r, "assignment of a matrix with answers", kind, [&](X& a) { a = B; }); }
    survives(A, m, n, r, "assignment of a new matrix", kind, [&](X& a) { a = X(B); });
    survives(A, m, m, r, "question", kind, [&](X& a) { (void)a.getNorm(); (void)a.getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(1.5)); (void)a.getNbOfSignificantElements(AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound>(0.5, 2)); });
    if constexpr (std::is_same<typename X::matrix_type, Dense>::value) {
        Ref one(n.r, n.c, 1); survives(A, m, one, r, "resize", kind, [&](X& a) { a.resize(n.r, n.c, AllFiller<typename X::value_type>(1)); });
        SD S = make<SD>(some(r, m.r, m.c), r); if constexpr (std::is_same<X, DD>::value || std::is_same<X, DF>::value) { Ref w = read(A), z = read(S); for (size_t i = 0; i < w.a.size(); ++i) w.a[i] = double(typename X::value_type(w.a[i] + z.a[i])); survives(A, m, w, r, "update", kind, [&](X& a) { a += S; }); }
        if constexpr (std::is_same<X, DD>::value) { Ref h = some(r, m.r, m.c); MSS M = make<MSS>(h, r); Ref w = m; for (size_t i = 0; i < w.a.size(); ++i) w.a[i] += h.a[i]; survives(A, m, w, r, "update by a sum", kind, [&](X& a) { a += M; });
            DynamicMatrix d = std::make_shared<DD>(make<DD>(n, r)); survives(A, m, n, r, "assignment of a runtime-typed matrix", kind, [&](X& a) { a = X(d); }); }
        if constexpr (std::is_same<X, DD>::value || std::is_same<X, RDD>::value || std::is_same<X, DF>::value) { std::stringstream s; { boost::archive::binary_oarchive o(s); o << const_cast<X const&>(B); } std::string t = s.str();
            survives(A, m, n, r, "load", kind, [&](X& a) { std::istringstream i(t); boost::archive::binary_iarchive ia(i); ia >> a; }); }
    } else survives(A, m, n, r, "swap with a new matrix", kind, [&](X& a) { X b(B); using std::swap; swap(a, b); });
    if constexpr (IsSparse<X>::value) for (long k = 0;; ++k) {   // the contents after a resize are up to the user
        X a(A); bool thrown = false; doing("resize failing"); try { alloc::Scope s(k); a.resize(n.r, n.c, 1 + r.below(5)); } catch (std::bad_alloc const&) { thrown = true; }
        if (!thrown) break;
        std::string d = holds(a, m, m); if (!expect(d.empty(), "after a failed resize: " + kind, [&]{ return cat("allocation ", k, ": ", d, "\n", m.str()); })) break;
        a = B; d = holds(a, n, n); expect(d.empty(), "assignment after a failed resize: " + kind, d); count("matrices used after a failed operation");
    }
    saw(m.hash() ^ mix(n.hash() + hash(kind)));
}

/// Blocked matrices and sums of two matrices.
static void survivingParts(Rng& r)
{
    Ref m = some(r, 6, 6), n = some(r, 5, 4); BlockedDenseMatrix A = makeBlocked(m, {2, 4}, {3, 1, 2}, r), B = makeBlocked(n, {5}, {1, 3}, r);
    auto holdsB = [&](BlockedDenseMatrix const& a, Ref const& x, size_t br, size_t bc) -> std::string {
        if (a.getNbRows() != br || a.getNbColumns() != bc || size_t(a.end() - a.begin()) != br * bc) return cat(a.getNbRows(), "x", a.getNbColumns(), " blocks, ", a.end() - a.begin(), " stored");
        if (a.getUnblockedRows() != x.r || a.getUnblockedColumns() != x.c) return cat(a.getUnblockedRows(), "x", a.getUnblockedColumns(), " elements"); return diff(read(DD(a)), x); };
    for (long k = 0;; ++k) {
        BlockedDenseMatrix a(A); bool thrown = false; doing("blocked assignment failing"); try { alloc::Scope s(k); a = B; } catch (std::bad_alloc const&) { thrown = true; }
        std::string d = holdsB(a, thrown ? m : n, thrown ? 2 : 1, thrown ? 3 : 2); if (!expect(d.empty(), "after a failed assignment: blocked", [&]{ return cat("allocation ", k, ": ", d); })) break; if (!thrown) break;
        a = B; d = holdsB(a, n, 1, 2); expect(d.empty(), "assignment after a failed one: blocked", d); count("matrices used after a failed operation");
    }
    for (long k = 0;; ++k) {
        BlockedDenseMatrix a(A); bool thrown = false; doing("blocked resize failing"); try { alloc::Scope s(k); a.resize(3, 3, 9, 9); } catch (std::bad_alloc const&) { thrown = true; }
        if (!thrown) break; std::string d = holdsB(a, m, 2, 3); if (!expect(d.empty(), "after a failed resize: blocked", [&]{ return cat("allocation ", k, ": ", d); })) break; count("matrices used after a failed operation");
    }
    MSD M = make<MSD>(m, r); auto p = std::make_shared<SD>(make<SD>(n, r)); auto q = std::make_shared<DF>(make<DF>(m, r)); bool refused = false; doing("sum of matrices of different shapes");
    try { M.reset(p, q); } catch (std::exception const&) { refused = true; }
    expect(refused, "sum of matrices of different shapes accepted"); std::string bad; Ref h = read(M, &bad); expect(bad.empty() && diff(h, m).empty(), "after a refused sum of two matrices", [&]{ return bad + diff(h, m); });
    double s = 0; for (double v : m.a) s += v * v; expect(std::abs(M.getNorm() - std::sqrt(s)) <= 1e-5 * (std::sqrt(s) + 1e-30), "norm after a refused sum of two matrices"); count("refused sums of two matrices");
    std::vector<double> one{1, 2, 3}, two{4, 5, 6, 7, 8}; auto storage = [&](char const* name, auto const& f) { for (long k = 0;; ++k) {
            VarStorage<double> a(one.size()); std::copy(one.begin(), one.end(), a.begin()); bool thrown = false; doing(name); try { alloc::Scope s(k); f(a); } catch (std::bad_alloc const&) { thrown = true; } if (!thrown) break;
            expect(std::vector<double>(a.begin(), a.end()) == one && a.size() == 3, cat("storage after a failed ", name)); count("storages used after a failed operation"); } };
    VarStorage<double> o(two.size()); std::copy(two.begin(), two.end(), o.begin());
    storage("storage assignment", [&](auto& a) { a = o; }); storage("storage resize", [&](auto& a) { a.resize(9); }); storage("storage truncation", [&](auto& a) { a.truncate(2); });
    storage("storage assignment of a new one", [&](auto& a) { a = VarStorage<double>(o); }); 
    // memory of the caller can not grow
    std::vector<double> mem(m.a); DD V(6, 6, mem.data()); Ref w = read(V); refused = false; doing("resize of caller-owned memory"); try { V.resize(7, 6); } catch (std::exception const&) { refused = true; }
    expect(refused, "memory of the caller resized"); std::string d = diff(read(V), w); expect(d.empty() && V.getSize() == 36, "after a refused resize of caller-owned memory", d);
    saw(m.hash() ^ mix(n.hash()));
}

int main(int argc, char** argv)
{
    init(argc, argv);

    // The first use of an operation fails at any allocation, later uses are right.
    group("first use", 1, [](Rng& r, size_t) {
        Ref m = some(r, 4, 4); DynamicMatrix a = makeDyn(m, r, 6), b = makeDyn(m, r, 3);
        auto attempt = [&](char const* name, auto const& f, Ref const& want) {
            doing(name); long k = 0; DynamicMatrix c;
            for (;; ++k) { try { alloc::Scope s(k); c = f(); break; } catch (std::bad_alloc const&) { if (k > 100000) { fail("never succeeds", name); return; } } }
            DynRead x = readDyn(c);
            expect(x.bad.empty() && diff(x.m, want).empty(), cat("first use after failed ones: ", name), [&]{ return x.bad + diff(x.m, want); });
            count("first uses failed", uint64_t(k));
        };
        Ref p(4, 4), s(4, 4); for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) { s(i, j) = 2 * m(i, j); for (size_t q = 0; q < 4; ++q) p(i, j) += m(i, q) * m(q, j); }
        attempt("product", [&] { return (a * b).execute<Native>(); }, p);
        attempt("best product", [&] { return (a * b).execute<TheBestPolicy>(); }, p);
        attempt("sum", [&] { return a + b; }, s);
        attempt("difference", [&] { return a - b; }, Ref(4, 4));
        attempt("update", [&] { DynamicMatrix c = std::make_shared<DD>(static_cast<DD const&>(*a)); c += b; return c; }, s);
    }, false);

    // Everything that is set up once is set up before memory is measured.
    group("warm", 1, [](Rng& r, size_t) { for (int op = 0; op < nbOps; ++op) for (int k = 0; k < 40; ++k) { Rng q(mix(uint64_t(k * 100 + op))); Digest d; std::vector<DynamicMatrix> pool; doing(opName[op]); step(op, q, pool, d); d.judge(); } }, false);

    group("programs", 700, [](Rng& r, size_t i) {
        uint64_t seed = r.next(); size_t length = 1 + r.below(12); int first = int(i % nbOps);
        uint64_t one, two; long made;
        program(seed, length, first, true);
        size_t before = alloc::bytes();
        alloc::fill = 0x00; { alloc::Scope s; one = program(seed, length, first, false); made = alloc::made; }
        size_t after = alloc::bytes();
        expect(after == before, cat("memory not released: programs starting with ", opName[first]), [&]{ return cat(long(after - before), " bytes"); });
        alloc::fill = 0xfb; { alloc::Scope s; two = program(seed, length, first, false); }
        expect(one == two, cat("result depends on unset memory: programs starting with ", opName[first]));
        saw(one); if (want_sample()) sample(cat("program ", seed, " of ", length, " operations starting with ", opName[first], ": ", made, " allocations")); count("programs"); count("allocations", uint64_t(made));
    });

    group("failures", 420, [](Rng& r, size_t i) {
        uint64_t seed = r.next(); size_t length = 1 + r.below(3); int first = int(i % nbOps);
        long made;
        { alloc::Scope s; program(seed, length, first, false); made = alloc::made; }
        // every allocation of short programs, some of long ones
        size_t tries = std::min<size_t>(size_t(made), 60);
        for (size_t k = 0; k < tries; ++k) {
            long at = made <= 60 ? long(k) : long(r.below(size_t(made)));
            doing(cat("allocation failing in a program starting with ", opName[first]));
            size_t before = alloc::bytes(); bool thrown = false;
            try { alloc::Scope s(at); program(seed, length, first, false); }
            catch (std::bad_alloc const&) { thrown = true; }
            catch (std::exception const& e) { thrown = true; count("other exceptions"); }
            size_t after = alloc::bytes();
            expect(after == before, cat("memory not released after a failed allocation: programs starting with ", opName[first]), [&]{ return cat(long(after - before), " bytes, allocation ", at, " of ", made); });
            count("allocations refused"); if (thrown) count("programs ended by a refused allocation");
        }
        saw(seed);
    });
    group("survivors", 500, [](Rng& r, size_t i) {
        switch (i % 8) { case 0: survivors<DD>(r); break; case 1: survivors<DF>(r); break; case 2: survivors<RDD>(r); break; case 3: survivors<SD>(r); break; case 4: survivors<SF>(r); break; case 5: survivors<RSD>(r); break; case 6: survivors<RSF>(r); break;
            default: survivingParts(r); }
    });
    return finish();
}
