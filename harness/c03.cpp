// C03: runtime-typed operations against the same operation on the concrete types.
#include "bb.h"
using namespace vh;

template <class F> void withKind(size_t k, F const& f)
{
    switch (k) {
        case 0: f(static_cast<ZZ*>(nullptr)); break;
        case 1: f(static_cast<SF*>(nullptr)); break;
        case 2: f(static_cast<DF*>(nullptr)); break;
        case 3: f(static_cast<SD*>(nullptr)); break;
        case 4: f(static_cast<MSS*>(nullptr)); break;
        case 5: f(static_cast<MSD*>(nullptr)); break;
        default: f(static_cast<DD*>(nullptr)); break;
    }
}

static char const* const kindName[] = {"Zero", "SparseF", "DenseF", "SparseD", "Multi<SparseD,SparseF>", "Multi<SparseD,DenseF>", "DenseD"};

template <class X> size_t kindOf()
{
    size_t k = 99;
    for (size_t i = 0; i < nbKinds; ++i) withKind(i, [&](auto* p) { if (std::is_same<X*, decltype(p)>::value) k = i; });
    return k;
}

/// Is the runtime-typed matrix exactly this one?
template <class X> void same(DynamicMatrix const& d, X const& want, std::string const& key)
{
    DynRead g = readDyn(d);
    expect(g.bad.empty(), key + ": malformed", [&]{ return g.bad; });
    if (!g.bad.empty()) return;
    if (!expect(g.kind == kindOf<X>(), key + ": kind of the result", [&]{ return cat(kindName[g.kind], " instead of ", Kind<X>::name()); })) return;
    Ref w = read(want);
    std::string df = diff(g.m, w);
    expect(df.empty(), key + ": elements", [&]{ return df; });
    expect(typeid(*d.get()) == d->getTypeInfo(), key + ": type information");
}

/// Everything that can be seen of an object, to judge that it did not change.
static std::string image(DynamicMatrix const& d) { DynRead x = readDyn(d); return cat(x.kind, x.bad, x.m.str(), x.m.hash()); }

struct Case { std::shared_ptr<Callers> mem = std::make_shared<Callers>(); Ref a, b; DynamicMatrix A, B; size_t x, y; };

static Case makeCase(Rng& r, size_t x, size_t y, bool product)
{
    Case c; c.x = x; c.y = y;
    Values v; v.exp = int(r.in(-9, 9)); v.bound = 9;
    size_t m = dim(r, true, 20), n = dim(r, true, 20), k = product ? dim(r, true, 20) : n;
    c.a = x ? gen(r, m, k, v) : Ref(m, k);
    c.b = !y ? (product ? Ref(k, n) : Ref(m, n)) : product ? gen(r, k, n, v) : partner(r, c.a, v);
    c.A = makeDyn(*c.mem, c.a, r, x); c.B = makeDyn(*c.mem, c.b, r, y);
    if ((!x || c.a.nnz()) && (!y || c.b.nnz())) saw(mix(x * 7 + y) ^ c.a.hash() ^ mix(c.b.hash()));
    if (want_sample()) sample(cat(kindName[x], " ", c.a.str(), " , ", kindName[y], " ", c.b.str()));
    return c;
}

/// What the operands hold, to judge that the operation does not change them.
template <class Op> void unchanged(Case const& c, std::string const& name, Op const& op)
{
    std::string ia = image(c.A), ib = image(c.B);
    op();
    expect(image(c.A) == ia && image(c.B) == ib, name + ": operands changed", [&]{ return ia + " -> " + image(c.A) + " , " + ib + " -> " + image(c.B); });
    expect(c.mem->intact(), name + ": memory beside the operands changed");
}

static Ref times(Ref const& a, Ref const& b)
{
    Ref p(a.r, b.c);
    for (size_t i = 0; i < p.r; ++i) for (size_t j = 0; j < p.c; ++j) { double s = 0; for (size_t q = 0; q < a.c; ++q) s += a(i, q) * b(q, j); p(i, j) = s; }
    return p;
}
static Ref plus(Ref const& a, Ref const& b, double s) { Ref p(a.r, a.c); for (size_t i = 0; i < p.a.size(); ++i) p.a[i] = a.a[i] + s * b.a[i]; return p; }

static void value(DynamicMatrix const& d, Ref const& want, std::string const& key)
{
    DynRead g = readDyn(d);
    std::string df = g.bad.empty() ? diff(g.m, want) : "";
    expect(df.empty(), key + ": value", [&]{ return df; });
}

template <class I> void product(Rng& r, size_t x, size_t y, char const* backend)
{
    Case c = makeCase(r, x, y, true);
    std::string const name = cat(backend, " ", kindName[x], "*", kindName[y]);
    doing(name);
    unchanged(c, name, [&] {
        DynamicMatrix d = (c.A * c.B).template execute<I>();
        withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>; withKind(y, [&](auto* q) { using Y = std::remove_pointer_t<decltype(q)>;
            auto s = (static_cast<X const&>(*c.A) * static_cast<Y const&>(*c.B)).template execute<I>();
            same(d, s, name); }); });
        value(d, times(c.a, c.b), name);
        expect(d != c.A && d != c.B, name + ": result shares an operand");
        // Another product of the same kinds must leave the first result alone.
        std::string const id = image(d);
        Case o = makeCase(r, x, y, true);
        DynamicMatrix f = (o.A * o.B).template execute<I>();
        value(f, times(o.a, o.b), name + " after another");
        expect(image(d) == id, name + ": result changed by another product", [&]{ return id + " -> " + image(d); });
        DynamicMatrix e = (c.A * c.B).template execute<I>();
        expect(image(d) == image(e), name + ": repeated", [&]{ return image(d) + " then " + image(e); });
        count(std::string("products ") + backend);
    });
}

static void sums(Rng& r, size_t x, size_t y)
{
    Case c = makeCase(r, x, y, false);
    std::string const name = cat(kindName[x], ",", kindName[y]);
    unchanged(c, name, [&] {
        doing("sum " + name);
        DynamicMatrix d = c.A + c.B;
        doing("difference " + name);
        DynamicMatrix e = c.A - c.B;
        withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>; withKind(y, [&](auto* q) { using Y = std::remove_pointer_t<decltype(q)>;
            auto s = static_cast<X const&>(*c.A) + static_cast<Y const&>(*c.B);
            same(d, s, "sum " + name);
            auto t = static_cast<X const&>(*c.A) - static_cast<Y const&>(*c.B);
            same(e, t, "difference " + name); }); });
        value(d, plus(c.a, c.b, 1), "sum " + name);
        value(e, plus(c.a, c.b, -1), "difference " + name);
        std::string const id = image(d), ie = image(e);
        Case o = makeCase(r, x, y, false);
        DynamicMatrix h = o.A + o.B, k = o.A - o.B;
        value(h, plus(o.a, o.b, 1), "another sum " + name);
        value(k, plus(o.a, o.b, -1), "another difference " + name);
        expect(image(d) == id && image(e) == ie, name + ": result changed by another sum", [&]{ return id + " -> " + image(d) + " , " + ie + " -> " + image(e); });
        DynamicMatrix f = c.A + c.B, g = c.A - c.B;
        expect(image(d) == image(f) && image(e) == image(g), name + ": repeated", [&]{ return image(d) + " then " + image(f); });
        count("sums and differences", 2);
        // the results keep nothing of the operands
        for (DynamicMatrix q : {c.A, c.B}) { if (auto* p = dynamic_cast<DD*>(q.get())) for (auto& v : *p) v = -v; if (auto* p = dynamic_cast<DF*>(q.get())) for (auto& v : *p) v = -v; }
        expect(image(d) == id && image(e) == ie && image(f) == id && image(g) == ie, name + ": result changed with an operand", [&]{ return id + " -> " + image(d) + " , " + ie + " -> " + image(e); });
        for (DynamicMatrix q : {c.A, c.B}) { if (auto* p = dynamic_cast<DD*>(q.get())) for (auto& v : *p) v = -v; if (auto* p = dynamic_cast<DF*>(q.get())) for (auto& v : *p) v = -v; }
    });
}

static void updates(Rng& r, size_t x, size_t y, bool minus)
{
    Case c = makeCase(r, x, y, false);
    std::string const name = cat(kindName[x], minus ? "-=" : "+=", kindName[y]);
    DynamicMatrix copy = c.A, before = makeDyn(c.a, r, x);
    std::string ia = image(c.A), ib = image(c.B);
    doing(name);
    bool refused = false; DynamicMatrix res;
    try { res = minus ? (c.A -= c.B) : (c.A += c.B); } catch (std::exception const&) { refused = true; }
    expect(copy == c.A, name + ": the pointer changed");
    bool srefused = false; Ref want; std::string wbad;
    withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>; withKind(y, [&](auto* q) { using Y = std::remove_pointer_t<decltype(q)>;
        X& s = static_cast<X&>(*before); Y const& b = static_cast<Y const&>(*c.B);
        try { if (minus) s -= b; else s += b; } catch (std::exception const&) { srefused = true; }
        want = read(s, &wbad); }); });
    expect(refused == srefused, name + ": refused", [&]{ return cat("runtime-typed ", refused ? "refuses" : "accepts", ", statically typed ", srefused ? "refuses" : "accepts"); });
    if (refused) { expect(image(c.A) == ia, name + ": refused and changed", [&]{ return ia + " -> " + image(c.A); }); count("updates refused"); }
    else {
        DynRead g = readDyn(c.A);
        expect(g.bad.empty() && g.kind == x, name + ": kind", [&]{ return cat(g.bad, " ", g.kind); });
        std::string df = diff(g.m, want); expect(df.empty(), name + ": elements", [&]{ return df; });
        df = diff(g.m, plus(c.a, c.b, minus ? -1 : 1)); expect(df.empty(), name + ": value", [&]{ return df; });
        DynRead h = readDyn(res); df = h.bad.empty() ? diff(h.m, g.m) : h.bad;
        expect(df.empty(), name + ": returned matrix", [&]{ return df; });
        count("updates done");
    }
    expect(image(c.B) == ib, name + ": right side changed", [&]{ return ib + " -> " + image(c.B); });
    expect(c.mem->intact(), name + ": memory beside the operands changed");
}

/// One matrix on both sides.
static void itself(Rng& r, size_t x)
{
    Values v; v.exp = int(r.in(-9, 9)); v.bound = 9; size_t m = dim(r, true, 16), n = m < 1000 && r.chance(0.5) ? m : dim(r, true, 16);
    Ref a = x ? gen(r, m, n, v) : Ref(m, n); DynamicMatrix A = makeDyn(a, r, x); std::string const ia = image(A), k = cat(kindName[x], " with itself"); saw(mix(x + 900) ^ a.hash());
    doing(k);
    if (m == n) { value((A * A).execute<Native>(), times(a, a), "product of " + k); value((A * A).execute<TheBestPolicy>(), times(a, a), "best product of " + k); }
    value(A + A, plus(a, a, 1), "sum of " + k); value(A - A, Ref(m, n), "difference of " + k);
    expect(image(A) == ia, k + ": changed", [&]{ return ia + " -> " + image(A); });
    DynamicMatrix B = A; bool refused = false; try { if (r.chance(0.5)) { A += A; a = plus(a, a, 1); } else { A -= A; a = Ref(m, n); } } catch (std::exception const&) { refused = true; }
    expect(A == B, k + ": the pointer changed");
    if (refused) expect(image(A) == ia, k + ": refused and changed", [&]{ return ia + " -> " + image(A); }); else value(A, a, "update of " + k);
    count("with itself");
}

template <class VC> void counted(DynamicMatrix const& A, size_t x, Ref const& m, VC const& vc, std::function<bool(double)> const& in, std::string const& what)
{
    std::string const name = cat(kindName[x], " ", what);
    doing("occupation " + name);
    size_t n = 0; for (double v : m.a) n += in(std::abs(v));
    size_t got = countDesiredElements(A, vc);
    double occ = getOccupation(A, vc);
    double want = m.a.empty() ? 0 : double(n) / double(m.a.size());
    expect(got == n, "count " + name, [&]{ return cat(got, " instead of ", n, " of ", m.str()); });
    expect(occ == want, "occupation " + name, [&]{ return cat(occ, " instead of ", want); });
    for (double q : {0.0, want / 2, want, want + 1e-3, 1.0})
        expect(isOccupationLargerThan(A, q, vc) == (want > q), "occupation query " + name, [&]{ return cat(want, " > ", q); });
    withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>;
        X const& s = static_cast<X const&>(*A);
        expect(s.getNbOfSignificantElements(vc) == got && s.getOccupation(vc) == occ, "occupation static " + name); });
}

static void queries(Rng& r, size_t x)
{
    Values v; v.exp = int(r.in(-9, 9));
    Ref m = x ? gen(r, dim(r, true), dim(r, true), v) : Ref(dim(r, true), dim(r, true));
    DynamicMatrix A = makeDyn(m, r, x);
    saw(mix(x) ^ m.hash());
    if (want_sample()) sample(cat(kindName[x], " ", m.str()));
    std::string ia = image(A), k = kindName[x];
    doing("shape " + k);
    expect(getNbRows(A) == m.r && getNbColumns(A) == m.c, "shape " + k, [&]{ return cat(getNbRows(A), "x", getNbColumns(A), " instead of ", m.r, "x", m.c); });
    expect(getSize(A) == m.r * m.c, "size " + k, [&]{ return cat(getSize(A)); });
    expect(A->getTypeIndex() == x, "kind index " + k, [&]{ return cat(A->getTypeIndex()); });
    withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>; expect(A->getTypeInfo() == typeid(X), "type information " + k); expect(typeid(*A.get()) == typeid(X), "concrete type " + k); });
    doing("norm " + k);
    long double one = 0, two = 0; double mx = 0;
    for (double e : m.a) { one += std::abs(e); two += (long double)e * e; mx = std::max(mx, std::abs(e)); }
    auto near = [&](double g, long double w) { return std::abs(g - double(w)) <= 1e-12 * double(w) + (m.a.size() + 4) * 3e-16 * double(w); };
    // single-precision matrices are summed in double precision
    expect(near(norm<NormOne>(A), one), "one-norm " + k, [&]{ return cat(norm<NormOne>(A), " instead of ", double(one)); });
    expect(near(norm<NormTwo>(A), std::sqrt(two)), "two-norm " + k, [&]{ return cat(norm<NormTwo>(A), " instead of ", double(std::sqrt(two))); });
    expect(norm<NormMax>(A) == mx, "max-norm " + k, [&]{ return cat(norm<NormMax>(A), " instead of ", mx); });
    withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>; X const& s = static_cast<X const&>(*A);
        expect(norm<NormOne>(s) == norm<NormOne>(A) && norm<NormTwo>(s) == norm<NormTwo>(A) && norm<NormMax>(s) == norm<NormMax>(A), "norm static " + k);
        double n = getNorm(A);
        expect(n == s.getNorm(), "own norm static " + k, [&]{ return cat(n, " and ", s.getNorm()); });
        for (double q : {n / 2, n, n * 2 + 1}) expect(isNormLargerThan(A, q) == (n > q), "norm query " + k, [&]{ return cat(n, " > ", q); }); });
    double lo = std::ldexp(double(r.in(0, 6)), v.exp), hi = lo + std::ldexp(double(r.in(1, 5)), v.exp);
    counted(A, x, m, AbsoluteValueRangeChecker<double>(lo), [&](double a) { return a > lo; }, "above");
    counted(A, x, m, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi), [&](double a) { return a > lo && a <= hi; }, "open-closed");
    if (lo > 0) counted(A, x, m, AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound>(lo, hi), [&](double a) { return a >= lo && a <= hi; }, "closed");
    counted(A, x, m, AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound>(lo, hi), [&](double a) { return a > lo && a < hi; }, "open");
    doing("conversion " + k);
    DD D(A);
    std::string df = diff(read(D), m);
    expect(df.empty(), "conversion to dense " + k, [&]{ return df; });
    DF F(A);
    df = diff(read(F), m);
    expect(df.empty(), "conversion to dense single " + k, [&]{ return df; });
    withKind(x, [&](auto* p) { using X = std::remove_pointer_t<decltype(p)>;
        DD E(static_cast<X const&>(*A)); std::string d2 = diff(read(D), read(E));
        expect(d2.empty(), "conversion static " + k, [&]{ return d2; }); });
    expect(image(A) == ia, "changed by queries " + k, [&]{ return ia + " -> " + image(A); });
    count("queries");
}

/// Zero matrices may have any shape: nothing is stored.
static void enormous(Rng& r)
{
    auto side = [&] { return r.chance(0.3) ? 1 + r.below(9) : r.chance(0.5) ? size_t(65530 + r.below(20000)) : (size_t(1) << 32) + r.below(100) - 50; };
    size_t m = side(), n = m > 4000000000u ? 1 + r.below(1 << 30) : side(), k = 1 + r.below(5); saw(mix(m) ^ n);
    DynamicMatrix A(new ZZ(m, n)), B(new ZZ(m, n)); std::string const key = "enormous zero"; doing(key);
    auto shape = [&](DynamicMatrix const& D, size_t x, size_t y, char const* what) { expect(D->getTypeIndex() == 0 && getNbRows(D) == x && getNbColumns(D) == y && getSize(D) == x * y, cat(key, what), [&]{ return cat(getNbRows(D), "x", getNbColumns(D), ", size ", getSize(D), " instead of ", x, "x", y); }); };
    shape(A, m, n, ": shape"); shape(A + B, m, n, ": sum"); shape(A - B, m, n, ": difference");
    expect(getNorm(A) == 0 && norm<NormOne>(A) == 0 && norm<NormMax>(A) == 0 && !isNormLargerThan(A, 0), key + ": norm");
    expect(countDesiredElements(A, AbsoluteValueRangeChecker<double>(0.0)) == 0 && getOccupation(A, AbsoluteValueRangeChecker<double>(0.0)) == 0, key + ": occupation");
    DynamicMatrix C(new ZZ(n, k)), D(new ZZ(k, m));
    if (r.chance(0.5)) { shape((A * C).execute<Native>(), m, k, ": product"); shape((D * A).execute<Native>(), k, n, ": product from the left"); } else { shape((A * C).execute<TheBestPolicy>(), m, k, ": best product"); shape((D * A).execute<TheBestPolicy>(), k, n, ": best product from the left"); }
    DynamicMatrix S = makeDyn(gen(r, k, 3, Values()), r, 1 + r.below(nbKinds - 1)), Z(new ZZ(m, k)); shape((Z * S).execute<Native>(), m, 3, ": times stored");
    A += B; A -= B; shape(A, m, n, ": updated"); ZZ z(static_cast<ZZ const&>(*A)), y(1, 1); y = z; expect(y == z && y.getSize() == m * n && y.getNbRows() == m && y.getNbColumns() == n, key + ": copies"); y.resize(n, m); expect(y.getNbRows() == n && y.getNbColumns() == m && y.getSize() == m * n, key + ": resized"); using std::swap; y.resize(2, 3); swap(y, z); expect(y.getNbRows() == m && y.getSize() == m * n && z.getSize() == 6, key + ": swapped");
    count("enormous zeros");
}

int main(int argc, char** argv)
{
    init(argc, argv); storedZeros() = 0.3; st().stretch = 80; st().tall = true;
#if PART == 0
    for (size_t x = 0; x < nbKinds; ++x) for (size_t y = 0; y < nbKinds; ++y)
        group(cat("native ", kindName[x], "*", kindName[y]), 40, [&](Rng& r, size_t) { product<Native>(r, x, y, "Native"); });
    group("native, random kinds", 300, [&](Rng& r, size_t) { product<Native>(r, r.below(nbKinds), r.below(nbKinds), "Native"); });
#elif PART == 1
    for (size_t x = 0; x < nbKinds; ++x) for (size_t y = 0; y < nbKinds; ++y)
        group(cat("best policy ", kindName[x], "*", kindName[y]), 40, [&](Rng& r, size_t) { product<TheBestPolicy>(r, x, y, "TheBestPolicy"); });
    group("best policy, random kinds", 300, [&](Rng& r, size_t) { product<TheBestPolicy>(r, r.below(nbKinds), r.below(nbKinds), "TheBestPolicy"); });
#elif PART == 2
    for (size_t x = 0; x < nbKinds; ++x) for (size_t y = 0; y < nbKinds; ++y)
        group(cat("sums ", kindName[x], ",", kindName[y]), 40, [&](Rng& r, size_t) { sums(r, x, y); });
    group("sums, random kinds", 300, [&](Rng& r, size_t) { sums(r, r.below(nbKinds), r.below(nbKinds)); });
#elif PART == 3
    for (size_t x = 0; x < nbKinds; ++x) for (size_t y = 0; y < nbKinds; ++y)
        group(cat("updates ", kindName[x], ",", kindName[y]), 40, [&](Rng& r, size_t i) { updates(r, x, y, i & 1); });
    for (size_t x = 0; x < nbKinds; ++x) group(cat("itself ", kindName[x]), 100, [&](Rng& r, size_t) { itself(r, x); });
    group("updates, random kinds", 300, [&](Rng& r, size_t) { updates(r, r.below(nbKinds), r.below(nbKinds), r.chance(0.5)); });
#else
    for (size_t x = 0; x < nbKinds; ++x) group(cat("queries ", kindName[x]), 150, [&](Rng& r, size_t) { queries(r, x); });
    group("enormous zeros", 300, [&](Rng& r, size_t) { enormous(r); });
    group("queries, random kinds", 300, [&](Rng& r, size_t) { queries(r, r.below(nbKinds)); });
#endif
    return finish();
}
