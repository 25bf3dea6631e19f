// C09: transposition.
#include "bb.h"
using namespace vh;

static Ref turned(Ref const& m) { Ref t(m.c, m.r); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) t(j, i) = m(i, j); return t; }

template <class X> void kind(size_t n)
{
    std::string const key = "transpose " + Kind<X>::name();
    group(key, n, [&](Rng& r, size_t) {
        size_t R = dim(r, true, 90), C = dim(r, true, 90);
        Ref m = gen(r, R, C, Values());
        if (r.chance(0.4)) for (double& e : m.a) if (e != 0) { e *= 1 + r.unit(); if (Kind<X>::single) e = double(float(e)); }
        if (m.r && m.r < 60 && r.chance(0.15)) {
            // symmetric, or very nearly
            Ref q(m.r, m.r); double const f = Kind<X>::single ? 6e-7 : std::ldexp(1.0, -int(r.in(20, 51)));
            for (size_t i = 0; i < q.r; ++i) for (size_t j = 0; j <= i; ++j) { double e = m.c ? m(i, j % m.c) : 1; if (Kind<X>::single) e = double(float(e)); q(i, j) = e; q(j, i) = r.chance(0.3) ? e * (1 + f) : e; if (Kind<X>::single) q(j, i) = double(float(q(j, i))); }
            m = q; count("nearly symmetric");
        }
        Callers mem; X A = mem.make<X>(m, r);
        if (m.nnz()) saw(mix(hash(key)) ^ m.hash());
        if (want_sample()) sample(m.str());
        doing(key);
        X T = transpose(A);
        std::string bad; Ref got = read(T, &bad);
        expect(bad.empty(), key + ": malformed", [&]{ return bad + " " + m.str(); });
        std::string d = diff(got, turned(m));
        expect(d.empty(), key, [&]{ return d + ", source " + m.str(); });
        expect(T.getSize() == m.r * m.c, key + ": size");
        doing(key + " twice");
        X U = transpose(T);
        got = read(U, &bad);
        expect(bad.empty(), key + " twice: malformed", [&]{ return bad; });
        d = diff(got, m);
        expect(d.empty(), key + " twice", [&]{ return d; });
        Ref now = read(A, &bad); d = bad + diff(now, m);
        expect(d.empty() && mem.intact(), key + ": source changed", [&]{ return d; });
        // the transpose is a value of its own and serves as operand
        doing(key + " used");
        X S = T + T;
        Ref two = turned(m); for (double& e : two.a) e *= 2;
        got = read(S, &bad); d = bad + diff(got, two);
        expect(d.empty(), key + ": sum of transposes", [&]{ return d; });
        X W(T); W = transpose(W);
        got = read(W, &bad); d = bad + diff(got, m);
        expect(d.empty(), key + ": assigned to its source", [&]{ return d; });
        count("transpositions", 4);
        if (m.r != m.c) count("rectangular");
        if (!m.r || !m.c) count("empty");
    });
}

int main(int argc, char** argv)
{
    init(argc, argv);
    st().stretch = 90; storedZeros() = 0.3; st().huge = st().tall = true;
    size_t const n = 900;
    kind<DD>(n); kind<DF>(n); kind<RDD>(n); kind<RDF>(n);
    kind<SD>(n); kind<SF>(n); kind<RSD>(n); kind<RSF>(n);
    // sparse structures that no conversion makes: stored zeros, results of operations
    group("transpose of results", 900, [](Rng& r, size_t) {
        size_t R = dim(r), K = dim(r), C = dim(r);
        Ref a = gen(r, R, K, Values()), b = gen(r, K, C, Values());
        SD A = make<SD>(a, r), B = make<SD>(b, r);
        if (a.nnz() && b.nnz()) saw(mix(a.hash()) ^ b.hash());
        doing("transpose of a product");
        SD P = (A * B).execute<Native>();
        SD left = transpose(P), right = (transpose(B) * transpose(A)).execute<Native>();
        std::string bad; Ref l = read(left, &bad); expect(bad.empty(), "transpose of a product: malformed", [&]{ return bad; });
        Ref q = read(right, &bad); expect(bad.empty(), "product of transposes: malformed", [&]{ return bad; });
        std::string d = diff(l, q);
        expect(d.empty(), "transpose of a product is not the product of the transposes", [&]{ return d; });
        Ref c = partner(r, a, Values());
        doing("transpose of a difference");
        SD D = A - make<SD>(c, r);
        Ref w = turned(a), v = turned(c); for (size_t i = 0; i < w.a.size(); ++i) w.a[i] -= v.a[i];
        SD T = transpose(D);
        Ref g = read(T, &bad); d = bad + diff(g, w);
        expect(d.empty(), "transpose of a difference", [&]{ return d; });
        count("transposed results", 2);
    });
    return finish();
}
