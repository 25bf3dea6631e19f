// The storage classes themselves: every kind, every way to make, convert and assign one.
#pragma once
#include "bb.h"
#include "BlasBooster/Core/SparseStorage.h"

namespace vh {

template <class T> using VarStorage = Storage<T,false,false,0>;
template <class T, size_t N> using HeapStorage = Storage<T,false,true,N>;
template <class T, size_t N> using StackStorage = Storage<T,true,true,N>;

/// Calls complain(what) for every storage that does not hold what it should.
template <class F> struct Storages
{
    Rng& r; F complain;

    template <class S, class V> void is(S const& s, V const& v, char const* what)
    {
        bool ok = s.size() == v.size() && size_t(s.end() - s.begin()) == v.size();
        for (size_t k = 0; ok && k < v.size(); ++k) ok = double(s.begin()[long(k)]) == double(v[k]) && double(s.getDataPointer()[k]) == double(v[k]);
        if (!ok) complain(what);
    }

    template <class S, class V> void set(S& s, V const& v) { for (size_t k = 0; k < v.size(); ++k) s.begin()[long(k)] = v[k]; }

    template <class T> std::vector<T> some(size_t n) { std::vector<T> v; for (size_t k = 0; k < n; ++k) v.push_back(T(long(r.below(200)) - 100)); return v; }

    /// Copies, moves, assignments and exchanges of one kind.
    template <class S, class T> void values(size_t n, std::vector<T> const& a, std::vector<T> const& b)
    {
        S x(n), y(b.size()); set(x, a); set(y, b);
        { S c(x); is(c, a, "copied storage"); if (n) { c.begin()[0] += T(1); is(x, a, "source of a copied storage after a change"); } }
        S z(n); set(z, a); z = y; is(z, b, "assigned storage"); is(y, b, "source of an assignment"); z = *&z; is(z, b, "storage assigned to itself");
        S m(std::move(z)); is(m, b, "moved storage"); S u(x); if constexpr (std::is_same<S, VarStorage<T>>::value) { z = x; is(z, a, "storage assigned after it was moved from"); u = z; }
        m = std::move(u); is(m, a, "move-assigned storage");
        using std::swap; swap(m, y); is(m, b, "exchanged storage"); is(y, a, "exchanged storage, other side");
        if (!m.equal(m) || m.notEqual(m)) complain("storage differs from itself");
        if (a.size() == b.size()) { bool same = true; for (size_t k = 0; k < a.size(); ++k) same = same && a[k] == b[k]; if (m.equal(y) != same || y.notEqual(m) == same) complain("storages compared"); }
        else if (m.equal(y) || !m.notEqual(y)) complain("storages of different sizes compared");
    }

    template <class To, class From, class V> void convert(From const& f, V const& v, char const* what) { To t(f); is(t, v, what); if (!v.empty() && !t.equal(f)) complain("converted storage compared"); }

    template <class T> void kind()
    {
        constexpr size_t N = 7;
        std::vector<T> a = some<T>(r.below(12)), b = some<T>(r.below(12)), c = some<T>(N), d = some<T>(N);
        values<VarStorage<T>, T>(a.size(), a, b); values<VarStorage<T>, T>(N, c, d);
        values<HeapStorage<T, N>, T>(N, c, d); values<StackStorage<T, N>, T>(N, c, d);
        VarStorage<T> v(N); HeapStorage<T, N> h; StackStorage<T, N> s; set(v, c); set(h, c); set(s, c);
        convert<VarStorage<double>>(v, c, "variable storage as one of doubles"); convert<VarStorage<float>>(h, c, "fixed storage as a variable one of floats"); convert<VarStorage<int>>(s, c, "stack storage as a variable one of integers");
        convert<HeapStorage<double, N>>(v, c, "variable storage as a fixed one"); convert<HeapStorage<float, N>>(s, c, "stack storage as a fixed one"); convert<HeapStorage<int, N>>(HeapStorage<int, N>(h), c, "fixed storage converted");
        { VarStorage<T> l{c[0], c[1], c[2], c[3], c[4], c[5], c[6]}; is(l, c, "variable storage from a list"); VarStorage<T> e{c[0], c[1]}; is(e, std::vector<T>{c[0], c[1]}, "variable storage from a short list"); }
        { HeapStorage<T, N> l{c[0], c[1], c[2], c[3], c[4], c[5], c[6]}; is(l, c, "fixed storage from a list"); }
        { StackStorage<T, N> l{c[0], c[1], c[2], c[3], c[4], c[5], c[6]}; is(l, c, "stack storage from a list"); StackStorage<T, N> e{c[0]}; std::vector<T> w(N, T()); w[0] = c[0]; is(e, w, "stack storage from a short list"); StackStorage<T, N> z; is(z, std::vector<T>(N, T()), "new stack storage"); }
        int refused = 0;
        try { HeapStorage<T, N> l{c[0], c[1]}; } catch (std::runtime_error const&) { ++refused; }
        try { HeapStorage<T, N + 1> l(v); } catch (std::runtime_error const&) { ++refused; }
        try { HeapStorage<T, N - 1> l(s); } catch (std::runtime_error const&) { ++refused; }
        if (refused != 3) complain("fixed storage from something of another size");
        // sizes and memory of others
        { VarStorage<T> q(a.size()); set(q, a); size_t n = r.below(14); q.truncate(n); std::vector<T> w(a.begin(), a.begin() + long(std::min(n, a.size()))); is(q, w, "truncated storage"); q.resize(b.size()); set(q, b); is(q, b, "resized storage"); q.resize(b.size()); is(q, b, "storage resized to its size"); q.fill(T(3)); is(q, std::vector<T>(b.size(), T(3)), "filled storage"); }
        { std::vector<T> mem = c; VarStorage<T> p(mem.data(), N); is(p, c, "storage over memory of the caller"); VarStorage<T> q(p); p.begin()[2] = T(55); if (mem[2] != T(55)) complain("storage over memory of the caller written"); is(q, c, "copy of a storage over memory of the caller");
          bool no = false; try { p.resize(N + 1); } catch (std::runtime_error const&) { no = true; } if (!no) complain("memory of the caller resized"); is(p, mem, "storage over memory of the caller after a refused resize"); p.resize(N); VarStorage<T> o(std::move(p)); is(o, mem, "moved storage over memory of the caller"); q = std::move(o); is(q, mem, "storage over memory of the caller move-assigned"); 
          HeapStorage<T, N> f(mem.data(), N), g; is(f, mem, "fixed storage over memory of the caller"); set(g, d); f = g; is(f, d, "fixed storage over memory of the caller assigned"); if (mem != d) complain("assignment to a fixed storage over memory of the caller"); HeapStorage<T, N> i(std::move(f)); is(i, d, "moved fixed storage over memory of the caller"); HeapStorage<T, N> k(i); i.begin()[0] += T(1); is(k, d, "copy of a fixed storage over memory of the caller"); }
    }

    template <class T, class I> void sparse()
    {
        size_t n = r.below(9), m = r.below(6); SparseStorage<T, I, false, 0> a{I(n), I(m)};
        std::vector<T> v = some<T>(n); std::vector<I> k, o; for (size_t q = 0; q < n; ++q) k.push_back(I(r.below(99))); for (size_t q = 0; q < m; ++q) o.push_back(I(r.below(n + 1)));
        std::copy(v.begin(), v.end(), a.begin()); std::copy(k.begin(), k.end(), a.beginKey()); std::copy(o.begin(), o.end(), a.beginOffset());
        auto same = [&](auto const& x, size_t most, char const* what) {
            size_t w = std::min(most, n);
            bool ok = size_t(x.nnz()) == w && size_t(x.sizeOffset()) == m && size_t(x.end() - x.begin()) == w && size_t(x.endKey() - x.beginKey()) == w && size_t(x.endOffset() - x.beginOffset()) == m;
            for (size_t q = 0; ok && q < w; ++q) ok = double(x.begin()[long(q)]) == double(v[q]) && size_t(x.beginKey()[long(q)]) == size_t(k[q]);
            for (size_t q = 0; ok && q < m; ++q) ok = size_t(x.beginOffset()[long(q)]) == size_t(o[q]);
            if (!ok) complain(what);
        };
        same(a, n, "sparse storage"); { SparseStorage<T, I, false, 0> b(a); same(b, n, "copied sparse storage"); if (n) { ++*b.beginKey(); same(a, n, "source of a copied sparse storage"); } b = a; same(b, n, "assigned sparse storage"); SparseStorage<T, I, false, 0> c(std::move(b)); same(c, n, "moved sparse storage"); b = std::move(c); same(b, n, "move-assigned sparse storage");
            if (!b.equal(a) || b.notEqual(a)) complain("equal sparse storages compared"); if (n) { *b.begin() += T(1); if (b.equal(a) || !b.notEqual(a)) complain("sparse storages with different values compared"); *b.begin() -= T(1); *b.beginKey() += 1; if (b.equal(a)) complain("sparse storages with different keys compared"); } }
        { SparseStorage<float, int, false, 0> f(a); same(f, n, "converted sparse storage"); SparseStorage<double, size_t, false, 0> g(f); same(g, n, "sparse storage converted twice"); if constexpr (std::is_same<I, size_t>::value) if (!g.equal(a)) complain("converted sparse storage compared"); }
        size_t t = r.below(n + 3); a.truncate(I(t)); same(a, t, "truncated sparse storage"); a.resize(I(n + 1), I(m)); if (size_t(a.nnz()) != n + 1 || size_t(a.sizeOffset()) != m) complain("resized sparse storage");
        { SparseStorage<T, I, true, 5> f, g; bool ok = true; for (auto& x : f) ok = ok && x == T(); auto u = some<T>(5); std::copy(u.begin(), u.end(), f.begin()); SparseStorage<T, I, true, 5> h(f); g = f; g = *&g; for (size_t q = 0; q < 5; ++q) ok = ok && h.begin()[long(q)] == u[q] && g.begin()[long(q)] == u[q]; if (!ok || f.size() != 5) complain("fixed sparse storage"); }
    }

    void all() { switch (r.below(5)) { case 0: kind<double>(); break; case 1: kind<float>(); break; case 2: kind<int>(); break; case 3: sparse<double, size_t>(); break; default: sparse<float, int>(); } }
};

template <class F> void storages(Rng& r, F complain) { Storages<F>{r, complain}.all(); }

} // namespace vh
