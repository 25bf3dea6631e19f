// C12: programs of value operations over several matrices, with and without caller-owned memory.
#include "storages.h"
#include "blocked.h"
#include "history.h"
using namespace vh;

/// Memory of the caller between two guards.
template <class T> struct Memory
{
    static constexpr size_t guard = 16;
    std::vector<T> all; size_t n;
    explicit Memory(size_t n) : all(n + 2 * guard, T(-77)), n(n) {}
    T* data() { return all.data() + guard; }
    bool guarded() const { for (size_t i = 0; i < guard; ++i) if (all[i] != T(-77) || all[guard + n + i] != T(-77)) return false; return true; }
};

template <class X> bool rowMajor() { return std::is_same<typename X::parameter::orientation, RowMajor>::value; }

template <class X> std::string holds(X const& x, Ref const& m)
{
    std::string bad; Ref got = read(x, &bad);
    if (!bad.empty()) return bad;
    std::string d = diff(got, m);
    if (d.empty() && x.getSize() != m.r * m.c) d = cat("size ", x.getSize(), " of ", m.r, "x", m.c);
    if constexpr (IsDense<X>::value) if (d.empty() && size_t(x.end() - x.begin()) != m.r * m.c) d = cat(x.end() - x.begin(), " elements stored for ", m.r, "x", m.c);
    return d;
}

/// Dense and sparse matrices.
template <class X> void values(std::string const& name, size_t n)
{
    using T = typename X::value_type;
    group("values " + name, n, [&](Rng& r, size_t) {
        constexpr size_t N = 4;
        Values v;
        std::string trace;
        struct Slot { X x; Ref m; std::shared_ptr<Memory<T>> mem; bool moved = false; };
        std::vector<Slot> s(N);
        // Memory that no matrix refers to any more keeps its last contents.
        std::vector<std::pair<std::shared_ptr<Memory<T>>, std::vector<T>>> left;
        auto retire = [&](Slot& t) { if (t.mem) left.push_back({t.mem, t.mem->all}); t.mem.reset(); };
        auto fresh = [&] { return gen(r, dim(r, true, 16), dim(r, true, 16), v); };
        auto all = [&](std::string const& op) {
            for (size_t k = 0; k < N; ++k) {
                if (s[k].moved) continue;
                std::string d = holds(s[k].x, s[k].m);
                expect(d.empty(), op + " of " + name, [&]{ return cat("matrix ", k, ": ", d, " | ", trace); });
                if (s[k].mem) {
                    bool ok = s[k].mem->guarded(); size_t p = 0;
                    for (size_t a = 0; a < s[k].m.r && ok; ++a) for (size_t b = 0; b < s[k].m.c; ++b) {
                        p = rowMajor<X>() ? a * s[k].m.c + b : a + b * s[k].m.r;
                        if (double(s[k].mem->data()[p]) != s[k].m(a, b)) ok = false;
                    }
                    expect(ok, op + " of " + name + ": memory of the caller", [&]{ return cat("matrix ", k, " | ", trace); });
                    count("caller-owned memory compared");
                }
            }
            for (auto const& l : left) expect(l.first->all == l.second, op + " of " + name + ": memory no longer used changed", [&]{ return trace; });
            count("states compared");
        };
        for (auto& t : s) { t.m = fresh(); t.x = make<X>(t.m, r); }
        size_t steps = size_t(r.in(10, 40)); uint64_t h = 0;
        for (size_t k = 0; k < steps; ++k) {
            size_t i = r.below(N), j = r.below(N);
            Slot &a = s[i], &b = s[j];
            std::string op;
            auto begin = [&](char const* o) { op = o; trace += cat("; ", o, " ", i, ",", j); doing(op + " of " + name); count(std::string("op ") + o); };
            switch (r.below(16)) {
                case 0: // copying a matrix over memory of the caller makes both refer to it, which is not judged
                    if (b.mem || b.moved) break;
                    begin("copy assignment"); if (i != j) retire(a); a.x = b.x; a.m = b.m; a.moved = false; break;
                case 1: if (b.moved) break;
                    { begin("copy construction"); X t(b.x); std::string d = holds(t, b.m); expect(d.empty(), "copy construction of " + name, [&]{ return d + " | " + trace; });
                      // the copy is independent
                      for (auto& e : t) e = T(99);
                    } break;
                case 2: if (i == j || b.moved) break; begin("move assignment"); retire(a); a.x = std::move(b.x); a.m = b.m; a.mem = b.mem; a.moved = false; b.mem.reset(); b.moved = true; break;
                case 3: if (b.moved) break; { begin("move construction"); X t(std::move(b.x)); std::string d = holds(t, b.m); expect(d.empty(), "move construction of " + name, [&]{ return d + " | " + trace; });
                          b.x = std::move(t); } break;
                case 4: begin("swap"); swap(a.x, b.x); if (i != j) { std::swap(a.m, b.m); std::swap(a.mem, b.mem); std::swap(a.moved, b.moved); } break;
                case 5: { begin("move from a new matrix"); Ref w = fresh(); retire(a); a.x = make<X>(w, r); a.m = w; a.moved = false; } break;
                case 6: if (a.moved) break; { begin("self assignment"); X& self = a.x; a.x = self; } break;
                case 7: if (a.mem) break;
                    if constexpr (IsDense<X>::value) { begin("resize"); Ref w(dim(r, true, 16), dim(r, true, 16), 5); a.x.resize(w.r, w.c, AllFiller<T>(T(5))); a.m = w; a.moved = false; }
                    else { Ref w = fresh(); if (!w.nnz()) break; begin("resize"); a.x.resize(w.r, w.c, w.nnz()); fillSparse(a.x, w); a.m = w; a.moved = false; }
                    break;
                case 8: case 9: if (a.moved || a.m.a.empty()) break;
                    if constexpr (IsDense<X>::value) {
                        begin("write"); size_t p = r.below(a.m.r), q = r.below(a.m.c); double e = double(r.in(-50, 50));
                        switch (r.below(4)) {
                            case 0: a.x(p, q) = T(e); break;
                            case 1: a.x.begin()[long(rowMajor<X>() ? p * a.m.c + q : p + q * a.m.r)] = T(e); break;
                            case 2: a.x.getDataPointer()[rowMajor<X>() ? p * a.m.c + q : p + q * a.m.r] = T(e); break;
                            default: if (a.mem) a.mem->data()[rowMajor<X>() ? p * a.m.c + q : p + q * a.m.r] = T(e); else a.x(p, q) = T(e);
                        }
                        a.m(p, q) = e;
                    } else {
                        if (!a.m.nnz()) break;
                        begin("write"); double e = double(r.in(1, 50));
                        size_t p = r.below(a.m.nnz()), c = 0; a.x.begin()[long(p)] = T(e);
                        for (size_t x = 0; x < (rowMajor<X>() ? a.m.r : a.m.c); ++x) for (size_t y = 0; y < (rowMajor<X>() ? a.m.c : a.m.r); ++y) { double& f = rowMajor<X>() ? a.m(x, y) : a.m(y, x); if (f != 0 && c++ == p) f = e; }
                    } break;
                case 10: if constexpr (IsDense<X>::value) { if (a.moved) break; begin("all elements set"); a.x = T(3); for (double& e : a.m.a) e = 3; } break;
                case 11: case 12: if constexpr (IsDense<X>::value) {
                        begin("memory of the caller"); Ref w = fresh(); retire(a);
                        auto mem = std::make_shared<Memory<T>>(w.r * w.c);
                        for (size_t p = 0; p < w.r; ++p) for (size_t q = 0; q < w.c; ++q) mem->data()[rowMajor<X>() ? p * w.c + q : p + q * w.r] = T(w(p, q));
                        if (r.chance(0.5)) a.x = X(w.r, w.c, mem->data()); else { X t(w.r, w.c, mem->data()); swap(a.x, t); }
                        a.m = w; a.mem = mem; a.moved = false; h = mix(h + 1);
                    } break;
                case 13: if constexpr (IsDense<X>::value) { if (!a.mem) break; begin("refused resize"); bool refused = false;
                        try { a.x.resize(a.m.r + 1, a.m.c + 2); } catch (std::runtime_error const&) { refused = true; }
                        expect(refused, "resize of memory of the caller to another size " + name, [&]{ return trace; }); } break;
                case 14: if constexpr (IsDense<X>::value) { if (!a.mem) break; begin("reshape of memory of the caller"); a.x.resize(a.m.c, a.m.r, AllFiller<T>(T(8))); a.m = Ref(a.m.c, a.m.r, 8); } break;
                default: if (a.mem || a.moved) break; { begin("destruction"); a.x = X(); a.m = Ref(0, 0); if (IsSparse<X>::value) a.moved = true; } break;
            }
            if (!op.empty()) { h = mix(h ^ hash(op) ^ a.m.hash()); all(op); }
        }
        saw(h);
        if (want_sample()) sample(trace);
    });
}

/// Conversions and results give matrices that own their elements.
template <class X, class Y> void independent(std::string const& name, size_t n)
{
    group("independent " + name, n, [&](Rng& r, size_t) {
        Values v; Ref m = gen(r, dim(r), dim(r), v);
        X a = make<X>(m, r); doing("conversion " + name);
        Y b(a);
        for (auto& e : a) e = 42;
        std::string d = diff(read(b), m);
        expect(d.empty(), "conversion shares its elements " + name, [&]{ return d; });
        for (auto& e : b) e = 43;
        bool ok = true; for (auto const& e : a) ok = ok && e == 42;
        expect(ok, "source shares elements with its conversion " + name);
        saw(m.hash());
    });
}

/// Windows into several parents: a copied, moved or exchanged window is the window of its source.
template <class T, class O> void windows(std::string const& name, size_t n)
{
    typedef Matrix<Dense, T, Parameter<size_t, O>> M; typedef Matrix<Dense, T, Parameter<size_t, O, VariableSize, LeadingDimension>> W;
    group("windows " + name, n, [&](Rng& r, size_t) {
        struct Place { size_t p, i, j, h, w; }; struct Slot { W x; Place at; bool moved; };
        Values v; std::vector<M> parent; std::vector<Ref> m; std::vector<Slot> s; std::string trace; uint64_t h = 0;
        bool equal = r.chance(0.3); size_t R = dim(r), C = dim(r);
        for (int k = 0; k < 3; ++k) { m.push_back(gen(r, equal ? R : dim(r), equal ? C : dim(r), v, 1)); parent.push_back(make<M>(m.back(), r)); }
        auto place = [&] { Place q; q.p = r.below(3); Ref const& f = m[q.p]; q.h = 1 + r.below(f.r); q.w = 1 + r.below(f.c); q.i = r.below(f.r - q.h + 1); q.j = r.below(f.c - q.w + 1); return q; };
        auto open = [&](Place const& q) { return W(parent[q.p], q.h, q.w, q.i, q.j); };
        for (int k = 0; k < 4; ++k) { Place q = place(); s.push_back(Slot{open(q), q, false}); }
        auto is = [&](W& x, Place const& q, std::string const& op) {
            bool ok = x.getNbRows() == q.h && x.getNbColumns() == q.w && x.getSize() == q.h * q.w;
            expect(ok, op + " of windows " + name + ": shape", [&]{ return cat(x.getNbRows(), "x", x.getNbColumns(), " instead of ", q.h, "x", q.w, trace); });
            if (!ok) return;
            M& f = parent[q.p]; constexpr bool rm = std::is_same<O, RowMajor>::value; std::string d;
            for (size_t i = 0; i < q.h && d.empty(); ++i) for (size_t j = 0; j < q.w && d.empty(); ++j) if (&x(i, j) != &f(q.i + i, q.j + j)) d = cat("element ", i, ",", j, " is another one");
            size_t k = 0, most = q.h * q.w;
            for (auto e = x.begin(); e != x.end() && k <= most && d.empty(); ++e, ++k) {
                size_t i = rm ? k / q.w : k % q.h, j = rm ? k % q.w : k / q.h;
                if (k == most || &*e != &f(q.i + i, q.j + j)) d = cat("walking reaches another element at step ", k);
            }
            if (d.empty() && k != most) d = cat("walking ends after ", k, " of ", most);
            expect(d.empty(), op + " of windows " + name, [&]{ return d + trace; });
            count("windows walked");
        };
        for (int k = 0; k < 20; ++k) {
            size_t i = r.below(4), j = r.below(4); Slot &a = s[i], &b = s[j]; std::string op;
            auto begin = [&](char const* o) { op = o; trace += cat("; ", o, " ", i, ",", j); doing(op + " of windows"); };
            switch (r.below(8)) {
                case 0: if (b.moved) break; begin("copy assignment"); a.x = b.x; a.at = b.at; a.moved = false; break;
                case 1: if (b.moved) break; { begin("copy construction"); W t(b.x); is(t, b.at, op); a.x = t; a.at = b.at; a.moved = false; } break;
                case 2: if (b.moved || i == j) break; begin("move assignment"); a.x = std::move(b.x); a.at = b.at; a.moved = false; b.moved = true; break;
                case 3: if (b.moved) break; { begin("move construction"); W t(std::move(b.x)); is(t, b.at, op); b.x = std::move(t); } break;
                case 4: begin("swap"); swap(a.x, b.x); if (i != j) { std::swap(a.at, b.at); std::swap(a.moved, b.moved); } break;
                case 5: begin("new window"); a.at = place(); a.x = open(a.at); a.moved = false; break;
                case 6: if (a.moved) break; { begin("window of a window"); Place q = a.at; q.h = 1 + r.below(a.at.h); q.w = 1 + r.below(a.at.w); size_t di = r.below(a.at.h - q.h + 1), dj = r.below(a.at.w - q.w + 1); q.i += di; q.j += dj; W t(a.x, q.h, q.w, di, dj); is(t, q, op); if (r.chance(0.5)) { b.x = std::move(t); b.at = q; b.moved = false; } } break;
                default: if (a.moved) break; { begin("write"); size_t p = r.below(a.at.h), q = r.below(a.at.w); double e = double(r.in(-50, 50)); a.x(p, q) = T(e); m[a.at.p](a.at.i + p, a.at.j + q) = e; }
            }
            if (op.empty()) continue;
            h = mix(h ^ hash(op) ^ a.at.p * 31 ^ a.at.h * 7 ^ a.at.w);
            for (auto& t : s) if (!t.moved) is(t.x, t.at, op);
            for (int f = 0; f < 3; ++f) { std::string d = diff(read(parent[f]), m[f]); expect(d.empty(), op + " of windows " + name + ": parent", [&]{ return d + trace; }); }
            count("states compared");
        }
        saw(h);
    });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 120; st().tall = true;
    values<DD>("DenseD", 1200); values<DF>("DenseF", 800); values<RDD>("rDenseD", 800); values<RDF>("rDenseF", 400); values<Matrix<Dense, int>>("DenseI", 400);
    values<SD>("SparseD", 1000); values<SF>("SparseF", 600); values<RSD>("rSparseD", 600); values<RSF>("rSparseF", 300);
    independent<DD, DD>("DenseD,DenseD", 150); independent<DF, DD>("DenseF,DenseD", 150); independent<DD, DF>("DenseD,DenseF", 100); independent<RDD, DD>("rDenseD,DenseD", 100);
    independent<DD, SD>("DenseD,SparseD", 150); independent<SD, DD>("SparseD,DenseD", 150); independent<SD, SF>("SparseD,SparseF", 100); independent<SF, SD>("SparseF,SparseD", 100); independent<SD, SD>("SparseD,SparseD", 100); independent<SD, RSD>("SparseD,rSparseD", 100);

    windows<double, ColumnMajor>("double", 500); windows<float, ColumnMajor>("float", 250); windows<double, RowMajor>("double by rows", 400); windows<float, RowMajor>("float by rows", 250);

    group("zero", 600, [](Rng& r, size_t) {
        std::vector<ZZ> x; std::vector<std::pair<size_t, size_t>> d;
        for (int k = 0; k < 3; ++k) { d.push_back({dim(r, true), dim(r, true)}); x.push_back(ZZ(d.back().first, d.back().second)); }
        std::string trace; uint64_t h = 0;
        for (int k = 0; k < 15; ++k) {
            size_t i = r.below(3), j = r.below(3); std::string op;
            switch (r.below(5)) {
                case 0: op = "copy assignment"; x[i] = x[j]; d[i] = d[j]; break;
                case 1: { op = "copy construction"; ZZ t(x[j]); x[i] = t; d[i] = d[j]; break; }
                case 2: { op = "move"; ZZ t(dim(r), dim(r)); d[i] = {t.getNbRows(), t.getNbColumns()}; x[i] = std::move(t); break; }
                case 3: { op = "swap"; using std::swap; swap(x[i], x[j]); if (i != j) std::swap(d[i], d[j]); break; }
                default: op = "resize"; d[i] = {dim(r, true), dim(r, true)}; x[i].resize(d[i].first, d[i].second);
            }
            trace += cat("; ", op, " ", i, ",", j); doing(op + " of zero"); h = mix(h ^ hash(op) ^ d[i].first * 31 ^ d[i].second);
            for (size_t q = 0; q < 3; ++q) expect(x[q].getNbRows() == d[q].first && x[q].getNbColumns() == d[q].second && x[q].getSize() == d[q].first * d[q].second, op + " of zero matrices",
                [&]{ return cat("matrix ", q, " is ", x[q].getNbRows(), "x", x[q].getNbColumns(), " size ", x[q].getSize(), trace); });
        }
        saw(h); count("states compared", 15);
    });

    group("blocked", 1200, [](Rng& r, size_t) {
        // A blocked matrix is an array of shared blocks: the arrays are the values.
        struct Slot { BlockedDenseMatrix x; std::vector<DynamicMatrix> b; size_t r = 0, c = 0, R = 0, C = 0; bool moved = false; };
        std::vector<Slot> s(3); Values v; std::string trace; uint64_t h = 0;
        auto fill = [&](Slot& t) {
            Ref m = gen(r, dim(r, true), dim(r, true), v); auto p = partition(r, m.r), q = partition(r, m.c);
            t.x = makeBlocked(m, p, q, r); t.r = p.size(); t.c = q.size(); t.R = m.r; t.C = m.c; t.moved = false;
            t.b.assign(t.x.begin(), t.x.end());
        };
        for (auto& t : s) fill(t);
        auto same = [&](BlockedDenseMatrix const& x, Slot const& t, std::string const& op) {
            bool ok = x.getNbRows() == t.r && x.getNbColumns() == t.c && x.getSize() == t.r * t.c && x.getUnblockedRows() == t.R && x.getUnblockedColumns() == t.C;
            expect(ok, op + " of blocked matrices: dimensions", [&]{ return cat(x.getNbRows(), "x", x.getNbColumns(), " of ", x.getUnblockedRows(), "x", x.getUnblockedColumns(), " instead of ", t.r, "x", t.c, " of ", t.R, "x", t.C, trace); });
            if (ok) expect(size_t(x.end() - x.begin()) == t.b.size() && std::equal(t.b.begin(), t.b.end(), x.begin()), op + " of blocked matrices: blocks", [&]{ return trace; });
        };
        for (int k = 0; k < 20; ++k) {
            size_t i = r.below(3), j = r.below(3); Slot &a = s[i], &b = s[j]; std::string op;
            auto begin = [&](char const* o) { op = o; trace += cat("; ", o, " ", i, ",", j); doing(op + " of blocked"); };
            auto take = [&] { a.b = b.b; a.r = b.r; a.c = b.c; a.R = b.R; a.C = b.C; a.moved = false; };
            switch (r.below(8)) {
                case 0: if (b.moved) break; begin("copy assignment"); a.x = b.x; take(); break;
                case 1: if (b.moved) break; { begin("copy construction"); BlockedDenseMatrix t(b.x); same(t, b, op); for (auto& e : t) e.reset(); } break;
                case 2: if (b.moved || i == j) break; begin("move assignment"); a.x = std::move(b.x); take(); b.moved = true; break;
                case 3: if (b.moved) break; { begin("move construction"); BlockedDenseMatrix t(std::move(b.x)); same(t, b, op); b.x = std::move(t); } break;
                case 4: begin("swap"); swap(a.x, b.x); if (i != j) { std::swap(a.b, b.b); std::swap(a.r, b.r); std::swap(a.c, b.c); std::swap(a.R, b.R); std::swap(a.C, b.C); std::swap(a.moved, b.moved); } break;
                case 5: begin("new"); fill(a); break;
                case 6: { begin("resize"); size_t p = dim(r, true, 16), q = dim(r, true, 16), R = dim(r), C = dim(r); a.x.resize(p, q, R, C); a.b.assign(p * q, DynamicMatrix()); for (auto& e : a.x) e.reset(); a.r = p; a.c = q; a.R = R; a.C = C; a.moved = false; } break;
                default: if (a.moved || a.b.empty()) break; { begin("write"); size_t p = r.below(a.r), q = r.below(a.c); DynamicMatrix d = makeDyn(Ref(2, 2, 1), r, 6); a.x(p, q) = d; a.b[p + q * a.r] = d; }
            }
            if (op.empty()) continue;
            h = mix(h ^ hash(op) ^ a.r * 77 ^ a.c);
            for (auto& t : s) if (!t.moved) same(t.x, t, op);
            count("states compared");
        }
        saw(h);
    });

    group("storages", 1500, [](Rng& r, size_t) { Rng q = r; doing("storages"); storages(r, [&](char const* w) { fail(w, ""); }); saw(q.next()); count("storages"); });

    group("multiple", 300, [](Rng& r, size_t) {
        // Copies of a sum of two matrices refer to the same summands; exchanging the summands of one does not show in the other.
        Values v; Ref m = gen(r, dim(r), dim(r), v), k = gen(r, m.r, m.c, v);
        MSD a = make<MSD>(m, r), b(a); doing("sum of two matrices");
        MSD c = make<MSD>(k, r);
        auto p1 = std::make_shared<SD>(make<SD>(k, r)); auto p2 = std::make_shared<DF>(make<DF>(Ref(k.r, k.c), r));
        a.reset(p1, p2);
        std::string d = diff(read(a), k) + diff(read(b), m);
        expect(d.empty(), "reset of a sum of two matrices", [&]{ return d; });
        expect(&a.getMatrix1() == p1.get() && &a.getMatrix2() == p2.get(), "summands of a sum of two matrices");
        MSD e; e = b; b = std::move(c);
        d = diff(read(e), m) + diff(read(b), k);
        expect(d.empty(), "assignment of a sum of two matrices", [&]{ return d; });
        saw(m.hash());
    });
    return finish();
}
