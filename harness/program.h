// Random programs over the whole interface, for the memory and thread monitors.
#pragma once
#include "blocked.h"
#include "storages.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
#include "BlasBooster/Core/Transposition.h"
#include "BlasBooster/MatrixFactory/MatrixGenerator.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

namespace vh {

using View = Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>>;
using RView = Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>>;

/// Collects everything a program observed.
struct Digest
{
    uint64_t h = 0;
    char const* what = nullptr; std::string detail;
    /// Reported by whoever runs the program: programs run on threads, too.
    void complain(char const* w, std::string const& s = "") { if (!what) { what = w; detail = s; } }
    void judge() const { if (what) fail(what, detail); }
    void operator()(uint64_t x) { h = mix(h ^ x); }
    void operator()(double x) { uint64_t b; memcpy(&b, &x, 8); (*this)(b); }
    void operator()(Ref const& m) { (*this)(m.hash()); }
    void operator()(DynamicMatrix const& d) { DynRead x = readDyn(d); if (!x.bad.empty()) complain("malformed result of a program", x.bad); (*this)(x.m); (*this)(uint64_t(x.kind)); }
    template <class M, class T, class P> void operator()(Matrix<M,T,P> const& A) { std::string bad; Ref m = read(A, &bad); if (!bad.empty()) complain("malformed result of a program", bad); (*this)(m); }
    template <class A, class B> void operator()(MultipleMatrix<A,B> const& M) { std::string bad; Ref m = read(M, &bad); if (!bad.empty()) complain("malformed result of a program", bad); (*this)(m); }
    void operator()(std::string const& s) { (*this)(hash(s)); }
};

static char const* const opName[] = {"products", "backends", "sums and differences", "updates", "dense operations", "adaptive conversion", "blocked matrices", "views and walkers", "questions",
    "text output", "sums of two matrices", "memory of the caller", "value operations", "initializer lists", "ranges", "fillers", "statistics", "generated matrices", "serialization", "sparse operations", "missing files", "storages"};
constexpr int nbOps = 22;

inline size_t edge(Rng& r) { static const size_t n[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}; return n[r.below(15)]; }
inline Ref any(Rng& r, size_t most = 10) { Values v; v.exp = int(r.in(-3, 3)); if (most == 10 && r.chance(0.12)) { size_t n = edge(r), k = r.below(4); return r.chance(0.5) ? gen(r, n, k, v) : gen(r, k, n, v); } return gen(r, dim(r, true, 14) % (most + 1), dim(r, true, 14) % (most + 1), v); }
inline Ref some(Rng& r, size_t nr, size_t nc) { Values v; return gen(r, nr, nc, v); }
inline size_t kindFor(Rng& r, Ref const& m) { return m.nnz() ? 1 + r.below(nbKinds - 1) : r.below(nbKinds); }

template <class M> void walk(M& A, Digest& d, bool write)
{
    {
        typedef Cursor<M, Direction::Row> RC; typedef Cursor<RC, Direction::Column> CC;
        for (RC a(A, 0), e(A, A.getNbRows()); a != e; ++a) for (CC b(A, a.begin()), f(A, a.end()); b != f; ++b) { d(double(*b)); if constexpr (!std::is_const<M>::value) { if (write) *b = *b + 1; } }
    }
    {
        typedef Cursor<M, Direction::Column> CC; typedef Cursor<CC, Direction::Row> RC;
        for (CC a(A, 0), e(A, A.getNbColumns()); a != e; ++a) for (RC b(A, a.begin()), f(A, a.end()); b != f; ++b) d(double(*b));
    }
    for (auto i = A.begin(); i != A.end(); ++i) d(double(*i));
}

inline void step(int op, Rng& r, std::vector<DynamicMatrix>& pool, Digest& d)
{
    auto keep = [&](DynamicMatrix const& m) { if (pool.size() < 5) pool.push_back(m); else pool[r.below(5)] = m; d(m); };
    auto take = [&]() -> DynamicMatrix { if (pool.empty() || r.chance(0.3)) { Ref m = any(r); keep(makeDyn(m, r, kindFor(r, m))); return pool.back(); } return pool[r.below(pool.size())]; };
    switch (op) {
        case 0: { DynamicMatrix a = take(); Ref m = some(r, getNbColumns(a), r.below(8)); DynamicMatrix b = makeDyn(m, r, kindFor(r, m));
            keep(r.chance(0.5) ? (a * b).execute<Native>() : (a * b).execute<TheBestPolicy>()); break; }
        case 1: { Ref m = any(r), k = some(r, m.c, r.below(9)); DD A = make<DD>(m, r), B = make<DD>(k, r); DF C = make<DF>(m, r), D = make<DF>(k, r); SD E = make<SD>(m, r), F = make<SD>(k, r);
            d((A * B).execute<OpenBLAS>()); d((A * B).execute<EigenI>()); d((C * D).execute<OpenBLAS>()); d((C * B).execute<TheBestPolicy>()); d((E * F).execute<Native>()); d((E * B).execute<Native>()); d((A * F).execute<TheBestPolicy>());
            DD G = A * B; d(G); break; }
        case 2: { DynamicMatrix a = take(); Ref m = some(r, getNbRows(a), getNbColumns(a)); DynamicMatrix b = makeDyn(m, r, kindFor(r, m)); keep(r.chance(0.5) ? a + b : a - b); break; }
        case 3: { DynamicMatrix a = take(); DynRead x = readDyn(a); a = makeDyn(x.m, r, x.m.nnz() || r.chance(0.7) ? 1 + r.below(nbKinds - 1) : 0);
            Ref m = some(r, getNbRows(a), getNbColumns(a)); DynamicMatrix b = makeDyn(m, r, kindFor(r, m));
            try { if (r.chance(0.5)) a += b; else a -= b; } catch (std::runtime_error const&) { d(uint64_t(77)); } keep(a); break; }
        case 4: { Ref m = any(r); DD A = make<DD>(m, r); RDF B(A); DF C(B); d(transpose(A)); d(transpose(B)); d(B); d(C); A.resize(r.below(9), r.below(9), AllFiller<double>(2)); d(A); A = DD(C); d(A); A = 4; d(A); DD D(take()); d(D); break; }
        case 5: { Limits l = limits(r, 20); DD A = make<DD>(any(r), r); keep(MatrixConverter()(A, threshold(l))); DF B = make<DF>(any(r), r); keep(MatrixConverter()(B, threshold(l))); break; }
        case 6: { size_t a = 1 + r.below(14), b = 1 + r.below(14), c = 1 + r.below(14); DD A = make<DD>(some(r, a, b), r), B = make<DD>(some(r, b, c), r);
            std::vector<size_t> p, q, s; std::tie(p, q, s) = BlockSizeGenerator(2, 5).matrix_matrix_mult(A, B);
            Limits l = limits(r, a * b); BlockedDenseMatrix X = BlockedMatrixGenerator()(A, p, q, threshold(l)), Y = BlockedMatrixGenerator()(B, q, s, threshold(l));
            BlockedDenseMatrix Z = (X * Y).execute<TheBestPolicy>(); d(DD(Z)); d(DD(X)); d(generateTypeMatrix(Z)); d(generateNormMatrix(X)); for (size_t n : get_type_counting(X)) d(uint64_t(n));
            if (r.chance(0.3)) { size_t n = 17 + r.below(60); DD E(n, 1 + r.below(40), AllFiller<double>(r.chance(0.5) ? 0.0 : 3.0)), F = make<DD>(some(r, E.getNbColumns(), 1 + r.below(40)), r);
                for (auto const& x : {BlockSizeGenerator(2, 5)(E), BlockSizeGenerator(3, 9)(F)}) { for (size_t y : std::get<0>(x)) d(uint64_t(y)); for (size_t y : std::get<1>(x)) d(uint64_t(y)); }
                std::tie(p, q, s) = BlockSizeGenerator(2, 6).matrix_matrix_mult(E, F); for (size_t y : q) d(uint64_t(y)); }
            BlockedDenseMatrix W(X); W.resize(2, 1, 4, 4); W(0, 0) = X(0, 0); W(1, 0) = X(0, 0); swap(W, X); X = W; d(DD(X).getNorm() >= 0 ? uint64_t(1) : uint64_t(0)); break; }
        case 7: { Ref m = some(r, 1 + r.below(8), 1 + r.below(8)); DD A = make<DD>(m, r); RDD B = make<RDD>(m, r); size_t i = r.below(m.r), j = r.below(m.c), nr = 1 + r.below(m.r - i), nc = 1 + r.below(m.c - j);
            View V(A, nr, nc, i, j); RView W(B, nr, nc, i, j); walk(V, d, true); walk(W, d, true); walk(A, d, false); walk(B, d, false); d(DD(V)); d(RDD(W)); d(SD(V)); DD C(nr, nc); copy(V, C); copy(C, W); d(B); d(A); d(V.getNorm()); break; }
        case 8: { DynamicMatrix a = take(); d(getNorm(a)); d(norm<NormOne>(a)); d(norm<NormMax>(a)); AbsoluteValueRangeChecker<double> c(0.5); d(uint64_t(countDesiredElements(a, c))); d(getOccupation(a, AbsoluteValueRangeChecker<float, InclusiveBound, InclusiveBound>(1, 3))); d(uint64_t(isNormLargerThan(a, 2))); d(uint64_t(getSize(a))); break; }
        case 9: { Ref m = any(r, 5); std::ostringstream o; o << make<DD>(m, r); o << make<SD>(m, r); o << make<RDF>(m, r); o << ZZ(m.r, m.c); d(o.str()); break; }
        case 10: { Ref m = any(r), k = some(r, m.r, m.c); MSD A = make<MSD>(m, r); MSS B = make<MSS>(k, r); d(A + B); d(A - B); d(DD(A)); d(DD(B)); d(A.getNorm()); { MDD C = make<MDD>(m, r); C += make<DF>(k, r); d(C); C -= make<SF>(k, r); d(C); try { B += make<SF>(k, r); } catch (std::runtime_error const&) { d(uint64_t(11)); } }
            Ref n = some(r, m.c, r.below(6)); d((B * make<DD>(n, r)).execute<Native>()); A.reset(std::make_shared<SD>(make<SD>(m, r)), std::make_shared<DF>(make<DF>(k, r))); d(A); break; }
        case 11: { std::vector<double> mem(30, 1.5); DD A(5, 6, mem.data()); A(4, 5) = 3; d(A.getNorm()); DD B(A); d(B); DD C(std::move(A)); d(C); try { C.resize(2, 2); } catch (std::runtime_error const&) { d(uint64_t(5)); } d(C); swap(B, C); d(B); d(mem[29]); B += C; d(mem[3]); B = C; d(B); break; }
        case 12: { std::vector<DD> v; std::vector<SD> w; for (int k = 0; k < 4; ++k) { Ref m = any(r, 5); v.push_back(make<DD>(m, r)); w.push_back(make<SD>(m, r)); } v[0] = v[1]; v[2] = std::move(v[3]); v[3].resize(2, 2, AllFiller<double>(1)); swap(v[0], v[3]); v.erase(v.begin());
            w[0] = w[1]; w[2] = std::move(w[3]); swap(w[0], w[2]); w.erase(w.begin() + 1); w.pop_back(); for (auto const& A : v) d(A); for (auto const& A : w) d(A); break; }
        case 13: { DD A{{1, 2, 3}, {4, 5, 6}}; RDF B{{1, 2}, {3, 4}}; d(A); d(B); auto x = std::make_shared<DD>(A), y = std::make_shared<DD>(2, 2, AllFiller<double>(1)), z = std::make_shared<DD>(1, 5, AllFiller<double>(2));
            BlockedDenseMatrix C{{x, y}}; d(DD(C)); try { BlockedDenseMatrix D{{x, z}}; d.complain("wrong initializer list accepted"); } catch (std::runtime_error const&) { d(uint64_t(6)); }
            try { BlockedDenseMatrix D{{x, y}, {x}}; d.complain("ragged list of blocks accepted"); } catch (std::exception const&) { d(uint64_t(7)); }
            try { double v = r.below(9); DD D{{v, 2, 3}, {v}}; d.complain("ragged initializer list accepted"); } catch (std::exception const&) { d(uint64_t(7)); }
            try { double v = r.below(9); RDF D{{float(v)}, {float(v), 2, 3}}; d.complain("ragged initializer list accepted"); } catch (std::exception const&) { d(uint64_t(8)); }
            { std::initializer_list<std::initializer_list<double>> none{}, empty{{}, {}}; DD D(none), E(empty); d(uint64_t(D.getSize() + E.getSize())); d(uint64_t(E.getNbRows())); } break; }
        case 14: { try { AbsoluteValueRangeChecker<double> c(-1.0); d.complain("negative bound accepted"); } catch (CoreException const&) { d(uint64_t(7)); }
            DD A = make<DD>(any(r), r); SD B(A, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(0.5, 4)); d(B); SF C(B, AbsoluteValueRangeChecker<double>(1)); d(C); d(uint64_t(A.getNbOfSignificantElements(AbsoluteValueRangeChecker<double>(1)))); d(uint64_t(A.getNbOfSignificantElements(AbsoluteValueRangeChecker<float>(1)))); break; }
        case 15: { DD A(r.below(6), r.below(6), ContinuousNumberFiller()); d(A); A.resize(r.below(6), r.below(6), HilbertFiller()); d(A); A.resize(4, 4, DiagonalFiller<double>(2)); d(A); try { A.resize(2, 3, DiagonalFiller<double>(2)); d.complain("diagonal of a rectangle accepted"); } catch (CoreException const&) { d(uint64_t(8)); }
            SD B(3, 4, 0, ContinuousNumberFiller()); d(B); B.resize(0, 0); break; }
        case 16: { Ref m = any(r), k = some(r, m.r, m.c); DD A = make<DD>(m, r); SD B = make<SD>(k, r); DF C = make<DF>(k, r); d(getMaximalDeviation(A, B)); d(getRootMeanSquareDeviation(A, C)); d(getMaximalDeviation(B, B)); d(uint64_t(A.equal(C))); d(uint64_t(B.equal(SD(A)))); break; }
        case 17: { MatrixGenerator g(r.below(6), r.below(6), MatrixGenerator::Settings().set_seed(unsigned(r.below(99)))); d(g()); break; }
        case 18: { Ref m = any(r); DD A = make<DD>(m, r), B(2, 3, AllFiller<double>(1)); std::stringstream s; { boost::archive::binary_oarchive o(s); o << const_cast<DD const&>(A); } std::string t = s.str();
            { std::istringstream i(t); boost::archive::binary_iarchive a(i); a >> B; } d(B);
            std::istringstream i(t.substr(0, r.below(t.size()))); try { boost::archive::binary_iarchive a(i); DD C(1, 2, AllFiller<double>(1)); a >> C; d(C); } catch (std::exception const&) { d(uint64_t(9)); } break; }
        case 19: { Ref m = any(r), k = some(r, m.r, m.c); SD A = make<SD>(m, r); SF B = make<SF>(k, r); RSD C(A); d(C); d(SD(C)); d(A + B); d(B - A); d(A - make<DD>(k, r)); d(transpose(A)); d(DD(A)); d(RDF(B)); A.resize(3, 3, 4); A = SD(B); d(A); DD D = make<DD>(m, r); D += B; D -= A; d(D); break; }
        case 20: { try { DD A(filesystem::path("/nonexistent/matrix.xml")); d.complain("missing file accepted"); } catch (BlasBoosterException const&) { d(uint64_t(10)); } break; }
        default: storages(r, [&](char const* w) { d.complain(w); }); break;
    }
}

} // namespace vh
