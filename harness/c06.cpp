// C06: cutting matrices into blocks, reassembling them, and the per-block summaries.
#include "blocked.h"
using namespace vh;

template <class T> Matrix<Dense,T> dense(Ref const& m)
{
    Matrix<Dense,T> A(m.r, m.c);
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) A(i, j) = T(m(i, j));
    return A;
}

static void summaries(BlockedDenseMatrix const& B, std::vector<size_t> const& rows, std::vector<size_t> const& cols, std::string const& key)
{
    std::vector<size_t> kinds(nbKinds, 0);
    doing(key + " summaries");
    auto types = generateTypeMatrix(B);
    auto dims = generateDimensionMatrix(B);
    auto norms = generateNormMatrix(B);
    auto nb = get_type_counting(B);
    auto shape = [&](auto const& M, char const* what) {
        return expect(M.getNbRows() == rows.size() && M.getNbColumns() == cols.size() && M.getSize() == rows.size() * cols.size(), key + ": shape of " + what, [&]{ return cat(M.getNbRows(), "x", M.getNbColumns()); }); };
    bool ok = shape(types, "type summary"); ok = shape(dims, "dimension summary") && ok; ok = shape(norms, "norm summary") && ok;
    if (!ok) return;
    for (size_t x = 0; x < rows.size(); ++x) for (size_t y = 0; y < cols.size(); ++y) {
        DynRead d = readDyn(B(x, y));
        if (!d.bad.empty()) continue;
        ++kinds[d.kind];
        expect(size_t(types(x, y)) == d.kind, key + ": type summary", [&]{ return cat("block ", x, ",", y, " is ", kindName[d.kind], ", summary says ", types(x, y)); });
        expect(dims(x, y).first == rows[x] && dims(x, y).second == cols[y], key + ": dimension summary", [&]{ return cat("block ", x, ",", y, " is ", rows[x], "x", cols[y], ", summary says ", dims(x, y).first, "x", dims(x, y).second); });
        long double two = 0; for (double e : d.m.a) two += (long double)e * e;
        double want = double(std::sqrt(two));
        expect(std::abs(norms(x, y) - want) <= 1e-12 * want + 1e-150, key + ": norm summary", [&]{ return cat("block ", x, ",", y, " has norm ", want, ", summary says ", norms(x, y)); });
    }
    size_t total = 0;
    for (size_t k = 0; k < nbKinds; ++k) {
        total += nb[k];
        expect(nb[k] == kinds[k], key + ": number of blocks of a kind", [&]{ return cat(nb[k], " instead of ", kinds[k], " of kind ", kindName[k]); });
    }
    expect(total == rows.size() * cols.size(), key + ": number of blocks of all kinds");
    count("blocks summarised", total);
}

template <class T> void cut(Rng& r, std::string const& key)
{
    size_t R = few(r, r.chance(0.15) ? 40 : 12), C = few(r, r.chance(0.15) ? 40 : 12);
    auto rows = partition(r, R), cols = partition(r, C);
    Limits l = limits(r, rows[0] * cols[0]);
    Ref m = significant(r, l, R, C);
    if (sizeof(T) == 4) for (double& e : m.a) e = double(float(e));
    saw(m.hash() ^ hash(str(rows)) ^ mix(hash(str(cols))));
    if (want_sample()) sample(cat(str(rows), " x ", str(cols), " ", m.str()));
    Callers mem; auto A = mem.make<Matrix<Dense,T>>(m, r);
    doing(key);
    BlockedDenseMatrix B = BlockedMatrixGenerator()(A, rows, cols, threshold(l));
    std::vector<size_t> kinds;
    Ref got = readBlocked(B, rows, cols, key, &kinds);
    for (size_t k : kinds) count(std::string("blocks ") + kindName[k]);
    std::string d = keptAsAllowed(got, m, l);
    expect(d.empty(), key + ": blocks differ from the matrix", [&]{ return d; });
    doing(key + " assemble");
    DD D(B);
    d = diff(read(D), got);
    expect(d.empty(), key + ": assembled differs from the blocks", [&]{ return d; });
    d = diff(read(A), m);
    expect(d.empty(), key + ": source changed", [&]{ return d; });
    summaries(B, rows, cols, key);
    if (rows.size() > 1 && cols.size() > 1) count("cut in both dimensions");
    // cut the same matrix again along other lines
    auto rows2 = partition(r, R), cols2 = partition(r, C);
    BlockedDenseMatrix B2 = BlockedMatrixGenerator()(A, rows2, cols2, threshold(l));
    got = readBlocked(B2, rows2, cols2, key + " again");
    d = keptAsAllowed(got, m, l);
    expect(d.empty(), key + " again: blocks differ from the matrix", [&]{ return d; });
    // the blocks are matrices of their own
    expect(mem.intact(), key + ": memory beside the source changed");
    for (auto& e : A) e = T(31);
    d = diff(readBlocked(B2, rows2, cols2, key + " then another source"), got);
    expect(d.empty(), key + ": blocks change with their source", [&]{ return d; });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 150; st().tall = true;
    group("cut double", 1500, [](Rng& r, size_t) { cut<double>(r, "cut double"); });
    group("cut single", 800, [](Rng& r, size_t) { cut<float>(r, "cut single"); });
    group("assembled by hand", 1500, [](Rng& r, size_t i) {
        size_t R = few(r, 14), C = few(r, 14);
        auto rows = partition(r, R), cols = partition(r, C);
        Values v; v.exp = int(r.in(-9, 9));
        Ref m = gen(r, R, C, v);
        bool const repeats = r.chance(0.4);
        if (repeats) repeatBlocks(m, rows, cols, r);
        saw(m.hash() ^ hash(str(rows)) ^ mix(hash(str(cols))));
        BlockedDenseMatrix B = makeBlocked(m, rows, cols, r, i % 8 < nbKinds && (i % 8 || !m.nnz()) ? int(i % 8) : -1);
        if (repeats) shareBlocks(B, m, rows, cols, r);
        Ref got = readBlocked(B, rows, cols, "by hand");
        std::string d = diff(got, m);
        expect(d.empty(), "by hand: harness", [&]{ return d; });
        doing("assemble");
        DD D(B);
        d = diff(read(D), m); expect(d.empty(), "assembled differs from the blocks", [&]{ return d; });
        DF F(B);
        d = diff(read(F), m); expect(d.empty(), "assembled in single precision differs from the blocks", [&]{ return d; });
        summaries(B, rows, cols, "by hand");
        count("assembled by hand");
    });
    group("initializer lists", 400, [](Rng& r, size_t) {
        std::vector<size_t> rows{1 + r.below(4), 1 + r.below(4), 1 + r.below(4)}, cols{1 + r.below(4), 1 + r.below(4)};
        Ref m = gen(r, rows[0] + rows[1] + rows[2], cols[0] + cols[1], Values());
        saw(m.hash() ^ hash(str(rows)));
        std::vector<DynamicMatrix> b; size_t i = 0;
        for (size_t x = 0; x < 3; i += rows[x++]) { size_t j = 0; for (size_t y = 0; y < 2; j += cols[y++]) { Ref w = window(m, i, j, rows[x], cols[y]); b.push_back(makeDyn(w, r, blockKind(r, w))); } }
        doing("initializer list");
        BlockedDenseMatrix B{{b[0], b[1]}, {b[2], b[3]}, {b[4], b[5]}};
        Ref got = readBlocked(B, rows, cols, "initializer list");
        std::string d = diff(got, m);
        expect(d.empty(), "initializer list: blocks", [&]{ return d; });
        DD D(B);
        d = diff(read(D), m); expect(d.empty(), "initializer list: assembled", [&]{ return d; });
        summaries(B, rows, cols, "initializer list");
        // blocks of one block row must have one height
        if (rows[1] != rows[2]) {
            bool refused = false;
            try { BlockedDenseMatrix X{{b[0], b[1]}, {b[2], b[5]}, {b[4], b[3]}}; } catch (std::runtime_error const&) { refused = true; }
            expect(refused, "initializer list with blocks of different height accepted");
            count("wrong initializer lists");
        }
        // blocks of one block column must have one width, and all block rows must have the same number of blocks
        auto refuses = [&](std::initializer_list<std::initializer_list<DynamicMatrix>> l) { try { BlockedDenseMatrix X(l); return false; } catch (std::exception const&) { return true; } };
        if (cols[0] != cols[1]) {
            expect(refuses({{b[0], b[1]}, {b[2], b[3]}, {b[5], b[4]}}), "initializer list with blocks of different width accepted");
            count("wrong initializer lists");
        }
        expect(refuses({{b[0], b[1]}, {b[2]}, {b[4], b[5]}}), "initializer list with a short block row accepted");
        expect(refuses({{b[0]}, {b[2], b[3]}}), "initializer list with a long block row accepted");
        {
            std::initializer_list<std::initializer_list<DynamicMatrix>> none{}, empty{{}, {}};
            BlockedDenseMatrix X(none), Y(empty); expect(X.getSize() == 0 && Y.getSize() == 0 && X.getUnblockedRows() == 0 && Y.getUnblockedColumns() == 0, "initializer list without blocks");
            DD Z(X); expect(Z.getSize() == 0, "initializer list without blocks: assembled");
        }
    });
    return finish();
}
