// C23: pattern images and text output show exactly the matrix.
#include "blocked.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include <boost/property_tree/json_parser.hpp>
#include <fstream>
#include <sstream>
using namespace vh;

static std::string dir;
static std::string slurp(std::string const& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// ------------------------------------------------ an XPM reader
struct Image { size_t w = 0, h = 0, nc = 0, cpp = 0; std::vector<std::pair<char, std::string>> colours; std::vector<std::string> rows; std::string bad; };
static Image parse(std::string const& t)
{
    Image x; std::vector<std::string> s; std::string rest; bool comment = false;
    for (size_t i = 0; i < t.size();) {
        if (comment) { if (t.compare(i, 2, "*/") == 0) { comment = false; i += 2; } else ++i; continue; }
        if (t.compare(i, 2, "/*") == 0) { comment = true; i += 2; continue; }
        if (t[i] == '"') { size_t e = t.find('"', i + 1); if (e == std::string::npos) { x.bad = "string not closed"; return x; } s.push_back(t.substr(i + 1, e - i - 1)); i = e + 1; rest += '@'; continue; }
        if (!isspace((unsigned char)t[i])) rest += t[i]; ++i;
    }
    if (t.compare(0, 9, "/* XPM */") != 0) { x.bad = "no XPM header"; return x; }
    size_t o = rest.find('{'), c = rest.find('}'); if (o == std::string::npos || c == std::string::npos || c < o) { x.bad = "no array: " + rest; return x; }
    if (rest.compare(0, 10, "staticchar") != 0 || rest.compare(c, 2, "};") != 0) { x.bad = "not a declaration of an array: " + rest; return x; }
    std::string list = rest.substr(o + 1, c - o - 1);
    for (size_t i = 0; i < list.size(); ++i) if (list[i] != (i % 2 ? ',' : '@')) { x.bad = "strings not separated by commas: " + list; return x; }
    if (s.empty()) { x.bad = "no strings"; return x; }
    std::istringstream h(s[0]); h >> x.w >> x.h >> x.nc >> x.cpp; if (!h) { x.bad = "header " + s[0]; return x; }
    if (x.cpp != 1) { x.bad = cat(x.cpp, " characters per pixel"); return x; }
    if (s.size() < 1 + x.nc) { x.bad = "palette incomplete"; return x; }
    for (size_t k = 0; k < x.nc; ++k) {
        std::string const& l = s[1 + k]; if (l.size() < 2) { x.bad = "palette line " + l; return x; }
        std::istringstream p(l.substr(1)); std::string key, col; p >> key >> col; if (key != "c" || col.empty() || col[0] != '#') { x.bad = "palette line " + l; return x; }
        x.colours.push_back({l[0], col.substr(1)});
    }
    x.rows.assign(s.begin() + long(1 + x.nc), s.end());
    return x;
}

struct Palette { std::vector<std::string> index, colour; std::vector<double> threshold; std::string bi, bc; };
static std::string const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .+@#$%&*=-;>,')!~{]^/(_:<[}|";
static Palette palette(Rng& r, Ref const& m)
{
    Palette p; size_t n = r.below(4) == 0 ? 0 : r.below(27); std::string c = chars; for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
    auto col = [&] { std::string s; for (int i = 0; i < 6; ++i) s += "0123456789abcdef"[r.below(16)]; return s; };
    int how = int(r.below(4));
    for (size_t k = 0; k < n; ++k) {
        double t = how == 0 ? std::pow(10.0, -double(k)) : how == 1 ? std::ldexp(1.0, int(r.in(-12, 12))) : !m.a.empty() && r.chance(0.7) ? std::abs(m.a[r.below(m.a.size())]) : r.unit() * 8;
        if (how == 3 && r.chance(0.3)) t = r.chance(0.5) ? 0 : std::nextafter(t, r.chance(0.5) ? 0 : 1e9);
        else if (how == 3 && r.chance(0.4)) t = r.chance(0.5) ? double(float(t)) : t * (1 + 1e-9 * double(r.in(-3, 3)));   // a magnitude as a float, and thresholds as near to a magnitude as rounding
        p.index.push_back(c.substr(k, 1)); p.colour.push_back(col()); p.threshold.push_back(t);
    }
    p.bi = c.substr(n, 1); p.bc = col();
    return p;
}
static PatternGenerator::Settings settings(Palette const& p, Rng& r)
{
    if (r.chance(0.3)) {
        boost::property_tree::ptree t, list; for (size_t k = 0; k < p.index.size(); ++k) { boost::property_tree::ptree e; e.put("index", p.index[k]); e.put("color", p.colour[k]); std::ostringstream o; o.precision(17); o << p.threshold[k]; e.put("threshold", o.str()); list.push_back({"", e}); }
        t.add_child("palette", list); t.put("background_index", p.bi); t.put("background_color", p.bc); count("settings from a property tree"); return PatternGenerator::Settings(t);
    }
    std::vector<PatternGenerator::Color> v; for (size_t k = 0; k < p.index.size(); ++k) v.push_back(PatternGenerator::Color().set_index(p.index[k]).set_color(p.colour[k]).set_threshold(p.threshold[k]));
    return PatternGenerator::Settings().set_palette(v).set_background_index(p.bi).set_background_color(p.bc);
}

template <class X> void picture(X const& A, Ref const& m, Palette const& p, PatternGenerator const& g, std::string const& file, std::string const& kind)
{
    doing("image of " + kind); Ref before = read(A);
    g(A, file);
    std::string d = diff(read(A), before); expect(d.empty(), "matrix changed by its image: " + kind, d);
    Image x = parse(slurp(file));
    if (!expect(x.bad.empty(), "image is malformed: " + kind, [&]{ return x.bad + "\n" + slurp(file).substr(0, 600); })) return;
    expect(x.w == m.c && x.h == m.r, "dimensions in the header: " + kind, [&]{ return cat(x.w, "x", x.h, " for ", m.c, " columns and ", m.r, " rows"); });
    expect(x.nc == p.index.size() + 1, "number of colours", [&]{ return cat(x.nc); });
    for (size_t k = 0; k < x.colours.size(); ++k) { bool bg = k == p.index.size(); expect(x.colours[k].first == (bg ? p.bi : p.index[k])[0] && x.colours[k].second == (bg ? p.bc : p.colour[k]), "palette", [&]{ return cat(x.colours[k].first, " ", x.colours[k].second); }); }
    if (!expect(x.rows.size() == m.r, "number of rows in the image: " + kind, [&]{ return cat(x.rows.size(), " for ", m.r); })) return;
    for (size_t i = 0; i < m.r; ++i) {
        if (!expect(x.rows[i].size() == m.c, "number of pixels in a row: " + kind, [&]{ return cat(x.rows[i].size(), " for ", m.c); })) return;
        for (size_t j = 0; j < m.c; ++j) { char want = p.bi[0]; for (size_t k = 0; k < p.index.size(); ++k) if (std::abs(before(i, j)) >= p.threshold[k]) { want = p.index[k][0]; break; }
            expect(x.rows[i][j] == want, "pixel: " + kind, [&]{ return cat("(", i, ",", j, ") is ", x.rows[i][j], " instead of ", want, " for ", before(i, j)); }); }
    }
    count("images"); count("pixels", m.r * m.c);
}

// ------------------------------------------------ text
/// Words of a text with the lines they stand on.
struct Text { std::vector<std::vector<std::string>> lines; std::string raw; };
static Text words(std::string const& s) { Text t; t.raw = s; std::istringstream i(s); std::string l; while (std::getline(i, l)) { std::istringstream w(l); t.lines.emplace_back(); std::string x; while (w >> x) t.lines.back().push_back(x); } return t; }
static bool number(std::string const& s, double& v) { char* e; v = strtod(s.c_str(), &e); return !s.empty() && !*e; }

/// Ten digits after the point.
static bool close(double shown, double v) { if (std::isnan(v)) return std::isnan(shown); if (std::isinf(v)) return shown == v; return std::abs(shown - v) <= 0.51e-10 * std::pow(10.0, std::floor(std::log10(std::max(std::abs(v), 1e-320)))) * 1.0000001 + std::abs(v) * 1e-15 || shown == v; }

template <class X> std::string show(X const& A, bool full, int precision = -1) { std::ostringstream o; if (precision >= 0) o.precision(precision); o << (full ? fullprint : shortprint) << A; return o.str(); }

/// Finds the rows of a dense matrix from a line on.
static void denseText(Text const& t, size_t& at, Ref const& m, std::string const& kind)
{
    std::vector<std::vector<std::string>> rows; for (; at < t.lines.size() && rows.size() < m.r; ++at) if (!t.lines[at].empty()) rows.push_back(t.lines[at]);
    if (!m.c) return;
    if (!expect(rows.size() == m.r, "rows shown: " + kind, [&]{ return cat(rows.size(), " for ", m.r, "\n", t.raw); })) return;
    for (size_t i = 0; i < m.r; ++i) {
        if (!expect(rows[i].size() == m.c, "elements shown in a row: " + kind, [&]{ return cat(rows[i].size(), " for ", m.c, "\n", t.raw); })) return;
        for (size_t j = 0; j < m.c; ++j) { double v = 0; expect(number(rows[i][j], v) && close(v, m(i, j)), "element shown: " + kind, [&]{ return cat("(", i, ",", j, ") as ", rows[i][j], " instead of ", m(i, j)); }); }
    }
    count("elements shown", m.r * m.c);
}
static size_t lineOf(Text const& t, std::vector<std::string> const& w, size_t from = 0) { for (size_t k = from; k < t.lines.size(); ++k) if (t.lines[k] == w) return k; return std::string::npos; }
static std::vector<std::string> dimension(size_t r, size_t c) { return {"Dimension", "=", std::to_string(r), "x", std::to_string(c)}; }

/// Steps behind the notice that a matrix is too large for printing.
static std::string notice(Text const& t, size_t& at)
{
    for (size_t k = at; k < t.lines.size(); ++k) { std::string l; for (auto const& w : t.lines[k]) l += w + " "; if (l.find("too large") != std::string::npos) { at = k + 1; return l; } }
    return "";
}
template <class T, class P> void judge(Matrix<Dense,T,P> const& A, Text const& t, size_t& at, bool full, std::string const& kind)
{
    Ref m = read(A);
    if (m.r > 100 || m.c > 100) { expect(!notice(t, at).empty(), "no notice: " + kind, t.raw.substr(0, 200)); count("too large"); return; }
    if (full) { size_t k = lineOf(t, dimension(m.r, m.c), at); if (!expect(k != std::string::npos, "dimensions shown: " + kind, t.raw.substr(0, 200))) return; at = k + 1; }
    denseText(t, at, m, kind);
}
template <class T, class P> void judge(Matrix<Sparse,T,P> const& A, Text const& t, size_t& at, bool, std::string const& kind, int precision = 6, bool scientific = false)
{
    Ref m = read(A);
    if (m.r * m.c > 100) { std::string l = notice(t, at); expect(l.find(cat("Size = ", m.r * m.c)) != std::string::npos, "no notice: " + kind, t.raw.substr(0, 200)); count("too large"); return; }
    size_t k = lineOf(t, dimension(m.r, m.c), at); if (!expect(k != std::string::npos, "dimensions shown: " + kind, t.raw.substr(0, 300))) return;
    expect(lineOf(t, {"Size", "=", std::to_string(m.r * m.c)}, at) != std::string::npos, "size shown: " + kind, t.raw.substr(0, 300));
    auto array = [&](char const* name, std::vector<std::string>& v) { for (size_t l = k; l < t.lines.size(); ++l) if (t.lines[l].size() >= 3 && t.lines[l][0] == name && t.lines[l][1] == "array") { v.assign(t.lines[l].begin() + 3, t.lines[l].end()); at = std::max(at, l + 1); return true; } return false; };
    std::vector<std::string> v, key, off;
    if (!expect(array("Value", v) && array("Key", key) && array("Offset", off), "arrays shown: " + kind, t.raw)) return;
    size_t n = size_t(A.end() - A.begin()), o = size_t(A.endOffset() - A.beginOffset());
    // another matrix may follow on the last line
    if (!expect(v.size() == n && key.size() == n && off.size() >= o, "arrays incomplete: " + kind, [&]{ return cat(v.size(), " ", key.size(), " ", off.size(), "\n", t.raw); })) return;
    for (size_t q = 0; q < n; ++q) { std::ostringstream e; e.precision(precision); if (scientific) e << std::scientific; e << A.begin()[long(q)]; double x = 0, w = double(A.begin()[long(q)]);
        expect(number(v[q], x) && (v[q] == e.str() || std::abs(x - w) <= std::abs(w) * std::pow(10.0, 1 - precision)) && key[q] == cat(A.beginKey()[long(q)]), "stored element shown: " + kind, [&]{ return cat(v[q], " at ", key[q], " for ", w); }); }
    for (size_t q = 0; q < o; ++q) expect(off[q] == cat(A.beginOffset()[long(q)]), "offset shown: " + kind, [&]{ return off[q]; });
    count("elements shown", n);
}
template <class P> void judge(Matrix<Zero,NullType,P> const& A, Text const& t, size_t& at, bool, std::string const& kind)
{
    size_t k = lineOf(t, dimension(A.getNbRows(), A.getNbColumns()), at); expect(k != std::string::npos, "dimensions shown: " + kind, t.raw); expect(lineOf(t, {"Size", "=", std::to_string(A.getNbRows() * A.getNbColumns())}, at) != std::string::npos, "size shown: " + kind, t.raw); expect(t.raw.find("Zero") != std::string::npos, "kind shown: " + kind); at = k + 1;
}
template <class A, class B> void judge(MultipleMatrix<A,B> const& M, Text const& t, size_t& at, bool full, std::string const& kind, int precision = 6)
{
    if constexpr (std::is_same<A, SD>::value) judge(M.getMatrix1(), t, at, full, kind + " first", precision); else judge(M.getMatrix1(), t, at, full, kind + " first");
    if constexpr (std::is_same<B, SF>::value) { if (at) --at; judge(M.getMatrix2(), t, at, full, kind + " second", precision); } else judge(M.getMatrix2(), t, at, full, kind + " second");
}

template <class X> void text(size_t n)
{
    std::string const kind = Kind<X>::name();
    group("text of " + kind, n, [&](Rng& r, size_t i) {
        constexpr bool zero = std::is_same<X, ZZ>::value || std::is_same<X, RZZ>::value;
        bool big = i % 12 == 11; size_t nr = big ? size_t(r.in(95, 105)) : dim(r, true, 14), nc = big && r.chance(0.7) ? size_t(r.in(1, 104)) : dim(r, true, 14); if (big && r.chance(0.5)) std::swap(nr, nc); if (big && r.chance(0.4)) { nr = 10; nc = size_t(r.in(9, 12)); }
        Values v; v.exp = int(r.in(-30, 30)); Ref m = zero ? Ref(nr, nc) : gen(r, nr, nc, v);
        if constexpr (std::is_same<X, DD>::value || std::is_same<X, RDD>::value) if (r.chance(0.5)) for (double& e : m.a) if (e != 0) e *= (1 + r.unit()) * std::pow(10.0, double(r.in(-90, 90)));
        X A = make<X>(m, r); Ref before = read(A); bool full = r.chance(0.5); int precision = r.chance(0.5) ? 6 : int(r.in(9, 17));
        doing("text of " + kind); std::string s = show(A, full, precision); Text t = words(s); size_t at = 0;
        if constexpr (std::is_same<X, SD>::value || std::is_same<X, SF>::value || std::is_same<X, RSD>::value || std::is_same<X, MSS>::value || std::is_same<X, MSD>::value) judge(A, t, at, full, kind, precision); else judge(A, t, at, full, kind);
        std::string d = diff(read(A), before); expect(d.empty(), "matrix changed by printing: " + kind, d);
        expect(show(A, full, precision) == s, "text differs when repeated: " + kind);
        saw(mix(hash(kind)) ^ m.hash()); count("texts"); if (full) count("full prints"); if (want_sample()) sample(s.substr(0, 300));
    });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 50; st().tall = true;
    dir = scratch("c23"); std::string file = dir + "/pattern.xpm";

    group("images", 900, [&](Rng& r, size_t i) {
        size_t nr = dim(r, i % 5 == 0, 60), nc = dim(r, i % 5 == 0, 60); Values v; v.exp = int(r.in(-6, 2)); Ref m = gen(r, nr, nc, v, r.chance(0.4) ? 1 : -1);
        if (r.chance(0.4)) for (double& e : m.a) if (e != 0 && r.chance(0.5)) e = r.chance(0.5) ? e * (1 + 1e-6 * (r.unit() - 0.5)) : std::nextafter(e, r.chance(0.5) ? 0 : 2 * e);   // all digits
        Palette p = palette(r, m); PatternGenerator g(settings(p, r)), h(g);
        if (r.chance(0.3)) { std::ofstream o(file); for (int k = 0; k < 3000; ++k) o << "something longer that was there before\n"; }
        DD A = make<DD>(m, r); picture(A, m, p, g, file, "DenseD"); std::string first = slurp(file);
        RDD B = make<RDD>(m, r); picture(B, m, p, h, file, "rDenseD"); expect(slurp(file) == first, "image depends on the storage order");
        Ref n = m; for (double& e : n.a) e = double(float(e * 0.1)); DF C = make<DF>(n, r); picture(C, n, p, g, file, "DenseF"); RDF D = make<RDF>(n, r); picture(D, n, p, g, file, "rDenseF");
        if (nr && nc) { size_t a = r.below(nr), b = r.below(nc), x = 1 + r.below(nr - a), y = 1 + r.below(nc - b); Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> V(A, x, y, a, b); picture(V, window(m, a, b, x, y), p, g, file, "view");
            Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> W(B, x, y, a, b); picture(W, window(m, a, b, x, y), p, g, file, "row-major view"); count("images of views", 2); }
        if (!nr || !nc) count("images of empty matrices");
        if (m.nnz()) saw(m.hash() ^ mix(hash(p.bi + p.bc))); if (want_sample()) sample(slurp(file).substr(0, 400));
    });

    text<DD>(300); text<DF>(150); text<RDD>(150); text<RDF>(80); text<SD>(300); text<SF>(150); text<RSD>(150); text<ZZ>(60); text<RZZ>(30); text<MSS>(150); text<MSD>(200);

    group("runtime kinds", 350, [](Rng& r, size_t i) {
        size_t k = i % nbKinds; Ref m = k ? gen(r, dim(r, true, 14), dim(r, true, 14), Values()) : Ref(dim(r, true, 14), dim(r, true, 14)); DynamicMatrix A = makeDyn(m, r, k); bool full = r.chance(0.5); doing("text of a runtime kind");
        std::string s = show(A, full), w;
        switch (k) { case 0: w = show(static_cast<ZZ&>(*A), full); break; case 1: w = show(static_cast<SF&>(*A), full); break; case 2: w = show(static_cast<DF&>(*A), full); break; case 3: w = show(static_cast<SD&>(*A), full); break; case 4: w = show(static_cast<MSS&>(*A), full); break; case 5: w = show(static_cast<MSD&>(*A), full); break; default: w = show(static_cast<DD&>(*A), full); }
        expect(s == w, cat("text of a runtime kind ", k), [&]{ return s + " instead of " + w; }); expect(readDyn(A).m.hash() == m.hash(), "matrix changed by printing");
        DynamicMatrix none; expect(!show(none, full).empty(), "text of no matrix"); count("runtime kinds shown"); saw(m.hash() ^ mix(k));
    });

    // The mode belongs to the stream, and lasts.
    group("several on one stream", 150, [](Rng& r, size_t) {
        std::ostringstream o; bool full = false; std::vector<std::pair<Ref, bool>> want; doing("several on one stream"); std::string pieces; 
        for (size_t k = 0; k < 6; ++k) {
            if (r.chance(0.4)) { full = !full; if (full) o << fullprint; else o << shortprint; }
            Ref m = gen(r, 1 + r.below(5), 1 + r.below(5), Values()); o << make<DD>(m, r); want.push_back({m, full});
        }
        Text t = words(o.str()); size_t at = 0; Rng q(1);
        for (auto const& w : want) { DD A = make<DD>(w.first, q); size_t next = at; while (next < t.lines.size() && t.lines[next].empty()) ++next; bool named = next < t.lines.size() && t.lines[next][0].find("Matrix<") == 0; expect(named == w.second, "print mode of a stream", t.raw.substr(0, 300)); judge(A, t, at, w.second, "one of several"); count("texts on one stream"); }
        saw(hash(o.str()));
    });

    unlink(file.c_str()); rmdir(dir.c_str());
    return finish();
}
