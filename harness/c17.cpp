// C17: importing a matrix from files is exact or fails loudly.
#include "bb.h"
#include "faults.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
#include <dirent.h>
#include <fstream>
#include <limits>
#include <sys/stat.h>
using namespace vh;

static std::string dir;
static std::string slurp(std::string const& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(std::string const& f, std::string const& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
static size_t openFiles() { size_t n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }

/// The stored numbers: any bit patterns, all different from each other.
template <class T> struct File { size_t r, c; std::vector<T> a; T operator()(size_t i, size_t j) const { return a[j * r + i]; }
    std::string bytes() const { return std::string(reinterpret_cast<char const*>(a.data()), a.size() * sizeof(T)); } };
template <class T> File<T> stored(Rng& r, size_t nr, size_t nc)
{
    File<T> f{nr, nc, std::vector<T>(nr * nc)};
    for (size_t k = 0; k < f.a.size(); ++k) {
        if (r.chance(0.05)) { T const s[] = {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), T(-0.0), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), T(0)}; f.a[k] = s[r.below(7)]; }
        else f.a[k] = T(k + 1) + T(r.unit());
    }
    return f;
}
struct Window { size_t r, c, i, j; };
template <class T> std::string differ(Matrix<Dense,T> const& A, File<T> const& f, Window const& w)
{
    if (A.getNbRows() != w.r || A.getNbColumns() != w.c || A.getSize() != w.r * w.c) return cat(A.getNbRows(), "x", A.getNbColumns(), " instead of ", w.r, "x", w.c);
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) { T x = A(i, j), y = f(w.i + i, w.j + j); if (memcmp(&x, &y, sizeof x)) return cat("(", i, ",", j, ") is ", x, " instead of ", y); }
    return "";
}
template <class T> std::string differ(Matrix<Dense,T> const& A, Matrix<Dense,T> const& B)
{
    if (A.getNbRows() != B.getNbRows() || A.getNbColumns() != B.getNbColumns()) return "shape"; for (size_t k = 0; k < A.getSize(); ++k) if (memcmp(&A.begin()[long(k)], &B.begin()[long(k)], sizeof(T))) return cat("element ", k); return "";
}

static std::string field(std::string const& name, std::string const& v) { return "<" + name + ">" + v + "</" + name + ">\n"; }
/// The name of the file comes last: everything missing behind a cut leaves no file to read.
static std::string descriptor(Rng& r, std::vector<std::pair<std::string, std::string>> f, std::string const& data)
{
    for (size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[r.below(k)]);
    std::string s = r.chance(0.7) ? "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n" : ""; if (r.chance(0.2)) s += "<!-- a matrix -->\n";
    for (auto const& x : f) s += field(x.first, (r.chance(0.1) ? " " : "") + x.second + (r.chance(0.1) ? " " : "")); return s + field("filename", data);
}
static std::vector<std::pair<std::string, std::string>> fields(Window const& w, size_t lr, size_t lc, Rng& r)
{
    std::vector<std::pair<std::string, std::string>> v = {{"nbRows", std::to_string(w.r)}, {"nbColumns", std::to_string(w.c)}, {"rowLeadingDimension", std::to_string(lr)}, {"columnLeadingDimension", std::to_string(lc)}};
    if (w.i || r.chance(0.7)) v.push_back({"rowOffset", std::to_string(w.i)}); if (w.j || r.chance(0.7)) v.push_back({"columnOffset", std::to_string(w.j)}); return v;
}
template <class F> bool refused(F const& f) { try { f(); return false; } catch (std::exception const&) { return true; } }

/// Files and descriptors stay what they are, nothing stays open or allocated.
struct Watch {
    std::vector<std::pair<std::string, std::string>> files; std::vector<struct stat> st; size_t open, bytes; long entries;
    explicit Watch(std::vector<std::string> const& f) { for (auto const& x : f) { files.push_back({x, slurp(x)}); struct stat s; memset(&s, 0, sizeof s); stat(x.c_str(), &s); st.push_back(s); } entries = list(); open = openFiles(); bytes = alloc::bytes(); }
    static long list() { long n = 0; if (DIR* d = opendir(dir.c_str())) { while (readdir(d)) ++n; closedir(d); } return n; }
    void judge(std::string const& k, bool memory) {
        size_t now = alloc::bytes(); if (memory) { expect(now == bytes, "memory stays allocated after a failed import: " + k, [&]{ return cat(long(now) - long(bytes), " bytes"); }); count("failed imports accounted"); }
        expect(openFiles() == open, "file left open: " + k); expect(list() == entries, "import makes or removes files: " + k);
        for (size_t q = 0; q < files.size(); ++q) { struct stat s; memset(&s, 0, sizeof s); stat(files[q].first.c_str(), &s); expect(slurp(files[q].first) == files[q].second && s.st_mtim.tv_sec == st[q].st_mtim.tv_sec && s.st_mtim.tv_nsec == st[q].st_mtim.tv_nsec && s.st_ino == st[q].st_ino, "file changed by the import: " + k); }
    }
};

/// The two ways into a matrix from an XML descriptor.
template <class T> Matrix<Dense,T> import(int way, std::string const& xml, Matrix<Dense,T> const& used)
{
    if (way == 0) return Matrix<Dense,T>(filesystem::path(xml));
    std::ifstream i(xml); Matrix<Dense,T> A = way == 1 ? Matrix<Dense,T>() : used; i >> A; return A;
}

template <class T> void windows(std::string const& kind)
{
    std::string const xml = dir + "/m.xml", data = dir + "/m.dat";
    group("windows " + kind, 1200, [&](Rng& r, size_t i) {
        size_t lr = dim(r, i % 9 == 0, 30), lc = dim(r, i % 9 == 0, 30); File<T> f = stored<T>(r, lr, lc); Window w{lr, lc, 0, 0};
        switch (r.below(5)) { case 0: break; case 1: w.r = r.below(lr + 1); w.i = lr - w.r; break; case 2: w.c = r.below(lc + 1); w.j = lc - w.c; break; default: w.r = r.below(lr + 1); w.c = r.below(lc + 1); w.i = r.below(lr - w.r + 1); w.j = r.below(lc - w.c + 1); }
        spit(data, f.bytes()); auto v = fields(w, lr, lc, r); spit(xml, descriptor(r, v, data)); Watch watch({xml, data}); std::string k = kind;
        for (int way = 0; way < 3; ++way) {
            doing("import " + k); Matrix<Dense,T> used(r.below(7), r.below(7), AllFiller<T>(3)); if (r.chance(0.3)) used = Matrix<Dense,T>(w.r, w.c, AllFiller<T>(3)); double before = double(used.getNorm());
            try { Matrix<Dense,T> A = import<T>(way, xml, used); std::string d = differ(A, f, w); expect(d.empty(), "imported matrix: " + k, [&]{ return cat(d, " of window ", w.i, ",", w.j, " of ", lr, "x", lc); }); count("imports"); if (w.r < lr || w.c < lc) count("imports of windows"); if (A.getSize() == 0) count("imports of empty matrices"); }
            catch (std::exception const& e) { fail("valid descriptor refused: " + k, cat(e.what(), "\n", slurp(xml))); }
            if (way == 2) { std::ifstream s(xml); s >> used; double n = 0, now = double(used.getNorm()); bool finite = true; for (auto x : used) { finite = finite && std::abs(double(x)) < 1e15; n += double(x) * double(x); } if (finite) { expect(std::abs(now - std::sqrt(n)) <= 1e-4 * (1 + std::sqrt(n)), "norm after the import: " + k, [&]{ return cat(now, " instead of ", std::sqrt(n), ", before ", before); }); count("norms after an import"); } }
        }
        if (w.r && w.c) { // into memory of the caller
            std::vector<T> mem(w.r * w.c, T(7)); Matrix<Dense,T> A(w.r, w.c, mem.data()); std::ifstream s(xml); doing("import into memory of the caller " + k); s >> A; std::string d = differ(A, f, w); expect(d.empty() && A.getDataPointer() == mem.data(), "imported into memory of the caller: " + k, d); count("imports into memory of the caller");
            Matrix<Dense,T> B(w.r, 1, mem.data()); if (w.c > 1) { std::vector<T> was = mem; std::ifstream s2(xml); expect(refused([&]{ s2 >> B; }) && memcmp(was.data(), mem.data(), mem.size() * sizeof(T)) == 0 && B.getNbColumns() == 1, "import into too little memory of the caller: " + k); count("imports refused"); } }
        watch.judge(k, false); saw(hash(slurp(xml) + f.bytes())); if (want_sample()) sample(slurp(xml));
    });

    // Data files of several GiB, mostly holes: a window lies where it lies.
    group("large files " + kind, 12, [&](Rng& r, size_t i) {
        size_t most = (size_t(1) << (i % 3 == 0 ? 31 : i % 3 == 1 ? 32 : 34)) / sizeof(T), lr = 1 + r.below(i % 2 ? 3000 : 2000000), lc = most / lr + 2 + r.below(9), total = lr * lc;
        size_t nr = 1 + r.below(std::min<size_t>(lr, 5)), nc = 1 + r.below(4); Window w{nr, nc, r.below(lr - nr + 1), lc - nc - r.below(2)};
        File<T> part = stored<T>(r, nr, nc); // what the window shows; around it different numbers
        int fd = open(data.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); bool made = fd >= 0 && ftruncate(fd, off_t(total * sizeof(T))) == 0;
        for (size_t c = 0; made && c < nc; ++c) made = pwrite(fd, &part.a[c * nr], nr * sizeof(T), off_t(((w.j + c) * lr + w.i) * sizeof(T))) == ssize_t(nr * sizeof(T));
        if (fd >= 0) close(fd);
        if (!made) { unlink(data.c_str()); count("large files that could not be made"); return; }
        spit(xml, descriptor(r, fields(w, lr, lc, r), data)); Window all{nr, nc, 0, 0};
        for (int way = 0; way < 3; ++way) {
            doing("import from a large file " + kind); Matrix<Dense,T> used(2, 3, AllFiller<T>(3));
            try { Matrix<Dense,T> A = import<T>(way, xml, used); std::string d = differ(A, part, all); expect(d.empty(), "imported from a large file: " + kind, [&]{ return cat(d, " of window ", w.i, ",", w.j, " of ", lr, "x", lc); }); count("imports from files of more than 2 GiB"); }
            catch (std::exception const& e) { fail("valid descriptor refused: large file " + kind, cat(e.what(), "\n", slurp(xml))); }
        }
        // one byte too short for the window
        size_t needed = ((w.j + nc - 1) * lr + w.i + nr) * sizeof(T);
        if (truncate(data.c_str(), off_t(needed - 1)) == 0) { Matrix<Dense,T> used(2, 3, AllFiller<T>(3)); int way = int(r.below(3)); doing("truncated large file " + kind); expect(refused([&]{ import<T>(way, xml, used); }), "missing data go unnoticed: large file " + kind); count("truncations noticed"); }
        unlink(data.c_str()); saw(mix(total) ^ mix(w.i * 1000003 + w.j));
    });

    // The data end at every byte.
    group("truncated data " + kind, 150, [&](Rng& r, size_t i) {
        size_t lr = 1 + r.below(6), lc = 1 + r.below(6); File<T> f = stored<T>(r, lr, lc); Window w{1 + r.below(lr), 1 + r.below(lc), 0, 0}; if (r.chance(0.3)) w = {lr, lc, 0, 0}; w.i = r.below(lr - w.r + 1); w.j = r.below(lc - w.c + 1);
        std::string all = f.bytes(); size_t needed = ((w.j + w.c - 1) * lr + w.i + w.r) * sizeof(T); spit(xml, descriptor(r, fields(w, lr, lc, r), data));
        for (size_t n = 0; n <= all.size(); n += all.size() > 200 ? 1 + r.below(5) : 1) {
            spit(data, all.substr(0, n)); int way = int(r.below(3)); Matrix<Dense,T> used(2, 3, AllFiller<T>(3)), was = used; Watch watch({xml, data}); std::ifstream s(xml); doing("truncated data " + kind);
            bool bad = refused([&]{ if (way == 2) s >> used; else { Matrix<Dense,T> A = import<T>(way, xml, used); std::string d = differ(A, f, w); expect(d.empty(), "truncated data give another matrix: " + kind, [&]{ return cat(n, " of ", all.size(), " bytes: ", d); }); } }); s.close();
            if (n < needed) { expect(bad, "missing data go unnoticed: " + kind, [&]{ return cat(n, " of ", needed, " needed bytes"); }); count("truncations noticed"); if (way == 2) { std::string d = differ(used, was); expect(d.empty(), "matrix changed by a failed import: " + kind, d); } }
            else if (!bad && way == 2) { std::string d = differ(used, f, w); expect(d.empty(), "truncated data give another matrix: " + kind, d); } else if (n == all.size()) expect(!bad, "complete data refused: " + kind);
            watch.judge(kind, false);
        }
        saw(hash(all) ^ mix(w.r * 100 + w.c)); (void)i;
    });

    // The descriptor ends at every byte, misses, or contradicts itself.
    group("damaged descriptors " + kind, 250, [&](Rng& r, size_t i) {
        size_t lr = 1 + r.below(9), lc = 1 + r.below(9); File<T> f = stored<T>(r, lr, lc); Window w{1 + r.below(lr), 1 + r.below(lc), 0, 0}; w.i = r.below(lr - w.r + 1); w.j = r.below(lc - w.c + 1); spit(data, f.bytes());
        auto v = fields(w, lr, lc, r); std::string s = descriptor(r, v, data); Matrix<Dense,T> was(2, 3, AllFiller<T>(3));
        auto attempt = [&](std::string const& t, bool may, char const* what) {
            spit(xml, t); int way = int(r.below(3)); Matrix<Dense,T> used = was; Watch watch({xml, data}); std::ifstream in(xml); doing(std::string(what) + " " + kind); Matrix<Dense,T> A; bool bad = refused([&]{ if (way == 2) in >> used; else A = import<T>(way, xml, used); });
            if (bad) { std::string d = differ(used, was); expect(d.empty(), "matrix changed by a failed import: " + kind, d); count(std::string(what) + " noticed"); }
            else { std::string d = differ(way == 2 ? used : A, f, w); expect(may && d.empty(), cat(what, " goes unnoticed: ", kind), [&]{ return d + "\n" + t; }); }
            in.close(); watch.judge(kind, false); };
        switch (i % 5) {
            case 0: { // a cut behind the last field leaves all there is to know
                size_t complete = s.rfind("</filename>") + 11; for (size_t n = 0; n < s.size(); ++n) attempt(s.substr(0, n), n >= complete, "truncated descriptor"); break; }
            case 1: for (auto const& x : v) { // numbers that do not fit, one at a time
                auto with = [&](std::string const& num) { auto u = v; for (auto& y : u) if (y.first == x.first) y.second = num; return descriptor(r, u, data); };
                size_t n = strtoull(x.second.c_str(), nullptr, 10); bool off = x.first.find("Offset") != std::string::npos, row = x.first.find("row") == 0 || x.first == "nbRows"; size_t room = row ? lr - w.r - w.i : lc - w.c - w.j;
                if (x.first.find("Leading") == std::string::npos) { attempt(with(std::to_string(n + room + 1)), false, "window outside the data"); attempt(with(std::to_string(size_t(-1) - r.below(20))), false, "window outside the data"); attempt(with(std::to_string((size_t(1) << 63) + r.below(9))), false, "window outside the data"); }
                else { if (w.r + w.i > 0) attempt(with(std::to_string((row ? w.r + w.i : w.c + w.j) - 1)), false, "window outside the data"); attempt(with("0"), false, "window outside the data"); }
                for (char const* bad : {"x", "", "-", "1.5.2", "99999999999999999999999999", "0x"}) attempt(with(bad), false, "field that is no number"); (void)off; } break;
            case 2: for (auto const& x : v) if (x.first.find("Leading") != std::string::npos) { auto u = v; u.erase(std::find(u.begin(), u.end(), x)); attempt(descriptor(r, u, data), false, "missing field"); } attempt("", false, "empty descriptor"); attempt(descriptor(r, v, dir + "/none"), false, "missing data file"); attempt(descriptor(r, v, dir), false, "directory as data file"); attempt(descriptor(r, v, ""), false, "missing data file"); break;
            case 3: { std::string t = s; size_t a = t.find("<nb"); t.erase(a, 1); attempt(t, false, "malformed descriptor"); t = s; t.erase(t.find("</nb"), 2); attempt(t, false, "malformed descriptor"); t = s; t.insert(t.find("</nb") + 2, "x"); attempt(t, true, "malformed descriptor"); t = s; for (char& c : t) if (r.chance(0.1)) c = char(r.next()); if (t.find("</filename>") == std::string::npos) attempt(t, false, "malformed descriptor"); break; }
            default: // absurd dimensions that agree with each other
                for (int q = 0; q < 8; ++q) { size_t big = size_t(1) << (30 + r.below(33)), other = r.chance(0.5) ? big : 1 + r.below(1000); if (r.chance(0.5)) std::swap(big, other); Window x{r.chance(0.5) ? big : w.r, r.chance(0.5) ? other : w.c, 0, 0}; if (!x.r || !x.c || x.r > big || x.c > other || ((long double)(x.c - 1) * (long double)big + (long double)x.r) * sizeof(T) <= (long double)(lr * lc * sizeof(T))) continue; attempt(descriptor(r, fields(x, big, other, r), data), false, "absurd dimensions"); }
        }
        expect(refused([&]{ Matrix<Dense,T> A(filesystem::path(dir + "/none.xml")); }), "missing descriptor goes unnoticed: " + kind); saw(hash(s));
    });
}

int main(int argc, char** argv)
{
    init(argc, argv);
    dir = scratch("c17"); std::string const txt = dir + "/m.txt", data = dir + "/m.dat", xml = dir + "/m.xml", spaced = dir + "/my data.dat";

    windows<double>("double"); windows<float>("float");

    group("importer", 800, [&](Rng& r, size_t i) {
        size_t nr = dim(r, i % 9 == 0, 30), nc = dim(r, i % 9 == 0, 30); File<double> f = stored<double>(r, nr, nc); bool space = r.chance(0.2); std::string const& file = space ? spaced : data; spit(file, f.bytes());
        std::string gap = r.chance(0.5) ? " " : "\n", t = std::to_string(nr) + gap + std::to_string(nc) + gap + (space || r.chance(0.2) ? "\"" + file + "\"" : file) + (r.chance(0.5) ? "\n" : ""); spit(txt, t); Watch watch({txt, file}); doing("importer");
        try { MatrixFileImporter a{filesystem::path(txt)}; expect(a.getNbRows() == nr && a.getNbColumns() == nc, "dimensions of the importer");
            for (int k = 0; k < 2; ++k) { Matrix<Dense,double> A = a(); std::string d = differ(A, f, Window{nr, nc, 0, 0}); expect(d.empty(), "imported matrix", d); count("imports"); }
            std::unique_ptr<MatrixFactory> p(new MatrixFileImporter(a)); std::string d = differ((*p)(), f, Window{nr, nc, 0, 0}); expect(d.empty(), "imported by a copy", d); }
        catch (std::exception const& e) { fail("valid descriptor refused: importer", cat(e.what(), "\n", t)); }
        watch.judge("importer", false); saw(hash(t + f.bytes())); if (want_sample()) sample(t);
    });
    group("damaged files of the importer", 150, [&](Rng& r, size_t i) {
        size_t nr = 1 + r.below(12), nc = 1 + r.below(12); File<double> f = stored<double>(r, nr, nc); std::string all = f.bytes(), t = cat(nr, " ", nc, " ", data, "\n"); spit(data, all);
        auto attempt = [&](std::string const& u, bool may, char const* what) { spit(txt, u); doing(what); Watch watch({txt, data}); Matrix<Dense,double> A; bool bad = refused([&]{ A = MatrixFileImporter(filesystem::path(txt))(); }); std::string d = bad ? "" : differ(A, f, Window{nr, nc, 0, 0}); expect(bad || (may && d.empty()), cat(what, " goes unnoticed: importer"), [&]{ return d + "\n" + u; }); if (bad) count(std::string(what) + " noticed"); watch.judge("importer", false); };
        if (i % 3 == 0) for (size_t n = 0; n < t.size(); ++n) attempt(t.substr(0, n), n >= t.size() - 1, "truncated descriptor");
        else if (i % 3 == 1) for (size_t n = 0; n < all.size(); n += 1 + r.below(all.size() / 100 + 1)) { spit(data, all.substr(0, n)); attempt(t, false, "truncated data"); }
        else { for (std::string u : {std::string(""), cat("x ", nc, " ", data), cat(nr, " y ", data), cat(nr, " ", nc, " ", dir, "/none"), cat(nr, " ", nc, " ", dir), cat(nr + 1, " ", nc, " ", data), cat(nr, " ", nc + 1, " ", data), cat("-", nr, " ", nc, " ", data), cat(nr, " -", nc, " ", data), cat(size_t(-1), " ", nc, " ", data), cat(nr, " ", size_t(1) << 62, " ", data), cat(size_t(1) << 31, " ", size_t(1) << 31, " ", data), cat(size_t(1) << 61, " ", 8 * nc, " ", data), cat("99999999999999999999999 ", nc, " ", data), cat(nr, ".5 ", nc, " ", data), cat(data, " ", nr, " ", nc)}) attempt(u, false, "malformed descriptor");
            expect(refused([&]{ MatrixFileImporter a(filesystem::path(dir + "/none")); }), "missing descriptor goes unnoticed: importer"); expect(refused([&]{ MatrixFileImporter a{filesystem::path(dir)}; }), "directory as descriptor goes unnoticed: importer"); spit(txt, t); MatrixFileImporter a{filesystem::path(txt)}; unlink(data.c_str()); expect(refused([&]{ a(); }), "data file removed in between: importer"); }
        saw(hash(t + all));
    });

    // Failed imports give everything back.
    group("memory after failed imports", 200, [&](Rng& r, size_t) {
        size_t nr = 1 + r.below(20), nc = 1 + r.below(20); File<double> f = stored<double>(r, nr, nc); std::string all = f.bytes(); spit(data, all.substr(0, r.below(all.size()))); spit(txt, cat(nr, " ", nc, " ", data)); std::string s = descriptor(r, fields(Window{nr, nc, 0, 0}, nr, nc, r), data); if (r.chance(0.3)) s = s.substr(0, r.below(s.size() - 12)); spit(xml, s);
        DD used(3, 3, AllFiller<double>(1)); auto go = [&](int k) { try { if (k == 0) { MatrixFileImporter a{filesystem::path(txt)}; a(); } else if (k == 1) DD A{filesystem::path(xml)}; else { std::ifstream i(xml); i >> used; } return false; } catch (std::exception const&) { return true; } };
        static bool warm = false; if (!warm) for (int k = 0; k < 3; ++k) go(k); warm = true;
        for (int k = 0; k < 3; ++k) { doing("memory after failed imports"); Watch watch({data}); bool bad; size_t a = alloc::bytes(); bad = go(k); size_t b = alloc::bytes(); expect(bad, "damage goes unnoticed"); expect(a == b, cat("memory stays allocated after a failed import: ", k), [&]{ return cat(b - a, " bytes"); }); count("failed imports accounted"); watch.judge("memory", false); }
        saw(hash(s + all));
    });

    for (auto const& f : {txt, data, xml, spaced}) unlink(f.c_str()); rmdir(dir.c_str());
    return finish();
}
