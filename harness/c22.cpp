// C22: saved objects load back unchanged, and files are never clobbered by accident.
#include "bb.h"
#include "faults.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Utilities/BoostSerializePath.h"
#include "BlasBooster/Utilities/FileIO.h"
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <dirent.h>
#include <fstream>
#include <limits>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace vh;

static std::string dir, file;
static std::string slurp(std::string const& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(std::string const& f, std::string const& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
static size_t openFiles() { size_t n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }

// ---------------------------------------------------------------- objects
template <class T> static T number(Rng& r, bool special)
{
    if constexpr (std::is_floating_point<T>::value) {
        using L = std::numeric_limits<T>;
        if (special && r.chance(0.2)) { T const s[] = {L::infinity(), -L::infinity(), L::quiet_NaN()}; return s[r.below(3)]; }
        switch (r.below(5)) {
            case 0: return T(r.in(-9, 9));
            case 1: { T const s[] = {T(0), T(-0.0), L::min(), L::max(), L::lowest(), T(1) + L::epsilon(), T(0.1), T(1) / T(3)}; return s[r.below(8)]; }
            case 2: if (special) { T const s[] = {L::denorm_min(), -L::denorm_min(), L::min() / 2}; return s[r.below(3)]; } return T(r.unit());
            default: { uint64_t b = r.next(); T x; memcpy(&x, &b, sizeof x); if (!std::isnormal(x) && !special) x = T(r.unit()); return x; }
        }
    } else return T(r.chance(0.3) ? r.next() : uint64_t(r.in(-9, 9)));
}
template <class T> static bool same(T a, T b) { return (a != a && b != b) || memcmp(&a, &b, sizeof a) == 0; }

template <class T, class P> std::string differ(Matrix<Dense,T,P> const& A, Matrix<Dense,T,P> const& B)
{
    if (A.getNbRows() != B.getNbRows() || A.getNbColumns() != B.getNbColumns() || A.getSize() != B.getSize()) return cat(A.getNbRows(), "x", A.getNbColumns(), " (", A.getSize(), ") instead of ", B.getNbRows(), "x", B.getNbColumns());
    if (A.getSize()) for (size_t i = 0; i < size_t(A.getNbRows()); ++i) for (size_t j = 0; j < size_t(A.getNbColumns()); ++j) if (!same(T(A(i, j)), T(B(i, j)))) return cat("(", i, ",", j, ") is ", A(i, j), " instead of ", B(i, j));
    if (size_t(A.end() - A.begin()) != A.getSize()) return "storage has another size";
    return "";
}
template <class T> std::string differ(Storage<T,false,false,0> const& a, Storage<T,false,false,0> const& b)
{
    if (a.size() != b.size()) return cat(a.size(), " instead of ", b.size()); for (size_t k = 0; k < a.size(); ++k) if (!same(a.begin()[long(k)], b.begin()[long(k)])) return cat("element ", k); return "";
}
template <class T, size_t N> std::string differ(Storage<T,false,true,N> const& a, Storage<T,false,true,N> const& b) { for (size_t k = 0; k < N; ++k) if (!same(a.begin()[long(k)], b.begin()[long(k)])) return cat("element ", k); return ""; }
template <class T, class I> std::string differ(SparseStorage<T,I,false,0> const& a, SparseStorage<T,I,false,0> const& b)
{
    if (a.nnz() != b.nnz() || a.sizeOffset() != b.sizeOffset() || a.endKey() - a.beginKey() != b.endKey() - b.beginKey()) return cat(a.nnz(), " elements ", a.sizeOffset(), " offsets");
    for (long k = 0; k < long(a.nnz()); ++k) if (!same(a.begin()[k], b.begin()[k])) return cat("element ", k);
    for (long k = 0; k < long(a.endKey() - a.beginKey()); ++k) if (a.beginKey()[k] != b.beginKey()[k]) return cat("index ", k);
    for (long k = 0; k < long(a.sizeOffset()); ++k) if (a.beginOffset()[k] != b.beginOffset()[k]) return cat("offset ", k); return "";
}
struct Box : SparseStorage<double,size_t,false,0> {};

/// An object made of several others.
struct Project {
    std::string title; boost::filesystem::path where; std::vector<Matrix<Dense,double>> matrices; std::map<int, double> settings; Matrix<Dense,float> extra; unsigned char on = 0; long id = 0;
    template <class A> void serialize(A& ar, unsigned) { using boost::serialization::make_nvp; ar & make_nvp("title", title); ar & make_nvp("where", where); ar & make_nvp("matrices", matrices); ar & make_nvp("settings", settings); ar & make_nvp("extra", extra); ar & make_nvp("on", on); ar & make_nvp("id", id); }
};
static std::string differ(Project const& a, Project const& b)
{
    if (a.title != b.title) return "title " + a.title + " instead of " + b.title; if (a.where != b.where) return "path " + a.where.string() + " instead of " + b.where.string();
    if (a.matrices.size() != b.matrices.size()) return "number of matrices"; for (size_t k = 0; k < a.matrices.size(); ++k) { auto d = differ(a.matrices[k], b.matrices[k]); if (!d.empty()) return cat("matrix ", k, ": ", d); }
    if (!std::equal(a.settings.begin(), a.settings.end(), b.settings.begin(), b.settings.end(), [](auto const& x, auto const& y) { return x.first == y.first && same(x.second, y.second); }) || a.on != b.on || a.id != b.id) return "settings"; return differ(a.extra, b.extra);
}
template <class T> std::string differ(std::vector<T> const& a, std::vector<T> const& b) { if (a.size() != b.size()) return "length"; for (size_t k = 0; k < a.size(); ++k) { auto d = differ(a[k], b[k]); if (!d.empty()) return cat(k, ": ", d); } return ""; }
static std::string differ(boost::filesystem::path const& a, boost::filesystem::path const& b) { return a == b ? "" : a.string() + " instead of " + b.string(); }

template <class X> struct Make;
template <class T, class P> struct Make<Matrix<Dense,T,P>> { static Matrix<Dense,T,P> get(Rng& r, bool sp, size_t large = 40) { size_t a = std::min(large, dim(r, true, std::max<size_t>(large, 14))), b = std::min(large, dim(r, true, std::max<size_t>(large, 14))); Matrix<Dense,T,P> A(a, b); for (auto& x : A) x = number<T>(r, sp); return A; } };
template <class T> struct Make<Storage<T,false,false,0>> { static Storage<T,false,false,0> get(Rng& r, bool sp, size_t = 0) { Storage<T,false,false,0> A(r.below(60)); for (auto& x : A) x = number<T>(r, sp); return A; } };
template <class T, size_t N> struct Make<Storage<T,false,true,N>> { static Storage<T,false,true,N> get(Rng& r, bool sp, size_t = 0) { Storage<T,false,true,N> A; for (auto& x : A) x = number<T>(r, sp); return A; } };
template <> struct Make<SparseStorage<double,size_t,false,0>> { static SparseStorage<double,size_t,false,0> get(Rng& r, bool sp, size_t = 0) { size_t n = r.below(30), m = 1 + r.below(9); SparseStorage<double,size_t,false,0> A(n, m); for (auto i = A.begin(); i != A.end(); ++i) *i = number<double>(r, sp); for (auto i = A.beginKey(); i != A.endKey(); ++i) *i = r.below(50); for (auto i = A.beginOffset(); i != A.endOffset(); ++i) *i = r.below(n + 1); return A; } };
static std::string words(Rng& r) { std::string const c = "abc xyz<>&\"'/\\.;=_-0123456789[]{}!\n\t"; std::string s; for (size_t k = r.below(30); k; --k) s += r.pick(c); return s; }
template <> struct Make<boost::filesystem::path> { static boost::filesystem::path get(Rng& r, bool, size_t = 0) { std::string s = words(r); for (char& c : s) if (isspace(c)) c = '+'; return s; } };
template <> struct Make<Project> { static Project get(Rng& r, bool sp, size_t large = 12) { Project p; p.title = words(r); p.where = Make<boost::filesystem::path>::get(r, sp); for (size_t k = r.below(4); k; --k) p.matrices.push_back(Make<Matrix<Dense,double>>::get(r, sp, large)); for (size_t k = r.below(4); k; --k) p.settings[int(r.in(-99, 99))] = double(r.in(-99, 99)) / 7; p.extra = Make<Matrix<Dense,float>>::get(r, sp, large); p.on = (unsigned char)r.below(200); p.id = r.in(-99999, 99999); return p; } };
template <class T> struct Make<std::vector<T>> { static std::vector<T> get(Rng& r, bool sp, size_t large = 12) { std::vector<T> v; for (size_t k = r.below(5); k; --k) v.push_back(Make<T>::get(r, sp, large)); return v; } };

// ---------------------------------------------------------------- two formats
struct Xml { static char const* name() { return "XML"; } static constexpr bool special = false;
    template <class T> static void write(T& x, std::string const& n, std::string const& f) { writeXML(x, n, f); }
    template <class T> static void write(T& x, std::string const& n, std::string const& f, bool o) { writeXML(x, n, f, o); }
    template <class T> static void read(T& x, std::string const& n, std::string const& f) { readXML(x, n, f); } };
struct Bin { static char const* name() { return "binary"; } static constexpr bool special = true;
    template <class T> static void write(T& x, std::string const& n, std::string const& f) { writeBinary(x, n, f); }
    template <class T> static void write(T& x, std::string const& n, std::string const& f, bool o) { writeBinary(x, n, f, o); }
    template <class T> static void read(T& x, std::string const& n, std::string const& f) { readBinary(x, n, f); } };

/// Ends in an exception.
template <class F> bool refused(F const& f) { try { f(); return false; } catch (std::exception const&) { return true; } }

template <class F, class X> void objects(std::string const& kind, size_t n)
{
    std::string const k = cat(F::name(), " ", kind);
    auto tag = [](Rng& r) { std::string const c = "abcdefghijklmnopqrstuvwxyzABCDEFXYZ_"; std::string s; for (size_t q = 1 + r.below(12); q; --q) s += r.pick(c); return s; };

    group("round trip " + k, n, [&](Rng& r, size_t i) {
        X A = Make<X>::get(r, F::special), before = A; std::string t = tag(r); unlink(file.c_str());
        if (r.chance(0.4)) spit(file, std::string(r.below(20000), 'x'));
        doing("writing " + k); if (r.chance(0.5)) F::write(A, t, file); else { bool there = access(file.c_str(), F_OK) == 0; F::write(A, t, file, there || r.chance(0.5)); }
        std::string d = differ(A, before); expect(d.empty(), "object changed by writing: " + k, d);
        std::string bytes = slurp(file);
        for (int pass = 0; pass < 3; ++pass) {
            doing("reading " + k); X B = pass ? Make<X>::get(r, F::special) : X(); if (pass == 2) B = A;
            if (refused([&]{ F::read(B, t, file); })) { fail("object cannot be read: " + k, bytes.substr(0, 300)); continue; }
            d = differ(B, before); expect(d.empty(), cat("object changed by the round trip: ", k, pass ? " into a used object" : ""), d);
            X C = B; d = differ(C, before); expect(d.empty(), "copy of a loaded object: " + k, d); count("round trips");
        }
        expect(slurp(file) == bytes, "file changed by reading: " + k);
        std::string again = file + "2"; F::write(A, t, again); expect(slurp(again) == bytes, "the same object is written in different ways: " + k); unlink(again.c_str());
        saw(hash(k + bytes)); if (want_sample(1)) sample(bytes.substr(0, 200));
    });

    group("overwriting " + k, n / 4 + 1, [&](Rng& r, size_t) {
        X A = Make<X>::get(r, F::special); std::string t = tag(r), old; unlink(file.c_str());
        if (r.chance(0.5)) { X B = Make<X>::get(r, F::special); F::write(B, t, file); } else spit(file, r.chance(0.2) ? "" : words(r));
        old = slurp(file); struct stat a, b; stat(file.c_str(), &a); doing("refusing to overwrite " + k);
        expect(refused([&]{ F::write(A, t, file, false); }), "an existing file is overwritten without permission: " + k);
        stat(file.c_str(), &b); expect(slurp(file) == old && a.st_ino == b.st_ino && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec && a.st_mtim.tv_sec == b.st_mtim.tv_sec, "an existing file is touched by a refused write: " + k);
        // the same file under another name
        std::string other = file + "l"; unlink(other.c_str()); bool soft = r.chance(0.6); if (soft) expect(symlink(file.c_str(), other.c_str()) == 0, "no link"); else expect(link(file.c_str(), other.c_str()) == 0, "no link");
        expect(refused([&]{ F::write(A, t, other, false); }), "an existing file is overwritten through a link without permission: " + k);
        expect(slurp(file) == old && slurp(other) == old, "an existing file is changed by a refused write through a link: " + k); unlink(other.c_str()); count("overwrites through links refused");
        count("overwrites refused");
        doing("overwriting " + k); F::write(A, t, file, true); X B = Make<X>::get(r, F::special); F::read(B, t, file); std::string d = differ(B, A); expect(d.empty(), "after overwriting: " + k, d);
        unlink(file.c_str()); F::write(A, t, file, false); X C; F::read(C, t, file); d = differ(C, A); expect(d.empty(), "after writing a new file: " + k, d);
        expect(refused([&]{ F::write(A, t, dir, false); }), "a directory is overwritten: " + k); count("overwrites", 2); saw(hash(k + slurp(file)));
    });

    group("missing and unwritable " + k, n / 8 + 1, [&](Rng& r, size_t) {
        X A = Make<X>::get(r, F::special), before = A; std::string none = dir + "/none"; doing("missing " + k); size_t open = openFiles();
        expect(refused([&]{ F::read(A, "x", none); }), "a missing file is read: " + k); expect(refused([&]{ F::read(A, "x", none + "/none"); }), "a missing directory is read: " + k); expect(refused([&]{ F::read(A, "x", dir); }), "a directory is read: " + k);
        expect(access(none.c_str(), F_OK) != 0, "reading makes a file: " + k);
        expect(refused([&]{ F::write(A, "x", none + "/none"); }), "writing into a missing directory succeeds: " + k); expect(refused([&]{ F::write(A, "x", dir, true); }), "writing to a directory succeeds: " + k); expect(refused([&]{ F::write(A, "x", "/dev/full"); }), "writing to a full device succeeds: " + k);
        std::string d = differ(A, before); expect(d.empty(), "object changed by a failure: " + k, d); expect(openFiles() == open, "file left open by a failure: " + k); count("failures", 6); saw(r.next());
    });

    // The device is full after some bytes.
    group("full device " + k, n / 2 + 1, [&](Rng& r, size_t i) {
        X A = Make<X>::get(r, F::special, i % 2 ? 90 : 12); std::string t = tag(r); unlink(file.c_str()); F::write(A, t, file); std::string whole = slurp(file); unlink(file.c_str());
        size_t room = r.chance(0.2) ? whole.size() - 1 - r.below(std::min<size_t>(60, whole.size() - 1)) : r.chance(0.2) ? whole.size() : r.below(whole.size());
        signal(SIGXFSZ, SIG_IGN); struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); struct rlimit now = old; now.rlim_cur = room; doing("full device " + k); setrlimit(RLIMIT_FSIZE, &now); size_t open = openFiles();
        bool bad = refused([&]{ F::write(A, t, file); });
        setrlimit(RLIMIT_FSIZE, &old); expect(openFiles() == open, "file left open by a failure: " + k); count("writes with limited room");
        if (room < whole.size()) { expect(bad, "incomplete file goes unnoticed: " + k, [&]{ return cat(room, " of ", whole.size(), " bytes, file has ", slurp(file).size()); }); count("writes without enough room"); }
        else expect(!bad && slurp(file) == whole, "write into sufficient room fails: " + k);
        saw(hash(k + whole) ^ room);
    });

    // Every prefix of small files, some prefixes of large ones.
    group("truncated " + k, n / 10 + 1, [&](Rng& r, size_t i) {
        X A = Make<X>::get(r, F::special, i % 2 ? 40 : 6); std::string t = tag(r); unlink(file.c_str()); F::write(A, t, file); std::string whole = slurp(file); X U = Make<X>::get(r, F::special, 8);
        size_t step = whole.size() > 1500 ? whole.size() / 300 : 1, open = openFiles();
        for (size_t n = r.below(step); n < whole.size(); n += step) {
            spit(file, whole.substr(0, n)); X B = U; doing("truncated " + k); bool bad = refused([&]{ F::read(B, t, file); }); count("truncated files");
            if (bad) { if constexpr (!std::is_same<X, Project>::value && !std::is_same<X, std::vector<Matrix<Dense,double>>>::value && !std::is_same<X, SparseStorage<double,size_t,false,0>>::value && !std::is_same<X, Storage<double,false,true,17>>::value) { std::string d = differ(B, U); if (!d.empty() && differ(B, A).empty()) { count("truncations behind the data"); d = ""; } expect(d.empty(), "object changed by a failed read: " + k, d); } X C = B; B = A; std::string d = differ(B, A); expect(d.empty(), "object unusable after a failed read: " + k, d); count("truncations noticed"); }
            else { std::string d = differ(B, A); expect(d.empty(), "truncated file is read as something else: " + k, [&]{ return cat(n, " of ", whole.size(), " bytes: ", d); }); count("truncations behind the data"); }
        }
        expect(openFiles() == open, "file left open by a failure: " + k); saw(hash(k + whole));
    });

    // Whatever the file holds: an exception, or an object that can be used.
    group("damaged " + k, n, [&](Rng& r, size_t i) {
        X A = Make<X>::get(r, F::special, i % 2 ? 20 : 6); std::string t = tag(r); unlink(file.c_str()); F::write(A, t, file); std::string s = slurp(file);
        // The XML reader of boost itself does not stand arbitrary changes of the tags.
        auto text = [&]{ std::vector<size_t> v; bool in = false; for (size_t q = 0; q < s.size(); ++q) { if (s[q] == '<') in = true; else if (s[q] == '>') in = false; else if (!in && s[q] >= '0' && s[q] <= '9') v.push_back(q); } return v; };
        if (!F::special) { auto v = text(); switch (r.below(3)) {
            case 0: for (size_t q : v) if (r.chance(0.05)) s[q] = char('0' + r.below(10)); break;
            case 1: if (!v.empty()) s[r.pick(v)] = "-.e+"[r.below(4)]; break;
            default: if (!v.empty()) s.insert(r.pick(v), std::to_string(r.next())); }
        } else switch (r.below(7)) {
            case 0: for (size_t q = 1 + r.below(4); q; --q) s[r.below(s.size())] ^= char(1 << r.below(8)); break;
            case 1: for (size_t q = 1 + r.below(8); q; --q) s[r.below(s.size())] = char(r.next()); break;
            case 2: { size_t a = r.below(s.size()); s.erase(a, 1 + r.below(9)); break; }
            case 3: s.insert(r.below(s.size()), std::string(1 + r.below(9), char(r.next()))); break;
            case 4: s += s.substr(r.below(s.size())); break;
            case 5: s = std::string(r.below(400), ' '); for (char& c : s) c = char(r.next()); break;
            default: { size_t a = r.below(s.size()); for (size_t q = a; q < a + 8 && q < s.size(); ++q) s[q] = r.chance(0.5) ? char(0xff) : char(r.below(3)); } }
        spit(file, s); X U = Make<X>::get(r, F::special, 8), B = U; doing("damaged " + k); size_t open = openFiles(); bool bad = refused([&]{ F::read(B, t, file); }); expect(openFiles() == open, "file left open by a failure: " + k);
        count("damaged files"); if (bad) count("damages noticed"); { X C = B; std::string d = differ(C, B); expect(d.empty(), "object unusable after reading a damaged file: " + k, d); } B = A; std::string d = differ(B, A); expect(d.empty(), "object unusable after reading a damaged file: " + k, d);
        saw(hash(k + s));
    });
}

int main(int argc, char** argv)
{
    init(argc, argv);
    dir = scratch("c22"); file = dir + "/object";
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);

#if PART == 0
    objects<Bin, DD>("DenseD", 500); objects<Bin, RDD>("rDenseD", 300); objects<Bin, DF>("DenseF", 300); objects<Bin, RDF>("rDenseF", 200); objects<Bin, Matrix<Dense,int>>("Dense<int>", 100); objects<Bin, Matrix<Dense,long>>("Dense<long>", 100);
    objects<Bin, Storage<double,false,false,0>>("storage", 150); objects<Bin, Storage<double,false,true,17>>("fixed storage", 100); objects<Bin, SparseStorage<double,size_t,false,0>>("sparse storage", 150); objects<Bin, boost::filesystem::path>("path", 100); objects<Bin, std::vector<DD>>("list", 150); objects<Bin, Project>("project", 200);
#else
    objects<Xml, DD>("DenseD", 250); objects<Xml, RDD>("rDenseD", 150); objects<Xml, DF>("DenseF", 150); objects<Xml, RDF>("rDenseF", 100); objects<Xml, Matrix<Dense,int>>("Dense<int>", 50); objects<Xml, Matrix<Dense,long>>("Dense<long>", 50);
    objects<Xml, Storage<double,false,false,0>>("storage", 80); objects<Xml, Storage<double,false,true,17>>("fixed storage", 50); objects<Xml, SparseStorage<double,size_t,false,0>>("sparse storage", 80); objects<Xml, boost::filesystem::path>("path", 80); objects<Xml, std::vector<DD>>("list", 80); objects<Xml, Project>("project", 100);
    group("other format", 100, [](Rng& r, size_t) { DD A = Make<DD>::get(r, false), B(1, 1); doing("other format"); writeXML(A, "mine", file); expect(refused([&]{ readBinary(B, "mine", file); }), "XML is read as binary"); writeBinary(A, "mine", file); expect(refused([&]{ readXML(B, "mine", file); }), "binary is read as XML"); expect(refused([&]{ readXML(B, "mine", "/dev/null"); }), "nothing is read as XML"); count("other formats"); saw(r.next()); });
#endif
    // Answers about the norm describe what was loaded.
    group("questions after loading", 150, [](Rng& r, size_t) { Values v; Ref m = gen(r, dim(r), dim(r), v), w = gen(r, dim(r), dim(r), v); DD A = make<DD>(m, r), B = make<DD>(w, r); double n = B.getNorm(); doing("norm after loading"); if (PART) { writeXML(A, "a", file); readXML(B, "a", file); } else { writeBinary(A, "a", file); readBinary(B, "a", file); } expect(std::abs(B.getNorm() - A.getNorm()) <= 1e-12 * A.getNorm(), "norm after loading", [&]{ return cat(B.getNorm(), " instead of ", A.getNorm(), " before ", n); }); count("questions after loading"); saw(m.hash()); });

    unlink(file.c_str()); rmdir(dir.c_str());
    return finish();
}
