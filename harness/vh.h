// Common part of all harness programs: cases, seeds, monitors' verdicts, coverage.
//
// A program declares groups of cases. Every case gets its own random stream derived
// from (seed, group, index), so that a single case can be replayed with
//     program --only group:index --seed N
// A monitor reports a broken expectation with vh::fail(key, detail...); the program
// keeps going. The current case is kept in a shared mapping, so the runner knows which
// case was executing when a sanitizer ended the process, and resumes after it.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hash(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

/// A new scratch directory; below the runner's, which removes it even if the program is ended.
inline std::string scratch(char const* name)
{
    char const* t = std::getenv("TMPDIR");
    std::string d = std::string(t && *t ? t : "/tmp") + "/scratch-" + name + "-XXXXXX"; // no prefix of it names a file
    if (!mkdtemp(&d[0])) { std::fprintf(stderr, "no scratch directory\n"); std::exit(3); }
    return d;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    /// inclusive bounds
    int64_t in(int64_t lo, int64_t hi) { return lo + int64_t(next() % uint64_t(hi - lo + 1)); }
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
    bool chance(double p) { return unit() < p; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class V> auto const& pick(V const& v) { return v[below(v.size())]; }
};

struct Shared { char text[512]; };

struct State
{
    std::string name;
    uint64_t seed = 1;
    double scale = 1.0;
    bool thorough = false;
    std::string only_group; long only_index = -1;
    std::string from_group; long from_index = -1; bool skipping = false;
    std::string out, marker;
    Shared* shared = nullptr;
    std::string group; size_t index = 0;
    std::string what;
    // Every stretch-th case uses long lines (1) or, if huge, many elements (2) or, if tall, a line of more than 65536 elements (3).
    size_t stretch = 0; bool huge = false, tall = false, tallUsed = false; int mode = 0;

    uint64_t evaluations = 0, checks = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::vector<std::string>> samples;
    struct Viol { uint64_t n = 0; std::string where, detail; };
    std::map<std::string, Viol> viols;
    int verbose = 0;
};

inline State& st() { static State s; return s; }

inline void mark()
{
    State& s = st();
    if (s.shared) snprintf(s.shared->text, sizeof s.shared->text, "%s\t%zu\t%s", s.group.c_str(), s.index, s.what.c_str());
}

/// Names what the case is about to do; part of the key if a sanitizer stops it.
inline void doing(std::string const& what) { st().what = what; mark(); }

inline void count(std::string const& name, uint64_t n = 1) { st().counters[name] += n; }

/// A distinct non-trivial case was seen.
inline void saw(uint64_t h) { if (st().distinct.size() < 4000000) st().distinct.insert(h); }
inline void saw(std::string const& s) { saw(hash(s)); }

inline bool want_sample(size_t cap = 2) { return st().samples[st().group].size() < cap; }
inline void sample(std::string const& s) { auto& v = st().samples[st().group]; if (v.size() < 2) v.push_back(s.substr(0, 600)); }

inline void fail(std::string const& key, std::string const& detail)
{
    State& s = st();
    auto& v = s.viols[key];
    if (!v.n++) {
        v.where = s.group + ":" + std::to_string(s.index);
        v.detail = detail.substr(0, 2000);
        fprintf(stderr, "FAIL %s [%s] %s\n", key.c_str(), v.where.c_str(), v.detail.c_str());
    }
}

/// A monitor's question; counts as an observation.
template <class F, class = decltype(std::declval<F const&>()())>
inline bool expect(bool ok, std::string const& key, F const& detail)
{
    ++st().checks;
    if (!ok) fail(key, detail());
    return ok;
}
inline bool expect(bool ok, std::string const& key, std::string const& detail = "")
{
    ++st().checks;
    if (!ok) fail(key, detail);
    return ok;
}

template <class... A> std::string cat(A const&... a)
{
    std::ostringstream o; o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}

inline void on_alarm(int)
{
    static const char m[] = "HANG: case exceeded its CPU time\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(78);
}

inline void cpu_limit(long seconds)
{
    struct itimerval t{}; t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline void group(std::string const& name, size_t nb, std::function<void(Rng&, size_t)> const& body, bool scaled = true, long cpu = 120)
{
    State& s = st();
    if (!s.only_group.empty() && s.only_group != name) return;
    if (s.skipping && s.from_group != name) return;
    size_t n = scaled ? size_t(std::ceil(double(nb) * s.scale)) : nb;
    size_t first = 0;
    if (s.skipping) { first = size_t(s.from_index); s.skipping = false; }
    s.group = name;
    for (size_t i = first; i < n; ++i) {
        if (s.only_index >= 0 && long(i) != s.only_index) continue;
        s.index = i; s.what.clear(); mark();
        s.mode = 0; s.tallUsed = false;
        if (s.stretch && i % s.stretch == s.stretch - 1) { size_t t = (i / s.stretch) % 4; s.mode = s.tall && (t == 1 || (!s.huge && t == 3)) ? 3 : s.huge && (t == 3 || (!s.tall && t == 1)) ? 2 : 1; }
        if (s.mode) count(s.mode == 3 ? "cases with a line of more than 65536 elements" : s.mode == 2 ? "cases with more than 65536 elements" : "cases with long lines");
        cpu_limit(cpu);
        Rng r(mix(s.seed * 0x100000001b3ull + hash(name)) + mix(i));
        ++s.evaluations;
        try { body(r, i); }
        catch (std::exception const& e) { fail("exception " + s.what, cat(typeid(e).name(), ": ", e.what())); }
        catch (...) { fail("exception " + s.what, "unknown exception"); }
    }
    cpu_limit(0); s.mode = 0;
}

inline std::string json(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

inline void init(int argc, char** argv)
{
    State& s = st();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
        auto split = [](std::string const& v, std::string& g, long& k) {
            auto p = v.rfind(':'); g = v.substr(0, p); k = p == std::string::npos ? -1 : atol(v.c_str() + p + 1); };
        if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--scale") s.scale = atof(val().c_str());
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--only") split(val(), s.only_group, s.only_index);
        else if (a == "--from") { split(val(), s.from_group, s.from_index); s.skipping = true; }
        else if (a == "--out") s.out = val();
        else if (a == "--marker") s.marker = val();
        else if (a == "-v") s.verbose = 1;
    }
    if (!s.marker.empty()) {
        int fd = open(s.marker.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.shared = static_cast<Shared*>(p);
        }
        if (fd >= 0) close(fd);
    }
    signal(SIGPROF, on_alarm);
}

inline int finish()
{
    State& s = st();
    s.group = "end"; s.index = 0; s.what = "end"; mark();
    std::string o = "{\"evaluations\":" + std::to_string(s.evaluations) + ",\"checks\":" + std::to_string(s.checks) +
        ",\"distinct\":" + std::to_string(s.distinct.size()) + ",\"counters\":{";
    bool first = true;
    for (auto const& c : s.counters) { o += (first ? "" : ",") + json(c.first) + ":" + std::to_string(c.second); first = false; }
    o += "},\"samples\":["; first = true;
    for (auto const& g : s.samples) for (auto const& t : g.second) { o += (first ? "" : ",") + json(g.first + ": " + t); first = false; }
    o += "],\"violations\":["; first = true;
    for (auto const& v : s.viols) {
        o += std::string(first ? "" : ",") + "{\"key\":" + json(v.first) + ",\"n\":" + std::to_string(v.second.n) +
            ",\"where\":" + json(v.second.where) + ",\"detail\":" + json(v.second.detail) + "}";
        first = false;
    }
    o += "]}\n";
    if (!s.out.empty()) { if (FILE* f = fopen(s.out.c_str(), "w")) { fputs(o.c_str(), f); fclose(f); } }
    else fputs(o.c_str(), stdout);
    return 0;
}

} // namespace vh
