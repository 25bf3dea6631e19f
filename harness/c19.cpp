// C19: every BLAS wrapper forwards faithfully to the routine of its name.
//   PART 0  OpenBLAS interface, the BLAS symbols replaced by recorders
//   PART 1  Intel MKL interface, likewise
//   PART 2  OpenBLAS interface against the library itself
#include "vh.h"
#include <complex>
#include <fstream>
#include <memory>
#include <tuple>
#include <type_traits>
#include "c19_table.h"
#if PART == 1
#include "BlasBooster/BlasInterface/BlasInterface_IntelMKL.h"
#else
#include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
#endif
#ifndef REPO_DIR
#define REPO_DIR "/repo"
#endif
using namespace vh;

namespace BlasBooster {
#if PART == 1
struct IntelMKL; using Library = IntelMKL; void IntelMKL_set_num_threads(int);
inline void set_threads(int n) { IntelMKL_set_num_threads(n); }
#else
struct OpenBLAS; using Library = OpenBLAS; void OpenBLAS_set_num_threads(int);
inline void set_threads(int n) { OpenBLAS_set_num_threads(n); }
#endif
#define X(ret, name, pars, args) struct name;
BLAS_TABLE(X) ZDOT_TABLE(X) SPBLAS_TABLE(X)
#undef X
}

using C = std::complex<float>; using Z = std::complex<double>;

//---------------------------------------------------------------- what the table asks for
template <class W, class = void> struct Complete : std::false_type {};
template <class W> struct Complete<W, std::void_t<decltype(sizeof(W))>> : std::true_type {};

template <class F, class = void> struct Named { static std::string get() { return "<none>"; } };
template <class F> struct Named<F, std::void_t<decltype(F::name())>> { static std::string get() { return F::name(); } };

template <class W, class R, class L, class = void> struct Callable : std::false_type {};
template <class W, class R, class... A>
struct Callable<W, R, std::tuple<A...>, std::void_t<decltype(std::declval<W const&>()(std::declval<A>()...))>>
    : std::is_same<R, decltype(std::declval<W const&>()(std::declval<A>()...))> {};

template <class T> using Bare = std::remove_const_t<std::remove_pointer_t<T>>;

static float noise(Rng& r) { return float(r.in(-64, 64)) / 8 + float(r.in(1, 7)) / 16; }
template <class T> void fill(Rng& r, T& t) {
    if constexpr (std::is_same_v<T, C> || std::is_same_v<T, Z>) t = T(noise(r), noise(r));
    else if constexpr (std::is_same_v<T, char>) t = char(r.in('A', 'Z'));
    else if constexpr (std::is_same_v<T, int>) t = int(r.in(1, 9));
    else t = T(noise(r));
}

static bool in(std::string const& s, std::initializer_list<char const*> l) { for (auto x : l) if (s == x) return true; return false; }

#if PART < 2
//---------------------------------------------------------------- recorders
struct Seen { std::string name; std::vector<void const*> args; };
static std::vector<Seen> seen;
static unsigned char answer[16];

template <class R> R record(char const* name, std::initializer_list<void const*> a)
{
    seen.push_back({name, a});
    if constexpr (!std::is_void_v<R>) { R r; memcpy(static_cast<void*>(&r), answer, sizeof r); return r; }
}
template <class R> void result(void* p) { memcpy(p, answer, sizeof(R)); }

struct ByValue { int n, incx, incy; };
static ByValue by_value; static bool have_values;

#define STRIP(...) __VA_ARGS__
#define X(ret, name, pars, args) extern "C" ret name##_ pars { return record<ret>(#name, {STRIP args}); }
BLAS_TABLE(X)
#undef X
extern "C" {
#if PART == 0
// the dot products may be reached by the Fortran or by the C interface
#define X(ret, name, pars, args) ret name##_ pars { return record<ret>(#name, {STRIP args}); } \
    void cblas_##name##_sub(int n, const void* x, int incx, const void* y, int incy, void* r) { \
        by_value = {n, incx, incy}; have_values = true; seen.push_back({#name, {nullptr, x, nullptr, y, nullptr}}); result<ret>(r); }
ZDOT_TABLE(X)
#undef X
void openblas_set_num_threads(int n) { seen.push_back({"set_num_threads " + std::to_string(n), {}}); }
#else
// here the result is the hidden first argument
#define X(ret, name, pars, args) void name##_(void* r, void const* a0, void const* a1, void const* a2, void const* a3, void const* a4) { \
        record<void>(#name, {a0, a1, a2, a3, a4}); result<ret>(r); }
ZDOT_TABLE(X)
#undef X
#define X(ret, name, pars, args) ret mkl_##name pars { return record<ret>(#name, {STRIP args}); }
SPBLAS_TABLE(X)
#undef X
void MKL_Set_Dynamic(int n) { seen.push_back({"set_dynamic " + std::to_string(n), {}}); }
void MKL_Set_Num_Threads(int n) { seen.push_back({"set_num_threads " + std::to_string(n), {}}); }
#endif
}

/// factors like 0, 1, -1 and hostile ones
static void scalar(Rng& r, unsigned char* p, int size, bool single)
{
    static double const odd[] = {0, 1, -1, -0.0, 1e-310, 1e300, INFINITY, NAN, 2, 0.5};
    for (int at = 0; at < size; at += single ? 4 : 8) {
        double v = odd[r.below(10)]; float f = float(v);
        if (single) memcpy(p + at, &f, 4); else memcpy(p + at, &v, 8);
    }
}

static std::string show(std::vector<void const*> const& v, std::vector<void const*> const& mine)
{
    std::string s;
    for (auto p : v) {
        size_t i = 0; while (i < mine.size() && mine[i] != p) ++i;
        s += i < mine.size() ? " #" + std::to_string(i) : p ? " other" : " null";
    }
    return s;
}

template <class F, class R, class... A> void ask(std::string const& name, Rng& r, R (*)(A...))
{
    using namespace BlasBooster;
    using W = BlasInterface<Library, F>;
    doing(name);
    if constexpr (!Complete<W>::value) fail("no wrapper", name);
    else if constexpr (!Callable<W, R, std::tuple<A...>>::value) fail("wrapper has another signature", name);
    else {
        count("routines");
        constexpr size_t N = sizeof...(A);
        constexpr size_t room = 64;                       // bytes per argument, all of it watched
        std::vector<unsigned char> arena(room * N + 64);
        unsigned char* base = arena.data() + (64 - reinterpret_cast<uintptr_t>(arena.data()) % 64) % 64;
        for (auto& b : arena) b = static_cast<unsigned char>(r.next());
        size_t sizes[N] = {sizeof(Bare<A>)...};
        bool is_single[N] = {(std::is_same_v<Bare<A>, float> || std::is_same_v<Bare<A>, C>)...};
        bool is_int[N] = {std::is_same_v<Bare<A>, int>...}, is_char[N] = {std::is_same_v<Bare<A>, char>...};
        for (size_t i = 0; i < N; ++i) {
            if (is_int[i]) {
                static int const odd[] = {0, 1, -1, 16, 64, 255, 256, 1000, 4096, 32767, 65536, 1 << 20, 1 << 30, INT32_MAX, INT32_MIN, -4096};
                int v = r.chance(0.5) ? int(r.in(-9, 9)) : odd[r.below(16)];
                memcpy(base + room * i, &v, sizeof v);
            }
            else if (is_char[i]) base[room * i] = "NTCULRnt"[r.below(8)];
            else if (r.chance(0.6)) scalar(r, base + room * i, static_cast<int>(sizes[i]), is_single[i]);
        }
        std::vector<void const*> mine;
        // now and then two arguments of the same type share their memory
        size_t a = r.chance(0.2) ? r.below(N) : 0, b = r.chance(0.2) ? r.below(N) : 0;
        for (size_t i = 0; i < N; ++i) mine.push_back(base + room * i);
        if (is_int[a] == is_int[b] && is_char[a] == is_char[b]) { if (a != b) count("aliased arguments"); mine[a] = mine[b]; }
        for (auto& c : answer) c = static_cast<unsigned char>(r.next());
        if constexpr (!std::is_void_v<R>) if (r.chance(0.5)) { R v; Bare<R*> t; fill(r, t); v = t; memcpy(answer, static_cast<void*>(&v), sizeof v); }
        auto before = arena;
        seen.clear(); have_values = false;
        W const w{};
        unsigned char got[16] = {};
        size_t k = 0; auto next = [&](auto* tag) { return static_cast<decltype(tag)>(const_cast<void*>(mine[k++])); };
        std::tuple<A...> args{next(static_cast<A>(nullptr))...};
        if constexpr (std::is_void_v<R>) std::apply(w, args);
        else { R v = std::apply(w, args); memcpy(got, static_cast<void*>(&v), sizeof v); }
        std::string s; for (auto const& c : seen) s += c.name + "(" + show(c.args, mine) + " ) ";
        count("calls");
        if (!expect(seen.size() == 1, "not one call", cat(name, " made ", seen.size(), " calls: ", s))) return;
        expect(seen[0].name == name, "another routine", cat(name, " called ", s));
        if (have_values) {
            auto at = [&](size_t i) { int v; memcpy(&v, mine[i], sizeof v); return v; };
            expect(by_value.n == at(0) && by_value.incx == at(2) && by_value.incy == at(4), "other arguments", name);
            for (size_t i : {1, 3}) expect(seen[0].args[i] == mine[i], "other arguments", [&] { return cat(name, s); });
        } else expect(seen[0].args == mine, "other arguments", [&] { return cat(name, " passed ", s); });
        if constexpr (!std::is_void_v<R>) { count("results"); expect(!memcmp(got, answer, sizeof(R)), "another result", name); }
        expect(arena == before, "touches its arguments", name);
        std::string key = name; for (size_t i = 0; i < N; ++i) if (is_int[i] || is_char[i]) key += " " + std::to_string(base[room * i]);
        saw(key);
        if (want_sample()) sample(s);
    }
    expect(Named<F>::get() == name, "name", [&] { return cat("the routine ", name, " is named ", Named<F>::get()); });
}
#else
//---------------------------------------------------------------- the library itself
#define X(ret, name, pars, args) extern "C" ret name##_ pars;
BLAS_TABLE(X) ZDOT_TABLE(X)
#undef X
extern "C" int openblas_get_num_threads();

/// the values of a character argument by its place in the routine
static char flag(std::string const& name, size_t place, Rng& r)
{
    std::string f = name.substr(1);
    bool cplx = name[0] == 'c' || name[0] == 'z';
    std::string side = "LRlr", uplo = "ULul", diag = "NUnu", tran = "NTCntc";
    std::string rank = cplx ? (f[0] == 'h' ? "NCnc" : "NTnt") : "NTCntc";
    std::string v;
    if (in(f, {"gemm", "gemm3m"})) v = tran;
    else if (in(f, {"symm", "hemm"})) v = place == 0 ? side : uplo;
    else if (in(f, {"syrk", "syr2k", "herk", "her2k"})) v = place == 0 ? uplo : rank;
    else if (in(f, {"trmm", "trsm"})) v = place == 0 ? side : place == 1 ? uplo : place == 2 ? tran : diag;
    else if (in(f, {"gemv", "gbmv"})) v = tran;
    else if (f[0] == 't') v = place == 0 ? uplo : place == 1 ? tran : diag;
    else v = uplo;
    return v[r.below(v.size())];
}

constexpr size_t Elems = 320, Bytes = Elems * 16;
struct Args {
    unsigned char* mem; size_t n;
    explicit Args(size_t n_) : n(n_) { mem = static_cast<unsigned char*>(aligned_alloc(4096, (n * Bytes + 4095) / 4096 * 4096)); memset(mem, 0, n * Bytes); }
    Args(Args const& o) : Args(o.n) { memcpy(mem, o.mem, n * Bytes); }
    ~Args() { free(mem); }
    template <class T> T* at(size_t i) { return reinterpret_cast<T*>(mem + i * Bytes); }
};

template <class T> void array(Rng& r, T* p) { for (size_t i = 0; i < Bytes / sizeof(T); ++i) fill(r, p[i]); }

/// plain references for the routines that return a number
template <class T> long double one(T v) { if constexpr (std::is_same_v<T, C> || std::is_same_v<T, Z>) return fabsl(v.real()) + fabsl(v.imag()); else return fabsl(v); }
template <class T> std::complex<long double> wide(T v) { if constexpr (std::is_same_v<T, C> || std::is_same_v<T, Z>) return {v.real(), v.imag()}; else return {(long double)v, 0}; }
template <class T> T const& nth(T const* p, int n, int inc, int i) { return p[inc >= 0 ? i * inc : (n - 1 - i) * -inc]; }

template <class R, class T> bool reference(std::string const& name, int n, T const* x, int incx, T const* y, int incy, R got, long double extra, std::string& why)
{
    std::complex<long double> want = 0; long double size = 1;
    auto has = [&](char const* s) { return name.find(s) != std::string::npos; };
    if (has("cabs1")) want = one(*x);
    else if (has("asum")) { if (incx > 0) for (int i = 0; i < n; ++i) want += one(nth(x, n, incx, i)); }
    else if (has("nrm2")) { if (incx > 0) for (int i = 0; i < n; ++i) want += std::norm(wide(nth(x, n, incx, i))); want = sqrtl(want.real()); }
    else if (has("amax") || has("amin")) {
        if (incx <= 0 || n <= 0) want = 0;
        else {
            long double best = one(x[0]); int at = 0;
            for (int i = 1; i < n; ++i) { auto v = one(nth(x, n, incx, i)); if (has("amax") ? v > best : v < best) best = v, at = i; }
            want = at + 1;
        }
    }
    else if (has("dot")) {
        for (int i = 0; i < n; ++i) {
            auto a = wide(nth(x, n, incx, i)), b = wide(nth(y, n, incy, i));
            if (has("dotc")) a = std::conj(a);
            want += a * b; size += std::abs(a * b);
        }
        want += extra;
    }
    else return true;
    if (incx < 0 && !has("dot")) return true;     // releases differ
    long double off = std::abs(wide(got) - want);
    if (off <= 1e-5l * (size + std::abs(want))) return true;
    why = cat(double(want.real()), ",", double(want.imag()), " expected, off by ", double(off));
    return false;
}

template <class F, class R, class... A> void ask(std::string const& name, Rng& r, R (*direct)(A...))
{
    using namespace BlasBooster;
    using W = BlasInterface<Library, F>;
    doing(name);
    if constexpr (!Complete<W>::value) fail("no wrapper", name);
    else if constexpr (!Callable<W, R, std::tuple<A...>>::value) fail("wrapper has another signature", name);
    else {
        count("routines");
        constexpr size_t N = sizeof...(A);
        bool constant[N] = {std::is_const_v<std::remove_pointer_t<A>>...};
        Args one_(N);
        size_t i = 0, chars = 0; bool floats = false; std::string key = name;
        std::vector<int> ints; bool vectors = name.size() && in(name.substr(1), {"axpy", "axpby", "copy", "dot", "dsdot", "sdot", "rot", "rotm", "swap", "scal", "asum", "nrm2", "dotc", "dotu", "sscal", "dscal", "casum", "zasum", "cnrm2", "znrm2", "srot", "drot"});
        auto set = [&](auto* tag) {
            using T = Bare<decltype(tag)>;
            T* p = one_.template at<T>(i);
            if constexpr (std::is_same_v<T, char>) { *p = flag(name, chars++, r); key += *p; }
            else if constexpr (std::is_same_v<T, int>) {
                int v = !floats ? int(r.chance(0.1) ? 0 : r.in(1, 4)) : int(r.in(9, 12));
                if (floats && vectors && r.chance(0.3)) v = -v;
                *p = v; key += " " + std::to_string(v); ints.push_back(v);
            } else { floats = true; array(r, p); if (r.chance(0.15)) fill(r, *p = T(0)); }
            ++i; return 0;
        };
        (void)std::initializer_list<int>{set(static_cast<A>(nullptr))...};
        if (name == "srotm" || name == "drotm") {
            double f = double(r.in(-2, 1));
            if (name[0] == 's') *one_.at<float>(5) = float(f); else *one_.at<double>(5) = f;
        }
        Args two(one_), orig(one_);
        std::vector<unsigned char> got(16), want(16);
        auto call = [&](auto const& f, Args& a, std::vector<unsigned char>& out) {
            size_t k = 0; auto next = [&](auto* tag) { return a.template at<Bare<decltype(tag)>>(k++); };
            std::tuple<A...> t{next(static_cast<A>(nullptr))...};
            if constexpr (std::is_void_v<R>) std::apply(f, t);
            else { R v = std::apply(f, t); memcpy(out.data(), static_cast<void*>(&v), sizeof v); }
        };
        W const w{};
        call(direct, two, want);
        call(w, one_, got);
        count("calls");
        bool changed = false;
        for (size_t k = 0; k < N; ++k) {
            expect(!memcmp(one_.mem + k * Bytes, two.mem + k * Bytes, Bytes), "another output", [&] { return cat(name, " argument ", k, key); });
            if (constant[k]) expect(!memcmp(one_.mem + k * Bytes, orig.mem + k * Bytes, Bytes), "an input is changed", [&] { return cat(name, " argument ", k); });
            else changed |= memcmp(one_.mem + k * Bytes, orig.mem + k * Bytes, Bytes) != 0;
        }
        if (changed) count("calls with output");
        if constexpr (!std::is_void_v<R>) {
            count("results");
            expect(got == want, "another result", [&] { return cat(key); });
            R v; memcpy(static_cast<void*>(&v), got.data(), sizeof v);
            std::string why; bool ok = true;
            using L = std::tuple<A...>;
            if constexpr (N == 1) { using T = Bare<std::tuple_element_t<0, L>>; ok = reference<R, T>(name, 1, orig.at<T>(0), 1, nullptr, 1, v, 0, why); }
            else if constexpr (N == 3) { using T = Bare<std::tuple_element_t<1, L>>; ok = reference<R, T>(name, ints[0], orig.at<T>(1), ints[1], nullptr, 1, v, 0, why); }
            else if constexpr (N == 5) { using T = Bare<std::tuple_element_t<1, L>>; ok = reference<R, T>(name, ints[0], orig.at<T>(1), ints[1], orig.at<T>(3), ints[2], v, 0, why); }
            else if constexpr (N == 6) { using T = Bare<std::tuple_element_t<2, L>>; ok = reference<R, T>(name, ints[0], orig.at<T>(2), ints[1], orig.at<T>(4), ints[2], v, *orig.at<float>(1), why); }
            expect(ok, "wrong result", [&] { return cat(key, ": ", why); });
        }
        saw(key);
        if (want_sample()) sample(key);
    }
    expect(Named<F>::get() == name, "name", [&] { return cat("the routine ", name, " is named ", Named<F>::get()); });
}
#endif

//---------------------------------------------------------------- the documented list
static std::string squeeze(std::string s) { std::string o; for (char c : s) if (!isspace(static_cast<unsigned char>(c))) o += c; return o; }
static std::string types(std::string pars)
{
    std::string o, w; int depth = 0;
    for (char c : pars + ",") {
        if (c == '<') ++depth;
        if (c == '>') --depth;
        if (c == ',' && !depth) { auto p = w.rfind('*'); o += squeeze(w.substr(0, p)) + ";"; w.clear(); }
        else if (c != '(' && c != ')') w += c;
    }
    return o;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    using namespace BlasBooster;
#if PART < 2
#define X(ret, name, pars, args) group(#name, 60, [](Rng& r, size_t) { using Fn = ret pars; ask<BlasBooster::name>(#name, r, static_cast<Fn*>(nullptr)); });
#else
#define X(ret, name, pars, args) group(#name, 60, [](Rng& r, size_t) { ask<BlasBooster::name>(#name, r, &::name##_); });
#endif
    BLAS_TABLE(X) ZDOT_TABLE(X)
#if PART == 1
    SPBLAS_TABLE(X)
#endif
#undef X

    group("threads", 12, [](Rng& r, size_t) {
        int n = int(r.in(1, 4));
        doing("set_num_threads");
#if PART == 2
        set_threads(n);
        expect(openblas_get_num_threads() == n, "number of threads", cat(n, " asked, ", openblas_get_num_threads()));
        set_threads(1);
#else
        seen.clear(); set_threads(n);
        size_t k = 0; for (auto const& s : seen) k += s.name == "set_num_threads " + std::to_string(n);
        expect(k == 1 && seen.back().name == "set_num_threads " + std::to_string(n), "number of threads", cat(n, " asked"));
#if PART == 1
        // without this MKL may use fewer
        expect(seen.size() == 2 && seen[0].name == "set_dynamic 0", "number of threads may still vary", "");
#endif
#endif
        count("thread numbers");
        saw("threads" + std::to_string(n));
    });

#if PART == 0
    group("documented list", 1, [](Rng&, size_t) {
        std::ifstream f(REPO_DIR "/include/BlasBooster/BlasInterface/FunctionList.yml");
        std::map<std::string, std::map<std::string, std::string>> list; std::string sec, ret, cur, l;
        auto value = [&] { return squeeze(l.substr(l.find(':') + 1)); };
        while (std::getline(f, l)) {
            std::string t = squeeze(l);
            if (t.empty() || t[0] == '#') continue;
            if (!isspace(static_cast<unsigned char>(l[0]))) { sec = t.substr(0, t.find(':')); continue; }
            if (t.rfind("-return_value:", 0) == 0) { ret = value(); continue; }
            if (t.rfind("name:", 0) == 0) { cur = value(); list[sec][cur] = ret + " "; continue; }
            if (t[0] == '-') list[sec][cur] += t.substr(1) + ";";
        }
        auto check = [&](std::string const& s, std::string const& r, std::string const& n, std::string const& pars) {
            count("documented");
            expect(list[s].count(n), "not documented", cat(s, ": ", n));
            std::string want = squeeze(r) + " " + types(pars);
            expect(list[s][n] == want, "documented otherwise", cat(n, ": ", list[s][n], " is not ", want));
        };
#define X(ret, name, pars, args) check("functions_blas", #ret, #name, #pars);
        BLAS_TABLE(X)
#undef X
#define X(ret, name, pars, args) check("functions_blas_zdot", #ret, #name, #pars);
        ZDOT_TABLE(X)
#undef X
#define X(ret, name, pars, args) check("functions_spblas", #ret, #name, #pars);
        SPBLAS_TABLE(X)
#undef X
    }, false);
#endif
    return finish();
}
