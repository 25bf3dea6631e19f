// C24: compile-time type lists and runtime selectors.
#include "bb.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Utilities/EnumParser.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/range.h"
using namespace vh;

template <size_t N> struct Tag { static constexpr size_t number = N; };

/// Lists of any length made at compile time: member k of list S is tag f(S,k); lists with repeats, too.
constexpr size_t scramble(size_t x) { x ^= x >> 7; x *= 0x9e3779b1u; x ^= x >> 11; x *= 0x85ebca6bu; x ^= x >> 13; return x; }
template <size_t S, bool Repeats> struct Rule { static constexpr size_t at(size_t k, size_t n) { return Repeats ? scramble(S * 131 + k) % (n / 2 + 1) : (k * (2 * S + 1) + S) % 64; } };
template <class R, size_t N, class Seq = std::make_index_sequence<N>> struct Made;
template <class R, size_t N, size_t... K> struct Made<R, N, std::index_sequence<K...>> { using type = TypeList<Tag<R::at(K, N)>...>; static std::vector<size_t> tags() { return {R::at(K, N)...}; } };

template <class L, class Seq> struct Ask;
template <class L, size_t... K> struct Ask<L, std::index_sequence<K...>> {
    static std::vector<size_t> members() { return {GetType<K, L>::type::number...}; }
    static std::vector<size_t> indices() { return {size_t(GetIndex<typename GetType<K, L>::type, L>::value)...}; }
    static std::vector<size_t> all() { return {}; }
};
template <class L, size_t... K> std::vector<size_t> indicesOfTags(std::index_sequence<K...>) { return {size_t(GetIndex<Tag<K>, L>::value)...}; }

// ------------------------------------------------ selectors
/// Accepts the tags of a set; notes what it was asked.
struct Accept { std::vector<char> const* ok; std::vector<size_t>* asked; template <class T> bool operator()(T* p) const { asked->push_back(T::number); return (*ok)[T::number]; } };

struct Log { std::vector<std::pair<size_t, size_t>> ran; size_t copies = 0; };
template <class R> struct Result { static R make(size_t a, size_t b); };
template <> size_t Result<size_t>::make(size_t a, size_t b) { return a * 1000 + b; }
template <> std::string Result<std::string>::make(size_t a, size_t b) { return cat(a, "/", b); }
template <> std::unique_ptr<size_t> Result<std::unique_ptr<size_t>>::make(size_t a, size_t b) { return std::unique_ptr<size_t>(new size_t(a * 1000 + b)); }
static size_t cells[64 * 1000 + 64];
template <> size_t& Result<size_t&>::make(size_t a, size_t b) { return cells[a * 1000 + b]; }
template <> void Result<void>::make(size_t, size_t) {}

template <class R> struct Action
{
    typedef R result_type; Log* log; size_t mark; Action const* self;
    Action(Log& l, size_t m) : log(&l), mark(m), self(this) {}
    Action(Action const& o) : log(o.log), mark(o.mark), self(o.self) { ++log->copies; }
    template <class T> R operator()(T* p) const { note(p, T::number, 0); return Result<R>::make(T::number, 0); }
    template <class A, class B> R operator()(A* a, B* b) const { note(a, A::number, B::number); return Result<R>::make(A::number, B::number); }
    void note(void const* p, size_t a, size_t b) const { if (mark != 4711) fail("action is not the one passed", ""); log->ran.push_back({a, b}); }
};

static bool same(size_t v, size_t a, size_t b) { return v == a * 1000 + b; }
static bool same(std::string const& v, size_t a, size_t b) { return v == cat(a, "/", b); }
static bool same(std::unique_ptr<size_t> const& v, size_t a, size_t b) { return v && *v == a * 1000 + b; }

template <class R, class L> void one(std::vector<size_t> const& tags, std::vector<char> const& ok, std::string const& what)
{
    Log log; std::vector<size_t> asked; Action<R> e(log, 4711); Accept p{&ok, &asked};
    size_t want = 0; bool found = false; for (size_t t : tags) if (ok[t]) { want = t; found = true; break; }
    if (!found) {
        bool refused = false; try { exec_if<L>(p, e); } catch (CoreException const&) { refused = true; }
        expect(refused && log.ran.empty(), "nothing accepted but something done", [&]{ return what; }); count("selections refused"); return;
    }
    if constexpr (std::is_void<R>::value) exec_if<L>(p, e);
    else if constexpr (std::is_reference<R>::value) { R v = exec_if<L>(p, e); expect(&v == &cells[want * 1000], "reference not passed through", [&]{ return what; }); }
    else { R v = exec_if<L>(p, e); expect(same(v, want, 0), "result not passed through", [&]{ return what; }); }
    expect(log.ran.size() == 1, "number of actions run", [&]{ return cat(log.ran.size(), " ", what); });
    if (!log.ran.empty()) expect(log.ran[0].first == want, "not the first accepted type", [&]{ return cat(log.ran[0].first, " instead of ", want, " ", what); });
    count("selections");
}
template <class R, class L> void two(std::vector<size_t> const& tags, std::vector<char> const& ok1, std::vector<char> const& ok2, std::string const& what)
{
    Log log; std::vector<size_t> a1, a2; Action<R> e(log, 4711); Accept p{&ok1, &a1}, q{&ok2, &a2};
    long w1 = -1, w2 = -1; for (size_t t : tags) if (w1 < 0 && ok1[t]) w1 = long(t); for (size_t t : tags) if (w2 < 0 && ok2[t]) w2 = long(t);
    if (w1 < 0 || w2 < 0) {
        bool refused = false; try { exec_if_2dim<L>(p, q, e); } catch (CoreException const&) { refused = true; }
        expect(refused && log.ran.empty(), "nothing accepted but something done for a pair", [&]{ return what; }); count("pair selections refused"); return;
    }
    if constexpr (std::is_void<R>::value) exec_if_2dim<L>(p, q, e);
    else if constexpr (std::is_reference<R>::value) { R v = exec_if_2dim<L>(p, q, e); expect(&v == &cells[size_t(w1) * 1000 + size_t(w2)], "reference not passed through for a pair", [&]{ return what; }); }
    else { R v = exec_if_2dim<L>(p, q, e); expect(same(v, size_t(w1), size_t(w2)), "result not passed through for a pair", [&]{ return what; }); }
    expect(log.ran.size() == 1, "number of actions run for a pair", [&]{ return cat(log.ran.size()); });
    if (!log.ran.empty()) expect(log.ran[0] == std::make_pair(size_t(w1), size_t(w2)), "not the first accepted pair", [&]{ return cat(log.ran[0].first, ",", log.ran[0].second, " instead of ", w1, ",", w2, " ", what); });
    count("pair selections");
}

static std::string str(std::vector<size_t> const& t);
template <class Rl, size_t N> void list(std::string const& name)
{
    using L = typename Made<Rl, N>::type; auto tags = Made<Rl, N>::tags();
    group("list " + name, 1, [&](Rng& r, size_t) {
        doing(cat("list ", name)); std::string what = str(tags);
        size_t n = GetSize<L>::value; expect(n == N, "length of a list", [&]{ return cat(n, " ", what); });
        auto m = Ask<L, std::make_index_sequence<N>>::members(); expect(m == tags, "member at an index", [&]{ return what; });
        auto ix = Ask<L, std::make_index_sequence<N>>::indices();
        for (size_t k = 0; k < N; ++k) { size_t first = 0; while (tags[first] != tags[k]) ++first; expect(ix[k] == first, "index of a member", [&]{ return cat(ix[k], " instead of ", first, " ", what); }); }
        auto all = indicesOfTags<L>(std::make_index_sequence<64>());
        for (size_t t = 0; t < 64; ++t) { size_t first = 0; while (first < N && tags[first] != t) ++first; expect(all[t] == first, first == N ? "index of a stranger" : "index of a member", [&]{ return cat("tag ", t, " ", all[t], " instead of ", first, " ", what); }); }
        count("lists"); count("members", N); saw(hash(what) ^ 1); if (want_sample()) sample(what);
        if constexpr (N > 0) for (size_t k = 0; k < 40; ++k) {
            std::vector<char> a(64), b(64); auto fill = [&](std::vector<char>& v) { double p = r.chance(0.3) ? 0 : r.unit() * 0.6; for (auto& x : v) x = r.chance(p); if (r.chance(0.6)) v[tags[r.below(N)]] = 1; if (k == 0) v[tags[N - 1]] = 1; };
            fill(a); fill(b); std::string w = what + " accepting"; for (size_t t : tags) if (a[t]) w += cat(" ", t);
            doing("selection"); one<size_t, L>(tags, a, w); one<std::string, L>(tags, a, w); one<std::unique_ptr<size_t>, L>(tags, b, w); one<size_t&, L>(tags, a, w); one<void, L>(tags, b, w);
            doing("pair selection"); two<size_t, L>(tags, a, b, w); two<std::string, L>(tags, b, a, w); two<void, L>(tags, a, b, w); two<size_t&, L>(tags, a, a, w);
            saw(hash(w) ^ 2);
        }
    }, false);
}
static std::string str(std::vector<size_t> const& t) { std::string s = "<"; for (size_t k : t) s += (s.size() > 1 ? "," : "") + std::to_string(k); return s + ">"; }
template <size_t... N> void lists(std::index_sequence<N...>)
{
    (void)std::initializer_list<int>{(list<Rule<N, false>, N>(cat("distinct ", N)), list<Rule<N + 7, true>, N + 1>(cat("repeating ", N + 1)), list<Rule<N + 31, true>, N + 2>(cat("repeating ", N + 2)), 0)...};
}

// ------------------------------------------------ selection by the runtime kind
template <class T> size_t kindOf();
template <> size_t kindOf<ZZ>() { return 0; }
template <> size_t kindOf<SF>() { return 1; }
template <> size_t kindOf<DF>() { return 2; }
template <> size_t kindOf<SD>() { return 3; }
template <> size_t kindOf<MSS>() { return 4; }
template <> size_t kindOf<MSD>() { return 5; }
template <> size_t kindOf<DD>() { return 6; }

struct ByKind { typedef size_t result_type; MatrixBase const* o; template <class T> size_t operator()(T*) const { return dynamic_cast<T const*>(o) ? kindOf<T>() : 77; } };
struct ByKinds { typedef size_t result_type; MatrixBase const *o, *q; template <class A, class B> size_t operator()(A*, B*) const { return dynamic_cast<A const*>(o) && dynamic_cast<B const*>(q) ? kindOf<A>() * 10 + kindOf<B>() : 77; } };
struct Extra1 { static constexpr size_t v = 100; }; struct Extra2 { static constexpr size_t v = 200; };
template <class... A> struct Exec1; template <class... A> struct Exec2;
template <class T> struct Exec1<T> { size_t operator()(DynamicMatrix const& a) const { return dynamic_cast<T const*>(a.get()) ? kindOf<T>() : 77; } };
template <class X, class T> struct Exec1<X, T> { size_t operator()(DynamicMatrix const& a) const { return dynamic_cast<T const*>(a.get()) ? X::v + kindOf<T>() : 77; } };
template <class T, class U> struct Exec2<T, U> { size_t operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { return dynamic_cast<T const*>(a.get()) && dynamic_cast<U const*>(b.get()) ? kindOf<T>() * 10 + kindOf<U>() : 77; } };
template <class X, class T, class U> struct Exec2<X, T, U> { size_t operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { return dynamic_cast<T const*>(a.get()) && dynamic_cast<U const*>(b.get()) ? X::v + kindOf<T>() * 10 + kindOf<U>() : 77; } };
template <class T, class U> struct ExecPtr { DynamicMatrix operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { return kindOf<T>() > kindOf<U>() ? a : b; } };

enum class Colour { red, green, blue, none };
enum Plain { P0 = -3, P1 = 0, P2 = 7, P3 = 1 << 20 };
namespace BlasBooster {
template <> inline EnumParser<Colour>::EnumParser() { map("red", Colour::red); map("green", Colour::green); map("Red", Colour::blue); map("", Colour::none); }
template <> inline EnumParser<Plain>::EnumParser() { map("P1", P1); map("P0", P0); map("a longer name with blanks", P3); map("P2", P2); }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    lists(std::make_index_sequence<11>());
    list<Rule<3, false>, 40>("distinct 40"); list<Rule<99, true>, 30>("repeating 30");

    group("kinds", 400, [](Rng& r, size_t i) {
        size_t a = i % nbKinds, b = i / nbKinds % nbKinds; doing(cat("kinds ", a, " ", b));
        size_t nr = dim(r, true, 14), nc = dim(r, true, 14); Ref m = gen(r, nr, nc, Values()), n = gen(r, nc, nr, Values());
        DynamicMatrix A = makeDyn(a ? m : Ref(nr, nc), r, a), B = makeDyn(b ? n : Ref(nc, nr), r, b);
        if (r.chance(0.3)) { DynamicMatrix t = A; A.reset(); A = t; }
        expect(A->getTypeIndex() == a && B->getTypeIndex() == b, "kind reported");
        expect(exec_if<DynamicMatrixTypeList>(TypeChecker(A->getTypeIndex()), ByKind{A.get()}) == a, cat("selection by kind ", a));
        expect(exec_if_2dim<DynamicMatrixTypeList>(TypeChecker(A->getTypeIndex()), TypeChecker(B->getTypeIndex()), ByKinds{A.get(), B.get()}) == a * 10 + b, cat("selection by kinds ", a, " ", b));
        using F1 = std::function<size_t(DynamicMatrix const&)>; using F2 = std::function<size_t(DynamicMatrix const&, DynamicMatrix const&)>; using FP = std::function<DynamicMatrix(DynamicMatrix const&, DynamicMatrix const&)>;
        expect(exec_dyn<DynamicMatrixTypeList, Exec1, TypeList<>, F1>(A) == a, cat("table by kind ", a));
        expect(exec_dyn<DynamicMatrixTypeList, Exec1, TypeList<Extra1>, F1>(A) == 100 + a && exec_dyn<DynamicMatrixTypeList, Exec1, TypeList<Extra2>, F1>(A) == 200 + a, cat("table by kind with a tag ", a));
        size_t got = exec_dyn_2dim<DynamicMatrixTypeList, Exec2, TypeList<>, F2>(A, B); expect(got == a * 10 + b, cat("table by kinds ", a, " ", b), [&]{ return cat(got); });
        expect(exec_dyn_2dim<DynamicMatrixTypeList, Exec2, TypeList<Extra1>, F2>(A, B) == 100 + a * 10 + b && exec_dyn_2dim<DynamicMatrixTypeList, Exec2, TypeList<Extra2>, F2>(A, B) == 200 + a * 10 + b, cat("table by kinds with a tag ", a, " ", b));
        auto p = exec_dyn_2dim<DynamicMatrixTypeList, ExecPtr, TypeList<>, FP>(A, B); expect(p == (a > b ? A : B), "object passed through a table");
        for (size_t k = 0; k < nbKinds; ++k) { TypeChecker c(k); expect(c((ZZ*)0) == (k == 0) && c((SF*)0) == (k == 1) && c((DF*)0) == (k == 2) && c((SD*)0) == (k == 3) && c((MSS*)0) == (k == 4) && c((MSD*)0) == (k == 5) && c((DD*)0) == (k == 6), "type checker"); }
        for (size_t k : {nbKinds, size_t(99), ~size_t(0)}) { bool refused = false; try { exec_if<DynamicMatrixTypeList>(TypeChecker(k), ByKind{A.get()}); } catch (CoreException const&) { refused = true; } expect(refused, "unknown kind accepted"); }
        expect(getNbRows(A) == nr && getNbColumns(A) == nc && getSize(A) == nr * nc, "dimensions by kind");
        count("kinds selected", 12); saw(mix(a * 10 + b) ^ m.hash());
    });

    group("names", 1, [](Rng&, size_t) {
        doing("names"); std::map<std::string, std::string> seen;
        auto add = [&](std::string const& n, std::string const& t) { auto p = seen.insert({n, t}); expect(!n.empty() && p.second, "two types of one name", [&]{ return n + ": " + t + " and " + p.first->second; }); };
        add(TypeName<double>::value(), "double"); add(TypeName<float>::value(), "float"); add(TypeName<size_t>::value(), "size_t"); add(TypeName<int>::value(), "int");
        add(TypeName<DynamicMatrix>::value(), "DynamicMatrix"); add(TypeName<ConstDynamicMatrix>::value(), "ConstDynamicMatrix");
        add(ZZ().name(), "Zero"); add(SF().name(), "SparseF"); add(DF().name(), "DenseF"); add(SD().name(), "SparseD"); add(DD().name(), "DenseD");
        EnumParser<Colour> c; std::pair<char const*, Colour> const cs[] = {{"red", Colour::red}, {"green", Colour::green}, {"Red", Colour::blue}, {"", Colour::none}};
        for (auto const& x : cs) { expect(c(std::string(x.first)) == x.second, "value of a name", x.first); expect(c(x.second) == x.first, "name of a value", x.first); }
        EnumParser<Plain> p, q(p); std::pair<char const*, Plain> const ps[] = {{"P0", P0}, {"P1", P1}, {"P2", P2}, {"a longer name with blanks", P3}};
        for (auto const& x : ps) { expect(q(std::string(x.first)) == x.second, "value of a name", x.first); expect(p(x.second) == x.first, "name of a value", x.first); }
        count("names", seen.size() + 8);
        for (int a = -3; a < 4; ++a) for (int b = a; b < 5; ++b) { auto g = range(a, b); expect(g.begin() == a && g.end() == b, "range"); }
        saw(uint64_t(1));
    }, false);
    return finish();
}
