// C07: adaptive conversion.
#include "blocked.h"
using namespace vh;

template <class T, class P> Matrix<Dense,T,P> dense(Ref const& m)
{
    Matrix<Dense,T,P> A(m.r, m.c);
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) A(i, j) = T(m(i, j));
    return A;
}

/// The first admissible form, 99 if there is none.
static size_t firstAdmissible(Ref const& m, Limits const& l)
{
    size_t nd = 0, ns = 0;
    for (double v : m.a) { nd += std::abs(v) > l.thrD; ns += std::abs(v) > l.thrS; }
    double od = m.a.empty() ? 0 : double(nd) / double(m.a.size()), os = m.a.empty() ? 0 : double(ns) / double(m.a.size());
    for (size_t k = 0; k < nbKinds; ++k) if (od <= l.d[k] && os <= l.s[k]) return k;
    return 99;
}

static std::string say(Limits const& l)
{
    std::string s = cat("thresholds ", l.thrD, " ", l.thrS, " limits");
    for (size_t k = 0; k < 7; ++k) s += cat(" ", l.d[k], "/", l.s[k]);
    return s;
}

template <class M> void convert(M const& A, Ref const& m, Limits const& l, std::string const& key)
{
    size_t want = firstAdmissible(m, l);
    if (want == 99) { count("nothing admissible"); return; }
    doing(key);
    DynamicMatrix d = MatrixConverter()(A, threshold(l));
    DynRead x = readDyn(d);
    if (!expect(x.bad.empty(), key + ": malformed", [&]{ return cat(x.bad, " ", say(l), " ", m.str()); })) return;
    expect(x.kind == want, key + ": form", [&]{ return cat(kindName[x.kind], " instead of ", kindName[want], ", ", say(l), ", ", m.str()); });
    std::string e = keptAsAllowed(x.m, m, l);
    expect(e.empty(), key + " to " + kindName[x.kind] + ": elements", [&]{ return cat(e, ", ", say(l)); });
    // a form holding both precisions keeps each part where it belongs
    auto parts = [&](auto* p) {
        if (!p) return;
        Ref a = read(p->getMatrix1()), b = read(p->getMatrix2());
        for (size_t i = 0; i < m.a.size(); ++i)
            if (!expect(a.a[i] == 0 || b.a[i] == 0, key + ": element in both parts", [&]{ return cat(m.a[i], " as ", a.a[i], " and ", b.a[i], ", ", say(l)); })) return;
    };
    parts(dynamic_cast<MSS*>(d.get())); parts(dynamic_cast<MSD*>(d.get()));
    DD D(d);
    e = diff(read(D), x.m);
    expect(e.empty(), key + ": converted back", [&]{ return e; });
    count(std::string("form ") + kindName[x.kind]);
}

template <class T, class P> void whole(Rng& r, std::string const& key)
{
    size_t R = r.chance(0.03) ? 0 : few(r, r.chance(0.2) ? 14 : 5), C = r.chance(0.03) ? 0 : few(r, r.chance(0.2) ? 14 : 5);
    Limits l = limits(r, R * C);
    if (r.chance(0.2)) { l.d[6] = r.unit(); l.s[6] = r.unit(); }
    Ref m = significant(r, l, R, C);
    if (sizeof(T) == 4) for (double& e : m.a) e = double(float(e));
    saw(m.hash() ^ hash(say(l)));
    if (want_sample()) sample(cat(say(l), ", ", m.str()));
    Callers mem; auto A = mem.make<Matrix<Dense,T,P>>(m, r);
    convert(A, m, l, key);
    // other settings on the same matrix must not remember anything
    for (int k = 0; k < 3; ++k) { Limits o = limits(r, R * C); convert(A, m, o, key + " with other settings"); }
    convert(A, m, l, key + " once more");
    std::string d = diff(read(A), m);
    expect(d.empty() && mem.intact(), key + ": source changed", [&]{ return d; });
    // what a conversion made is a matrix of its own
    if (firstAdmissible(m, l) != 99) {
        doing(key + ", then another source"); DynamicMatrix x = MatrixConverter()(A, threshold(l)); DynRead was = readDyn(x);
        for (auto& e : A) e = T(31);
        DynRead now = readDyn(x); d = was.kind != now.kind ? "kind" : diff(now.m, was.m); expect(d.empty(), key + ": changes with its source", [&]{ return d; });
    }
}

template <class T> void view(Rng& r, std::string const& key)
{
    size_t R = few(r, 9), C = few(r, 9), h = 1 + r.below(R), w = 1 + r.below(C), i = r.below(R - h + 1), j = r.below(C - w + 1);
    Limits l = limits(r, h * w);
    Ref m = significant(r, l, R, C);
    if (sizeof(T) == 4) for (double& e : m.a) e = double(float(e));
    saw(m.hash() ^ hash(say(l)) ^ mix(h * 1000 + w));
    auto A = dense<T, CM>(m);
    Matrix<Dense, T, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> V(A, h, w, i, j);
    convert(V, window(m, i, j, h, w), l, key);
    std::string d = diff(read(A), m);
    expect(d.empty(), key + ": source changed", [&]{ return d; });
}

int main(int argc, char** argv)
{
    init(argc, argv); st().stretch = 150; st().tall = true;
    group("double", 2500, [](Rng& r, size_t) { whole<double, CM>(r, "double"); });
    group("single", 1200, [](Rng& r, size_t) { whole<float, CM>(r, "single"); });
    group("row-major", 800, [](Rng& r, size_t) { whole<double, RM>(r, "row-major"); });
    group("view", 1500, [](Rng& r, size_t) { view<double>(r, "view"); });
    group("single view", 600, [](Rng& r, size_t) { view<float>(r, "single view"); });
    group("defaults", 800, [](Rng& r, size_t) {
        size_t R = 1 + r.below(10), C = 1 + r.below(10);
        Limits l; l.thrD = 2.220446049250313e-16; l.thrS = 1.1920928955078125e-07;
        l.d = {0.0, 0.2, 1.0, 0.2, 0.4, 1.0, 1.0}; l.s = {0.0, 0.0, 0.0, 0.2, 0.2, 0.2, 1.0};
        Ref m = significant(r, l, R, C);
        saw(m.hash());
        auto A = dense<double, CM>(m);
        size_t want = firstAdmissible(m, l);
        doing("default settings");
        DynamicMatrix d = MatrixConverter()(A, Threshold());
        DynRead x = readDyn(d);
        expect(x.bad.empty() && x.kind == want, "default settings: form", [&]{ return cat(x.bad, " ", x.kind, " instead of ", want, ", ", m.str()); });
        std::string e = keptAsAllowed(x.m, m, l);
        expect(e.empty(), "default settings: elements", [&]{ return e; });
    });
    return finish();
}
