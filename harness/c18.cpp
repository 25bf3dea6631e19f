// C18: generated matrices are reproducible and stay in range.
#include "bb.h"
#include "BlasBooster/MatrixFactory/MatrixGenerator.h"
#include <boost/property_tree/ptree.hpp>
#include <atomic>
#include <cfenv>
#include <random>
#include <thread>
using namespace vh;

static std::vector<uint64_t> bits(DD const& A)
{
    std::vector<uint64_t> v; for (size_t j = 0; j < A.getNbColumns(); ++j) for (size_t i = 0; i < A.getNbRows(); ++i) { double x = A(i, j); uint64_t b; memcpy(&b, &x, 8); v.push_back(b); } return v;
}

struct Config { size_t r, c; unsigned seed; double lo, hi; std::string str() const { return cat(r, "x", c, " seed ", seed, " exponents ", lo, "..", hi); } };
static MatrixGenerator::Settings settings(Config const& c, double occ = 1.0) { return MatrixGenerator::Settings().set_seed(c.seed).set_minValue(c.lo).set_maxValue(c.hi).set_occupation(occ); }
static DD once(Config const& c) { return MatrixGenerator(c.r, c.c, settings(c))(); }

static Config config(Rng& r, size_t large = 40)
{
    Config c; c.r = dim(r, true, large); c.c = dim(r, true, large);
    switch (r.below(4)) { case 0: c.seed = unsigned(r.below(4)); break; case 1: c.seed = unsigned(r.below(100000)); break; case 2: c.seed = ~unsigned(r.below(4)); break; default: c.seed = unsigned(r.next()); }
    switch (r.below(8)) {
        case 0: c.lo = 0; c.hi = 9; break;
        case 1: c.lo = double(r.in(-5, 5)); c.hi = c.lo + double(r.in(1, 10)); break;
        case 2: c.lo = c.hi = double(r.in(-5, 5)); break;
        case 3: c.lo = -30 * r.unit(); c.hi = 30 * r.unit(); break;
        case 4: c.lo = 100 * r.unit(); c.hi = c.lo + 150 * r.unit(); break;
        case 5: c.lo = 12 * r.unit() - 6; c.hi = c.lo + std::ldexp(r.unit(), -int(r.in(8, 32))); break;   // hardly any room
        case 6: c.lo = c.hi = 12 * r.unit() - 6; break;
        default: c.lo = r.unit(); c.hi = c.lo + r.unit(); break;
    }
    return c;
}

int main(int argc, char** argv)
{
    init(argc, argv);

    group("range", 1500, [](Rng& r, size_t) {
        Config c = config(r); doing("range");
        DD A = once(c);
        expect(A.getNbRows() == c.r && A.getNbColumns() == c.c && A.getSize() == c.r * c.c && size_t(A.end() - A.begin()) == c.r * c.c, "shape", [&]{ return cat(A.getNbRows(), "x", A.getNbColumns(), " ", c.str()); });
        MatrixGenerator g(c.r, c.c, settings(c)); expect(g.getNbRows() == c.r && g.getNbColumns() == c.c, "shape announced");
        double least = std::pow(10.0L, -(long double)c.hi), most = std::pow(10.0L, -(long double)c.lo), tol = 1e-12;
        for (double x : A) expect(std::abs(x) >= least * (1 - tol) && std::abs(x) <= most * (1 + tol), "magnitude out of range", [&]{ return cat(x, " ", c.str()); });
        saw(mix(hash(c.str()))); count("matrices"); count("elements", c.r * c.c); if (want_sample()) sample(c.str());
    });

    group("same settings", 600, [](Rng& r, size_t) {
        Config c = config(r); doing("same settings");
        auto a = bits(once(c));
        MatrixGenerator g(c.r, c.c, settings(c)); std::shared_ptr<MatrixFactory> f = std::make_shared<MatrixGenerator>(c.r, c.c, settings(c));
        // whatever happened in between
        Config d = config(r); once(d); srand(unsigned(r.next())); (void)rand(); std::uniform_real_distribution<> u; std::mt19937 e; u(e);
        expect(bits(g()) == a, "another generator of equal settings", c.str()); expect(bits(g()) == a, "the same generator again", c.str()); expect(bits((*f)()) == a, "through the factory", c.str());
        MatrixGenerator h(g); once(d); expect(bits(h()) == a, "a copied generator", c.str());
        DD A = once(c); if (A.getSize()) { A(0, 0) = 0; expect(bits(once(c)) == a, "a changed result changes the next one", c.str()); }
        if (c.lo == 0 && c.hi == 9) { expect(bits(MatrixGenerator(c.r, c.c, MatrixGenerator::Settings().set_seed(c.seed))()) == a, "default range"); if (!c.seed) expect(bits(MatrixGenerator(c.r, c.c)()) == a, "default settings"); count("defaults"); }
        boost::property_tree::ptree t; t.put("seed", c.seed); std::ostringstream lo, hi; lo.precision(17); lo << c.lo; hi.precision(17); hi << c.hi; t.put("minValue", lo.str()); t.put("maxValue", hi.str());
        expect(bits(MatrixGenerator(c.r, c.c, MatrixGenerator::Settings(t))()) == a, "settings from a property tree", c.str());
        saw(mix(hash(c.str())) ^ 1); count("repeated", 6);
    });

    // Different seeds: large enough matrices of a proper range coincide with negligible probability only.
    group("different seeds", 300, [](Rng& r, size_t i) {
        Config c = config(r); c.r = 4 + r.below(5); c.c = 4 + r.below(5); if (!(c.lo + 0.5 < c.hi)) c.hi = c.lo + 3; doing("different seeds");
        std::vector<unsigned> seeds; for (unsigned k = 0; k < 6; ++k) seeds.push_back(c.seed + k); if (i < 40) for (unsigned k = 0; k < 3; ++k) { seeds.push_back(k); seeds.push_back(~k); seeds.push_back(0x7fffffffu + k - 1); seeds.push_back(0x80000000u + k); }
        for (unsigned b = 0; b < 32; ++b) seeds.push_back(c.seed ^ (1u << b));
        std::sort(seeds.begin(), seeds.end()); seeds.erase(std::unique(seeds.begin(), seeds.end()), seeds.end());
        std::map<std::vector<uint64_t>, unsigned> seen;
        for (unsigned s : seeds) { Config d = c; d.seed = s; auto p = seen.insert({bits(once(d)), s}); expect(p.second, "different seeds give the same matrix", [&]{ return cat(s, " and ", p.first->second, " ", c.str()); }); }
        saw(mix(hash(c.str())) ^ 2); count("seeds compared", seeds.size());
    });

    // The chance that a proper generator misses one of these is below 1e-20.
    group("spread", 60, [](Rng& r, size_t) {
        Config c = config(r); c.r = c.c = 40; if (!(c.lo + 0.1 < c.hi)) c.hi = c.lo + 1; doing("spread");
        DD A = once(c); size_t pos = 0, neg = 0; std::vector<size_t> bin(16), both(32);
        for (double x : A) { (x < 0 ? neg : pos)++; double e = -std::log10(std::abs(x)), t = (e - c.lo) / (c.hi - c.lo); size_t k = size_t(std::min(15.0, std::max(0.0, t * 16))); ++bin[k]; ++both[k * 2 + (x < 0)]; }
        expect(pos > 400 && neg > 400, "signs", [&]{ return cat(pos, " positive, ", neg, " negative ", c.str()); });
        // 1600 elements in 16 bins: 100 expected
        for (size_t k = 0; k < 16; ++k) expect(bin[k] > 20 && bin[k] < 260, "part of the exponent range missing", [&]{ return cat("part ", k, " has ", bin[k], " ", c.str()); });
        for (size_t k = 0; k < 32; ++k) expect(both[k] > 0, "sign depends on the exponent", [&]{ return cat("part ", k, " ", c.str()); });
        // every row and column has its own values
        std::set<double> d; for (double x : A) d.insert(std::abs(x)); expect(d.size() > 1500, "repeated magnitudes", [&]{ return cat(d.size(), " of 1600 differ ", c.str()); });
        saw(mix(hash(c.str())) ^ 3); count("distributions");
    });

    group("threads", 60, [](Rng& r, size_t) {
        doing("threads"); size_t const T = 8;
        std::vector<Config> cs; for (size_t k = 0; k < 4; ++k) cs.push_back(config(r, 24));
        std::vector<std::vector<uint64_t>> want; for (auto const& c : cs) want.push_back(bits(once(c)));
        std::shared_ptr<MatrixFactory> shared = std::make_shared<MatrixGenerator>(cs[0].r, cs[0].c, settings(cs[0]));
        std::atomic<size_t> ready{0}, wrong{0}; std::vector<std::thread> ts;
        for (size_t t = 0; t < T; ++t) ts.emplace_back([&, t] { ++ready; while (ready < T) {} for (size_t k = 0; k < 12; ++k) { size_t q = (k + t) % 4; if (bits(once(cs[q])) != want[q]) ++wrong; if (bits((*shared)()) != want[0]) ++wrong; } });
        for (auto& t : ts) t.join();
        expect(wrong == 0, "another matrix from another thread", [&]{ return cat(wrong.load(), " of ", T * 24); }); count("generated by threads", T * 24); saw(r.next());
    });
    return finish();
}
