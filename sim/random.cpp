// C07, C08: random number generators under interleaving, hostile entropy and failing construction.
#include "history.h"
#include <algorithm>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/sobol.hpp>

namespace sim {
    enum GenKind { PRNG, SOBOL, FAURE, N_GEN };
    static const char* gen_name(int k) { static const char* n[] = {"pseudo-random", "sobol", "faure"}; return n[k]; }
    struct GenSpec { int kind = PRNG; unsigned dim = 1; unsigned seed = 42; int pattern = 0; };
    static unique_ptr<op::NumberGenerator> make_gen(const GenSpec& g) {
        switch (g.kind) {
            case PRNG: return std::make_unique<op::PseudoRandomNumberGenerator>(g.dim, g.seed);
            case SOBOL: return std::make_unique<op::SobolGenerator>(g.dim, g.seed);
            default: return std::make_unique<op::FaureGenerator>(g.dim, g.seed);
        }
    }
    static unique_ptr<op::NumberGenerator> make_unseeded(int kind, unsigned dim) {
        switch (kind) {
            case PRNG: return std::make_unique<op::PseudoRandomNumberGenerator>(dim);
            case SOBOL: return std::make_unique<op::SobolGenerator>(dim);
            default: return std::make_unique<op::FaureGenerator>(dim);
        }
    }
    static unsigned gen_seed() {
        static const unsigned v[] = {42, 0, 1, 2, 7, 1000, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 5489, 12345};
        const uint32_t k = choose(16); return k < 12 ? v[k] : (choose(65536) << 16 | choose(65536));
    }
    static unsigned gen_dim() { static const unsigned v[] = {1, 2, 3, 5, 8, 52}; return v[choose(6)]; }
    // The distributions a stream draws from, in turn: a fixed pattern, so that equal specifications draw alike.
    struct Dists {
        op::StandardNormalDistribution sn; op::NormalDistribution no{1.0, 2.0}; op::ContinuousUniformDistribution un;
        op::ExponentialDistribution ex{2.0}; op::PoissonDistribution po{1.5}; op::GammaDistribution ga{2.0, 3.0};
        op::Distribution& at(const GenSpec& g, long i) {
            if (g.kind != PRNG) return sn;
            op::Distribution* v[] = {&sn, &no, &un, &ex, &po, &ga};
            switch (g.pattern) { case 0: return sn; case 1: return un; case 2: return *v[i % 6]; default: return *v[(i / 3) % 6]; }
        }
    };
    struct Stream { GenSpec g; unique_ptr<op::NumberGenerator> gen; unique_ptr<Dists> d; vector<double> out;
        void draw() { out.push_back((*gen)(d->at(g, (long)out.size()))); } };
    static Stream open(const GenSpec& g) { Stream s; s.g = g; s.gen = make_gen(g); s.d = std::make_unique<Dists>(); return s; }
    static string str(const GenSpec& g) { char b[100]; snprintf(b, sizeof b, "%s(dim %u, seed %u, pattern %d)", gen_name(g.kind), g.dim, g.seed, g.pattern); return b; }

    void c07() {
        component("PseudoRandomNumberGenerator"); component("SobolGenerator"); component("FaureGenerator"); component("distributions");
        Hist h(1);
        entropy_set(choose(1000000));
        vector<Stream> st;
        auto spec = [&] { GenSpec g; g.kind = choose(N_GEN); g.dim = gen_dim(); g.seed = gen_seed(); g.pattern = choose(4); return g; };
        const int n0 = 1 + choose(3);
        auto add = [&](const GenSpec& g) {
            const long e0 = entropy_used();
            st.push_back(open(g)); log("open %s", str(g).c_str());
            if (entropy_used() != e0) violate("entropy-used", "constructing seeded %s took system entropy", str(g).c_str());
        };
        for (int i = 0; i < n0; ++i) add(spec());
        const int n = 10 + choose(60);
        bool mixed = false;
        const bool lengthy = chance(1, 25); if (lengthy) probe("long-streams");
        for (int i = 0; i < n; ++i) {
            step();
            switch (choose(12)) {
                case 0: if (st.size() < 7) add(chance(2, 3) ? st[choose(st.size())].g : spec()); break;            // another one, often a twin
                case 1: entropy_set(choose(1000000)); fault("entropy-change"); break;
                case 2: {                                                                                           // unseeded neighbour
                    const int k = choose(N_GEN); auto g = make_unseeded(k, gen_dim()); op::StandardNormalDistribution d; const int m = choose(5);
                    for (int j = 0; j < m; ++j) (*g)(d);
                    fault("unseeded-neighbour"); break;
                }
                case 3: {                                                                                           // failing entropy
                    const int k = choose(N_GEN); const unsigned dim = gen_dim();
                    entropy_fail(1000000); bool threw = false;
                    try { auto g = make_unseeded(k, dim); } catch (const std::exception&) { threw = true; }
                    entropy_fail(0);
                    if (!threw) violate("entropy-failure-hidden", "an unseeded %s generator was constructed although the entropy source fails", gen_name(k));
                    try { auto g = make_unseeded(k, dim); } catch (const std::exception& e) { violate("no-retry", "construction after an entropy failure: %s", e.what()); }
                    nontrivial(); probe("entropy-failed"); log("entropy failure"); break;
                }
                case 4: {                                                                                           // failing construction
                    const GenSpec g = st[choose(st.size())].g; alloc_arm(1 + choose(4)); 
                    try { auto s = make_gen(g); } catch (const std::bad_alloc&) {}
                    alloc_disarm(); break;
                }
                case 5: {                                                                                           // a pricing run next door
                    auto g = std::make_shared<op::PseudoRandomNumberGenerator>(3, gen_seed());
                    ModelSpec ms = gen_model(); auto m = make_model(ms, "AAA", h.m, g);
                    try { auto v = m->simulatePrices(1.0); } catch (const std::exception&) {}
                    fault("pricing-neighbour"); break;
                }
                case 6: { Op o = gen_op("AAA", false); h.accept(o); break; }
                case 7: if (st.size() > 1 && chance(1, 3)) { const size_t k = choose(st.size()); log("close %zu", k); st.erase(st.begin() + k); } break;
                default: {
                    Stream& s = st[choose(st.size())]; const int m = lengthy ? 1 + choose(3000) : 1 + choose(12);
                    const long e0 = entropy_used();
                    for (int j = 0; j < m; ++j) s.draw();
                    if (entropy_used() != e0) violate("entropy-used", "drawing from seeded %s took system entropy", str(s.g).c_str());
                    if (st.size() > 1) mixed = true;
                    step(m);
                }
            }
        }
        if (mixed) nontrivial();
        for (auto& s : st) {
            Stream solo = open(s.g);
            while (solo.out.size() < s.out.size()) solo.draw();
            for (size_t i = 0; i < s.out.size(); ++i)
                if (!same(s.out[i], solo.out[i]))
                    violate("not-repeatable", "%s: draw %zu is %.17g in the interleaved run and %.17g alone", str(s.g).c_str(), i, s.out[i], solo.out[i]);
            log("%s: %zu draws, last %.17g", str(s.g).c_str(), s.out.size(), s.out.empty() ? 0.0 : s.out.back());
        }
        // other seeds, other numbers
        GenSpec a; a.kind = PRNG; a.dim = gen_dim(); a.seed = gen_seed(); a.pattern = choose(2); GenSpec b = a;
        switch (choose(3)) { case 0: b.seed = a.seed + 1; break; case 1: b.seed = a.seed ^ (1u << choose(32)); break; default: b.seed = gen_seed(); }
        auto head = [](op::NumberGenerator& g, int p) { vector<double> v; op::StandardNormalDistribution s; op::ContinuousUniformDistribution u;
            for (int i = 0; i < 12; ++i) v.push_back(p ? g(u) : g(s)); return v; };
        if (a.seed != b.seed) {
            auto ga = make_gen(a), gb = make_gen(b);
            if (same(head(*ga, a.pattern), head(*gb, a.pattern))) violate("seed-ignored", "pseudo-random generators seeded %u and %u deliver the same numbers", a.seed, b.seed);
            probe("seeds-compared");
        }
        // other entropy, other numbers
        const uint32_t e1 = gen_seed(), e2 = chance(1, 2) ? e1 + 1 : e1 ^ (1u << choose(32));
        entropy_set(5); entropy_exact(e1); auto ga = make_unseeded(PRNG, a.dim);
        entropy_set(5); entropy_exact(e2); auto gb = make_unseeded(PRNG, a.dim);
        if (same(head(*ga, a.pattern), head(*gb, a.pattern))) violate("entropy-ignored", "unseeded pseudo-random generators with entropy %u and %u deliver the same numbers", e1, e2);
    }

    // ------------------------------------------------------------------ C08
    struct Any { string name; unique_ptr<op::Distribution> d; double lo, hi, mean, var, kurt; bool integer = false; double sum = 0, sum2 = 0; long n = 0; double last = 0; bool fine = false; vector<double> all;   // fine: two equal draws are next to impossible
        std::function<double(double)> cdf; double at[15]; long below[15] = {}; };
    static double phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
    static Any gen_dist(bool quasi) {
        Any a; const double inf = INFINITY; a.lo = -inf; a.hi = inf; char b[80];
        switch (quasi ? 0 : choose(6)) {
            case 0: a.name = "standard normal"; a.d = std::make_unique<op::StandardNormalDistribution>(); a.mean = 0; a.var = 1; a.kurt = 3; a.cdf = phi; break;
            case 1: { double mu = rnd(-5, 5), s = 0.01 + rnd(0, 4); if (chance(1, 8)) { static const double f[] = {1e7, 1e-6, 1e10}; const double x = f[choose(3)]; mu *= x; if (chance(1, 2)) s *= x; } a.d = std::make_unique<op::NormalDistribution>(mu, s); a.mean = mu; a.var = s * s; a.kurt = 3; a.cdf = [=](double x) { return phi((x - mu) / s); };
                snprintf(b, sizeof b, "normal(%g,%g)", mu, s); a.name = b; break; }
            case 2: { double x = 0, y = 1; const bool def = chance(1, 3);
                if (!def) { x = rnd(-10, 10); y = x + 0.01 + rnd(0, 20); if (chance(1, 4)) { const double f = chance(1, 2) ? 1e5 : 1e-6; x *= f; y *= f; } }
                a.d = def ? std::make_unique<op::ContinuousUniformDistribution>() : std::make_unique<op::ContinuousUniformDistribution>(x, y);
                a.lo = x; a.hi = y; a.mean = (x + y) / 2; a.var = (y - x) * (y - x) / 12; a.kurt = 1.8; a.cdf = [=](double z) { return std::min(1.0, std::max(0.0, (z - x) / (y - x))); };
                snprintf(b, sizeof b, "uniform(%g,%g)", x, y); a.name = b; break; }
            case 3: { double l = 0.05 + rnd(0, 20); if (chance(1, 8)) { static const double f[] = {1e5, 1e-4, 1e-8}; l *= f[choose(3)]; } a.d = std::make_unique<op::ExponentialDistribution>(l); a.lo = 0; a.mean = 1 / l; a.var = 1 / (l * l); a.kurt = 9; a.cdf = [=](double x) { return x <= 0 ? 0.0 : -std::expm1(-l * x); };
                snprintf(b, sizeof b, "exponential(%g)", l); a.name = b; break; }
            case 4: { double l = 0.05 + rnd(0, 30); if (chance(1, 4)) { static const double f[] = {100, 1e-3, 3000, 4, 10}; l *= f[choose(5)]; } a.d = std::make_unique<op::PoissonDistribution>(l); a.lo = 0; a.integer = true; a.mean = l; a.var = l; a.kurt = 3 + 1 / l; a.cdf = [=](double x) { return x < 0 ? 0.0 : boost::math::gamma_q(std::floor(x) + 1, l); };
                snprintf(b, sizeof b, "poisson(%g)", l); a.name = b; break; }
            default: { double al = 0.5 + rnd(0, 10), be = 0.1 + rnd(0, 10); if (chance(1, 6)) { static const double f[] = {1e-3, 1e3, 0.02}; al *= f[choose(3)]; } if (chance(1, 8)) be *= chance(1, 2) ? 1e4 : 1e-4; a.d = std::make_unique<op::GammaDistribution>(al, be); a.lo = 0; a.mean = al / be; a.var = al / (be * be); a.kurt = 3 + 6 / al; a.cdf = [=](double x) { return x <= 0 ? 0.0 : boost::math::gamma_p(al, be * x); };
                snprintf(b, sizeof b, "gamma(%g,%g)", al, be); a.name = b; }
        }
        static const double z[15] = {-2, -1, -0.3, 0, 0.5, 1, 2, 3, -5, -4, -3, 4, 5, 6.5, 8};
        a.fine = !a.integer && std::sqrt(a.var) > 0.01 * std::fabs(a.mean) && a.kurt < 20;
        for (int i = 0; i < 15; ++i) a.at[i] = a.mean + z[i] * std::sqrt(a.var);
        return a;
    }
    static void take(op::NumberGenerator& g, Any& a, const string& who) {
        double v;
        try { v = g(*a.d); } catch (const std::exception& e) { violate("draw-failed", "%s: draw %ld of %s failed: %s", who.c_str(), a.n, a.name.c_str(), e.what()); }
        if (!std::isfinite(v)) violate("not-finite", "%s: draw %ld of %s is %g", who.c_str(), a.n, a.name.c_str(), v);
        if (v < a.lo || v > a.hi) violate("outside-support", "%s: draw %ld of %s is %.17g", who.c_str(), a.n, a.name.c_str(), v);
        if (a.integer && v != std::floor(v)) violate("outside-support", "%s: draw %ld of %s is %.17g", who.c_str(), a.n, a.name.c_str(), v);
        if (a.fine) a.all.push_back(v); a.last = v; a.sum += v - a.mean; a.sum2 += (v - a.mean) * (v - a.mean); a.n++;
        for (int i = 0; i < 15; ++i) a.below[i] += v <= a.at[i];
    }
    static void judge(const Any& a, const string& who, bool random) {
        if (a.n < 1000) return;
        const double n = a.n, m = a.sum / n, var = a.sum2 / n - m * m, sd = std::sqrt(a.var);
        probe("moments-judged");
        if (a.fine) {
            vector<double> v = a.all; std::sort(v.begin(), v.end());
            long twice = 0; for (size_t i = 1; i < v.size(); ++i) twice += v[i] == v[i - 1];
            if (random && twice > 4) violate("coarse", "%s: %ld of %ld draws of %s are exactly equal to another", who.c_str(), twice, a.n, a.name.c_str());
        }
        const bool tame = a.kurt < n / 30;                  // else so skewed that the sample says little about its moments
        if (tame && std::fabs(m) > sd * 10 / std::sqrt(n) + 1e-12 * std::fabs(a.mean)) violate("mean", "%s: the mean of %ld draws of %s is %g, not %g", who.c_str(), a.n, a.name.c_str(), m + a.mean, a.mean);
        if (tame && std::fabs(var - a.var) > a.var * 10 * std::sqrt((a.kurt - 1) / n) + 10 * a.var / n)
            violate("spread", "%s: the variance of %ld draws of %s is %g, not %g", who.c_str(), a.n, a.name.c_str(), var, a.var);
        for (int i = 0; i < 15; ++i) {
            const double p = a.cdf(a.at[i]), want = n * p, q = a.below[i] / n;
            auto term = [](double x, double y) { return x > 0 ? x * std::log(x / y) : 0.0; };
            const bool unlikely = random && p > 1e-13 && p < 1 - 1e-13 && n * (term(q, p) + term(1 - q, 1 - p)) > 32;   // odds below 2 exp(-32)
            if (unlikely || std::fabs(a.below[i] - want) > 9 * std::sqrt(n * p * (1 - p)) + 12)
                violate("frequency", "%s: %ld of %ld draws of %s are at most %g, and %.1f should be", who.c_str(), a.below[i], a.n, a.name.c_str(), a.at[i], want);
        }
    }
    struct Probe : op::Distribution {   // shows the quantile it is asked for
        double inv_cdf(const double& q) const override { return q; }
        double operator()(std::mt19937&) const override { return 0.5; }
    };
    void c08() {
        component("PseudoRandomNumberGenerator"); component("SobolGenerator"); component("FaureGenerator"); component("distributions"); component("boost::random");
        GenSpec g; g.kind = choose(N_GEN); g.dim = gen_dim(); if (chance(1, 10)) g.dim = 100 + choose(152);
        g.seed = gen_seed();
        const bool unseeded = chance(1, 3);
        string who = str(g);
        auto make = [&]() -> unique_ptr<op::NumberGenerator> {
            if (!unseeded) return make_gen(g);
            entropy_set(9); entropy_exact(g.seed); fault("hostile-entropy");
            return make_unseeded(g.kind, g.dim);
        };
        if (unseeded) who = string(gen_name(g.kind)) + " with entropy " + std::to_string(g.seed) + " and dimension " + std::to_string(g.dim);
        log("%s", who.c_str());
        if (g.kind == PRNG) {
            auto gen = make();
            vector<Any> ds; const int k = 1 + choose(3);
            for (int i = 0; i < k; ++i) { ds.push_back(gen_dist(false)); log("%s", ds.back().name.c_str()); }
            const int rounds = chance(1, 4) ? 4000 : chance(1, 5) ? 60000 / k : 60 + choose(200), order = choose(3);
            const uint32_t salt = choose(1000);
            for (int i = 0; i < rounds * k; ++i) {
                const int j = order == 0 ? i % k : order == 1 ? (i / 5) % k : (int)((uint32_t)(i * 2654435761u + salt) >> 7) % k;
                take(*gen, ds[j], who);
            }
            step(rounds * k);
            for (auto& d : ds) { judge(d, who, true); log("%s: mean %g", d.name.c_str(), d.mean + d.sum / std::max(1L, d.n)); }
            nontrivial();
            return;
        }
        // the low-discrepancy points themselves
        vector<double> ref;
        const long want = std::min<long>(3000, std::max<long>(3 * g.dim + choose(3 * g.dim + 1), 40));
        const double top = (double)(g.kind == SOBOL ? (double)boost::random::sobol::max() : (double)boost::random::faure::max());
        auto fill = [&](auto& eng) {
            vector<double> pt(g.dim);
            while ((long)ref.size() < want) { eng.generate(pt.begin(), pt.end()); for (double x : pt) ref.push_back(x / top); }
        };
        if (g.kind == SOBOL) { boost::random::sobol e(g.dim); e.seed(g.seed); fill(e); }
        else { boost::random::faure e(g.dim); e.seed(std::max(g.seed, 1u)); fill(e); }   // the origin has no quantiles
        {
            auto gen = make(); Probe p; const bool unsupported = chance(1, 3); op::PoissonDistribution po{2.0}; op::GammaDistribution ga{2.0, 1.0};
            for (long i = 0; i < want; ++i) {
                if (unsupported && chance(1, 9)) {                              // refused, and no coordinate is lost
                    bool refused = false;
                    try { if (chance(1, 2)) (void)(*gen)(po); else (void)(*gen)(ga); } catch (const std::exception&) { refused = true; }
                    if (!refused) break;
                    fault("unsupported-draw");
                }
                const double u = (*gen)(p);
                if (!(u > 0 && u < 1)) violate("outside-support", "%s: coordinate %ld is %.17g", who.c_str(), i, u);
                if (!unseeded && std::fabs(u - ref[i]) > 1e-9)
                    violate("not-the-sequence", "%s: draw %ld is %.17g where the sequence has %.17g (point %ld, coordinate %ld)", who.c_str(), i, u, ref[i], i / g.dim, i % g.dim);
            }
            if (!unseeded) probe("sequence-compared");
        }
        {
            auto gen = make(); Any a = gen_dist(true);
            const long n = chance(1, 4) ? 6000 : want;
            auto twin = make(); Probe p;
            for (long i = 0; i < n; ++i) {
                take(*gen, a, who);
                const double u = (*twin)(p), z = -std::sqrt(2.0) * boost::math::erfc_inv(2 * u);   // the generator approximates the quantile
                if (!(std::fabs(a.last - z) <= 1e-5 * std::max(1.0, std::fabs(z)) * (std::fabs(z) > 6 ? 100 : 1)))
                    violate("not-the-quantile", "%s: draw %ld is %.10g; the quantile of its coordinate %.17g is %.10g", who.c_str(), i, a.last, u, z);
            }
            step(n + want);
            if (g.dim <= 8 && n >= 4000) judge(a, who, false);
            log("mean %.6g", a.mean + a.sum / a.n);
        }
        nontrivial();
    }
}
