// C26: what has no meaning is refused, at the latest when it is used, and a refusal leaves no trace.
#include "pricing.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"

namespace sim {
    namespace {
        enum Verdict { ACCEPTED, REFUSED, NOMEM, OTHER };
        const double TINY = 5e-324, EPS = 1e-9;
        double below(double x) { const double v[] = {std::nextafter(x, -INFINITY), x - EPS, x - 1, -1e6, -INFINITY}; return v[choose(5)]; }
        double above(double x) { const double v[] = {std::nextafter(x, INFINITY), x + EPS, x + 1, 1e6, INFINITY}; return v[choose(5)]; }
        // A value not greater than 0 (strict) or less than 0.
        double not_positive() { static const double v[] = {0.0, -0.0, NAN, -1, -EPS, -TINY, -INFINITY, -NAN}; return v[choose(8)]; }
        double negative() { static const double v[] = {-1, NAN, -EPS, -TINY, -INFINITY, -NAN}; return v[choose(6)]; }
        double nan_() { return chance(1, 4) ? -NAN : NAN; }
        double positive() { static const double v[] = {1, 0.3, 2.5, 0.05, 7}; return v[choose(5)]; }
        string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

        // A model by its parameters. What follows is the range each of them has to be in.
        struct Par { int kind = GBM; double p[8] = {}; string what; bool bad = false; };
        Par gen_par(bool bad) {
            Par m; m.kind = bad ? 1 + choose(5) : choose(N_MODEL); m.bad = bad;
            double* p = m.p;
            auto spoil = [&](int i, const char* n, double v) { p[i] = v; m.what = string(n) + "=" + num(v); };
            auto edge = [&](int i, const char* n, double v) { if (chance(1, 2)) { spoil(i, n, v); probe(("edge: " + m.what).c_str()); } };
            switch (m.kind) {
                case HESTON: case BATES: {
                    p[0] = positive(); p[1] = 0.04; p[2] = 0.3; p[3] = -0.5; p[4] = 0.04; p[5] = 0.5 * positive(); p[6] = -0.1; p[7] = 0.15;
                    const bool b = m.kind == BATES;
                    if (bad) switch (choose(b ? 9 : 6)) {
                        case 0: spoil(3, "rho", above(1)); break;
                        case 1: spoil(3, "rho", below(-1)); break;
                        case 2: spoil(3, "rho", nan_()); break;
                        case 3: spoil(4, "v0", b ? not_positive() : negative()); break;
                        case 4: spoil(2, "sigma_v", b ? not_positive() : negative()); break;
                        case 5: if (b && chance(1, 2)) spoil(0, "kappa", not_positive()); else spoil(chance(1, 2) ? 0 : 1, "kappa or theta", nan_()); break;
                        case 6: spoil(7, "sigmaJ", not_positive()); break;
                        case 7: spoil(5, "lambda", negative()); break;
                        default: spoil(6, "muJ", nan_());
                    } else switch (choose(4)) {
                        case 0: edge(3, "rho", 1); break;
                        case 1: edge(3, "rho", -1); break;
                        case 2: if (!b) edge(4, "v0", 0); else edge(4, "v0", 1e-300); break;
                        default: if (!b) edge(2, "sigma_v", 0); else edge(7, "sigmaJ", 1e-300);
                    }
                    break;
                }
                case MERTON:
                    p[0] = positive(); p[1] = -0.1; p[2] = 0.15;
                    if (bad) switch (choose(3)) { case 0: spoil(2, "sigmaJ", not_positive()); break; case 1: spoil(0, "lambda", negative()); break; default: spoil(1, "muJ", nan_()); }
                    else edge(2, "sigmaJ", chance(1, 2) ? 1e-300 : 2);
                    break;
                case KOU:
                    p[0] = positive(); p[1] = 0.4; p[2] = 10; p[3] = 5;
                    if (bad) switch (choose(7)) {
                        case 0: spoil(1, "p", below(0)); break;
                        case 1: spoil(1, "p", above(1)); break;
                        case 2: spoil(1, "p", nan_()); break;
                        case 3: spoil(2, "eta1", below(1)); break;
                        case 4: spoil(2, "eta1", chance(1, 2) ? 1 : nan_()); break;
                        case 5: spoil(3, "eta2", not_positive()); break;
                        default: spoil(0, "lambda", negative());
                    } else switch (choose(3)) { case 0: edge(1, "p", 0); break; case 1: edge(1, "p", 1); break; default: edge(2, "eta1", 1.0001); }
                    break;
                case VG:
                    p[0] = 0.2; p[1] = -0.1;
                    if (bad) { if (chance(1, 3)) spoil(1, "theta", nan_()); else spoil(0, "nu", not_positive()); }
                    else edge(1, "theta", 0);
                    break;
                default: break;
            }
            if (m.what.empty()) m.what = "ordinary parameters";
            return m;
        }
        shared_ptr<StockModel> build(const Par& m, const string& t, const MarketP& mk, const shared_ptr<op::NumberGenerator>& g) {
            const double* p = m.p;
            switch (m.kind) {
                case GBM: return std::make_shared<op::GeometricBrownianMotionModel>(t, mk, g);
                case HESTON: return std::make_shared<op::HestonModel>(t, mk, g, p[0], p[1], p[2], p[3], p[4]);
                case BATES: return std::make_shared<op::BatesModel>(t, mk, g, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
                case MERTON: return std::make_shared<op::MertonJumpDiffusionModel>(t, mk, g, p[0], p[1], p[2]);
                case KOU: return std::make_shared<op::KouModel>(t, mk, g, p[0], p[1], p[2], p[3]);
                default: return std::make_shared<op::VarianceGammaModel>(t, mk, g, p[0], p[1]);
            }
        }
        unique_ptr<op::Distribution> dist(int k, double a, double b) {
            switch (k) {
                case 0: return std::make_unique<op::NormalDistribution>(a, b);
                case 1: return std::make_unique<op::ContinuousUniformDistribution>(a, b);
                case 2: return std::make_unique<op::ExponentialDistribution>(a);
                case 3: return std::make_unique<op::PoissonDistribution>(a);
                default: return std::make_unique<op::GammaDistribution>(a, b);
            }
        }
        shared_ptr<op::NumberGenerator> generator(int k, unsigned dim, bool seeded) {
            switch (k) {
                case 0: return seeded ? std::make_shared<op::PseudoRandomNumberGenerator>(dim, 7u) : std::make_shared<op::PseudoRandomNumberGenerator>(dim);
                case 1: return seeded ? std::make_shared<op::SobolGenerator>(dim, 7u) : std::make_shared<op::SobolGenerator>(dim);
                default: return std::make_shared<op::FaureGenerator>(dim, 7u);
            }
        }
        unique_ptr<op::MCBuilder> builder(int kind) {
            switch (kind) {
                case AMERICAN: return std::make_unique<op::AmericanMCBuilder>();
                case ARITH_ASIAN: return std::make_unique<op::ArithmeticAsianMCBuilder>();
                case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCBuilder>();
                case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCBuilder>();
                case KNOCK_OUT: return std::make_unique<op::KnockOutBarrierMCBuilder>();
                case FLOAT_LOOKBACK: return std::make_unique<op::FloatingStrikeLookbackMCBuilder>();
                case FIXED_LOOKBACK: return std::make_unique<op::FixedStrikeLookbackMCBuilder>();
                default: return std::make_unique<op::MCSinglePathBuilder>();
            }
        }
    }

    void c26() {
        component("distributions"); component("number generators"); component("models"); component("Monte Carlo builders and pricers");
        component("finite-difference solvers"); component("regressions and bases"); component("MarketData");
        Hist h(2);
        const vector<string> ts{universe()[0], universe()[1]};
        // what is there already, and has to go on working
        auto canary_gen = std::make_shared<StreamGen>(4, 11);
        auto canary = make_model(ModelSpec{GBM}, ts[0], h.m, canary_gen);
        OptSpec co; auto canary_opt = make_option(co);
        auto canary_pricer = make_pricer(co, canary_opt, h.m, canary);
        auto canary_fdm = [&](const MarketP& mk) { Grid g; g.scheme = IMPLICIT; auto e = std::dynamic_pointer_cast<op::EuropeanOption>(canary_opt); return make_fdm(g, std::make_unique<pd::BlackScholesPDE>(e, mk), e, mk)->calculatePrice(); };
        const bool faults = chance(1, 3);
        const int n = 2 + choose(10);
        for (int i = 0; i < n; ++i) {
            step();
            if (chance(1, 4)) h.some(1, ts);
            const string t = ts[choose(2)];
            const bool bad = !chance(1, 3);
            bool null_case = false;
            string what;                       // the deed, and its doing: true if it gave a result with nothing wrong in it
            std::function<bool()> deed;
            auto gen = std::make_shared<StreamGen>(1 + choose(5), 3);
            long draws_at_use = -1;            // of gen, when construction was over
            switch (choose(9)) {
                case 7: {
                    if (bad) continue;
                    const OptSpec o = gen_option(t); auto opt = make_option(o); const bool print = chance(1, 2);
                    what = string(print ? "printing" : "the type of") + " an option";
                    deed = [=] { if (!print) return !opt->getType().empty(); std::ostringstream s; s << *opt; return true; };
                    break;
                }
                case 0: {
                    const int k = choose(5); double a = positive(), b = positive() + (k == 1 ? a : 0);
                    if (bad) switch (k) {
                        case 0: if (chance(1, 4)) a = nan_(); else b = not_positive(); break;
                        case 1: { const uint32_t c = choose(5); if (c == 0) a = nan_(); else if (c == 1) b = nan_(); else if (c == 2) b = a; else if (c == 3) b = std::nextafter(a, -1); else b = -a; break; }
                        case 4: if (chance(1, 2)) a = not_positive(); else b = not_positive(); break;
                        default: a = not_positive();
                    } else if (chance(1, 3)) { if (k == 0) b = 1e-300; else if (k == 1) b = std::nextafter(a, 1e9); else if (k == 3) a = 1e-12; else if (k == 2) a = 1e-3; probe("edge: distribution"); }
                    static const char* nm[] = {"normal", "uniform", "exponential", "poisson", "gamma"};
                    what = string(nm[k]) + " distribution (" + num(a) + ", " + num(b) + ")";
                    deed = [=] { auto d = dist(k, a, b); std::mt19937 e(5); for (int q = 0; q < 3; ++q) if (!std::isfinite((*d)(e))) return false; return true; };
                    break;
                }
                case 1: {
                    const int k = choose(3); const bool seeded = !chance(1, 3); const unsigned dim = bad ? 0 : 1 + choose(3);
                    static const char* nm[] = {"pseudo-random", "Sobol", "Faure"};
                    what = string(nm[k]) + " generator of dimension " + std::to_string(dim) + (seeded ? "" : ", unseeded");
                    deed = [=] { entropy_set(99); auto g = generator(k, dim, seeded); op::StandardNormalDistribution d; return std::isfinite((*g)(d)); };
                    break;
                }
                case 2: case 3: {
                    const Par m = gen_par(bad); const World w = h.w;
                    if (m.kind == VG && !bad) { const double s = w.stocks.at(t).sig; if (1 - m.p[1] * m.p[0] - 0.5 * s * s * m.p[0] <= 0) { --i; probe("no-finite-mean-skipped"); h.some(1, ts); continue; } }
                    what = string(model_name(m.kind)) + " model with " + m.what;
                    const bool back = m.kind != GBM && !bad && chance(1, 6);
                    if (back) what += ", drawn backward";
                    deed = [=, &draws_at_use, &h] {
                        shared_ptr<StockModel> s;
                        try { s = build(m, t, h.m, gen); } catch (...) { draws_at_use = gen->draws; throw; }
                        draws_at_use = gen->draws;
                        if (back) { (void)s->simulatePriceBackward(100, 0.25, 0.5); violate("accepted", "a %s model was drawn backward", model_name(m.kind)); }
                        const auto v = s->simulatePrices(0.5);
                        for (double x : v) if (!std::isfinite(x)) return false;
                        return v.size() == gen->getDim();
                    };
                    if (back) null_case = true;
                    break;
                }
                case 4: {                       // no drift makes up for jumps whose mean is infinite
                    Op o; o.kind = OP_SIGMA; o.t = t; o.x = 0.2; if (changes(h.w, o)) h.accept(o);
                    const double nu = 0.5 * positive(), over = bad ? (chance(1, 3) ? 0 : 0.1 * positive()) : -0.1 * std::min(1.0, positive());
                    const bool by_tick = chance(1, 2);          // the volatility grew later
                    const double th = by_tick ? -0.1 : (1 + over) / nu - 0.02, s1 = by_tick ? std::sqrt(2 * (1 + over + 0.1 * nu) / nu) : 0.2;
                    // rounding decides when it is exactly zero: stay off it
                    const double arg = 1 - th * nu - 0.5 * s1 * s1 * nu; if (std::fabs(arg) < 1e-6) { probe("edge: mean just infinite"); continue; }
                    what = "variance gamma with nu=" + num(nu) + " theta=" + num(th) + (by_tick ? ", volatility raised to " + num(s1) : "");
                    Op up = o; up.x = s1;
                    shared_ptr<StockModel> s;
                    if (by_tick) { s = std::make_shared<op::VarianceGammaModel>(t, h.m, gen, nu, th); h.accept(up); }
                    deed = [=, &h] {
                        auto q = s ? s : std::make_shared<op::VarianceGammaModel>(t, h.m, gen, nu, th);
                        for (double x : q->simulatePrices(0.5)) if (!std::isfinite(x)) return false;
                        return true;
                    };
                    break;
                }
                case 5: {
                    Grid g; g.scheme = choose(N_SCHEME); g.J = 3 + choose(6); g.N = 2 + choose(6); int null = 0;
                    if (bad) switch (choose(6)) {
                        case 0: g.J = choose(3); break;
                        case 1: g.N = choose(2); break;
                        case 2: g.xDom = not_positive(); break;
                        case 3: g.tDom = negative(); break;
                        default: null = 1 + choose(3);
                    } else if (chance(1, 3)) { if (chance(1, 2)) g.J = 3; else g.N = 2; if (chance(1, 3)) g.tDom = 0; probe("edge: grid"); }
                    const int mk = g.J < 4 ? 0 : choose(4);
                    what = string(scheme_name(g.scheme)) + " J=" + std::to_string(g.J) + " N=" + std::to_string(g.N) + " xDom=" + num(g.xDom) + " tDom=" + num(g.tDom);
                    static const char* nm[] = {"", ", without PDE", ", without option", ", without market"}; what += nm[null];
                    deed = [=, &h] {
                        auto e = std::dynamic_pointer_cast<op::EuropeanOption>(canary_opt);
                        auto p = null == 1 ? nullptr : std::make_unique<pd::BlackScholesPDE>(e, h.m);
                        shared_ptr<op::MatrixSolver> ms; if (mk == 1) ms = std::make_shared<op::PartialPivotingLUSolver>(); else if (mk == 2) ms = std::make_shared<op::ThomasAlgorithm>();
                        auto s = make_fdm(g, std::move(p), null == 2 ? nullptr : e, null == 3 ? nullptr : MarketP(h.m), nullptr, ms);
                        const auto v = s->solve(); const double x = s->calculatePrice();
                        return v.size() == g.J && (g.scheme == EXPLICIT || std::isfinite(x));
                    };
                    break;
                }
                case 6: {
                    OptSpec o = gen_option(t); o.T = 0.5;
                    const uint32_t way = choose(3); const int null = bad && chance(1, 2) ? 1 + choose(o.kind == AMERICAN ? 3 : 1) : 0; const unsigned long N = bad && !null ? 0 : 1 + choose(6);
                    static const char* nm[] = {"", ", without market", ", without basis functions", ", without regression"};
                    static const char* wn[] = {"directly", "through a solver", "through a solver that worked before"};
                    what = string(opt_name(o.kind)) + " over " + std::to_string(N) + " paths, " + wn[way] + nm[null];
                    auto opt = make_option(o);
                    deed = [=, &h] {
                        auto b = builder(o.kind);
                        b->setOption(opt); b->setMarketData(null == 1 ? nullptr : MarketP(h.m));
                        if (!null || chance(1, 2)) b->setStockPriceModel(std::make_shared<op::GeometricBrownianMotionModel>(t, h.m, gen));
                        if (auto* a = dynamic_cast<op::AmericanMCBuilder*>(b.get())) {
                            if (null == 2) a->setBasisFunctionStrategy(nullptr);
                            if (null == 3) a->setRegressionStrategy(nullptr);
                        }
                        auto p = b->build();
                        double x;
                        if (way == 0) x = p->calculatePrice(N);
                        else { op::MCSolver s(way == 2 ? 2 : N); s.setPricer(std::move(p)); if (way == 2) { (void)s.solve(); s.setN(N); } x = s.solve(); }
                        return std::isfinite(x);
                    };
                    break;
                }
                default: {
                    const uint32_t k = choose(7); const double lam = bad ? negative() : chance(1, 3) ? 0 : positive();
                    static const char* nm[] = {"ridge", "lasso", "monomials", "Laguerre", "Legendre", "Chebyshev", "model"};
                    const unsigned order = bad ? 0 : 1 + choose(4); const uint32_t null = choose(3);
                    if (k == 6 && !bad) continue;
                    what = string(nm[k]) + (k < 2 ? " with lambda=" + num(lam) : k < 6 ? " of order " + std::to_string(order) : null == 0 ? " without generator" : null == 1 ? " without market" : " of an unknown stock");
                    const int mk = choose(N_MODEL);
                    deed = [=, &h] {
                        Eigen::VectorXd x(4); x << 1, 2, 3, 5; Eigen::VectorXd y(4); y << 2, 1, 0, 4;
                        shared_ptr<op::BasisFunction> b;
                        switch (k) {
                            case 2: b = std::make_shared<op::MonomialBasisFunction>(order); break;
                            case 3: b = std::make_shared<op::LaguerreBasisFunction>(order); break;
                            case 4: b = std::make_shared<op::LegendreBasisFunction>(order); break;
                            case 5: b = std::make_shared<op::ChebyshevBasisFunction>(order); break;
                            case 6: {
                                ModelSpec s; s.kind = mk;
                                auto m = make_model(s, null == 2 ? "no such stock" : t, null == 1 ? nullptr : MarketP(h.m), null == 0 ? nullptr : gen);
                                return std::isfinite(m->simulatePrices(1).back());
                            }
                            default: {
                                Eigen::MatrixXd A(4, 2); A.col(0).setOnes(); A.col(1) = x;
                                const Eigen::VectorXd c = k == 0 ? op::RidgeRegression(lam).solve(A, y) : op::LassoRegression(lam).solve(A, y);
                                return c.size() == 2 && c.allFinite();
                            }
                        }
                        return b->generate(x).cols() == (long)order;
                    };
                }
            }
            const bool refuse = bad || null_case;
            long k = 0;
            if (faults && chance(1, 2)) k = 1 + choose(30);
            log("%s%s%s", what.c_str(), refuse ? " (to be refused)" : "", k ? ", an allocation fails" : "");
            auto attempt = [&](long kk, long& fired, string& err, bool& fine) {
                Verdict v = ACCEPTED; fine = true; err.clear(); gen->rewind(); draws_at_use = -1;
                alloc_arm(kk);
                try { fine = deed(); }
                catch (const std::bad_alloc&) { v = NOMEM; }
                catch (const std::exception& e) { Harness hh; v = REFUSED; err = e.what(); }
                catch (...) { v = OTHER; }
                fired = alloc_disarm();
                return v;
            };
            long fired = 0; string err; bool fine;
            const Verdict v = attempt(k, fired, err, fine);
            log("-> %s", v == ACCEPTED ? "a result" : v == REFUSED ? "refused" : v == NOMEM ? "out of memory" : "something else thrown");
            if (v == OTHER) violate("wrong-error", "%s ended with something that is no std::exception", what.c_str());
            if (v == NOMEM && !fired) violate("wrong-error", "%s ran out of memory, but no allocation failed", what.c_str());
            if (v == ACCEPTED && refuse) violate("accepted", "%s gave a result", what.c_str());
            if (v == REFUSED && !refuse) violate("refused-admissible", "%s was refused: %s", what.c_str(), err.c_str());
            if (v == ACCEPTED && !fine) violate("no-number", "%s gave something that is no finite number", what.c_str());
            if (v == REFUSED) { nontrivial(); fault("refused"); if (draws_at_use > 0) violate("drew", "%s was refused after it had drawn random numbers while being made", what.c_str()); }
            if (v == NOMEM) { nontrivial(); probe("out-of-memory"); }
            if (v != ACCEPTED) {
                long prev = 0, heap = 0; int grew = 0;
                for (int rep = 0; rep < 5; ++rep) { long f2; string e2; bool fi; attempt(k, f2, e2, fi); { string().swap(e2); } const long b = live_blocks(), x = live_heap(); if (rep > 1 && (b > prev || x > heap)) ++grew; prev = b; heap = x; }
                if (grew >= 3) violate("leak", "every refusal of %s leaves memory allocated", what.c_str());
            }
            // nothing else has changed
            const string d = difference(*h.m, h.w);
            if (!d.empty()) violate("market-changed", "%s changed the market: %s", what.c_str(), d.c_str());
            auto flat = std::make_shared<FlatMarket>(h.w);
            canary_gen->rewind(); const double got = canary_pricer->calculatePrice(3);
            auto g2 = std::make_shared<StreamGen>(4, 11);
            const double want = make_pricer(co, canary_opt, flat, make_model(ModelSpec{GBM}, ts[0], flat, g2))->calculatePrice(3);
            if (!close(got, want)) violate("others-changed", "after %s an existing pricer gives %.17g instead of %.17g", what.c_str(), got, want);
            if (chance(1, 6)) { const double a = canary_fdm(h.m), b = canary_fdm(flat); if (!close(a, b)) violate("others-changed", "after %s a finite-difference solver gives %.17g instead of %.17g", what.c_str(), a, b); }
        }
    }
}
