// C12: builders, the Monte Carlo solver and strategy arguments under histories of configuration.
#include "pricing.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"

namespace sim {
    static unique_ptr<op::MCBuilder> make_builder(int kind) {
        switch (kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: return std::make_unique<op::MCSinglePathBuilder>();
            case AMERICAN: return std::make_unique<op::AmericanMCBuilder>();
            case ARITH_ASIAN: return std::make_unique<op::ArithmeticAsianMCBuilder>();
            case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCBuilder>();
            case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCBuilder>();
            case KNOCK_OUT: return std::make_unique<op::KnockOutBarrierMCBuilder>();
            case FLOAT_LOOKBACK: return std::make_unique<op::FloatingStrikeLookbackMCBuilder>();
            default: return std::make_unique<op::FixedStrikeLookbackMCBuilder>();
        }
    }
    static bool fits(int builder, int option) { return builder <= DOUBLE_DIGITAL ? option <= DOUBLE_DIGITAL : builder == option; }
    struct Cfg {
        optional<OptSpec> o; shared_ptr<Option> opt; bool doubtful = false;   // doubtful: a wrong option was refused since
        shared_ptr<ScriptedModel> m; int market = 0;
        shared_ptr<StubRegression> rg; shared_ptr<StubBasis> bs; bool own = false;
    };
    struct Built { unique_ptr<MCPricer> p; Cfg c; uint64_t e = 0; bool spent = false; };

    static void builder_history() {
        Hist h(2); const vector<string> ts{universe()[0], universe()[1]};
        World other = h.w; other.r = 0.11; for (auto& [k, v] : other.stocks) v = {k == ts[0] ? 130.0 : 70.0, 0.0, optional<double>(0.02)};
        auto flat = std::make_shared<FlatMarket>(other);
        auto market_of = [&](const Cfg& c) -> MarketP { return c.market ? MarketP(flat) : MarketP(h.m); };
        auto world_of = [&](const Cfg& c) -> const World& { return c.market ? other : h.w; };
        const int kind = choose(N_OPT);
        component("MCBuilder"); component(opt_name(kind));
        auto b = make_builder(kind); Cfg c; vector<Built> built; vector<shared_ptr<Option>> keep;
        vector<shared_ptr<ScriptedModel>> ms;
        for (int i = 0; i < 2; ++i) ms.push_back(std::make_shared<ScriptedModel>(ts[0], h.m, 2 + i));
        log("%s builder", opt_name(kind));
        auto configure = [&](op::MCBuilder& nb, const Cfg& cc) {
            nb.setOption(cc.opt);
            if (cc.m) nb.setStockPriceModel(cc.m);
            if (cc.market) nb.setMarketData(flat);
            if (cc.own) { auto& a = dynamic_cast<op::AmericanMCBuilder&>(nb); a.setRegressionStrategy(cc.rg); a.setBasisFunctionStrategy(cc.bs); }
        };
        auto judge = [&](Built& x) {
            if (x.spent) return;
            const unsigned long N = 1 + choose(5);
            double got, want;
            if (x.c.m) {
                const Paths p = gen_paths(*x.c.o, N, x.c.m->getSteps()); x.c.m->load(p);
                got = x.p->calculatePrice(N);
                bool amb = false;
                StubBasis db(real_basis(0, 3)); StubRegression dr(real_regression(0));
                want = ref_price(*x.c.o, p, world_of(x.c).r, x.c.own ? *x.c.bs : db, x.c.own ? *x.c.rg : dr, amb);
                if (amb) return;
                if (x.c.m->calls != N) violate("model-not-used", "the model that was set has been asked for %zu of %lu paths", x.c.m->calls, N);
                if (!close(got, want, 1e-7, 1e-9)) violate("not-as-configured", "%s on the %s market prices %.15g instead of %.15g", str(*x.c.o).c_str(), x.c.market ? "given" : "shared", got, want);
            } else {
                // default model: a new builder with only these settings, under the same entropy
                auto nb = make_builder(kind); configure(*nb, x.c);
                entropy_set(x.e); auto q = nb->build();
                got = x.p->calculatePrice(N); want = q->calculatePrice(N); x.spent = true;
                if (!same(got, want)) violate("not-as-fresh-builder", "%s with the default model prices %.17g, built by a new builder %.17g", str(*x.c.o).c_str(), got, want);
                if (x.c.market && x.c.o->kind <= DOUBLE_DIGITAL) {          // no volatility there: the terminal price is certain
                    const Vals v = other.stocks.at(x.c.o->ticker);
                    const double S = v.S * std::exp((other.r - *v.c) * x.c.o->T), w = ref_payoff(*x.c.o, S) * std::exp(-other.r * x.c.o->T);
                    if (!close(got, w, 1e-9)) violate("default-model-market", "%s with the default model on the given market prices %.15g instead of %.15g", str(*x.c.o).c_str(), got, w);
                }
                if (x.c.market) {                                           // and the shared market has no say in it
                    const vector<string> all{ts[0], ts[1]};
                    for (auto& t : all) { Op o; o.kind = OP_PRICE; o.t = t; o.x = h.w.stocks.at(t).S > 60 ? 31.0 : 190.0; h.accept(o); }
                    Op o; o.kind = OP_RATE; o.x = h.w.r > 0.1 ? 0.02 : 0.25; h.accept(o);
                    auto nb2 = make_builder(kind); configure(*nb2, x.c); entropy_set(x.e);
                    const double again = nb2->build()->calculatePrice(N);
                    if (!same(again, want)) violate("default-model-market", "%s with the default model on a given market prices %.17g, and %.17g once the shared market has moved", str(*x.c.o).c_str(), want, again);
                }
                probe("default-model");
            }
            log("judged %.12g", got);
            nontrivial();
        };
        const int n = 3 + choose(9);
        for (int i = 0; i < n; ++i) {
            step();
            switch (choose(11)) {
                case 0: case 1: {                                           // an option that fits
                    const int k = kind <= DOUBLE_DIGITAL ? choose(3) : kind;
                    const OptSpec o = gen_option(ts[choose(2)], k); auto p = make_option(o);
                    b->setOption(p); c.o = o; c.opt = p; c.doubtful = false; log("setOption %s", str(o).c_str()); break;
                }
                case 2: {                                                   // one that does not, or none
                    int k = choose(N_OPT); if (fits(kind, k)) k = (k + 3) % N_OPT; if (fits(kind, k)) k = (k + 1) % N_OPT;
                    shared_ptr<Option> p; if (!fits(kind, k) && !chance(1, 4)) p = make_option(gen_option(ts[choose(2)], k));
                    bool threw = false; try { b->setOption(p); } catch (const std::exception&) { threw = true; }
                    if (!threw) violate("wrong-option-accepted", "the %s builder accepts %s option", opt_name(kind), p ? opt_name(k) : "no");
                    if (c.o) c.doubtful = true;
                    fault("wrong-option"); break;
                }
                case 3: { const uint32_t k = choose(3); c.m = k < 2 ? ms[k] : nullptr; b->setStockPriceModel(c.m); log("setStockPriceModel %u", k); break; }
                case 4: { c.market = choose(2); b->setMarketData(market_of(c)); log("setMarketData %d", c.market); break; }
                case 5: if (kind == AMERICAN) {
                    auto& a = dynamic_cast<op::AmericanMCBuilder&>(*b);
                    c.own = true; c.rg = std::make_shared<StubRegression>(); c.bs = std::make_shared<StubBasis>();
                    static const double qs[] = {1, 0.5, 2, 0}; c.rg->q = qs[choose(4)];
                    a.setRegressionStrategy(c.rg); a.setBasisFunctionStrategy(c.bs); log("strategies q=%g", c.rg->q);
                } break;
                case 6: h.some(1, ts); break;
                case 7: if (!built.empty()) judge(built[choose(built.size())]); break;
                default: {                                                  // build
                    const uint64_t e = choose(1000); entropy_set(e);
                    const int f = choose(6); bool threw = false, fired = false; unique_ptr<MCPricer> p; string err;
                    if (f == 1) alloc_arm(1 + choose(6));
                    if (f == 2 && !c.m) entropy_fail(1000);
                    try { p = b->build(); } catch (const std::exception& x) { Harness hh; threw = true; err = x.what(); }
                    if (f == 1) fired = alloc_disarm() > 0;
                    if (f == 2 && !c.m) { entropy_fail(0); fired = threw; }
                    log("build: %s", threw ? "failed" : "done");
                    if (!c.o) { if (!threw) violate("built-without-option", "a pricer was built without an option"); probe("no-option-refused"); nontrivial(); break; }
                    if (threw && c.doubtful && !fired) { c.o.reset(); c.opt.reset(); c.doubtful = false; probe("refused-option-dropped"); break; }
                    if (threw && !fired) violate("build-failed", "build failed: %s", err.c_str());
                    if (!threw && fired) violate("build-failure-hidden", "build succeeded although it could not get memory or entropy");
                    if (threw) {                                            // and again, without the failure
                        fault("build-fails"); entropy_set(e);
                        try { p = b->build(); } catch (const std::exception& x) { if (c.doubtful) { c.o.reset(); c.opt.reset(); c.doubtful = false; break; } violate("no-rebuild", "build after a failed build: %s", x.what()); }
                    }
                    Built x; x.p = std::move(p); x.c = c; x.e = e;
                    if (c.own) { x.c.rg = c.rg; x.c.bs = c.bs; }
                    built.push_back(std::move(x));
                    if (built.size() > 1) probe("built-more-than-once");
                    if (chance(1, 2)) judge(built.back());
                }
            }
        }
        for (auto& x : built) judge(x);
    }

    static void solver_history() {
        component("MCSolver");
        Hist h(1); const vector<string> ts{universe()[0]};
        unsigned long N = 1 + choose(5);
        op::MCSolver s(N); shared_ptr<ScriptedModel> cur; OptSpec o; vector<shared_ptr<ScriptedModel>> all;
        StubBasis bs; StubRegression rg;
        const int n = 2 + choose(8);
        for (int i = 0; i < n; ++i) {
            switch (choose(5)) {
                case 0: N = chance(1, 12) ? 100 + choose(choose(3) ? 5000 : 70000) : 1 + choose(8); if (N > 64) probe("many-paths"); s.setN(N); log("setN %lu", N); break;
                case 1: {
                    if (chance(1, 6)) { s.setPricer(nullptr); cur = nullptr; log("setPricer none"); fault("no-pricer"); break; }
                    int k = choose(N_OPT); if (k == AMERICAN) k = EUROPEAN;
                    o = gen_option(ts[0], k); cur = std::make_shared<ScriptedModel>(ts[0], h.m, 1 + choose(4)); all.push_back(cur);
                    s.setPricer(make_pricer(o, make_option(o), h.m, cur)); log("setPricer %s", str(o).c_str()); break;
                }
                case 2: if (cur) {                                          // a failing run in between
                    cur->load({}); cur->hook = [](long) { fault("model-throws"); throw SimFault{3}; };
                    bool threw = false; try { s.solve(); } catch (const SimFault&) { threw = true; }
                    cur->hook = nullptr; if (!threw) violate("failure-hidden", "solve returned although its model fails");
                } break;
                default: {
                    if (!cur) { bool threw = false; try { s.solve(); } catch (const std::exception&) { threw = true; } if (!threw) violate("solved-without-pricer", "solve without a pricer returned a number"); nontrivial(); break; }
                    const Paths p = gen_paths(o, N, cur->getSteps()); for (auto& m : all) m->load(p);
                    bool amb = false; const double got = s.solve(), want = ref_price(o, p, h.w.r, bs, rg, amb);
                    log("solve %.12g", got);
                    if (cur->calls != N) violate("wrong-number-of-paths", "solve ran %zu paths of the pricer last set instead of %lu", cur->calls, N);
                    if (!close(got, want, 1e-8, 1e-10)) violate("not-the-last-pricer", "solve gives %.15g; the pricer and number of paths last set give %.15g", got, want);
                    nontrivial();
                }
            }
        }
    }

    static void strategies() {
        Hist h(1); const vector<string> ts{universe()[0]};
        const uint32_t k = choose(3);
        if (k == 0) {                                                       // variance schemes
            const bool bates = chance(1, 2); const unsigned dim = 2 + choose(5);
            static const double ks[] = {1.5, 0.5, 4}, ths[] = {0.04, 0.01, 0.2}, svs[] = {0.3, 0.8, 0.1}, rs[] = {-0.7, 0, 0.9};   // with and without the Feller condition
            const double kappa = ks[choose(3)], theta = ths[choose(3)], sv = svs[choose(3)], rho = rs[choose(3)]; component(bates ? "bates" : "heston");
            auto run = [&](const shared_ptr<op::CIRDiscretization>& s, unsigned d, double v0 = 0.04) {
                auto g = std::make_shared<StreamGen>(d, 5); shared_ptr<StockModel> m;
                if (bates) m = std::make_shared<op::BatesModel>(ts[0], h.m, g, kappa, theta, sv, rho, v0, 2.0, -0.1, 0.15, s);
                else m = std::make_shared<op::HestonModel>(ts[0], h.m, g, kappa, theta, sv, rho, v0, s);
                return m->simulatePrices(1.0); };
            auto a = std::make_shared<StubScheme>(), c = std::make_shared<StubScheme>(); a->v = 0.04; c->v = 0.25;
            const auto pa = run(a, dim), pc = run(c, dim), pd_ = run(nullptr, dim);
            log("schemes %s %s", str(pa).c_str(), str(pc).c_str());
            if (a->calls < (long)dim - 1 || a->calls > (long)dim) violate("scheme-not-used", "the variance scheme was called %ld times in %u steps", a->calls, dim);
            if (same(pa, pc)) violate("scheme-ignored", "two different variance schemes give the same path");
            if (!same(pa[0], pc[0])) violate("scheme-too-early", "the first step depends on the scheme");
            // variance v0 throughout: a scheme that keeps it at v0 from the start gives the same path
            auto kc = std::make_shared<StubScheme>(); kc->v = 0.25; const auto flat = run(kc, dim, 0.25);
            if (pd_.size() != dim) violate("default-scheme", "no path without a scheme");
            for (unsigned t = 1; t < dim; ++t)                              // increments after the first agree: same variance, same numbers
                if (!close(std::log(pc[t] / pc[t - 1]), std::log(flat[t] / flat[t - 1]), 1e-7, 1e-9)) violate("scheme-value-lost", "step %u does not use the variance its scheme set", t);
            auto re = std::make_shared<StubScheme>(make_scheme(1)), rm = std::make_shared<StubScheme>(make_scheme(2));
            if (!same(run(make_scheme(1), dim), run(re, dim)) || !same(run(make_scheme(2), dim), run(rm, dim))) violate("scheme-replaced", "a real scheme handed over is not the one used");
            nontrivial();
        } else if (k == 1) {                                                // interpolation and matrix solver
            Grid g = gen_grid(); const PdeSpec ps = gen_pde(g); component(scheme_name(g.scheme));
            auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(gen_option(ts[0], EUROPEAN)));
            auto in = std::make_shared<StubInterpolation>(); auto mx = std::make_shared<StubMatrix>(real_matrix(0));
            in->magic = true; in->value = 42.5; mx->magic = chance(1, 2); mx->value = 3.25;
            auto s = make_fdm(g, std::make_unique<StubPDE>(ps, g.xDom, g.tDom), opt, h.m, in, mx);
            const double p = s->calculatePrice();
            if (in->calls == 0) violate("interpolation-not-used", "the interpolation handed over was not called");
            if (!same(p, 42.5)) violate("interpolation-ignored", "the price is %.17g, the interpolation handed over says 42.5", p);
            const auto v = s->solve(); log("%s %s", scheme_name(g.scheme), str(v).c_str());
            if (g.scheme != EXPLICIT) {
                if (mx->calls != (long)g.N - 1) violate("matrix-solver-not-used", "the matrix solver was called %ld times in %lu steps", mx->calls, g.N - 1);
                if (mx->magic) for (size_t j = 1; j + 1 < v.size(); ++j) if (!same(v[j], 3.25)) violate("matrix-solver-ignored", "point %zu is %.17g, the matrix solver says 3.25", j, v[j]);
            }
            auto d = make_fdm(g, std::make_unique<StubPDE>(ps, g.xDom, g.tDom), opt, h.m);   // no strategies: still works
            d->calculatePrice(); nontrivial();
        } else {                                                            // regression and basis
            OptSpec o = gen_option(ts[0], AMERICAN); o.K = 100; component("american");
            auto m = std::make_shared<ScriptedModel>(ts[0], h.m, 3); auto bs = std::make_shared<StubBasis>(); auto rg = std::make_shared<StubRegression>(); rg->q = choose(3);
            auto p = make_pricer(o, make_option(o), h.m, m, bs, rg);
            const Paths x = gen_paths(o, 1 + choose(5), 3); m->load(x); bool amb = false;
            const double got = p->calculatePrice(x.size()), want = ref_price(o, x, h.w.r, *bs, *rg, amb);
            log("american %.12g", got);
            if (!amb && !close(got, want, 1e-8, 1e-10)) violate("strategies-ignored", "the price is %.15g; with the regression and basis handed over it is %.15g", got, want);
            nontrivial();
        }
    }
    void c12() {
        switch (choose(6)) { case 0: solver_history(); break; case 1: strategies(); break; default: builder_history(); }
    }
}
