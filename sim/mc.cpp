// C13, C10 (discounting): Monte Carlo pricers on paths the simulator wrote, against reference prices.
#include "pricing.h"

namespace sim {
    struct Rig {                                                // one pricer with its stubs
        OptSpec o; unsigned steps = 1; shared_ptr<Option> opt; shared_ptr<ScriptedModel> m; shared_ptr<StubBasis> bs; shared_ptr<StubRegression> rg; unique_ptr<MCPricer> p;
        bool bridge = false;
        OptSpec unit; double scale = 1;                         // o is unit with all prices times scale, a power of two
    };
    static Rig rig(Hist& h, const OptSpec& unit) {
        Rig x; x.unit = unit; OptSpec o = unit;
        if (wild && o.kind != AMERICAN && chance(1, 2)) { static const int e[] = {-34, 20, -60, 60}; x.scale = std::ldexp(1.0, e[choose(4)]); o.K *= x.scale; o.K2 *= x.scale; o.B *= x.scale; }
        x.o = o;
        static const unsigned st[] = {3, 1, 2, 4, 7, 12}; x.steps = st[choose(6)]; if (wild && chance(1, 3)) { static const unsigned ws[] = {13, 60, 101, 253, 366, 500}; x.steps = ws[choose(6)]; }
        if (wild && o.kind != AMERICAN && chance(1, 30)) { x.steps = chance(2, 3) ? 501 + choose(4000) : 65530 + choose(20); probe("long-paths"); }
        x.opt = make_option(o); x.m = std::make_shared<ScriptedModel>(o.ticker, h.m, x.steps); x.m->K = o.K > 0 ? o.K : 100;
        x.bs = std::make_shared<StubBasis>(); x.rg = std::make_shared<StubRegression>();
        if (o.kind == AMERICAN) {
            static const double qs[] = {1, 0.5, 2, 0}; x.rg->q = qs[choose(4)]; x.rg->K = o.K; x.rg->call = o.call; x.rg->mode = choose(3);
            if (chance(1, 5)) { x.bs->real = real_basis(choose(4)); x.rg->real = real_regression(choose(3)); probe("real-regression"); }
            x.bridge = chance(1, 3) && x.o.T > 0;
        }
        x.p = make_pricer(o, x.opt, h.m, x.m, x.bs, x.rg);
        component(opt_name(o.kind));
        log("rig %s, %u steps%s%s", str(o).c_str(), x.steps, x.bridge ? ", bridge" : "", o.kind == AMERICAN ? (x.rg->real ? ", real regression" : x.rg->mode == 1 ? ", ties" : "") : "");
        return x;
    }
    static Paths paths_for(const Rig& x, unsigned long N) { Paths p = gen_paths(x.unit, N, x.steps); for (auto& q : p) for (double& y : q) y *= x.scale; return p; }
    static double run(Rig& x, unsigned long N) { return x.bridge ? dynamic_cast<op::AmericanMCPricer&>(*x.p).brownianBridgePrice(N) : x.p->calculatePrice(N); }
    static double reference(const Rig& x, const Paths& p, double r, bool& amb) {
        return x.bridge ? ref_bridge(x.o, p, r, *x.m, *x.bs, *x.rg, amb) : ref_price(x.o, p, r, *x.bs, *x.rg, amb);
    }
    static unsigned long gen_N() {
        static const unsigned long v[] = {1, 2, 3, 5, 8}; const uint32_t k = choose(150);
        if (k == 149) return choose(6) == 5 ? 66000 + choose(4000) : 1000 + choose(3000);
        if (k >= 140) return 65 + choose(200);
        return k < 100 ? v[k % 5] : 1 + choose(20);
    }
    static void exact_calls(const Rig& x, unsigned long N) {
        if (x.m->calls != N) violate("wrong-number-of-paths", "%s asked for %zu paths instead of %lu", str(x.o).c_str(), x.m->calls, N);
        if (!same(x.m->lastT, x.o.T)) violate("wrong-maturity", "%s simulated over %g", str(x.o).c_str(), x.m->lastT);
    }
    static void priced(Rig& x, const Paths& p, double r, double got, const char* where) {
        bool amb = false;
        const double want = reference(x, p, r, amb);
        log("%s N=%zu r=%g price %.12g", where, p.size(), r, got);
        if (amb) { probe("ambiguous-exercise"); return; }
        if (!close(got, want, 1e-8, 1e-10 * std::min(x.scale, 1.0)))
            violate("wrong-price", "%s (%s, N=%zu, %u steps, r=%g): %.15g, and should be %.15g", str(x.o).c_str(), where, p.size(), x.steps, r, got, want);
        exact_calls(x, p.size());
        if (want != 0) nontrivial();
    }

    void c13() {
        component("MarketData");
        if (chance(1, 10)) { wild = 1; probe("unusual-values"); }
        Hist h(2); const vector<string> ts{universe()[0], universe()[1]};
        vector<Rig> rs;
        const int n0 = 1 + choose(2);
        for (int i = 0; i < n0; ++i) { OptSpec o = gen_option(ts[choose(2)], chance(1, 4) ? (int)AMERICAN : -1); if (i && chance(1, 2)) { o.kind = rs[0].o.kind; o.ticker = rs[0].o.ticker; } rs.push_back(rig(h, o)); }
        const int n = 1 + choose(6);
        for (int i = 0; i < n; ++i) {
            Rig& x = rs[choose(rs.size())];
            if (chance(1, 3)) h.some(1, ts);
            unsigned long N = x.steps > 500 ? 1 + choose(3) : gen_N(); if (N * x.steps > 850000) N = 850000 / x.steps;
            const Paths p = paths_for(x, N);
            if (N > 64) probe("many-paths");
            x.m->load(p);
            switch (choose(6)) {
                case 0: {                                                   // fails half-way
                    const long at = 1 + choose(std::min<unsigned long>(N, 8)); bool threw = false;
                    const int who = x.o.kind == AMERICAN ? choose(3) : 0;
                    auto bomb = [at](long k) { if (k == at) { fault("pricing-dependency-throws"); throw SimFault{1}; } };
                    if (who == 0) x.m->hook = bomb; else if (who == 1) { x.bs->calls = 0; x.bs->hook = bomb; } else { x.rg->calls = 0; x.rg->hook = bomb; }
                    double got = 0; try { got = run(x, N); } catch (const SimFault&) { threw = true; }
                    x.m->hook = nullptr; x.bs->hook = nullptr; x.rg->hook = nullptr;
                    log("failing run: %s", threw ? "failed" : "completed");
                    if (!threw && who == 0) violate("failure-swallowed", "%s returned %.17g although its model failed", str(x.o).c_str(), got);
                    if (!threw) priced(x, p, h.w.r, got, "fault not reached");
                    break;
                }
                case 1: {                                                   // another run inside this one
                    const long at = 1 + choose(std::min<unsigned long>(N, 4)); bool done = false;
                    Rig& y = rs[choose(rs.size())]; const unsigned long N2 = 1 + choose(4); const Paths p2 = paths_for(y, N2);
                    x.m->hook = [&](long k) {
                        if (done || k != at) return;
                        done = true; fault("nested-run");
                        const auto script = y.m->script; const auto calls = y.m->calls; const auto backs = y.m->backs; const auto hk = y.m->hook;
                        y.m->hook = nullptr; y.m->load(p2);
                        const double g2 = run(y, N2);
                        priced(y, p2, h.w.r, g2, "nested");
                        y.m->script = script; y.m->calls = calls; y.m->backs = backs; y.m->hook = hk;
                    };
                    const double got = run(x, N); x.m->hook = nullptr;
                    priced(x, p, h.w.r, got, "outer");
                    break;
                }
                default: { const double got = run(x, N); priced(x, p, h.w.r, got, "run"); }
            }
            // the same paths again
            if (chance(1, 3)) { x.m->load(p); const double got = run(x, N); priced(x, p, h.w.r, got, "again"); }
        }
        // With the real model and generator, the price an American option gets is one of the two documented algorithms.
        if (chance(1, 8)) {
            OptSpec o = gen_option(ts[0], AMERICAN); const unsigned seed = choose(1000), dim = 1 + choose(4); const unsigned long N = 2 + choose(6);
            auto mk = [&] {
                auto md = std::make_shared<op::GeometricBrownianMotionModel>(o.ticker, h.m, std::make_shared<op::PseudoRandomNumberGenerator>(dim, seed));
                return std::make_unique<op::AmericanMCPricer>(std::dynamic_pointer_cast<op::AmericanOption>(make_option(o)), h.m, md, real_basis(0, 3), real_regression(0)); };
            const double a = mk()->calculatePrice(N), b = mk()->brownianBridgePrice(N), c = mk()->standardPrice(N);
            if (!same(a, b) && !same(a, c)) violate("american-dispatch", "calculatePrice %.17g, bridge %.17g, standard %.17g", a, b, c);
            component("gbm"); probe("american-dispatch");
        }
        // Nothing moves in no time: at maturity every model gives the payoff of the spot.
        if (chance(1, 8)) {
            OptSpec o = gen_option(ts[choose(ts.size())]); o.T = 0;
            const ModelSpec ms = gen_model(); const unsigned dim = 1 + choose(4), seed = 1 + choose(1000); const unsigned long N = 1 + choose(5);
            const double S = h.w.stocks.at(o.ticker).S, want = path_payoff(o, vector<double>(dim, S));
            auto md = make_model(ms, o.ticker, h.m, std::make_shared<op::PseudoRandomNumberGenerator>(dim, seed));
            auto opt = make_option(o); auto p = make_pricer(o, opt, h.m, md);
            const double got = p->calculatePrice(N);
            log("%s at maturity with %s, S=%.17g: %.12g", str(o).c_str(), model_name(ms.kind), S, got);
            const bool edge = ((o.kind == KNOCK_IN || o.kind == KNOCK_OUT) && std::fabs(S - o.B) < 1e-9 * S) || std::fabs(S - o.K) < 1e-9 * S || std::fabs(S - o.K2) < 1e-9 * S;
            if (!edge && !close(got, want, 1e-7, 1e-7 * S)) violate("not-the-payoff", "%s with %s and the spot at %.17g is worth %.17g at maturity, and should be worth %.17g", str(o).c_str(), model_name(ms.kind), S, got, want);
            component(model_name(ms.kind)); probe("at-maturity");
        }
    }

    // ---- C10: the rate moves while a run is in progress
    void c10_price() {
        component("MarketData");
        Hist h(2); const vector<string> ts{universe()[0], universe()[1]};
        Rig x = rig(h, gen_option(ts[0]));
        const int runs = 1 + choose(3);
        for (int c = 0; c < runs; ++c) {
            if (chance(1, 3)) h.some(1, ts);
            const unsigned long N = 1 + choose(8); const Paths p = paths_for(x, N); x.m->load(p);
            vector<double> rates{h.w.r};
            std::map<long, int> at; const int nt = 1 + choose(3);
            const long span = x.bridge ? N * x.steps : N;
            for (int i = 0; i < nt; ++i) at[1 + choose(span)]++;
            auto tick = [&](long k) {
                auto it = at.find(k); if (it == at.end()) return;
                for (int i = 0; i < it->second; ++i) {
                    Op o = gen_op(ts[0], false, chance(1, 4) ? -1 : (int)OP_RATE);
                    if (!admissible(h.w, o)) continue;
                    h.accept(o); fault("market-tick-mid-run");
                    if (!same(h.w.r, rates.back())) rates.push_back(h.w.r);
                }
            };
            x.m->hook = tick;
            if (x.o.kind == AMERICAN && chance(1, 2)) {                     // and during the backward induction
                x.rg->calls = 0; const long rk = 1 + choose(x.steps);
                x.rg->hook = [&, rk](long k) { if (k == rk) { Op o = gen_op(ts[0], false, OP_RATE); h.accept(o); fault("market-tick-mid-induction"); if (!same(h.w.r, rates.back())) rates.push_back(h.w.r); } };
            }
            const double got = run(x, N);
            x.m->hook = nullptr; x.rg->hook = nullptr;
            log("price %.12g", got);
            bool found = false, amb = false; string all; char b[80];
            for (double r : rates) {
                const double want = reference(x, p, r, amb);
                if (close(got, want, 1e-8, 1e-10)) found = true;
                snprintf(b, sizeof b, " r=%.6g: %.15g;", r, want); all += b;
            }
            if (!found && !amb) violate("mixed-rates", "%s: %.15g is not the price at any rate in force during the run:%s", str(x.o).c_str(), got, all.c_str());
            if (rates.size() > 1) { nontrivial(); probe("rate-moved-mid-run"); }
        }
    }
}
