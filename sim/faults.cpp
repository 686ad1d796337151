// C11: something a pricing run relies on fails part-way.
#include "pricing.h"

namespace sim {
    // The real market behind a line that can break.
    class FaultyMarket : public op::IMarketData, public Counter1 {
    public:
        shared_ptr<MarketData> real;
        explicit FaultyMarket(shared_ptr<MarketData> m) : real(std::move(m)) {}
        void addObserver(const shared_ptr<op::MarketDataObserver>& o) override { real->addObserver(o); }
        void removeObserver() override { real->removeObserver(); }
        shared_ptr<const StockData> getStockData(const string& t) const override { hit(); return real->getStockData(t); }
        double getR() const override { hit(); return real->getR(); }
        void setR(const double& r) override { real->setR(r); }
    };
    enum Who { NOBODY, GENERATOR, SCHEME, BASIS, REGRESSION, MARKET, MEMORY, PDE, MATRIX, INTERPOLATION, N_WHO };
    static const char* who_name(int w) { static const char* n[] = {"nothing", "generator", "variance-scheme", "basis", "regression", "market", "memory", "pde", "matrix-solver", "interpolation"}; return n[w]; }
    static shared_ptr<StockModel> model_with(const ModelSpec& m, const string& t, const MarketP& mk, const shared_ptr<op::NumberGenerator>& g, const shared_ptr<op::CIRDiscretization>& s) {
        if (m.kind == HESTON) return std::make_shared<op::HestonModel>(t, mk, g, 1.5, 0.04, m.sv, -0.7, 0.04, s);
        if (m.kind == BATES) return std::make_shared<op::BatesModel>(t, mk, g, 1.5, 0.04, m.sv, -0.7, 0.04, 2.0, -0.1, 0.15, s);
        return make_model(m, t, mk, g);
    }
    // Everything a run consists of; call() produces its numbers.
    struct Subject {
        std::map<int, Counter1*> seams; StreamGen* gen = nullptr;
        std::function<vector<double>()> call;
        vector<shared_ptr<void>> keep;
        long calls(int w) const { auto it = seams.find(w); return it == seams.end() ? 0 : it->second->calls; }
        void reset() { for (auto& [k, s] : seams) { s->calls = 0; s->hook = nullptr; } if (gen) { gen->rewind(); gen->hook = nullptr; } }
    };
    struct Blow { long at; bool* fired; int style; void operator()(long k) const {
        if (k != at) return;
        *fired = true;
        switch (style) { case 0: throw SimFault{7}; case 1: throw std::runtime_error("simulated failure"); case 2: throw std::bad_alloc(); default: throw std::invalid_argument("simulated"); }
    } };

    static void suffer(Hist& h, const vector<string>& ts, const std::function<Subject()>& make, const char* what, bool stateless) {
        Subject twin = make();
        twin.reset();
        const vector<double> clean = twin.call();
        std::map<int, long> use; for (auto& [k, s] : twin.seams) use[k] = s->calls;
        const long draws = twin.gen ? twin.gen->draws : 0;
        log("%s: %s", what, str(clean).c_str());
        Subject s = make();
        const int n = 1 + choose(4);
        for (int i = 0; i < n; ++i) {
            if (i && chance(1, 3)) { s = make(); log("new objects"); }
            vector<int> can{NOBODY}; for (auto& [k, c] : use) if (c > 0) can.push_back(k);
            if (draws) can.push_back(GENERATOR);
            can.push_back(MEMORY); can.push_back(MEMORY);
            const int who = can[choose(can.size())]; const int style = choose(4), again = who == NOBODY ? 1 : 1 + choose(3);
            long at = who == GENERATOR ? 1 + choose(draws) : who == MEMORY ? 1 + choose(chance(1, 4) ? 400 : 24) : who == NOBODY ? 0 : 1 + choose(use[who]);
            long left[3] = {0, 0, 0};
            for (int k = 0; k < again; ++k) {
                s.reset(); bool fired = false, threw = false; vector<double> got;
                if (who == GENERATOR) s.gen->hook = Blow{at, &fired, style}; else if (who != MEMORY && who != NOBODY) s.seams[who]->hook = Blow{at, &fired, style};
                if (who == MEMORY) alloc_arm(at, 1 + choose(2));
                try { got = s.call(); } catch (const SimFault&) { threw = true; } catch (const std::exception&) { threw = true; }
                if (who == MEMORY) fired = alloc_disarm() > 0;
                else if (fired) { char b[48]; snprintf(b, sizeof b, "%s-fails", who_name(who)); fault(b); }
                s.reset();
                { Harness hh; left[k] = live_blocks(); }
                log("%s %ld: %s", who_name(who), at, threw ? "failed" : "completed");
                if (threw && !fired) violate("spurious-failure", "%s failed although nothing it relies on did", what);
                if (!threw && fired && who != MEMORY) violate("failure-hidden", "%s returned %s although its %s failed at use %ld", what, str(got).c_str(), who_name(who), at);
                if (!threw && !same(got, clean)) violate("different-result", "%s returned %s instead of %s (%s)", what, str(got).c_str(), str(clean).c_str(), fired ? "memory ran out" : "no failure");
                const string d = difference(*h.m, h.w);
                if (!d.empty()) violate("market-changed", "after a %s in %s: %s", threw ? "failure" : "run", what, d.c_str());
                if (threw) { nontrivial(); probe("failed-part-way"); }
            }
            // k and left are compared without the vectors above: got is gone by then, everything else is as before
            if (stateless && again == 3 && left[1] > left[0] && left[2] > left[1]) violate("leak", "every failure of the %s at use %ld in %s leaves %ld blocks behind", who_name(who), at, what, left[2] - left[1]);
            if (chance(1, 2) || i + 1 == n) {
                s.reset();
                const auto got = s.call();
                if (!same(got, clean)) violate("not-as-if-never-failed", "%s after failures gives %s, without %s", what, str(got).c_str(), str(clean).c_str());
                log("repeated"); probe("repeated-after-failure");
            }
        }
    }

    static void mc_faults(Hist& h, const vector<string>& ts) {
        OptSpec o = gen_option(ts[0], chance(1, 3) ? (int)AMERICAN : -1); const ModelSpec ms = gen_model();
        static const unsigned dims[] = {3, 1, 2, 6}; const unsigned dim = dims[choose(4)]; const unsigned long N = 1 + choose(6);
        const int rb = choose(4), rr = choose(3), scheme = 1 + choose(2); const bool bridge = o.kind == AMERICAN && ms.kind == GBM && chance(1, 2), solver = !bridge && chance(1, 3);
        auto opt = make_option(o);
        component(opt_name(o.kind)); component(model_name(ms.kind));
        auto make = [&] {
            Subject s; auto g = std::make_shared<StreamGen>(dim, 77); auto mk = std::make_shared<FaultyMarket>(h.m);
            auto sc = std::make_shared<StubScheme>(make_scheme(scheme)); auto bs = std::make_shared<StubBasis>(real_basis(rb)); auto rg = std::make_shared<StubRegression>(real_regression(rr));
            auto m = model_with(ms, o.ticker, mk, g, sc);
            auto up = make_pricer(o, opt, mk, m, bs, rg);
            s.gen = g.get(); s.seams = {{SCHEME, sc.get()}, {BASIS, bs.get()}, {REGRESSION, rg.get()}, {MARKET, mk.get()}};
            if (solver) {
                auto sv = std::make_shared<op::MCSolver>(N); sv->setPricer(std::move(up));
                s.call = [sv] { const double v = sv->solve(); Harness hh; return vector<double>{v}; };
                s.keep = {g, mk, sc, bs, rg, m};
            } else {
                shared_ptr<MCPricer> p = std::move(up);
                s.call = [=] { const double v = bridge ? dynamic_cast<op::AmericanMCPricer&>(*p).brownianBridgePrice(N) : p->calculatePrice(N); Harness hh; return vector<double>{v}; };
                s.keep = {g, mk, sc, bs, rg, m};
            }
            return s;
        };
        char b[160]; snprintf(b, sizeof b, "%s with %s, %u steps, N=%lu%s%s", opt_name(o.kind), model_name(ms.kind), dim, N, bridge ? ", bridge" : "", solver ? ", solver" : "");
        suffer(h, ts, make, b, true);
    }
    static void path_faults(Hist& h, const vector<string>& ts) {
        const ModelSpec ms = gen_model(); const unsigned dim = 1 + choose(8); const int scheme = 1 + choose(2);
        component(model_name(ms.kind));
        auto make = [&] {
            Subject s; auto g = std::make_shared<StreamGen>(dim, 77); auto mk = std::make_shared<FaultyMarket>(h.m); auto sc = std::make_shared<StubScheme>(make_scheme(scheme));
            auto m = model_with(ms, ts[0], mk, g, sc);
            s.gen = g.get(); s.seams = {{SCHEME, sc.get()}, {MARKET, mk.get()}};
            s.call = [m] { return m->simulatePrices(1.0); };
            s.keep = {g, mk, sc, m};
            return s;
        };
        char b[80]; snprintf(b, sizeof b, "a path of %s, %u steps", model_name(ms.kind), dim);
        suffer(h, ts, make, b, true);
    }
    static void fdm_faults(Hist& h, const vector<string>& ts) {
        const Grid g = gen_grid(); const PdeSpec ps = gen_pde(g); const OptSpec o = gen_option(ts[0], EUROPEAN);
        auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
        int mk = choose(3); if (g.J < 4 && mk == 2) mk = 0;
        const bool bs = chance(1, 3);
        component(scheme_name(g.scheme));
        // A solver keeps its surface once solved, so that each call of the subject is made on the state its history left.
        auto make = [&] {
            Subject s; auto market = std::make_shared<FaultyMarket>(h.m); auto in = std::make_shared<StubInterpolation>(); auto ms = std::make_shared<StubMatrix>(real_matrix(mk));
            unique_ptr<pd::ConvectionDiffusionPDE> pde;
            if (bs) pde = std::make_unique<pd::BlackScholesPDE>(opt, market);
            else { auto p = std::make_unique<StubPDE>(ps, g.xDom, g.tDom); s.seams[PDE] = p.get(); pde = std::move(p); }
            shared_ptr<fd::FDMSolver> f = make_fdm(g, std::move(pde), opt, market, in, ms);
            s.seams[MARKET] = market.get(); s.seams[MATRIX] = ms.get(); s.seams[INTERPOLATION] = in.get();
            s.call = [f] { const double p = f->calculatePrice(); auto v = f->solve(); Harness hh; v.push_back(p); return v; };
            s.keep = {market, in, ms};
            return s;
        };
        char b[120]; snprintf(b, sizeof b, "%s solver J=%lu N=%lu%s", scheme_name(g.scheme), g.J, g.N, bs ? " black-scholes" : "");
        suffer(h, ts, make, b, false);                                  // solved or half-solved grids may hold more memory than fresh ones
    }
    void c11() {
        component("MarketData");
        Hist h(2); const vector<string> ts{universe()[0], universe()[1]};
        if (chance(1, 2)) h.some(1 + choose(2), ts);
        switch (choose(6)) { case 0: case 1: case 2: mc_faults(h, ts); break; case 3: path_faults(h, ts); break; default: fdm_faults(h, ts); }
    }
}
