// C24: whatever order objects are created and dropped in, what remains works, and what was taken is given back.
#include "pricing.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include <cerrno>
#include <cstring>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
    // Decisions of one lifecycle: drawn once, so that the same lifecycle can be lived again.
    struct Rnd { vector<uint32_t>* t; size_t pos = 0; uint32_t operator()(uint32_t n) { if (pos == t->size()) t->push_back(choose(n)); return (*t)[pos++] % n; } };
    struct Item { const char* name; shared_ptr<void> hold; std::function<vector<double>()> use; };
    typedef vector<Item> Graph;
    // Objects that outlive main(): the first one is constructed before, so destroyed after, every static of the library.
    static Graph late_first __attribute__((init_priority(150)));

    static string ticker(int k) { static const char* n[] = {"AAA", "A ticker that is far too long for any small buffer"}; return n[k]; }
    static unique_ptr<op::MCBuilder> life_builder(int kind) {
        switch (kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: return std::make_unique<op::MCSinglePathBuilder>();
            case AMERICAN: return std::make_unique<op::AmericanMCBuilder>();
            case ARITH_ASIAN: return std::make_unique<op::ArithmeticAsianMCBuilder>();
            case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCBuilder>();
            case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCBuilder>();
            case KNOCK_OUT: return std::make_unique<op::KnockOutBarrierMCBuilder>();
            case FLOAT_LOOKBACK: return std::make_unique<op::FloatingStrikeLookbackMCBuilder>();
            default: return std::make_unique<op::FixedStrikeLookbackMCBuilder>();
        }
    }
    static World flat_world() { World w; w.stocks[ticker(0)] = {100, 0.2, 0.01}; w.stocks[ticker(1)] = {50, 0.3, std::nullopt}; w.r = 0.03; return w; }
    static vector<double> payoffs(const op::Payoff& p, bool floating) { vector<double> v; for (double S : {0.0, 90.0, 100.0, 115.5}) v.push_back(floating ? p(S, 97.0) : p(S)); return v; }
    // A group of objects that refer to each other. All handles end up in the graph, to be dropped one by one.
    static Graph make_graph(Rnd& r) {
        Graph g;
        OptSpec o; o.kind = r(N_OPT); o.call = r(2); o.ticker = ticker(r(2)); o.K = 90 + r(3) * 10; o.K2 = o.K + 20; o.T = 0.5 + r(2); o.up = r(2); o.B = o.up ? 110 : 90;
        const int what = r(4); if (what == 0) o.kind = EUROPEAN;
        MarketP mk = market();
        if (r(3) == 0) mk = std::make_shared<FlatMarket>(flat_world());
        g.push_back({"market", mk, {}});
        auto opt = make_option(o);
        g.push_back({"option", opt, [opt, f = o.kind == FLOAT_LOOKBACK] { auto v = payoffs(opt->getPayoff(), f); v.push_back(opt->getT()); std::ostringstream s; s << *opt; v.push_back((double)s.str().size()); return v; }});
        if (r(2)) { shared_ptr<op::Payoff> p = opt->getPayoff().clone(); g.push_back({"payoff", p, [p, f = o.kind == FLOAT_LOOKBACK] { return payoffs(*p, f); }}); }
        if (r(2)) { auto d = mk->getStockData(o.ticker); g.push_back({"stock data", std::const_pointer_cast<StockData>(d), [d] { return vector<double>{d->getPrice(), d->getSigma(), d->getCoupon().value_or(-1)}; }}); }
        if (what == 0) {                                                    // finite differences
            Grid gr; gr.scheme = r(N_SCHEME); gr.xDom = 200; gr.J = 7 + r(6); gr.N = 40; gr.tDom = o.T;
            shared_ptr<op::Interpolation> in; if (r(3)) { if (r(2)) in = std::make_shared<op::QuadraticInterpolation>(); else in = std::make_shared<op::LinearInterpolation>(); g.push_back({"interpolation", in, {}}); }
            shared_ptr<op::MatrixSolver> ms; if (r(3)) { ms = real_matrix(1 + r(3)); g.push_back({"matrix solver", ms, {}}); }
            auto eo = std::dynamic_pointer_cast<op::EuropeanOption>(opt);
            shared_ptr<pd::BlackScholesPDE> pde = std::make_shared<pd::BlackScholesPDE>(eo, mk);
            g.push_back({"pde", pde, [pde] { return vector<double>{pde->diffusion(0.1, 90), pde->convection(0.1, 90), pde->reaction(0.1, 90), pde->boundaryLeft(0.1, 0), pde->boundaryRight(0.1, 200), pde->initialCondition(95)}; }});
            shared_ptr<fd::FDMSolver> s = make_fdm(gr, std::make_unique<pd::BlackScholesPDE>(eo, mk), eo, mk, in, ms);
            g.push_back({"fdm solver", s, [s] { return vector<double>{s->calculatePrice()}; }});
            return g;
        }
        const unsigned dim = 1 + r(4), seed = 1 + r(100); const int gk = r(3);
        shared_ptr<op::NumberGenerator> gen = gk == 0 ? shared_ptr<op::NumberGenerator>(std::make_shared<op::PseudoRandomNumberGenerator>(dim, seed)) : gk == 1 ? shared_ptr<op::NumberGenerator>(std::make_shared<op::SobolGenerator>(dim, seed)) : std::make_shared<op::FaureGenerator>(dim, seed);
        g.push_back({"generator", gen, [gen] { op::StandardNormalDistribution d; return vector<double>{(*gen)(d)}; }});
        ModelSpec ms; ms.kind = gk == 0 ? r(N_MODEL) : r(2); ms.a = 0.25 * r(4); ms.scheme = r(3);
        shared_ptr<op::CIRDiscretization> scheme = make_scheme(ms.scheme);
        shared_ptr<StockModel> model;
        if (ms.kind == HESTON) model = std::make_shared<op::HestonModel>(ticker(0) == o.ticker ? ticker(0) : ticker(1), mk, gen, 1.5, 0.04, 0.3, -0.5, 0.05, scheme);
        else if (ms.kind == BATES) model = std::make_shared<op::BatesModel>(string(o.ticker), mk, gen, 1.5, 0.04, 0.3, -0.5, 0.05, 1.0, -0.1, 0.1, scheme);
        else model = make_model(ms, string(o.ticker), mk, gen);
        if (scheme) g.push_back({"variance scheme", scheme, {}});
        g.push_back({"model", model, [model, T = o.T] { auto v = model->simulatePrices(T); v.push_back(model->getSteps()); return v; }});
        if (what == 1) return g;
        shared_ptr<op::BasisFunction> basis = real_basis(r(4), 2 + r(2)); shared_ptr<op::Regression> reg = real_regression(r(3));
        shared_ptr<MCPricer> p;
        if (r(2)) {
            if (o.kind == AMERICAN) { g.push_back({"basis", basis, {}}); g.push_back({"regression", reg, {}}); }
            p = make_pricer(o, opt, mk, model, basis, reg);
        } else {
            shared_ptr<op::MCBuilder> b = life_builder(o.kind); b->setMarketData(mk).setStockPriceModel(model); b->setOption(opt);
            if (o.kind == AMERICAN) { auto* a = dynamic_cast<op::AmericanMCBuilder*>(b.get()); if (r(2)) { a->setBasisFunctionStrategy(basis); g.push_back({"basis", basis, {}}); } if (r(2)) { a->setRegressionStrategy(reg); g.push_back({"regression", reg, {}}); } }
            p = b->build();
            g.push_back({"builder", b, [b] { auto q = b->build(); return vector<double>{q->calculatePrice(2)}; }});
        }
        if (r(3) == 0) {
            auto s = std::make_shared<op::MCSolver>(3); unique_ptr<MCPricer> mine;
            if (o.kind == AMERICAN) mine = make_pricer(o, opt, mk, model, basis, reg); else mine = make_pricer(o, opt, mk, model);
            for (uint32_t k = r(3); k; --k) { s->setPricer(o.kind == AMERICAN ? make_pricer(o, opt, mk, model, basis, reg) : make_pricer(o, opt, mk, model)); (void)s->solve(); }   // replaced below
            s->setPricer(std::move(mine)); g.push_back({"mc solver", s, [s] { return vector<double>{s->solve()}; }});
        }
        g.push_back({"pricer", p, [p] { return vector<double>{p->calculatePrice(3)}; }});
        return g;
    }
    static vector<double> used(const Item& i) { try { return i.use(); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { return {-12345}; } }
    // One life: groups of objects come, are used and vanish handle by handle; a twin of each group keeps everything.
    static void lifecycle(vector<uint32_t>& tape, bool talk) {
        Rnd r{&tape}; auto m = market();
        vector<Graph> real, twin; const int n = 6 + r(20);
        for (int i = 0; i < n; ++i) {
            const uint32_t k = r(8);
            if (real.empty() || (k == 0 && real.size() < 3)) {
                Rnd c = r; real.push_back(make_graph(r)); twin.push_back(make_graph(c));
                if (talk) { log("new group of %zu objects", real.back().size()); for (auto& x : real.back()) component(x.name); }
            } else if (k < 4) {                                             // drop a handle
                const size_t a = r(real.size()); Graph& g = real[a]; const size_t b = r(g.size());
                if (talk) log("drop %s", g[b].name);
                g.erase(g.begin() + b);
                if (talk) fault("handle-dropped");
                if (g.empty()) { real.erase(real.begin() + a); twin.erase(twin.begin() + a); }
            } else if (k < 7) {                                             // use what is left
                const size_t a = r(real.size()), b = r(real[a].size()); const Item& x = real[a][b];
                if (!x.use) continue;
                const Item* y = nullptr; for (auto& t : twin[a]) if (!strcmp(t.name, x.name)) y = &t;
                const auto got = used(x), want = used(*y);
                if (talk) log("%s: %s", x.name, str(got).c_str());
                if (!same(got, want)) violate("differs", "%s gives %s after handles were dropped, and %s when everything is kept", x.name, str(got).c_str(), str(want).c_str());
                if (talk) { bool lost = real[a].size() < twin[a].size(); probe(lost ? "used-after-drops" : "used-complete"); if (lost) nontrivial(); }
                step();
            } else {
                const string t = ticker(r(2)); const double x = 80 + r(40);
                switch (r(4)) { case 0: m->updateStockPrice(t, x); break; case 1: m->updateStockSigma(t, x / 500); break; case 2: m->setR(x / 1000); break;
                                default: try { m->updateStockPrice(t, -x); } catch (const std::invalid_argument&) {} }
            }
        }
        while (!real.empty()) {                                             // the rest, in any order
            const size_t a = r(real.size()); Graph& g = real[a]; g.erase(g.begin() + r(g.size()));
            if (g.empty()) real.erase(real.begin() + a);
        }
    }
    // Lets the market forget what has gone.
    static void settle_market() {
        auto m = market();
        { OptSpec o; o.ticker = ticker(0); make_option(o); }
        m->removeObserver(); m->setR(0.05); m->addStock(ticker(0), 100.0, 0.2, optional<double>(0.01)); m->addStock(ticker(1), 50.0, 0.3, optional<double>());
        m->updateStockPrice(ticker(0), 100); m->updateStockPrice(ticker(1), 50);
    }
    void c24() {
        auto m = market();
        m->addStock(ticker(0), 100.0, 0.2, optional<double>(0.01)); m->addStock(ticker(1), 50.0, 0.3, optional<double>());
        const int mode = choose(4); vector<uint32_t> tape, last;
        lifecycle(tape, true);
        if (mode == 1) {                                                    // the same life again and again: nothing may be left behind
            long at3 = 0, b3 = 0;
            for (int i = 0; i < 12; ++i) { lifecycle(tape, false); settle_market(); if (i == 3) { at3 = live_blocks(); b3 = live_bytes(); } }
            const long more = live_blocks() - at3; probe("lived-again");
            if (more >= 8) violate("leak", "8 more identical lives leave %ld blocks (%ld bytes) behind", more, live_bytes() - b3);
        }
        if (mode == 3) {                                                    // long use: what lives does not grow
            Rnd r{&last}; Graph g = make_graph(r); probe("long-use");
            for (auto& x : g) if (x.use) {
                long at[6], k = 0, n = 0;
                for (int end : {8, 16, 32, 64, 128}) { for (; n < end; ++n) { used(x); if (n % 8 == 3) m->updateStockPrice(ticker(0), 100 + n % 7); } at[k++] = live_bytes(); }
                bool grows = true; for (int i = 1; i < 5; ++i) grows &= at[i] - at[i - 1] >= 32 << i;
                if (grows) violate("growth", "%s holds %ld more bytes after 128 uses than after 8 (%ld after 64)", x.name, at[4] - at[0], at[3] - at[0]);
                step();
            }
        }
        if (mode == 2) {                                                    // objects that outlive main()
            fault("process-exit"); probe("exit"); nontrivial();
            const pid_t pid = fork();
            if (pid == 0) {
                Rnd r{&last}; static Graph late_second;
                for (int k = 1 + r(3); k > 0; --k) for (auto& x : make_graph(r)) switch (r(3)) { case 0: late_first.push_back(x); break; case 1: late_second.push_back(x); }
                if (r(2)) m.reset();
                exit(0);
            }
            int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (st != 0) violate("exit", "the process does not end normally with objects that outlive main (status %d)", st);
        }
    }
}
