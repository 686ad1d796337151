// C01, C09, C25: threads. Every interleaving is decided by the scheduler in rt_sched.cpp, which also detects data races and deadlocks.
#include "pricing.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"

namespace sim {
    struct Thread { std::function<void()> body; static void run(void* p) { ((Thread*)p)->body(); } };
    static void concurrently(vector<Thread>& v) {
        for (auto& t : v) spawn(Thread::run, &t);
        run_tasks();
    }

    // ---- C01
    enum GetOp { OBTAIN, OBTAIN_AND_DROP, OBTAIN_FAILING, READ, VIA_BUILDER, VIA_FACTORY, STORE, N_GETOP };
    struct Step { int op; long k; string ticker; Vals v; double r; };
    struct Caller { vector<Step> script; vector<shared_ptr<MarketData>> held; vector<const void*> seen; long failures = 0; string error; };

    static void check_contents(MarketData& m, const World& w, const char* when) {
        if (!same(m.getR(), w.r)) violate("contents-lost", "%s: the rate is %g instead of %g", when, m.getR(), w.r);
        for (auto& [k, v] : w.stocks) {
            shared_ptr<const StockData> d;
            try { d = m.getStockData(k); } catch (const std::exception& e) { violate("contents-lost", "%s: %s is gone (%s)", when, k.c_str(), e.what()); }
            if (!(read(*d) == v)) violate("contents-lost", "%s: %s is %s instead of %s", when, k.c_str(), str(read(*d)).c_str(), str(v).c_str());
        }
    }
    static void caller_body(Caller& c, const World& w) {
        auto got = [&](const shared_ptr<MarketData>& m) {
            if (!m) violate("no-market", "getInstance returned nothing");
            c.seen.push_back(m.get());
        };
        for (auto& s : c.script) {
            try {
                switch (s.op) {
                    case OBTAIN: { auto m = market(); got(m); c.held.push_back(m); break; }
                    case OBTAIN_AND_DROP: got(market()); break;
                    case OBTAIN_FAILING: {
                        shared_ptr<MarketData> m; bool threw = false;
                        alloc_arm(s.k, 1);
                        try { m = market(); } catch (const std::bad_alloc&) { threw = true; }
                        const long f = alloc_disarm();
                        if (f) ++c.failures;
                        if (threw && !f) violate("foreign-failure", "a caller with enough memory got bad_alloc");
                        if (!threw) got(m);
                        m = market(); got(m); c.held.push_back(m);         // the retry
                        break;
                    }
                    case READ: { auto m = market(); got(m); check_contents(*m, w, "during the race"); break; }
                    case VIA_BUILDER: { op::MCSinglePathBuilder b; op::AmericanMCBuilder a; break; }
                    case VIA_FACTORY: {                                   // unknown stock: refused, nothing is stored
                        OptSpec o; o.ticker = "NO-SUCH-STOCK"; bool refused = false;
                        try { make_option(o); } catch (const std::invalid_argument&) { refused = true; }
                        if (!refused) violate("unknown-accepted", "an option on an unknown stock was created");
                        break;
                    }
                    case STORE: { auto m = market(); got(m); m->addStock(s.ticker, s.v.S, s.v.sig, s.v.c); m->setR(s.r); break; }
                }
            } catch (const std::exception& e) { violate("caller-failed", "operation %d of a caller failed: %s", s.op, e.what()); }
            yield_point();
        }
    }
    void c01() {
        component("MarketData::getInstance");
        sched_intensity = choose(5);
        World w; const void* addr = nullptr; vector<shared_ptr<MarketData>> held;
        auto note_addr = [&](const void* p) {
            if (!addr) addr = p;
            if (p != addr) violate("two-markets", "two callers got different market objects");
        };
        if (chance(1, 8)) { held.push_back(market()); note_addr(held.back().get()); probe("main-first"); }
        const int phases = 1 + choose(3);
        long fails = 0; int stored = 0;
        for (int ph = 0; ph < phases; ++ph) {
            const int n = 2 + choose(4);
            vector<Caller> cs(n);
            const bool storing = chance(1, 3);      // one thread stores while the others only obtain
            for (int i = 0; i < n; ++i) {
                const int k = 1 + choose(3);
                for (int j = 0; j < k; ++j) {
                    Step s{};
                    static const int ops[] = {OBTAIN, OBTAIN_AND_DROP, OBTAIN_FAILING, OBTAIN_FAILING, READ, VIA_BUILDER, VIA_FACTORY};
                    s.op = ops[choose(7)];
                    if (storing && (s.op == READ || s.op == VIA_FACTORY)) s.op = OBTAIN;      // no one reads what is being changed
                    s.k = 1 + choose(4);
                    cs[i].script.push_back(s);
                }
                if (storing && i == 0) { Step s{}; s.op = STORE; s.ticker = "T" + std::to_string(stored++); s.v = gen_vals(); s.r = gen_rate(); cs[i].script.push_back(s); }
                string ops; for (auto& s : cs[i].script) ops += " " + std::to_string(s.op) + (s.op == OBTAIN_FAILING ? "@" + std::to_string(s.k) : "");
                log("phase %d caller %d:%s", ph, i, ops.c_str());
            }
            World before = w;
            for (auto& c : cs) for (auto& s : c.script) if (s.op == STORE) { w.stocks[s.ticker] = s.v; w.r = s.r; }
            vector<Thread> th;
            for (auto& c : cs) { Caller* p = &c; const World* pw = &before; th.push_back({[p, pw] { caller_body(*p, *pw); }}); }
            concurrently(th);
            for (auto& c : cs) { for (auto p : c.seen) note_addr(p); fails += c.failures; }
            if (chance(1, 2)) { for (auto& c : cs) for (auto& m : c.held) held.push_back(m); }
            cs.clear();
            if (chance(2, 3)) { held.clear(); probe("nobody-holds-the-market"); }
            { auto m = market(); note_addr(m.get()); check_contents(*m, w, "after the race"); }
            if (chance(1, 2)) {
                auto m = market(); const string t = "T" + std::to_string(stored++); Vals v = gen_vals();
                m->addStock(t, v.S, v.sig, v.c); w.stocks[t] = v; const double r = gen_rate(); m->setR(r); w.r = r;
                log("stored %s=%s r=%g", t.c_str(), str(v).c_str(), r);
            }
        }
        log("%ld failures, %zu stocks", fails, w.stocks.size());
        if (sched_switches() > 2) nontrivial();
    }

    // ---- C09
    struct Job {
        bool fdm = false;
        OptSpec o; shared_ptr<Option> opt; ModelSpec m; int gen = 0; unsigned seed = 1, dim = 4; unsigned long N = 3; int how = 0, basis = 0, reg = 0, calls = 1;
        Grid g; PdeSpec pde; bool bs = false; int matrix = 0, interp = 0;
    };
    static string str(const Job& j) {
        char b[300];
        if (j.fdm) snprintf(b, sizeof b, "fdm %s %lux%lu %s matrix %d interpolation %d x%d", scheme_name(j.g.scheme), j.g.J, j.g.N, j.bs ? "Black-Scholes" : "other coefficients", j.matrix, j.interp, j.calls);
        else snprintf(b, sizeof b, "mc %s | %s a=%g scheme %d | generator %d seed %u dim %u N=%lu via %d basis %d regression %d x%d", str(j.o).c_str(), model_name(j.m.kind), j.m.a, j.m.scheme, j.gen, j.seed, j.dim, j.N, j.how, j.basis, j.reg, j.calls);
        return b;
    }
    static shared_ptr<op::NumberGenerator> job_gen(const Job& j) {
        switch (j.gen) {
            case 0: return std::make_shared<op::PseudoRandomNumberGenerator>(j.dim, j.seed);
            case 1: return std::make_shared<op::SobolGenerator>(j.dim, j.seed);
            default: return std::make_shared<op::FaureGenerator>(j.dim, j.seed);
        }
    }
    static unique_ptr<op::MCBuilder> job_builder(int kind) {
        switch (kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: return std::make_unique<op::MCSinglePathBuilder>();
            case AMERICAN: return std::make_unique<op::AmericanMCBuilder>();
            case ARITH_ASIAN: return std::make_unique<op::ArithmeticAsianMCBuilder>();
            case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCBuilder>();
            case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCBuilder>();
            case KNOCK_OUT: return std::make_unique<op::KnockOutBarrierMCBuilder>();
            case FLOAT_LOOKBACK: return std::make_unique<op::FloatingStrikeLookbackMCBuilder>();
            default: return std::make_unique<op::FixedStrikeLookbackMCBuilder>();
        }
    }
    // A whole pricing run with objects of its own; only the option and the market are shared.
    static vector<double> work(const Job& j) {
        vector<double> out;
        MarketP mk = market();
        if (j.fdm) {
            unique_ptr<pd::ConvectionDiffusionPDE> pde;
            auto eo = std::dynamic_pointer_cast<op::EuropeanOption>(j.opt);
            if (j.bs) pde = std::make_unique<pd::BlackScholesPDE>(eo, mk); else pde = std::make_unique<StubPDE>(j.pde, j.g.xDom, j.g.tDom);
            shared_ptr<op::Interpolation> in;
            if (j.interp == 1) in = std::make_shared<op::LinearInterpolation>(); else if (j.interp == 2) in = std::make_shared<op::QuadraticInterpolation>();
            auto s = make_fdm(j.g, std::move(pde), eo, mk, in, j.matrix ? real_matrix(j.matrix) : nullptr);
            for (int i = 0; i < j.calls; ++i) { s->solve(); out.push_back(s->calculatePrice()); }
            return out;
        }
        auto g = job_gen(j);
        auto model = make_model(j.m, j.o.ticker, mk, g);
        unique_ptr<MCPricer> p;
        if (j.how == 0) p = make_pricer(j.o, j.opt, mk, model, real_basis(j.basis), real_regression(j.reg));
        else { auto b = job_builder(j.o.kind); b->setOption(j.opt); b->setStockPriceModel(model); p = b->build(); }
        if (j.how == 2) {
            op::MCSolver s(j.N); s.setPricer(std::move(p));
            for (int i = 0; i < j.calls; ++i) out.push_back(s.solve());
        } else for (int i = 0; i < j.calls; ++i) out.push_back(p->calculatePrice(j.N));
        return out;
    }
    void c09() {
        auto m = market(); const vector<string> ts{"AAA", "BBB"};
        for (auto& t : ts) { Vals v = gen_vals(); m->addStock(t, v.S, v.sig, v.c); }
        m->setR(gen_rate());
        const int n = 2 + choose(3);
        vector<Job> js(n);
        for (int i = 0; i < n; ++i) {
            Job& j = js[i];
            if (i && chance(1, 2)) { j = js[0]; if (chance(1, 2)) j.seed = 1 + choose(50); }      // the same work twice at once
            else {
                j.fdm = chance(1, 4);
                if (j.fdm) {
                    j.o = gen_option(ts[choose(2)], EUROPEAN); j.opt = make_option(j.o);
                    j.g = gen_grid(); j.bs = !chance(1, 2); j.pde = gen_pde(j.g); j.matrix = choose(4); j.interp = choose(3); j.calls = 1 + choose(2);
                } else {
                    j.o = gen_option(ts[choose(2)]); j.opt = make_option(j.o); j.m = gen_model(); j.gen = choose(3); j.seed = 1 + choose(50);
                    j.dim = 1 + choose(5); j.N = 1 + choose(4); j.how = choose(3); j.basis = choose(4); j.reg = choose(3); j.calls = 1 + choose(2);
                }
            }
            log("task %d: %s", i, str(j).c_str());
            component(j.fdm ? scheme_name(j.g.scheme) : model_name(j.m.kind));
            if (!j.fdm) { component(opt_name(j.o.kind)); component(j.gen == 0 ? "pseudo" : j.gen == 1 ? "sobol" : "faure"); }
        }
        auto safe = [](const Job& j, string& err) { vector<double> r; try { r = work(j); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } return r; };
        vector<vector<double>> alone(n), got(n); vector<string> e1(n), e2(n);
        const bool cold = chance(1, 3);       // the very first use of everything happens inside the race
        sched_intensity = 0;
        if (!cold) for (int i = 0; i < n; ++i) alone[i] = safe(js[i], e1[i]);
        sched_intensity = choose(5);
        vector<Thread> th;
        for (int i = 0; i < n; ++i) { vector<double>* r = &got[i]; string* e = &e2[i]; const Job* j = &js[i]; auto f = safe; th.push_back({[r, e, j, f] { *r = f(*j, *e); }}); }
        concurrently(th);
        sched_intensity = 0;
        if (cold) for (int i = 0; i < n; ++i) alone[i] = safe(js[i], e1[i]);
        for (int i = 0; i < n; ++i) {
            log("task %d: %s%s", i, str(got[i]).c_str(), e2[i].empty() ? "" : " failed");
            if (e1[i].empty() != e2[i].empty()) violate("differs", "task %d %s together with others and %s alone", i, e2[i].empty() ? "succeeds" : "fails", e1[i].empty() ? "succeeds" : "fails");
            if (!same(got[i], alone[i])) violate("differs", "task %d gives %s together with others and %s alone", i, str(got[i]).c_str(), str(alone[i]).c_str());
        }
        if (cold) probe("first-use-in-the-race");
        if (sched_switches() > 10) { probe("more-than-10-switches"); nontrivial(); }
        if (sched_switches() > 100) probe("more-than-100-switches");
    }

    // ---- C25: what has no state of its own may serve several threads at once
    struct Pool {
        shared_ptr<op::Interpolation> in[2]; shared_ptr<op::MatrixSolver> ms[3]; shared_ptr<op::Regression> rg[3]; shared_ptr<op::BasisFunction> bs[4]; shared_ptr<op::CIRDiscretization> cir[2];
        vector<OptSpec> os; vector<shared_ptr<Option>> opts; vector<shared_ptr<const StockData>> data; shared_ptr<pd::BlackScholesPDE> pde; op::StandardNormalDistribution normal;
    };
    enum UseOp { U_INTERPOLATE, U_SYSTEM, U_REGRESSION, U_BASIS, U_PAYOFF, U_OPTION, U_MARKET, U_PDE, U_QUANTILE, U_VARIANCE, U_PRICE_MC, U_PRICE_FDM, N_USE };
    static const char* use_name(int k) { static const char* n[] = {"interpolation", "matrix solver", "regression", "basis", "payoff", "option", "market reading", "coefficients", "quantile", "variance scheme", "pricing run", "finite differences"}; return n[k]; }
    struct Use { int op, a, b; uint32_t seed; Job j; long fail = 0; };
    struct Rand { uint64_t s; double operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)((s >> 33) % 20001) / 10000.0 - 1; } };
    static vector<double> use(const Pool& p, const Use& u) {
        vector<double> out; Rand f{u.seed * 2ull + 1};
        switch (u.op) {
            case U_INTERPOLATE: {
                const int n = 4 + u.b % 4; vector<double> x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = i * 10 + 3 * f(); y[i] = 100 * f(); }
                for (int i = 0; i < 3; ++i) out.push_back(p.in[u.a % 2]->interpolate(x, y, 5.0 * n * (1 + f())));
                break;
            }
            case U_SYSTEM: {
                const int n = 2 + u.b % 4; Eigen::SparseMatrix<double> M(n, n); Eigen::VectorXd b(n);
                for (int i = 0; i < n; ++i) { M.insert(i, i) = 3 + f(); if (i) M.insert(i, i - 1) = f(); if (i + 1 < n) M.insert(i, i + 1) = f(); b(i) = 10 * f(); }
                M.makeCompressed();
                const Eigen::VectorXd x = p.ms[u.a % 3]->solve(M, b); for (int i = 0; i < x.size(); ++i) out.push_back(x(i));
                break;
            }
            case U_REGRESSION: {
                const int m = 3 + u.b % 4, n = 2; Eigen::MatrixXd A(m, n); Eigen::VectorXd y(m); for (int i = 0; i < m; ++i) { A(i, 0) = 1; A(i, 1) = f() + i; y(i) = 10 * f(); }
                const Eigen::VectorXd x = p.rg[u.a % 3]->solve(A, y); for (int i = 0; i < x.size(); ++i) out.push_back(x(i));
                break;
            }
            case U_BASIS: {
                Eigen::VectorXd x(1 + u.b % 4); for (int i = 0; i < x.size(); ++i) x(i) = 2 * f();
                const Eigen::MatrixXd m = p.bs[u.a % 4]->generate(x); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) out.push_back(m(i, j));
                break;
            }
            case U_PAYOFF: {
                const int k = u.a % p.opts.size(); const auto& o = *p.opts[k]; const bool two = p.os[k].kind == FLOAT_LOOKBACK;
                auto c = o.getPayoff().clone();
                for (int i = 0; i < 3; ++i) { const double S = 100 * (1 + 0.5 * f()); out.push_back(two ? o.getPayoff()(S, 100.0) : o.getPayoff()(S)); out.push_back(two ? (*c)(S, 100.0) : (*c)(S)); }
                out.push_back(*c == o.getPayoff()); out.push_back(*c == p.opts[u.b % p.opts.size()]->getPayoff());
                break;
            }
            case U_OPTION: {
                const auto& o = *p.opts[u.a % p.opts.size()]; out.push_back(o.getT()); out.push_back(o == *p.opts[u.b % p.opts.size()]);
                for (char c : o.getID()) out.push_back(c); for (char c : o.getType()) out.push_back(c);
                break;
            }
            case U_MARKET: {
                auto m = market(); const auto& t = p.os[u.a % p.os.size()].ticker; auto d = m->getStockData(t); const auto& e = *p.data[u.b % p.data.size()];
                for (double x : {d->getPrice(), d->getSigma(), d->getCoupon().value_or(-1), m->getR(), e.getPrice(), e.getSigma(), e.getCoupon().value_or(-1), (double)(*d == e)}) out.push_back(x);
                break;
            }
            case U_PDE: for (int i = 0; i < 2; ++i) { const double t = 0.25 * (1 + f()), S = 100 + 90 * f(); for (double x : {p.pde->diffusion(t, S), p.pde->convection(t, S), p.pde->reaction(t, S), p.pde->boundaryLeft(t, 0), p.pde->boundaryRight(t, 200), p.pde->initialCondition(S)}) out.push_back(x); } break;
            case U_QUANTILE: for (int i = 0; i < 3; ++i) out.push_back(p.normal.inv_cdf(0.5 + 0.4999 * f())); break;
            case U_VARIANCE: { double v = 0.04; for (int i = 0; i < 3; ++i) { p.cir[u.a % 2]->update(v, 0.1, 1.5, 0.04, 0.3, f()); out.push_back(v); } break; }
            case U_PRICE_MC: {
                const Job& j = u.j; auto g = job_gen(j); auto model = make_model(j.m, j.o.ticker, market(), g, j.m.scheme ? p.cir[j.m.scheme - 1] : nullptr);
                unique_ptr<MCPricer> pr;
                if (j.how == 0 || j.o.kind != AMERICAN) pr = make_pricer(j.o, j.opt, market(), model, p.bs[j.basis], p.rg[j.reg]);
                else { op::AmericanMCBuilder b; b.setBasisFunctionStrategy(p.bs[j.basis]); b.setRegressionStrategy(p.rg[j.reg]); b.setOption(j.opt); b.setStockPriceModel(model); pr = b.build(); }
                out.push_back(pr->calculatePrice(j.N));
                break;
            }
            default: {
                const Job& j = u.j; MarketP mk = market(); auto eo = std::dynamic_pointer_cast<op::EuropeanOption>(j.opt);
                auto s = make_fdm(j.g, std::make_unique<pd::BlackScholesPDE>(eo, mk), eo, mk, p.in[j.interp % 2], p.ms[j.matrix % 3]); out.push_back(s->calculatePrice());
            }
        }
        return out;
    }
    void c25() {
        auto m = market(); const vector<string> ts{"AAA", "BBB"}; Pool p;
        for (auto& t : ts) { Vals v = gen_vals(); m->addStock(t, v.S, v.sig, v.c); p.data.push_back(m->getStockData(t)); }
        m->setR(gen_rate());
        p.in[0] = std::make_shared<op::LinearInterpolation>(); p.in[1] = std::make_shared<op::QuadraticInterpolation>();
        for (int i = 0; i < 3; ++i) { p.ms[i] = real_matrix(i + 1); p.rg[i] = real_regression(i); } for (int i = 0; i < 4; ++i) p.bs[i] = real_basis(i, 2 + choose(2)); for (int i = 0; i < 2; ++i) p.cir[i] = make_scheme(i + 1);
        for (int i = 0; i < 3; ++i) { p.os.push_back(gen_option(ts[choose(2)], i == 0 ? (int)EUROPEAN : -1)); p.opts.push_back(make_option(p.os.back())); }
        p.pde = std::make_shared<pd::BlackScholesPDE>(std::dynamic_pointer_cast<op::EuropeanOption>(p.opts[0]), m);
        const int n = 2 + choose(3); vector<vector<Use>> script(n);
        const int theme = choose(N_USE + 4);                                // often everyone is after the same thing
        for (int i = 0; i < n; ++i) {
            string l;
            if (i && chance(1, 4)) { script[i] = script[0]; l = " as 0"; }
            else for (int k = 1 + choose(4); k > 0; --k) {
                Use u{}; u.op = theme < N_USE && !chance(1, 3) ? theme : (int)choose(N_USE); u.a = theme < N_USE && chance(1, 2) ? 0 : choose(12); u.b = choose(12); u.seed = choose(50); if (chance(1, 8)) u.fail = 1 + choose(6); Job& j = u.j;
                if (u.op == U_PRICE_MC) { const int q = choose(3); j.o = p.os[q]; j.opt = p.opts[q]; j.m = gen_model(); j.gen = choose(3); j.seed = 1 + choose(50); j.dim = 1 + choose(3); j.N = 1 + choose(4); j.how = choose(2); j.basis = choose(4); j.reg = choose(3); }
                if (u.op == U_PRICE_FDM) { j.o = p.os[0]; j.opt = p.opts[0]; j.g = gen_grid(); j.matrix = choose(3); j.interp = choose(2); }
                l += string(" ") + use_name(u.op) + "(" + std::to_string(u.a) + "," + std::to_string(u.b) + ")"; component(use_name(u.op)); script[i].push_back(u);
            }
            log("thread %d:%s", i, l.c_str());
        }
        auto all = [&p](const vector<Use>& v) {
            vector<double> r;
            for (auto& u : v) {
                if (u.fail) {                                               // first a use whose memory runs out
                    alloc_arm(u.fail); try { use(p, u); } catch (const std::exception&) {}
                    if (alloc_disarm() > 0) fault("allocation");
                }
                try { for (double x : use(p, u)) r.push_back(x); } catch (const std::exception&) { r.push_back(-12345); }
            }
            return r;
        };
        vector<vector<double>> alone(n), got(n); const bool cold = chance(1, 2); sched_intensity = 0;
        if (!cold) for (int i = 0; i < n; ++i) alone[i] = all(script[i]);
        sched_intensity = choose(5);
        vector<Thread> th; for (int i = 0; i < n; ++i) { auto* r = &got[i]; const auto* v = &script[i]; th.push_back({[r, v, all] { *r = all(*v); }}); }
        concurrently(th); sched_intensity = 0;
        if (cold) { probe("first-use-in-the-race"); for (int i = 0; i < n; ++i) alone[i] = all(script[i]); }
        for (int i = 0; i < n; ++i) {
            log("thread %d: %s", i, str(got[i]).c_str());
            if (!same(got[i], alone[i])) violate("differs", "thread %d gets %s from shared objects together with others and %s alone", i, str(got[i]).c_str(), str(alone[i]).c_str());
        }
        if (sched_switches() > 5) nontrivial();
        if (sched_switches() > 50) probe("more-than-50-switches");
    }
}
