// C05, C10 (paths): models, pricers, PDE, solvers, options and handles against the market as it is now.
#include "history.h"

namespace sim {
    static vector<string> tickers(int n) { return vector<string>(universe().begin(), universe().begin() + n); }
    static double gen_T() { if (chance(1, 16)) return 0; if (odd()) { static const double o[] = {3, 6, 12, 25, 60, 0.004}; return o[choose(6)]; } static const double v[] = {1, 0.5, 2, 0.1, 0.25}; return v[choose(5)]; }
    struct Live { ModelSpec ms; string t; unsigned dim = 1; shared_ptr<StreamGen> g; shared_ptr<StockModel> m; };
    static Live open(const ModelSpec& ms, const string& t, unsigned dim, const MarketP& mk) {
        Live l; l.ms = ms; l.t = t; l.dim = dim; l.g = std::make_shared<StreamGen>(dim, 1); l.m = make_model(ms, t, mk, l.g);
        return l;
    }
    static vector<double> path(Live& l, unsigned seed, double T) { l.g->rewind(seed); return l.m->simulatePrices(T); }

    // What the paths themselves must show: spot, drift, volatility. Only objects without any history are used here.
    static void relations(const Live& l, const World& w, unsigned seed, double T) {
        auto run = [&](const World& ww, StreamGen** g = nullptr) {
            auto fm = std::make_shared<FlatMarket>(ww);
            Live f = open(l.ms, l.t, l.dim, fm); f.g->record = true;
            auto p = path(f, seed, T);
            static shared_ptr<StreamGen> keep; keep = f.g; if (g) *g = keep.get();
            return p;
        };
        StreamGen* g = nullptr;
        const auto base = run(w, &g);
        const vector<double> rec = g->rec; const string kinds = g->kinds;
        if (base.size() != l.dim) violate("path-length", "%s returned %zu prices for %u steps", model_name(l.ms.kind), base.size(), l.dim);
        const double dt = T / l.dim;
        const Vals v = w.stocks.at(l.t);
        auto usable = [](const vector<double>& p) { for (double x : p) if (!(x > 1e-280 && x < 1e280)) return false; return true; };
        if (!usable(base)) return;
        auto compare = [&](const char* what, const World& ww, auto expected) {
            const auto p = run(ww);
            if (!usable(p)) return;
            for (unsigned i = 0; i < l.dim; ++i) {
                const double got = std::log(p[i]) - std::log(base[i]), want = expected(i);
                if (!(std::fabs(got - want) <= 1e-8 * (1 + std::fabs(want))))
                    violate(what, "%s: point %u moves by %.12g in the logarithm and should move by %.12g (steps %u, T %g)", model_name(l.ms.kind), i, got, want, l.dim, T);
            }
            probe(what);
        };
        World ww = w; ww.stocks[l.t].S = v.S * 3;
        compare("spot-response", ww, [&](unsigned) { return std::log(3.0); });
        ww = w; ww.r = w.r + 0.07;
        compare("rate-response", ww, [&](unsigned i) { return 0.07 * dt * (i + 1); });
        ww = w; const double c0 = v.c.value_or(0.0), c1 = c0 > 0.5 ? c0 - 0.3 : c0 + 0.3; ww.stocks[l.t].c = c1;
        compare("coupon-response", ww, [&](unsigned i) { return -(c1 - c0) * dt * (i + 1); });
        ww = w; for (auto& [k, x] : ww.stocks) if (k != l.t) x = {x.S * 2, x.sig + 0.1, 0.77};
        compare("other-stock-response", ww, [&](unsigned) { return 0.0; });
        const double s0 = v.sig, s1 = s0 > 0.5 ? s0 - 0.25 : s0 + 0.25;
        ww = w; ww.stocks[l.t].sig = s1;
        const size_t nn = std::count(kinds.begin(), kinds.end(), 'n'), ng = std::count(kinds.begin(), kinds.end(), 'g');
        vector<double> z, ga;
        for (size_t i = 0; i < rec.size(); ++i) { if (kinds[i] == 'n') z.push_back(rec[i]); else if (kinds[i] == 'g') ga.push_back(rec[i]); }
        if ((l.ms.kind == GBM || l.ms.kind == MERTON || l.ms.kind == KOU) && nn == l.dim) {
            vector<double> cum(l.dim); double a = 0; for (unsigned i = 0; i < l.dim; ++i) cum[i] = a += z[i];
            compare("volatility-response", ww, [&](unsigned i) { return -0.5 * (s1 * s1 - s0 * s0) * dt * (i + 1) + (s1 - s0) * std::sqrt(dt) * cum[i]; });
            if (l.ms.kind == GBM)
                for (unsigned i = 0; i < l.dim; ++i) {
                    const double want = std::log(v.S) + (w.r - c0 - 0.5 * s0 * s0) * dt * (i + 1) + s0 * std::sqrt(dt) * cum[i];
                    if (std::fabs(std::log(base[i]) - want) > 1e-8 * (1 + std::fabs(want)))
                        violate("gbm-path", "point %u is %.15g and should be %.15g", i, base[i], std::exp(want));
                }
        }
        if (l.ms.kind == VG && nn == l.dim && ng == l.dim) {
            const double nu = 0.2 + 0.1 * l.ms.a, th = -0.1;
            auto omega = [&](double s) { return std::log(1 - th * nu - 0.5 * s * s * nu) / nu; };
            vector<double> cum(l.dim); double a = 0; for (unsigned i = 0; i < l.dim; ++i) cum[i] = a += std::sqrt(ga[i]) * z[i];
            compare("volatility-response", ww, [&](unsigned i) { return (omega(s1) - omega(s0)) * dt * (i + 1) + (s1 - s0) * cum[i]; });
        }
    }

    static void history(Hist& h, const vector<string>& ts) { h.some(1 + choose(4), ts); }

    static void models_now(Hist& h, const vector<string>& ts) {
        vector<Live> ls;
        auto add = [&] {
            static const unsigned dims[] = {3, 1, 2, 5, 8, 3, 2, 13, 5, 52};
            ls.push_back(open(gen_model(), ts[choose(ts.size())], wild && chance(1, 3) ? 65 + choose(400) : dims[choose(10)], h.m));
            log("new %s model on %s, %u steps", model_name(ls.back().ms.kind), ls.back().t.c_str(), ls.back().dim);
            component(model_name(ls.back().ms.kind));
        };
        add();
        vector<std::function<void()>> later;                                // comparisons that no new object may disturb before the end
        const bool late = chance(1, 3);
        auto check = [&](Live& l) {
            const double T = gen_T(); const unsigned seed = 1 + choose(1000);
            if (late) {
                const auto p = path(l, seed, T);
                l.g->rewind(seed); const double a = l.m->simulatePriceAtMaturity(T);
                const double sn = 50 + choose(100), t1 = T * (1 + choose(3)) / 4, t2 = T; double x = 0;
                if (l.ms.kind == GBM) { l.g->rewind(seed); x = l.m->simulatePriceBackward(sn, t1, t2); }
                log("%s T=%g seed %u: %s, compared later", model_name(l.ms.kind), T, seed, str(p).c_str());
                later.push_back([=, ms = l.ms, t = l.t, dim = l.dim, w = h.w] {
                    Live f = open(ms, t, dim, std::make_shared<FlatMarket>(w));
                    const auto q = path(f, seed, T);
                    if (!same(p, q)) violate("path-not-current", "%s model on '%s' with history gave %s, a new one in the same market %s; market %s r=%g", model_name(ms.kind), t.c_str(), str(p).c_str(), str(q).c_str(), str(w.stocks.at(t)).c_str(), w.r);
                    f.g->rewind(seed); const double b = f.m->simulatePriceAtMaturity(T);
                    if (!same(a, b)) violate("terminal-not-current", "%s model gave %.17g at maturity, a new one %.17g", model_name(ms.kind), a, b);
                    if (ms.kind != GBM) return;
                    f.g->rewind(seed); const double y = f.m->simulatePriceBackward(sn, t1, t2);
                    if (!same(x, y)) violate("bridge-not-current", "the Brownian bridge gave %.17g, that of a new model %.17g", x, y);
                });
                nontrivial();
                return;
            }
            const auto p = path(l, seed, T);
            if (T == 0) for (double x : p) if (!close(x, h.w.stocks.at(l.t).S, 1e-9)) violate("moves-in-no-time", "%s model with the spot at %.17g gives a path of length zero with the point %.17g", model_name(l.ms.kind), h.w.stocks.at(l.t).S, x);
            Live f = open(l.ms, l.t, l.dim, std::make_shared<FlatMarket>(h.w));
            const auto q = path(f, seed, T);
            log("%s T=%g seed %u: %s", model_name(l.ms.kind), T, seed, str(p).c_str());
            if (!same(p, q)) violate("path-not-current", "%s model on '%s' with history gives %s, a new one in the same market %s; market %s r=%g",
                                     model_name(l.ms.kind), l.t.c_str(), str(p).c_str(), str(q).c_str(), str(h.w.stocks.at(l.t)).c_str(), h.w.r);
            l.g->rewind(seed); f.g->rewind(seed);
            const double a = l.m->simulatePriceAtMaturity(T), b = f.m->simulatePriceAtMaturity(T);
            if (!same(a, b)) violate("terminal-not-current", "%s model gives %.17g at maturity, a new one %.17g", model_name(l.ms.kind), a, b);
            if (!close(a, q.back(), 1e-9)) violate("terminal-not-path-end", "%s model gives %.17g at maturity and a path ending in %.17g for the same random numbers", model_name(l.ms.kind), a, q.back());
            if (l.ms.kind == GBM) {
                const double sn = 50 + choose(100), t1 = 0.25 * (1 + choose(3)), t2 = t1 + 0.25;
                l.g->rewind(seed); f.g->rewind(seed);
                f.g->record = true;
                const double x = l.m->simulatePriceBackward(sn, t1, t2), y = f.m->simulatePriceBackward(sn, t1, t2);
                if (!same(x, y)) violate("bridge-not-current", "the Brownian bridge gives %.17g, that of a new model %.17g", x, y);
                if (f.g->rec.size() == 1) {
                    const Vals v = h.w.stocks.at(l.t);
                    const double want = v.S * std::exp(t1 / t2 * std::log(sn / v.S) + std::sqrt(t1 * (t2 - t1) / t2) * v.sig * f.g->rec[0]);
                    if (!close(y, want, 1e-9)) violate("bridge-response", "the Brownian bridge gives %.17g and should give %.17g", y, want);
                }
            }
            relations(l, h.w, seed, T);
            nontrivial();
        };
        const int n = 2 + choose(6);
        for (int i = 0; i < n; ++i)
            switch (choose(5)) {
                case 0: check(ls[choose(ls.size())]); break;
                case 1: if (ls.size() < 4) add(); break;
                case 2: {                                                   // earlier calls, also ones that fail half-way
                    Live& l = ls[choose(ls.size())]; l.g->rewind(choose(50));
                    const long at = chance(1, 2) ? 1 + (long)choose(2 * l.dim) : 0;
                    l.g->hook = [at](long k) { if (k == at) { fault("generator-throws"); throw SimFault{1}; } };
                    try { l.m->simulatePrices(gen_T()); } catch (const SimFault&) {}
                    l.g->hook = nullptr; break;
                }
                default: history(h, ts);
            }
        history(h, ts);
        for (auto& l : ls) check(l);
        for (auto& f : later) f();
    }

    static void pricers_now(Hist& h, const vector<string>& ts) {
        struct P { OptSpec o; Live l; shared_ptr<Option> opt; unique_ptr<MCPricer> p; };
        vector<P> ps;
        const int n0 = 1 + choose(2);
        for (int i = 0; i < n0; ++i) {
            P x; x.o = gen_option(ts[choose(ts.size())]); x.o.T = std::max(x.o.T, 0.25);
            static const unsigned dims[] = {3, 1, 2, 5};
            x.l = open(gen_model(x.o.kind == AMERICAN && chance(1, 2) ? (int)GBM : -1), x.o.ticker, dims[choose(4)], h.m);
            x.opt = make_option(x.o); x.p = make_pricer(x.o, x.opt, h.m, x.l.m);
            component(opt_name(x.o.kind)); component(model_name(x.l.ms.kind));
            log("pricer %s with %s, %u steps", str(x.o).c_str(), model_name(x.l.ms.kind), x.l.dim);
            ps.push_back(std::move(x));
        }
        auto check = [&](P& x) {
            static const unsigned long Ns[] = {3, 1, 2, 12}; const unsigned long N = Ns[choose(4)]; const unsigned seed = 1 + choose(1000);
            auto fm = std::make_shared<FlatMarket>(h.w);
            Live f = open(x.l.ms, x.l.t, x.l.dim, fm);
            auto fo = make_option(x.o); auto fp = make_pricer(x.o, fo, fm, f.m);
            x.l.g->rewind(seed); f.g->rewind(seed);
            double a, b;
            if (x.o.kind == AMERICAN && x.l.ms.kind == GBM && chance(1, 2)) {
                a = dynamic_cast<op::AmericanMCPricer&>(*x.p).brownianBridgePrice(N); b = dynamic_cast<op::AmericanMCPricer&>(*fp).brownianBridgePrice(N);
            } else { a = x.p->calculatePrice(N); b = fp->calculatePrice(N); }
            log("price %.12g", a);
            if (!same(a, b)) violate("price-not-current", "%s with %s: %.17g with history, %.17g from new objects in the same market %s r=%g", str(x.o).c_str(), model_name(x.l.ms.kind), a, b,
                                     str(h.w.stocks.at(x.o.ticker)).c_str(), h.w.r);
            nontrivial();
        };
        const int n = 2 + choose(5);
        for (int i = 0; i < n; ++i) { if (chance(1, 3)) check(ps[choose(ps.size())]); else history(h, ts); }
        for (auto& x : ps) check(x);
    }

    static void pde_now(Hist& h, const vector<string>& ts) {
        component("BlackScholesPDE");
        const OptSpec o = gen_option(ts[choose(ts.size())], EUROPEAN);
        auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
        pd::BlackScholesPDE old(opt, h.m);
        const int n = 2 + choose(5);
        for (int i = 0; i < n; ++i) {
            history(h, ts);
            auto fo = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
            pd::BlackScholesPDE fresh(fo, std::make_shared<FlatMarket>(h.w));
            const double t = o.T * choose(5) / 4.0, x = 10.0 * choose(30);
            const Vals v = h.w.stocks.at(o.ticker);
            struct { const char* n; double a, b; bool has; double want; } q[] = {
                {"diffusion", old.diffusion(t, x), fresh.diffusion(t, x), true, 0.5 * v.sig * v.sig * x * x},
                {"convection", old.convection(t, x), fresh.convection(t, x), true, (h.w.r - v.c.value_or(0.0)) * x},
                {"reaction", old.reaction(t, x), fresh.reaction(t, x), true, -h.w.r},
                {"right-hand-side", old.rightHandSide(t, x), fresh.rightHandSide(t, x), true, 0.0},
                {"boundary-left", old.boundaryLeft(t, 0), fresh.boundaryLeft(t, 0), true, o.call ? 0 : o.K * std::exp(-h.w.r * t)},   // there the price is known
                {"boundary-right", old.boundaryRight(t, x), fresh.boundaryRight(t, x), x >= 200 && x * std::exp(-v.c.value_or(0.0) * t) > o.K * std::exp(-h.w.r * t), o.call ? x * std::exp(-v.c.value_or(0.0) * t) - o.K * std::exp(-h.w.r * t) : 0},
                {"initial-condition", old.initialCondition(x), fresh.initialCondition(x), true, o.call ? std::max(x - o.K, 0.0) : std::max(o.K - x, 0.0)}};
            for (auto& c : q) {
                if (!same(c.a, c.b)) violate("pde-not-current", "%s at t=%g x=%g is %.17g with history and %.17g from new objects", c.n, t, x, c.a, c.b);
                if (c.has && !close(c.a, c.want)) violate("pde-value", "%s at t=%g x=%g is %.17g and should be %.17g", c.n, t, x, c.a, c.want);
            }
            log("pde t=%g x=%g", t, x); nontrivial();
        }
    }

    static double at_surface(const vector<double>& xs, const vector<double>& ys, double S, bool quad) {
        static op::LinearInterpolation li; static op::QuadraticInterpolation qi;
        return quad ? qi.interpolate(xs, ys, S) : li.interpolate(xs, ys, S);
    }
    static void fdm_now(Hist& h, const vector<string>& ts) {
        const OptSpec o = gen_option(ts[choose(ts.size())], EUROPEAN);
        auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
        Grid g; g.scheme = choose(N_SCHEME); g.J = 5 + choose(8); g.N = 3 + choose(6); g.tDom = o.T; g.xDom = 100.0 * (1 + choose(4));
        const bool quad = chance(1, 2); const int ms = choose(4);
        auto strat = [&] { return quad ? shared_ptr<op::Interpolation>(std::make_shared<op::QuadraticInterpolation>()) : nullptr; };
        auto mat = [&]() -> shared_ptr<op::MatrixSolver> {
            if (ms == 1) return std::make_shared<op::LUDecompositionSolver>();
            if (ms == 2) return std::make_shared<op::PartialPivotingLUSolver>();
            if (ms == 3) return std::make_shared<op::ThomasAlgorithm>();
            return nullptr; };
        component(scheme_name(g.scheme)); component("BlackScholesPDE");
        log("%s solver J=%lu N=%lu xDom=%g for %s", scheme_name(g.scheme), g.J, g.N, g.xDom, str(o).c_str());
        auto s = make_fdm(g, std::make_unique<pd::BlackScholesPDE>(opt, h.m), opt, h.m, strat(), mat());
        vector<double> xs(g.J); for (unsigned long j = 0; j < g.J; ++j) xs[j] = j * (g.xDom / (g.J - 1));
        const int n = choose(4);
        for (int i = 0; i < n; ++i) history(h, ts);
        const World at = h.w;
        auto fm = std::make_shared<FlatMarket>(at);
        auto fo = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
        auto f = make_fdm(g, std::make_unique<pd::BlackScholesPDE>(fo, fm), fo, fm, strat(), mat());
        double a, b; vector<double> sa, sb;
        if (chance(1, 2)) { a = s->calculatePrice(); b = f->calculatePrice(); sa = s->solve(); sb = f->solve(); }
        else { sa = s->solve(); sb = f->solve(); a = s->calculatePrice(); b = f->calculatePrice(); }
        log("price %.12g surface %s", a, str(sa).c_str());
        if (!same(sa, sb)) violate("surface-not-current", "the surface solved after a history is %s, that of a new solver %s", str(sa).c_str(), str(sb).c_str());
        if (!same(a, b)) violate("fdm-price-not-current", "the price after a history is %.17g, that of a new solver %.17g", a, b);
        nontrivial();
        const int k = 1 + choose(3);
        for (int i = 0; i < k; ++i) {                                       // solved: still the current spot
            history(h, ts);
            const double S = h.w.stocks.at(o.ticker).S, p = s->calculatePrice(), want = at_surface(xs, sa, S, quad);
            log("spot %g: %.12g", S, p);
            if (!close(p, want, 1e-9)) violate("solved-price-not-at-spot", "a solved solver prices %.17g at spot %g; its surface there is %.17g", p, S, want);
            probe("solved-then-ticked");
        }
    }

    static string print(const Option& o) { std::ostringstream s; s << o; return s.str(); }
    static void options_now(Hist& h, const vector<string>& ts) {
        struct O { OptSpec s; shared_ptr<Option> o; string last; Vals v; double r; };
        vector<O> os; bool differs = false;
        auto add = [&](OptSpec s) { O x; x.s = s; x.o = make_option(s); x.last = print(*x.o); x.v = h.w.stocks.at(s.ticker); x.r = h.w.r; os.push_back(x); log("option %s", str(s).c_str()); component(opt_name(s.kind)); };
        add(gen_option(ts[choose(ts.size())]));
        { OptSpec s = os[0].s; s.ticker = ts[choose(ts.size())]; add(s); }      // the same contract, perhaps on another stock
        if (chance(1, 2)) add(gen_option(ts[choose(ts.size())]));
        else {                                                                  // or one that differs in a single term
            OptSpec s = os[0].s; const uint32_t k = choose(3);
            if (k == 1 && s.kind != FLOAT_LOOKBACK) { s.K = chance(1, 2) ? nudge(s.K + 1) : s.K + 1; s.K2 += 2; } else if (k == 2 && s.kind != DOUBLE_DIGITAL) s.call = !s.call; else s.T = s.T == 0 ? 0.5 : chance(1, 2) ? nudge(s.T) : s.T + 1;
            add(s); differs = true;
        }
        const int n = 2 + choose(5);
        for (int i = 0; i < n; ++i) {
            if (chance(1, 4)) {                                             // make two stocks alike
                const Vals v = gen_vals();
                for (auto& t : ts) {
                    Op o; o.kind = OP_ADD; o.t = t; o.v = v; o.form = 1; if (chance(1, 4)) continue;
                    if (chance(1, 4)) switch (choose(4)) {                  // but for one thing
                        case 0: o.v.S = nudge(v.S); break; case 1: o.v.sig = std::fabs(nudge(v.sig)); break;
                        case 2: if (v.c) o.v.c.reset(); else o.v.c = 0.0; break; default: o.v.c = v.c ? std::fabs(*v.c - 0.01) : 0.03; }
                    h.accept(o);
                }
            } else history(h, ts);
            vector<shared_ptr<Option>> fresh;
            for (auto& x : os) fresh.push_back(make_option(x.s));
            for (size_t k = 0; k < os.size(); ++k) {
                auto& x = os[k];
                const string p = print(*x.o), q = print(*fresh[k]);
                if (p != q) violate("print-not-current", "%s prints\n%s\na new one\n%s", str(x.s).c_str(), p.c_str(), q.c_str());
                const Vals v = h.w.stocks.at(x.s.ticker);
                auto far = [](double a, double b) { return std::fabs(a - b) > 1e-3 * std::max(std::fabs(a), std::fabs(b)); };
                const bool visible = far(v.S, x.v.S) || far(v.sig, x.v.sig) || far(h.w.r, x.r) || (v.c && x.v.c && far(*v.c, *x.v.c));
                if (visible && p == x.last) violate("print-stale", "%s prints the same as before although %s r=%g became %s r=%g", str(x.s).c_str(), str(x.v).c_str(), x.r, str(v).c_str(), h.w.r);
                if (visible || p != x.last) { x.last = p; x.v = v; x.r = h.w.r; }
                if (visible) nontrivial();
                for (size_t j = 0; j < os.size(); ++j) {
                    const bool e = *x.o == *os[j].o, e2 = *fresh[k] == *fresh[j], e3 = *x.o == *fresh[j];
                    if (e != e2 || e != e3) violate("comparison-not-current", "%s compares %d with %s, new ones %d, old with new %d", str(x.s).c_str(), e, str(os[j].s).c_str(), e2, e3);
                    if (e == (*x.o != *os[j].o)) violate("comparison-inconsistent", "== and != agree");
                    if (k != j && j < 2 && k < 2) {
                        const Vals a = h.w.stocks.at(os[0].s.ticker), b = h.w.stocks.at(os[1].s.ticker);
                        if (a == b && !e) violate("comparison-stale", "equal contracts on stocks that are now alike compare unequal (%s)", str(a).c_str());
                        if (!(a == b) && e) violate("comparison-stale", "equal contracts on %s and %s compare equal", str(a).c_str(), str(b).c_str());
                        probe(e ? "compared-equal" : "compared-unequal");
                    }
                    if (differs && k < 2 && j == 2 && e) violate("comparison-terms", "%s and %s compare equal", str(x.s).c_str(), str(os[j].s).c_str());
                }
            }
        }
    }

    static void handles_now(Hist& h, const vector<string>& ts) {
        component("StockData handles");
        vector<std::pair<string, shared_ptr<const StockData>>> hs;
        const int n = 3 + choose(8);
        for (int i = 0; i < n; ++i) {
            if (chance(1, 3) || hs.empty()) { const string t = ts[choose(ts.size())]; hs.push_back({t, h.m->getStockData(t)}); log("handle on %s", t.c_str()); }
            else history(h, ts);
            if (chance(1, 6)) { Op o = gen_op(universe()[ts.size() + choose(universe().size() - ts.size())], false, OP_ADD); h.accept(o); probe("another-stock-added"); }
            for (auto& [t, d] : hs)
                if (!(read(*d) == h.w.stocks.at(t))) violate("handle-not-current", "a handle on '%s' shows %s, the market %s", t.c_str(), str(read(*d)).c_str(), str(h.w.stocks.at(t)).c_str());
            nontrivial();
        }
    }

    void c05() {
        component("MarketData"); component("StockModel");
        if (chance(1, 8)) { wild = 1; probe("unusual-values"); }
        const int ns = 1 + choose(3);
        Hist h(ns); const auto ts = tickers(ns);
        const int kind = choose(10);
        if (chance(1, 2)) history(h, ts);
        switch (kind) {
            case 0: case 1: case 2: models_now(h, ts); break;
            case 3: case 4: pricers_now(h, ts); break;
            case 5: pde_now(h, ts); break;
            case 6: case 7: fdm_now(h, ts); break;
            case 8: options_now(h, ts); break;
            default: handles_now(h, ts);
        }
    }

    // ---- C10: ticks between draws
    void c10_path() {
        component("MarketData"); component("StockModel");
        Hist h(2); const auto ts = tickers(2);
        if (chance(1, 2)) h.some(1 + choose(3), ts);
        const ModelSpec ms = gen_model(); static const unsigned dims[] = {3, 1, 2, 5, 8};
        Live l = open(ms, ts[0], dims[choose(5)], h.m);
        component(model_name(ms.kind));
        log("%s model, %u steps", model_name(ms.kind), l.dim);
        const int calls = 1 + choose(3);
        for (int c = 0; c < calls; ++c) {
            const double T = gen_T(); const unsigned seed = 1 + choose(1000); const bool back = ms.kind == GBM && chance(1, 4), term = !back && chance(1, 5);
            std::map<long, int> at; const int nt = 1 + choose(3);
            const long span = back ? 1 : ms.kind == GBM ? l.dim : ms.kind == HESTON || ms.kind == VG ? 2 * l.dim : 3 * l.dim;
            for (int i = 0; i < nt; ++i) at[1 + choose(span)]++;
            vector<World> snaps{h.w};
            l.g->rewind(seed);
            l.g->hook = [&](long k) {
                auto it = at.find(k); if (it == at.end()) return;
                for (int i = 0; i < it->second; ++i) {
                    const Op o = gen_op(ts[chance(1, 5) ? 1 : 0], chance(1, 8));
                    if (admissible(h.w, o)) { h.accept(o); fault("market-tick-mid-path"); snaps.push_back(h.w); } else h.refuse(o);
                }
            };
            const double sn = 50 + choose(100), t1 = 0.25 * (1 + choose(3)), t2 = t1 + 0.25;
            vector<double> p;
            if (back) p = {l.m->simulatePriceBackward(sn, t1, t2)};
            else if (term) p = {l.m->simulatePriceAtMaturity(T)};
            else p = l.m->simulatePrices(T);
            l.g->hook = nullptr;
            log("%s%s", back ? "bridge " : term ? "terminal " : "path ", str(p).c_str());
            bool found = false; string all;
            for (auto& w : snaps) {
                Live f = open(ms, l.t, l.dim, std::make_shared<FlatMarket>(w));
                f.g->rewind(seed);
                const vector<double> q = back ? vector<double>{f.m->simulatePriceBackward(sn, t1, t2)} : term ? vector<double>{f.m->simulatePriceAtMaturity(T)} : f.m->simulatePrices(T);
                if (same(p, q)) { found = true; break; }
                all += "\n" + str(w.stocks.at(l.t)) + " r=" + std::to_string(w.r) + ": " + str(q);
            }
            if (!found) violate("torn-path", "%s: %s belongs to none of the %zu markets in force during its production:%s", model_name(ms.kind), str(p).c_str(), snaps.size(), all.c_str());
            if (snaps.size() > 1) { nontrivial(); probe("ticked-mid-path"); }
        }
    }
}
