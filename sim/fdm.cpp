// C14: finite-difference solvers under histories of solve and price calls, ticks and failures.
#include "pricing.h"

namespace sim {
    static double linear(const vector<double>& xs, const vector<double>& ys, double x) {
        if (x <= xs.front()) return ys.front();
        if (x >= xs.back()) return ys.back();
        size_t i = 1; while (x >= xs[i]) ++i;
        return ys[i - 1] + (x - xs[i - 1]) * (ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1]);
    }
    // Through the interval's ends and the point before them; straight in the first and the last interval.
    static double quadratic(const vector<double>& xs, const vector<double>& ys, double x) {
        if (x <= xs.front()) return ys.front();
        if (x >= xs.back()) return ys.back();
        size_t k = 0; while (x >= xs[k + 1]) ++k;
        if (k == 0 || k == xs.size() - 2) return linear(xs, ys, x);
        const double d1 = (ys[k] - ys[k - 1]) / (xs[k] - xs[k - 1]), d2 = (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]);
        return ys[k] + (x - xs[k]) * (d1 + (x - xs[k - 1]) * (d2 - d1) / (xs[k + 1] - xs[k - 1]));
    }
    void c14() {
        component("MarketData");
        Hist h(2); const vector<string> ts{universe()[0], universe()[1]};
        const Grid g = gen_grid(true); const PdeSpec ps = gen_pde(g);
        auto pde = std::make_unique<StubPDE>(ps, g.xDom, g.tDom); StubPDE* pp = pde.get();
        const OptSpec o = gen_option(ts[0], EUROPEAN);
        auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
        const int im = choose(3);                                       // default linear, recording linear, real quadratic
        auto in = std::make_shared<StubInterpolation>();
        shared_ptr<op::Interpolation> ip = im == 1 ? shared_ptr<op::Interpolation>(in) : im == 2 ? std::make_shared<op::QuadraticInterpolation>() : nullptr;
        int mk = choose(4); if (g.J < 4 && mk == 3) mk = 0;
        auto ms = std::make_shared<StubMatrix>(real_matrix(mk == 0 ? 0 : mk - 1));
        const bool given = mk > 0 || chance(1, 2);
        auto s = make_fdm(g, std::move(pde), opt, h.m, ip, given && g.scheme != EXPLICIT ? ms : nullptr);
        component(scheme_name(g.scheme)); component(mk == 1 || mk == 0 ? "lu" : mk == 2 ? "partial-pivoting-lu" : "thomas");
        log("%s J=%lu N=%lu xDom=%g tDom=%g interpolation %d matrix %d", scheme_name(g.scheme), g.J, g.N, g.xDom, g.tDom, im, mk);
        vector<double> xs(g.J); for (unsigned long j = 0; j < g.J; ++j) xs[j] = j * (g.xDom / (double)(g.J - 1));
        double level = 0; const auto want = ref_surface(g, *pp, level);
        const double tol = 1e-7 * level + 1e-12 * std::min(pp->s.sc, 1.0);
        const long budget = 50 * (long)(g.J * g.N) * 20 + 10000;
        std::function<void(long)> bomb;
        long from = 0;
        pp->hook = [&](long k) { if (k - from > budget) violate("never-finishes", "solving has evaluated the PDE %ld times on a %lux%lu grid", k - from, g.J, g.N); if (bomb) { auto b = bomb; b(k - from); } };
        vector<double> first; bool complete = false;
        auto surface = [&](const vector<double>& v, const char* where) {
            if (v.size() != g.J) violate("surface-size", "%s: %zu points instead of %lu", where, v.size(), g.J);
            for (size_t j = 0; j < v.size(); ++j)
                if (!(std::fabs(v[j] - want[j]) <= tol)) violate("wrong-surface", "%s: %s J=%lu N=%lu: point %zu is %.15g and should be %.15g", where, scheme_name(g.scheme), g.J, g.N, j, v[j], want[j]);
            if (complete && !same(v, first)) violate("surface-changed", "%s: solved again: %s, before: %s", where, str(v).c_str(), str(first).c_str());
            first = v; complete = true;
        };
        auto spot = [&] { if (chance(1, 2)) { Op op; op.kind = OP_PRICE; op.t = ts[0]; op.x = chance(1, 6) ? xs[choose(g.J)] : g.xDom * (1 + choose(120)) / 100.0; if (op.x <= 0) op.x = 1; h.accept(op); } };
        const int n = 1 + choose(7);
        for (int i = 0; i < n; ++i) {
            const int act = choose(6); from = pp->calls;
            if (act == 0) { h.some(1, ts); continue; }
            if (act <= 2) spot();
            const bool price = act <= 3 ? true : act == 5 ? chance(1, 2) : false;
            int who = 0; bool fired = false, threw = false;
            if (chance(1, 3)) {                                         // a failure on the way
                who = 1 + choose(3);
                const long steps = g.N - 1, at = who == 1 ? 1 + (long)choose((g.scheme == CRANK ? 8 : 4) * (g.J - 2) * steps + 2 * steps) : 1 + (long)choose(steps);
                auto b = [&fired, at](long k) { if (k == at) { fired = true; fault("fdm-dependency-throws"); throw SimFault{1}; } };
                if (who == 1) bomb = b; else if (who == 2) { ms->calls = 0; ms->hook = b; } else { in->calls = 0; in->hook = [&fired](long) { fired = true; fault("interpolation-throws"); throw SimFault{2}; }; }
            }
            vector<double> v; double p = 0;
            try { if (price) p = s->calculatePrice(); else v = s->solve(); } catch (const SimFault&) { threw = true; }
            bomb = nullptr; ms->hook = nullptr; in->hook = nullptr;
            log("%s: %s", price ? "price" : "solve", threw ? "failed" : price ? std::to_string(p).c_str() : str(v).c_str());
            if (fired != threw) violate("failure-swallowed", "%s %s", price ? "price" : "solve", fired ? "completed although a dependency failed" : "failed although nothing did");
            if (threw) { probe("failed-call"); nontrivial(); continue; }
            if (!price) { surface(v, "solve"); continue; }
            const double S = h.w.stocks.at(ts[0]).S;
            if (im == 1) {
                if (in->calls == 0) violate("interpolation-not-used", "the given interpolation was not called");
                if (!same(in->at, S)) violate("not-at-spot", "interpolated at %.15g, the spot is %.15g", in->at, S);
                if (in->xs.size() != xs.size()) violate("grid", "interpolated over %zu points", in->xs.size());
                for (size_t j = 0; j < xs.size(); ++j) if (!close(in->xs[j], xs[j], 1e-12)) violate("grid", "grid point %zu is %.15g and should be %.15g", j, in->xs[j], xs[j]);
                surface(in->ys, "interpolated");
            }
            double ref;
            ref = im == 2 ? quadratic(xs, want, S) : linear(xs, want, S);
            // a quadratic through points that are off by tol is off by a few tol
            if (!(std::fabs(p - ref) <= 4 * tol)) violate("wrong-fdm-price", "%s: price %.15g at spot %g, and should be %.15g", scheme_name(g.scheme), p, S, ref);
            nontrivial();
        }
        from = pp->calls; surface(s->solve(), "last solve");
        nontrivial();
    }
}
