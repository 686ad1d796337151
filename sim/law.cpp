// C22: the simulated paths follow the dynamics of their model; C23: prices converge to the closed form.
#include "pricing.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include <boost/math/distributions/normal.hpp>
#include <complex>
#include <deque>
#include <random>

namespace sim {
    typedef std::complex<double> cx;
    static vector<string> tickers(int n) { return vector<string>(universe().begin(), universe().begin() + n); }

    // ---- a model with its parameters
    struct Law {
        int kind = GBM; double lambda = 1, muJ = -0.1, sJ = 0.15, p = 0.4, e1 = 10, e2 = 5, nu = 0.2, th = -0.1;
        double kappa = 1.5, theta = 0.04, sv = 0.3, rho = -0.7, v0 = 0.04; int scheme = 0;
        bool stochastic_vol() const { return kind == HESTON || kind == BATES; }
        double jump() const {                                              // E[e^J] - 1
            return kind == MERTON || kind == BATES ? std::exp(muJ + 0.5 * sJ * sJ) - 1 : kind == KOU ? p * e1 / (e1 - 1) + (1 - p) * e2 / (e2 + 1) - 1 : 0;
        }
    };
    static Law gen_law(int kind = -1) {
        Law l; l.kind = kind >= 0 ? kind : (int)choose(N_MODEL);
        static const double la[] = {1, 0.5, 3, 6}, mu[] = {-0.1, 0.1, 0, -0.25}, sj[] = {0.15, 0.05, 0.25}, p[] = {0.4, 0.5, 0, 1, 0.7}, e1[] = {10, 7, 25}, e2[] = {5, 3, 12},
            nu[] = {0.2, 0.5, 0.1, 0.05}, th[] = {-0.1, 0.1, -0.3, 0}, ka[] = {1.5, 0.3, 4}, te[] = {0.04, 0.1, 0.01}, sv[] = {0.3, 0.8, 0.1}, rh[] = {-0.7, 0, 0.6, 1, -1}, v0[] = {0.04, 0.09, 0.01};
        l.lambda = la[choose(4)]; l.muJ = mu[choose(4)]; l.sJ = sj[choose(3)]; l.p = p[choose(5)]; l.e1 = e1[choose(3)]; l.e2 = e2[choose(3)]; l.nu = nu[choose(4)]; l.th = th[choose(4)];
        l.kappa = ka[choose(3)]; l.theta = te[choose(3)]; l.sv = sv[choose(3)]; l.rho = rh[choose(5)]; l.v0 = v0[choose(3)]; l.scheme = choose(3);
        if (!wild && chance(1, 12)) { l.lambda = 150; l.muJ = chance(1, 2) ? 0.02 : -0.02; l.sJ = 0.03; l.e1 = 60; l.e2 = 50; }          // many small jumps
        if (wild) {                                                           // parameters at the edges of what is admissible
            auto rare = [](double& x, double a, double b) { if (chance(1, 3)) x = chance(1, 2) ? a : b; };
            rare(l.lambda, 30, 0.01); rare(l.muJ, 0.5, -0.8); rare(l.sJ, 0.6, 1e-4); rare(l.p, 0.999, 0.001); rare(l.e1, 1.2, 60); rare(l.e2, 0.4, 60); rare(l.nu, 1.5, 0.002); rare(l.th, 0.4, -1);
            rare(l.kappa, 8, 0.01); rare(l.theta, 0.5, 1e-4); rare(l.sv, 2, 0.01); rare(l.rho, 0.999, -0.995); rare(l.v0, 1, 1e-6);
        }
        return l;
    }
    static shared_ptr<StockModel> make_law(const Law& l, const string& t, const MarketP& mk, const shared_ptr<op::NumberGenerator>& g) {
        switch (l.kind) {
            case GBM: return std::make_shared<op::GeometricBrownianMotionModel>(t, mk, g);
            case HESTON: return std::make_shared<op::HestonModel>(t, mk, g, l.kappa, l.theta, l.sv, l.rho, l.v0, make_scheme(l.scheme));
            case BATES: return std::make_shared<op::BatesModel>(t, mk, g, l.kappa, l.theta, l.sv, l.rho, l.v0, l.lambda, l.muJ, l.sJ, make_scheme(l.scheme));
            case MERTON: return std::make_shared<op::MertonJumpDiffusionModel>(t, mk, g, l.lambda, l.muJ, l.sJ);
            case KOU: return std::make_shared<op::KouModel>(t, mk, g, l.lambda, l.p, l.e1, l.e2);
            default: return std::make_shared<op::VarianceGammaModel>(t, mk, g, l.nu, l.th);
        }
    }
    static string str(const Law& l) {
        char b[240];
        switch (l.kind) {
            case GBM: return "gbm";
            case MERTON: snprintf(b, sizeof b, "merton(lambda=%g muJ=%g sigmaJ=%g)", l.lambda, l.muJ, l.sJ); break;
            case KOU: snprintf(b, sizeof b, "kou(lambda=%g p=%g eta1=%g eta2=%g)", l.lambda, l.p, l.e1, l.e2); break;
            case VG: snprintf(b, sizeof b, "variance-gamma(nu=%g theta=%g)", l.nu, l.th); break;
            default: snprintf(b, sizeof b, "%s(kappa=%g theta=%g sigma_v=%g rho=%g v0=%g scheme=%d%s)", model_name(l.kind), l.kappa, l.theta, l.sv, l.rho, l.v0, l.scheme,
                              l.kind == BATES ? (" lambda=" + std::to_string(l.lambda) + " muJ=" + std::to_string(l.muJ) + " sigmaJ=" + std::to_string(l.sJ)).c_str() : "");
        }
        return b;
    }
    static double omega(const Law& l, double sig) { return std::log(1 - l.th * l.nu - 0.5 * sig * sig * l.nu) / l.nu; }
    static void next_variance(const Law& l, double& V, double dt, double z) {
        const double vp = std::max(V, 0.0);
        V += l.kappa * (l.theta - vp) * dt + l.sv * std::sqrt(vp * dt) * z;
        if (l.scheme == 2) V += 0.25 * l.sv * l.sv * dt * (z * z - 1);
    }

    // ---- exact refinement: the path is the recurrence applied to the numbers that were drawn
    struct Draws { std::deque<double> n, N, g, p, u, e; bool other = false; };
    // All paths the recurrence can mean: which of the two normals drives the variance does not matter to the law.
    static vector<vector<double>> ref_paths(const Law& l, const Vals& v, double r, double T, unsigned dim, const Draws& d0, bool& parsed) {
        vector<vector<double>> out; parsed = false;
        if (d0.other) return out;
        const double dt = T / dim, c = v.c.value_or(0.0);
        const bool sv = l.stochastic_vol(), jn = l.kind == MERTON || l.kind == BATES, jk = l.kind == KOU;
        if (d0.n.size() != dim * (sv ? 2u : 1u) || d0.g.size() != (l.kind == VG ? dim : 0u) || d0.p.size() != (jn || jk ? dim : 0u)) return out;
        double jumps = 0; for (double k : d0.p) jumps += k;
        if ((double)d0.N.size() != (jn ? jumps : 0) || (double)d0.u.size() != (jk ? jumps : 0) || (double)d0.e.size() != (jk ? jumps : 0)) return out;
        parsed = true;
        for (int alt = 0; alt < (sv ? 4 : jk ? 2 : 1); ++alt) {
            Draws d = d0; auto pop = [](std::deque<double>& q) { const double x = q.front(); q.pop_front(); return x; };
            double X = std::log(v.S), V = l.v0; vector<double> path;
            for (unsigned i = 0; i < dim; ++i) {
                double var = v.sig * v.sig, z = pop(d.n), zv = 0;
                if (sv) {
                    double a = z, b = pop(d.n); if (alt & 1) std::swap(a, b);
                    const double cor = l.rho * a + std::sqrt(1 - l.rho * l.rho) * b;
                    if (alt & 2) { z = a; zv = cor; } else { z = cor; zv = a; }
                    var = std::max(V, 0.0);
                }
                if (l.kind == VG) { const double g = pop(d.g); X += (r - c + omega(l, v.sig)) * dt + l.th * g + v.sig * std::sqrt(g) * z; }
                else X += (r - c - 0.5 * var - (jn || jk ? l.lambda * l.jump() : 0)) * dt + std::sqrt(var * dt) * z;
                if (jn || jk) {
                    const long k = (long)pop(d.p);
                    for (long j = 0; j < k; ++j)
                        if (jn) X += pop(d.N);
                        else { const double u = pop(d.u), e = pop(d.e); X += (alt ? u > 1 - l.p : u < l.p) ? e : -e; }
                }
                if (sv) next_variance(l, V, dt, zv);
                path.push_back(X);
            }
            out.push_back(path);
        }
        return out;
    }
    class KindGen : public op::NumberGenerator {
    public:
        KindGen(unsigned dim, unsigned seed) : NumberGenerator(dim, seed), e_(seed) {}
        double operator()(op::Distribution& d) const override {
            ++draws; step(); if (hook) { Harness h; hook(draws); }
            const double v = d(e_); Harness h;
            if (dynamic_cast<op::StandardNormalDistribution*>(&d)) rec.n.push_back(v);
            else if (dynamic_cast<op::NormalDistribution*>(&d)) rec.N.push_back(v);
            else if (dynamic_cast<op::GammaDistribution*>(&d)) rec.g.push_back(v);
            else if (dynamic_cast<op::PoissonDistribution*>(&d)) rec.p.push_back(v);
            else if (dynamic_cast<op::ContinuousUniformDistribution*>(&d)) rec.u.push_back(v);
            else if (dynamic_cast<op::ExponentialDistribution*>(&d)) rec.e.push_back(v);
            else rec.other = true;
            return v;
        }
        void reset() const { rec = Draws(); draws = 0; }
        mutable Draws rec; mutable long draws = 0; std::function<void(long)> hook;
    private:
        mutable std::mt19937 e_;
    };
    static double gen_T() { if (odd()) { static const double o[] = {3, 6, 12, 25, 60, 0.004}; return o[choose(6)]; } static const double v[] = {1, 0.5, 2, 0.1, 0.25}; return v[choose(5)]; }

    void c22_path() {
        if (chance(1, 6)) { wild = 1; probe("unusual-values"); }
        Hist h(3); const auto ts = tickers(3);
        struct L { Law l; string t; unsigned dim; shared_ptr<KindGen> g; shared_ptr<StockModel> m; };
        vector<L> ls;
        auto add = [&] {
            static const unsigned dims[] = {3, 1, 2, 5, 8, 13, 52, 21};
            L x; x.l = gen_law(); x.t = ts[choose(3)]; x.dim = wild && chance(1, 3) ? 65 + choose(400) : dims[choose(8)]; x.g = std::make_shared<KindGen>(x.dim, 1 + choose(10000)); x.m = make_law(x.l, x.t, h.m, x.g);
            component(model_name(x.l.kind)); log("new %s on %s, %u steps", str(x.l).c_str(), x.t.c_str(), x.dim); ls.push_back(x);
        };
        add();
        auto check = [&](L& x) {
            double T = gen_T(); const Vals v = h.w.stocks.at(x.t);
            if (chance(1, 8)) { static const double s[] = {0, 1.0 / 365, 1e-4, 1e-6, 1e-9, 1e-12}; T = s[choose(6)]; probe(T == 0 ? "no-time" : "short-time"); }
            if (wild && x.l.stochastic_vol()) T = std::min(T, 0.9 * x.dim / x.l.kappa);   // longer steps make the recurrence of the variance unstable
            if (x.l.kind == VG && !(1 - x.l.th * x.l.nu - 0.5 * v.sig * v.sig * x.l.nu > 1e-6)) return;   // no finite mean
            x.g->reset();
            if (T > 0 && chance(1, 5)) {                                        // the end of a path alone, and backward from it
                const double e = x.m->simulatePriceAtMaturity(T);
                if (!(e > 1e-250 && e < 1e250)) return;
                bool parsed; auto refs = ref_paths(x.l, v, h.w.r, T, x.dim, x.g->rec, parsed);
                if (!parsed) refs = ref_paths(x.l, v, h.w.r, T, 1, x.g->rec, parsed);
                if (!parsed) { probe("draws-not-interpreted"); return; }
                bool ok = false; for (auto& q : refs) if (std::fabs(std::log(e) - q.back()) <= 1e-8 * (1 + std::fabs(q.back()))) ok = true;
                if (!ok) violate("not-the-dynamics", "%s in the market %s r=%g, T=%g: its price at maturity is %.15g; its dynamics applied to the numbers it drew give %.15g", str(x.l).c_str(), str(v).c_str(), h.w.r, T, e, std::exp(refs[0].back()));
                probe("terminal-price"); nontrivial();
                if (x.l.kind != GBM || std::fabs(std::log(e / v.S)) > 300) return;
                static const double part[] = {0.5, 0.25, 0.75, 0.98, 0.02, 1.0 / 365, 1e-4, 0.999}; const double t2 = chance(1, 2) ? T : T * part[choose(8)], t1 = t2 * part[choose(8)];
                x.g->reset(); const double y = x.m->simulatePriceBackward(e, t1, t2); const Draws& d = x.g->rec;
                if (x.g->draws == 0 && v.sig > 0 && t1 > 0 && t1 < t2 && !(std::fabs(v.sig * std::sqrt(t1 / t2 * (t2 - t1))) < 1e-12)) violate("not-the-bridge", "gbm in the market %s r=%g: from %.15g at %.17g back to %.17g gives %.15g without drawing a number", str(v).c_str(), h.w.r, e, t2, t1, y);
                if (d.n.size() != 1 || d.other || !d.g.empty() || !d.p.empty() || !d.N.empty() || !d.u.empty() || !d.e.empty()) { probe("draws-not-interpreted"); return; }
                const double mean = t1 / t2 * std::log(e / v.S), w = std::sqrt(t1 / t2 * (t2 - t1)) * v.sig * d.n[0], got = std::log(y / v.S), tol = 1e-8 * (1 + std::fabs(mean));
                if (!(std::fabs(got - mean - w) <= tol || std::fabs(got - mean + w) <= tol))
                    violate("not-the-bridge", "gbm in the market %s r=%g: from %.15g at %.17g back to %.17g it drew %.15g and gives %.15g instead of %.15g", str(v).c_str(), h.w.r, e, t2, t1, d.n[0], y, v.S * std::exp(mean + w));
                probe("bridge"); return;
            }
            const auto p = x.m->simulatePrices(T);
            if (p.size() != x.dim) violate("path-length", "%s returned %zu prices for %u steps", str(x.l).c_str(), p.size(), x.dim);
            if (T == 0) for (double y : p) if (!close(y, v.S, 1e-9)) violate("moves-in-no-time", "%s with the spot at %.17g gives a path of length zero with the point %.17g", str(x.l).c_str(), v.S, y);
            for (double y : p) if (!(y > 1e-250 && y < 1e250)) return;
            bool parsed; const auto refs = ref_paths(x.l, v, h.w.r, T, x.dim, x.g->rec, parsed);
            log("%s T=%g: %s", model_name(x.l.kind), T, sim::str(p).c_str());
            if (!parsed) { probe("draws-not-interpreted"); return; }
            bool ok = false; unsigned at = 0;
            for (auto& q : refs) {
                unsigned i = 0; while (i < x.dim && std::fabs(std::log(p[i]) - q[i]) <= 1e-8 * (1 + std::fabs(q[i]))) ++i;
                if (i == x.dim) { ok = true; break; }
                at = std::max(at, i);
            }
            if (!ok) violate("not-the-dynamics", "%s in the market %s r=%g, T=%g: point %u of the path is %.15g; its dynamics applied to the numbers it drew give %.15g", str(x.l).c_str(), str(v).c_str(), h.w.r, T, at + 1, p[at], std::exp(refs[0][at]));
            if (!x.g->rec.N.empty() || !x.g->rec.u.empty()) probe("jump"); else probe("no-jump");
            nontrivial();
        };
        const int n = 3 + choose(6);
        for (int i = 0; i < n; ++i)
            switch (choose(5)) {
                case 0: case 1: check(ls[choose(ls.size())]); break;
                case 2: if (ls.size() < 4) add(); break;
                case 3: {                                                   // a path that fails half-way
                    L& x = ls[choose(ls.size())]; const long at = 1 + (long)choose(2 * x.dim);
                    x.g->reset(); x.g->hook = [at](long k) { if (k == at) { fault("generator-throws"); throw SimFault{1}; } };
                    try { x.m->simulatePrices(gen_T()); } catch (const SimFault&) {} catch (const std::exception&) {}
                    x.g->hook = nullptr; break;
                }
                default: h.some(1 + choose(3), ts);
            }
        for (auto& x : ls) check(x);
    }

    // ---- statistics
    struct Mean { double s = 0, q = 0; size_t n = 0; void add(double x) { s += x; q += x * x; ++n; } double m() const { return s / n; } double var() const { return std::max(q / n - m() * m(), 0.0); } };
    // |mean - want| within k standard errors; the floor keeps degenerate samples quiet.
    static void expect(const char* cls, const Mean& a, double want, double k, const string& what) {
        const double se = std::sqrt(a.var() / a.n) + 1e-9 * (1 + std::fabs(want));
        if (!(std::fabs(a.m() - want) <= k * se)) violate(cls, "%s: %.8g over %zu samples, expected %.8g, %.1f standard errors away", what.c_str(), a.m(), a.n, want, std::fabs(a.m() - want) / se);
    }
    static void expect2(const char* cls, const Mean& a, const Mean& b, double k, const string& what) {
        const double se = std::sqrt(a.var() / a.n + b.var() / b.n) + 1e-9 * (1 + std::fabs(b.m()));
        if (!(std::fabs(a.m() - b.m()) <= k * se)) violate(cls, "%s: %.8g, the reference simulation gives %.8g, %.1f standard errors away", what.c_str(), a.m(), b.m(), std::fabs(a.m() - b.m()) / se);
    }
    static cx phi(const Law& l, double u, double sig, double r, double c, double dt) {
        const cx iu(0, u);
        if (l.kind == VG) return std::exp(iu * (r - c + omega(l, sig)) * dt - dt / l.nu * std::log(1.0 - iu * l.th * l.nu + 0.5 * sig * sig * l.nu * u * u));
        cx e = iu * (r - c - 0.5 * sig * sig - l.lambda * l.jump()) - 0.5 * sig * sig * u * u;
        if (l.kind == GBM) e = iu * (r - c - 0.5 * sig * sig) - 0.5 * sig * sig * u * u;
        if (l.kind == MERTON) e += l.lambda * (std::exp(iu * l.muJ - 0.5 * l.sJ * l.sJ * u * u) - 1.0);
        if (l.kind == KOU) e += l.lambda * (l.p * l.e1 / (l.e1 - iu) + (1 - l.p) * l.e2 / (l.e2 + iu) - 1.0);
        return std::exp(e * dt);
    }
    static double variance(const Law& l, double sig, double dt) {
        double v = sig * sig;
        if (l.kind == MERTON) v += l.lambda * (l.muJ * l.muJ + l.sJ * l.sJ);
        if (l.kind == KOU) v += l.lambda * 2 * (l.p / (l.e1 * l.e1) + (1 - l.p) / (l.e2 * l.e2));
        if (l.kind == VG) v += l.nu * l.th * l.th;
        return v * dt;
    }
    // Log returns per step of the stochastic volatility models, simulated once more, without the library.
    static vector<double> ref_returns(const Law& l, double r, double c, double T, unsigned dim, std::mt19937_64& e) {
        std::normal_distribution<> nd; const double dt = T / dim; std::poisson_distribution<> po(l.lambda * dt);
        vector<double> x(dim); double V = l.v0;
        for (double& y : x) {
            const double a = nd(e), b = nd(e), zs = l.rho * a + std::sqrt(1 - l.rho * l.rho) * b, var = std::max(V, 0.0);
            y = (r - c - 0.5 * var - (l.kind == BATES ? l.lambda * l.jump() : 0)) * dt + std::sqrt(var * dt) * zs;
            if (l.kind == BATES) for (int k = po(e); k > 0; --k) y += l.muJ + l.sJ * nd(e);
            next_variance(l, V, dt, a);
        }
        return x;
    }
    static shared_ptr<op::NumberGenerator> real_generator(unsigned dim, unsigned& seed) {
        if (chance(1, 6)) { entropy_set(1 + choose(100000)); seed = 0; return std::make_shared<op::PseudoRandomNumberGenerator>(dim); }
        seed = 1 + choose(1000000); return std::make_shared<op::PseudoRandomNumberGenerator>(dim, seed);
    }
    // Values for which the samples say something: no degenerate volatility, moderate prices.
    static void settle(Hist& h, const vector<string>& ts) {
        for (auto& t : ts) {
            Op o; o.t = t;
            if (chance(1, 2)) { o.kind = OP_ADD; o.form = choose(3); static const double s[] = {0.2, 0.4, 0.1, 0.6}, S[] = {100, 50, 120, 1}; o.v.S = S[choose(4)]; o.v.sig = s[choose(4)]; o.v.c = gen_coupon(); if (o.v.c && *o.v.c > 0.3) o.v.c = 0.1; h.accept(o); }
            else {
                Vals v = h.w.stocks.at(t);
                if (!(v.sig >= 0.05 && v.sig <= 0.7)) { o.kind = OP_SIGMA; o.x = 0.25; h.accept(o); }
                if (v.c.value_or(0) > 0.3) { o.kind = OP_COUPON; o.c = 0.05; h.accept(o); }
                if (!(v.S >= 0.5 && v.S <= 2000)) { o.kind = OP_PRICE; o.x = 80; h.accept(o); }
            }
        }
        if (h.w.r < -0.05 || h.w.r > 0.25) { Op o; o.kind = OP_RATE; o.x = 0.03; h.accept(o); }
    }
    static void alloc_failure(const std::function<void()>& f) {
        alloc_arm(1 + choose(6));
        try { f(); } catch (const std::bad_alloc&) {}
        if (alloc_disarm() > 0) fault("allocation");
    }

    void c22_law() {
        Hist h(2); const auto ts = tickers(2);
        static const unsigned dims[] = {2, 1, 3, 4}; const unsigned dim = dims[choose(4)]; unsigned seed;
        const Law l = gen_law(); const string t = ts[choose(2)]; component(model_name(l.kind));
        shared_ptr<op::NumberGenerator> g = real_generator(dim, seed);
        auto m = make_law(l, t, h.m, g);
        const Law l2 = gen_law(); auto other = make_law(l2, ts[choose(2)], h.m, chance(1, 2) ? g : std::make_shared<op::PseudoRandomNumberGenerator>(dim, 7));
        h.some(choose(5), ts); settle(h, ts);
        const Vals v = h.w.stocks.at(t); const double r = h.w.r, c = v.c.value_or(0.0), T = gen_T(), dt = T / dim;
        if (l.kind == VG && !(1 - l.th * l.nu - 2 * v.sig * v.sig * l.nu > 0.2)) discard();
        const size_t M = 2000 + 1000 * choose(4);
        vector<double> X(M * dim), R; Mean mart, first;
        const uint32_t every = 1 + choose(500), kind = choose(4);
        for (size_t i = 0; i < M; ++i) {
            if (i % every == every - 1) {                                  // things that must not matter
                if (kind == 1) try { other->simulatePrices(T); } catch (const std::exception&) {}
                if (kind == 2) alloc_failure([&] { m->simulatePrices(T); });
                if (kind == 3) { try { h.m->updateStockPrice(t, -1); } catch (const std::exception&) { fault("refused-update"); } }
            }
            const auto p = m->simulatePrices(T);
            if (p.size() != dim) violate("path-length", "%s returned %zu prices for %u steps", str(l).c_str(), p.size(), dim);
            double a = v.S;
            for (unsigned j = 0; j < dim; ++j) {
                if (!(p[j] > 0 && p[j] < 1e300)) violate("not-a-price", "%s: point %u of a path is %g", str(l).c_str(), j + 1, p[j]);
                X[i * dim + j] = std::log(p[j] / a); a = p[j];
            }
            mart.add(p.back() / v.S * std::exp(-(r - c) * T)); first.add(p[0] / v.S * std::exp(-(r - c) * dt));
            step();
        }
        char b[300]; snprintf(b, sizeof b, "%s in the market %s r=%g, T=%g, %u steps", str(l).c_str(), str(v).c_str(), r, T, dim); const string where = b;
        log("%s seed %u: %zu paths, mean discounted price %.12g", b, seed, M, mart.m());
        expect("not-a-martingale", mart, 1, 7.5, where + ": mean of the discounted price at maturity over the spot");
        expect("not-a-martingale", first, 1, 7.5, where + ": mean of the discounted price after one step over the spot");
        const double K = 7;
        if (l.stochastic_vol()) {
            std::mt19937_64 e(99 + choose(1000)); vector<double> Y;
            for (size_t i = 0; i < M; ++i) for (double y : ref_returns(l, r, c, T, dim, e)) Y.push_back(y);
            double var = 0; for (double y : Y) var += y * y; const double sd = std::sqrt(var / Y.size());
            for (double q : {0.7, 1.5, 3.0}) {
                const double u = q / sd;
                for (unsigned j = 0; j < dim; ++j) {
                    Mean ca, cb, sa, sb, xa, xb, ya, yb;
                    for (size_t i = 0; i < M; ++i) {
                        const double x = X[i * dim + j], y = Y[i * dim + j];
                        ca.add(std::cos(u * x)); cb.add(std::cos(u * y)); sa.add(std::sin(u * x)); sb.add(std::sin(u * y));
                        if (j) {                                             // joint law of two steps: leverage and clustering
                            const double x0 = X[i * dim + j - 1], y0 = Y[i * dim + j - 1];
                            xa.add(std::sin(u * x0) * std::cos(u * x)); xb.add(std::sin(u * y0) * std::cos(u * y));
                            ya.add(std::cos(u * x0) * std::cos(u * x)); yb.add(std::cos(u * y0) * std::cos(u * y));
                        }
                    }
                    expect2("not-the-law", ca, cb, K, where + ": mean cosine of the log return of a step"); expect2("not-the-law", sa, sb, K, where + ": mean sine of the log return of a step");
                    if (j) { expect2("not-the-law", xa, xb, K, where + ": dependence of successive log returns (leverage)"); expect2("not-the-law", ya, yb, K, where + ": dependence of successive log returns (clustering)"); }
                }
            }
        } else {
            const double sd = std::sqrt(variance(l, v.sig, dt));
            for (double q : {0.7, 1.5, 3.0}) {
                const double u = q / sd; const cx f = phi(l, u, v.sig, r, c, dt);
                Mean C, S, CC, SS, P;
                for (size_t i = 0; i < X.size(); ++i) { C.add(std::cos(u * X[i])); S.add(std::sin(u * X[i])); }
                for (size_t i = 0; i < M; ++i) {
                    for (unsigned j = 1; j < dim; ++j) { const double x = X[i * dim + j - 1], y = X[i * dim + j]; CC.add(std::cos(u * (x - y))); SS.add(std::sin(u * (x + y))); }
                    if (i) P.add(std::cos(u * (X[i * dim] - X[i * dim - 1])));
                }
                expect("not-the-law", C, f.real(), K, where + ": mean cosine of the log return of a step"); expect("not-the-law", S, f.imag(), K, where + ": mean sine of the log return of a step");
                if (dim > 1) { expect("not-the-law", CC, std::norm(f), K, where + ": independence of the steps of a path"); expect("not-the-law", SS, (f * f).imag(), K, where + ": independence of the steps of a path"); }
                expect("not-the-law", P, std::norm(f), K, where + ": independence of successive paths");
            }
        }
        if (l.kind == GBM) {                                                // the same law backward in time
            const double t1 = T * (1 + choose(3)) / 4.0; Mean C, S, D;
            const double u = 1.2 / (v.sig * std::sqrt(t1)), w = 1.2 / (v.sig * std::sqrt(T - t1));
            Mean E, F;
            for (size_t i = 0; i < M; ++i) {
                const double e = m->simulatePriceAtMaturity(T), y = m->simulatePriceBackward(e, t1, T), a = std::log(y / v.S), z = std::log(e / y);
                C.add(std::cos(u * a)); S.add(std::sin(u * a)); E.add(std::cos(w * z)); F.add(std::sin(w * z)); D.add(std::cos(u * a - w * z)); step();
            }
            const cx f = phi(l, u, v.sig, r, c, t1), k = phi(l, w, v.sig, r, c, T - t1);
            expect("not-the-bridge-law", C, f.real(), K, where + ": mean cosine of the log return up to an earlier time");
            expect("not-the-bridge-law", S, f.imag(), K, where + ": mean sine of the log return up to an earlier time");
            expect("not-the-bridge-law", E, k.real(), K, where + ": mean cosine of the log return from an earlier time");
            expect("not-the-bridge-law", F, k.imag(), K, where + ": mean sine of the log return from an earlier time");
            expect("not-the-bridge-law", D, (f * std::conj(k)).real(), K, where + ": independence of the returns before and after an earlier time");
            probe("bridge");
        }
        nontrivial();
    }

    // ---- C23
    static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
    // Undiscounted value of a payoff on exp(m + s Z), and its variance.
    static double lognormal_value(const OptSpec& o, double m, double s, double* var = nullptr) {
        if (var) {
            double a = 0, b = 0, w = 0;
            for (int i = -4000; i <= 4000; ++i) { const double z = i / 500.0, f = std::exp(-0.5 * z * z), y = ref_payoff(o, std::exp(m + s * z)); w += f; a += f * y; b += f * y * y; }
            *var = b / w - a / w * a / w;
        }
        auto above = [&](double K) { return K > 0 ? Phi((m - std::log(K)) / s) : 1.0; };
        auto asset_above = [&](double K) { return std::exp(m + 0.5 * s * s) * (K > 0 ? Phi((m + s * s - std::log(K)) / s) : 1.0); };
        switch (o.kind) {
            case DIGITAL: return o.call ? above(o.K) : 1 - above(o.K);
            case DOUBLE_DIGITAL: return above(o.K) - above(o.K2);
            default: { const double call = asset_above(o.K) - o.K * above(o.K); return o.call ? call : call - std::exp(m + 0.5 * s * s) + o.K; }
        }
    }
    static double black_scholes(const OptSpec& o, const Vals& v, double r) {
        const double c = v.c.value_or(0.0);
        return std::exp(-r * o.T) * lognormal_value(o, std::log(v.S) + (r - c - 0.5 * v.sig * v.sig) * o.T, v.sig * std::sqrt(o.T));
    }
    // Exercise at n equally spaced dates: backward induction on a grid of log prices.
    static double bermudan(const OptSpec& o, const Vals& v, double r, int n) {
        const double dt = o.T / n, c = v.c.value_or(0.0), sd = v.sig * std::sqrt(dt), mu = (r - c - 0.5 * v.sig * v.sig) * dt, D = std::exp(-r * dt);
        const int J = 401; const double W = 6 * v.sig * std::sqrt(o.T) + std::fabs(r - c) * o.T, x0 = std::log(v.S), dx = 2 * W / (J - 1);
        vector<double> f(J), g(J);
        auto ex = [&](double x) { return ref_payoff(o, std::exp(x)); };
        auto at = [&](const vector<double>& q, double x) { const double k = (x - x0 + W) / dx; if (k <= 0 || k >= J - 1) return ex(x); const int i = (int)k; return q[i] + (k - i) * (q[i + 1] - q[i]); };
        auto cont = [&](double x, bool last) { double s = 0, w = 0; for (int i = -60; i <= 60; ++i) { const double z = i / 12.0, p = std::exp(-0.5 * z * z), y = x + mu + sd * z; w += p; s += p * (last ? ex(y) : at(f, y)); } return D * s / w; };
        for (int k = n - 1; k >= 1; --k) { for (int j = 0; j < J; ++j) { const double x = x0 - W + j * dx; g[j] = std::max(ex(x), cont(x, k == n - 1)); } f = g; }
        return cont(x0, n == 1);
    }
    static unique_ptr<op::MCBuilder> any_builder(int kind) {
        switch (kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: return std::make_unique<op::MCSinglePathBuilder>();
            case AMERICAN: return std::make_unique<op::AmericanMCBuilder>();
            case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCBuilder>();
            case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCBuilder>();
            default: return std::make_unique<op::KnockOutBarrierMCBuilder>();
        }
    }
    void c23_mc() {
        Hist h(2); const auto ts = tickers(2);
        static const int kinds[] = {EUROPEAN, DIGITAL, DOUBLE_DIGITAL, GEOM_ASIAN, KNOCK_IN, AMERICAN, EUROPEAN}; static const unsigned dims[] = {1, 2, 3, 5}; static const double ms[] = {1, 0.9, 1.1, 0.8, 1.25};
        OptSpec o; o.kind = kinds[choose(7)]; o.call = !chance(1, 2); o.ticker = ts[choose(2)]; o.T = gen_T();
        const unsigned dim = dims[choose(4)]; unsigned seed = 0; const int src = choose(5);
        h.some(choose(4), ts); settle(h, ts);
        const double S0 = h.w.stocks.at(o.ticker).S;
        o.K = S0 * ms[choose(5)]; o.K2 = o.K * (1.05 + 0.1 * choose(3)); o.up = !chance(1, 2); o.B = S0 * (o.up ? 1.02 + 0.1 * choose(3) : 0.98 - 0.1 * choose(3));
        auto gen = [&](unsigned sd) -> shared_ptr<op::NumberGenerator> {
            if (src == 3) return std::make_shared<op::SobolGenerator>(dim, 1 + sd % 64);
            if (src == 4 && dim <= 4) return std::make_shared<op::FaureGenerator>(dim, 1 + sd % 64);
            return std::make_shared<op::PseudoRandomNumberGenerator>(dim, sd);
        };
        component(src == 3 ? "Sobol" : src == 4 && dim <= 4 ? "Faure" : "PseudoRandom"); component(opt_name(o.kind));
        seed = 1 + choose(1000000);
        auto opt = make_option(o); shared_ptr<StockModel> m = std::make_shared<op::GeometricBrownianMotionModel>(o.ticker, h.m, gen(seed));
        auto build = [&](const OptSpec& oo, const shared_ptr<Option>& op2, const shared_ptr<StockModel>& mm) -> unique_ptr<MCPricer> {
            if (chance(1, 2)) return make_pricer(oo, op2, h.m, mm);
            auto b = any_builder(oo.kind); b->setMarketData(h.m).setStockPriceModel(mm); b->setOption(op2); return b->build();
        };
        auto p = build(o, opt, m);
        if (chance(1, 3)) alloc_failure([&] { p->calculatePrice(3); });      // earlier uses, also ones that fail
        if (chance(1, 3)) p->calculatePrice(1 + choose(20));
        h.some(choose(3), ts); settle(h, ts);
        if (h.w.stocks.at(o.ticker).S > S0 * 3 || h.w.stocks.at(o.ticker).S < S0 / 3) { Op u; u.kind = OP_PRICE; u.t = o.ticker; u.x = S0 * 1.05; h.accept(u); }
        const Vals v = h.w.stocks.at(o.ticker); const double r = h.w.r, c = v.c.value_or(0.0), D = std::exp(-r * o.T);
        const unsigned long N = o.kind == AMERICAN ? 2000 + 1000 * choose(3) : 3000 + 2000 * choose(4);
        auto price = [&](unique_ptr<MCPricer>& q) {
            if (chance(1, 2)) return q->calculatePrice(N);
            op::MCSolver s(chance(1, 2) ? 7 : N); s.setPricer(std::move(q)); s.setN(N); return s.solve();
        };
        const double got = price(p); step(N);
        char b[300]; snprintf(b, sizeof b, "%s in the market %s r=%g, %lu paths of %u steps", sim::str(o).c_str(), sim::str(v).c_str(), r, N, dim);
        log("%s seed %u source %d: %.12g", b, seed, src, got);
        const double sT = v.sig * std::sqrt(o.T * (o.kind == GEOM_ASIAN ? (dim + 1.0) * (2.0 * dim + 1) / (6.0 * dim * dim) : 1)), mT = std::log(v.S) + (r - c - 0.5 * v.sig * v.sig) * (o.kind == GEOM_ASIAN ? o.T * (dim + 1.0) / (2.0 * dim) : o.T);
        auto beyond = [&](double K) { return Phi((mT - std::log(K)) / sT); };
        const double hits = N * (o.kind == DOUBLE_DIGITAL ? beyond(o.K) - beyond(o.K2) : o.call ? beyond(o.K) : 1 - beyond(o.K));
        auto check = [&](double want, double var, double slack) {
            if (hits < 60) { probe("rare-payoff"); return; }                // the sample says too little
            const double se = D * std::sqrt(var / N) + 1e-9 * (1 + want);
            if (!(std::fabs(got - want) <= 7 * se + slack)) violate("not-converging", "%s: price %.10g, closed form %.10g, %.1f standard errors away", b, got, want, std::fabs(got - want) / se);
            nontrivial();
        };
        double var;
        switch (o.kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: {
                const double u = lognormal_value(o, std::log(v.S) + (r - c - 0.5 * v.sig * v.sig) * o.T, v.sig * std::sqrt(o.T), &var);
                // few expected hits: the sample says little about its own spread
                check(D * u, var, o.kind == EUROPEAN ? 3e-3 * v.S * 20 / N : 20.0 / N); break;
            }
            case GEOM_ASIAN: {
                const double n = dim, dt = o.T / n;
                const double u = lognormal_value(o, std::log(v.S) + (r - c - 0.5 * v.sig * v.sig) * dt * (n + 1) / 2, v.sig * std::sqrt(dt * (n + 1) * (2 * n + 1) / (6 * n)), &var);
                check(D * u, var, 3e-3 * v.S * 20 / N); break;
            }
            case KNOCK_IN: {                                                // in + out = the option without a barrier, path by path
                OptSpec k = o, e = o; k.kind = KNOCK_OUT; e.kind = EUROPEAN;
                auto once = [&](const OptSpec& x) {
                    shared_ptr<StockModel> mm = std::make_shared<op::GeometricBrownianMotionModel>(o.ticker, h.m, gen(seed));
                    auto q = build(x, make_option(x), mm); return price(q);
                };
                const double in = once(o), out = once(k), plain = once(e);
                if (!close(in + out, plain, 1e-9)) violate("in-out-parity", "%s: knock-in %.12g + knock-out %.12g is not the price without a barrier %.12g", b, in, out, plain);
                lognormal_value(e, std::log(v.S) + (r - c - 0.5 * v.sig * v.sig) * o.T, v.sig * std::sqrt(o.T), &var);
                if (!(got <= black_scholes(e, v, r) + 7 * D * std::sqrt(var / N) + 0.06 * v.S / N)) violate("barrier-above-plain", "%s: price %.12g is above the option without a barrier", b, got);
                probe("parity"); nontrivial(); break;
            }
            default: {
                const double want = bermudan(o, v, r, dim); OptSpec e = o; e.kind = EUROPEAN;
                lognormal_value(e, std::log(v.S) + (r - c - 0.5 * v.sig * v.sig) * o.T, v.sig * std::sqrt(o.T), &var);
                note("bermudan %.10g got %.10g rel %.4f", want, got, (got - want) / v.S);
                check(want, var, 0.02 * v.S);
            }
        }
    }

    void c23_fdm() {
        Hist h(2); const auto ts = tickers(2);
        h.some(choose(4), ts); settle(h, ts);
        const string t = ts[choose(2)];
        { Op o; o.kind = OP_SIGMA; o.t = t; static const double s[] = {0.2, 0.3, 0.15, 0.4}; o.x = s[choose(4)]; h.accept(o); }
        const double S0 = h.w.stocks.at(t).S; static const double ms[] = {1, 0.9, 1.1, 1.2, 0.8}, Ts[] = {1, 0.5, 0.25};
        OptSpec o; o.kind = EUROPEAN; o.call = !chance(1, 2); o.ticker = t; o.T = Ts[choose(3)]; o.K = S0 * ms[choose(5)];
        Grid g; g.scheme = choose(N_SCHEME); g.tDom = o.T; g.xDom = S0 * (4 + choose(2)); g.J = 61 + 20 * choose(4);
        const bool quad = chance(1, 2); const int mk = choose(3);
        auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
        const double sig = h.w.stocks.at(t).sig;
        g.N = g.scheme == EXPLICIT ? (unsigned long)(1.1 * sig * sig * g.J * g.J * o.T) + 20 : 60 + 20 * choose(4);
        component(scheme_name(g.scheme)); component("BlackScholesPDE");
        shared_ptr<op::Interpolation> in = quad ? shared_ptr<op::Interpolation>(std::make_shared<op::QuadraticInterpolation>()) : nullptr;
        shared_ptr<op::MatrixSolver> mat = real_matrix(mk);
        auto s = make_fdm(g, std::make_unique<pd::BlackScholesPDE>(opt, h.m), opt, h.m, in, mat);
        h.some(choose(3), ts); settle(h, ts);
        { Op u; u.kind = OP_SIGMA; u.t = t; u.x = sig; if (!same(h.w.stocks.at(t).sig, sig)) h.accept(u); }
        const World at = h.w; const double c = at.stocks.at(t).c.value_or(0.0); (void)c;
        if (chance(1, 4)) alloc_failure([&] { s->calculatePrice(); });
        if (chance(1, 2)) s->solve(); else s->calculatePrice();
        double worst = 0;
        const double far = 0.97 * g.xDom / S0, ps[] = {1, 0.8, 0.93, 1.13, 1.3, 0.7, 0.02, 0.3, 2, far};
        for (double q : ps) {
            Op u; u.kind = OP_PRICE; u.t = t; u.x = S0 * q; h.accept(u);
            Vals v = at.stocks.at(t); v.S = S0 * q;
            const double got = s->calculatePrice(), want = black_scholes(o, v, at.r); step(g.N);
            worst = std::max(worst, std::fabs(got - want) / S0);
            const double dx = g.xDom / (g.J - 1) / S0, tol = 0.25 * dx * dx / (sig * std::sqrt(o.T)) + 0.35 * o.T / g.N * (g.scheme == EXPLICIT ? 0.3 : 1) + 2e-4;
            if (!(std::fabs(got - want) <= tol * S0 * std::max(q, 1.0)))
                violate("not-converging", "%s, %s scheme with %lu points up to %g and %lu times, market %s r=%g: price %.10g, closed form %.10g", sim::str(o).c_str(), scheme_name(g.scheme), g.J, g.xDom, g.N, sim::str(v).c_str(), at.r, got, want);
            log("S=%g price %.10g closed form %.10g", v.S, got, want);
            if (std::fabs(got - want) / S0 / std::max(q, 1.0) / tol > 0.5) probe("near-tolerance");
        }
        nontrivial();
    }

    // The approximated inverse of the normal distribution function, between other draws.
    void c23_quantile() {
        op::StandardNormalDistribution d, other; std::mt19937 e(1 + choose(1000)); const boost::math::normal nd;
        component("StandardNormalDistribution"); double lastq = -1, lastz = 0;
        auto quantile = [&] {
            static const double tails[] = {0.5, 0.08, 0.92, 1e-3, 1e-6, 1e-9, 1e-12, 0.42, 0.0799999999, 0.0800000001};
            switch (choose(5)) {
                case 0: return tails[choose(10)];
                case 1: return std::ldexp(1.0, -1 - (int)choose(40));
                case 2: return 1 - std::ldexp(1.0, -1 - (int)choose(30));
                case 3: return (1 + choose(1000)) / 1002.0;
                default: return (1 + choose(1u << 30)) / (double)(1u << 30) * 0.999999;
            }
        };
        const int n = 5 + choose(40);
        for (int i = 0; i < n; ++i) {
            if (chance(1, 4)) { d(e); step(); }
            if (chance(1, 6)) {
                static const double bad[] = {0.0, 1.0, -0.1, 1.5, INFINITY, -INFINITY, -1e-300};
                const double q = bad[choose(7)]; bool ok = false;
                try { const double z = d.inv_cdf(q); note("%g", z); } catch (const std::exception&) { ok = true; }
                if (!ok) violate("no-such-quantile", "the quantile of %g was answered", q);
                fault("refused-quantile"); continue;
            }
            const double q = quantile(), z = d.inv_cdf(q), want = boost::math::quantile(nd, q);
            if (!(std::fabs(z - want) <= 1e-8)) violate("inaccurate-quantile", "the normal quantile of %.17g is %.15g instead of %.15g", q, z, want);
            if (lastq > 0 && std::fabs(q - lastq) > 1e-7 && (q < lastq) != (z < lastz)) violate("not-monotone", "quantiles %.17g and %.17g are out of order", lastq, q);
            lastq = q; lastz = z; log("quantile(%.17g) = %.15g", q, z); step();
        }
        nontrivial();
    }
}
