// Stub models and strategies, and the reference prices they are judged by.
#pragma once
#include "history.h"
#include <algorithm>

namespace sim {
    inline double ref_payoff(const OptSpec& o, double S) {
        switch (o.kind) {
            case DIGITAL: return o.call ? (S > o.K ? 1.0 : 0.0) : (o.K > S ? 1.0 : 0.0);
            case DOUBLE_DIGITAL: return o.K <= S && S <= o.K2 ? 1.0 : 0.0;
            default: return o.call ? std::max(S - o.K, 0.0) : std::max(o.K - S, 0.0);
        }
    }
    typedef vector<vector<double>> Paths;

    // A model that returns what the simulator wrote down for it, in order.
    class ScriptedModel : public StockModel {
    public:
        ScriptedModel(const string& t, const MarketP& m, unsigned dim) : StockModel(t, m, std::make_shared<StreamGen>(dim, 1)), dim_(dim) {}
        double simulatePriceAtMaturity(const double& T) const override { Harness h; return next(T).back(); }
        vector<double> simulatePrices(const double& T) const override { Harness h; return next(T); }
        double simulatePriceBackward(const double& S, const double& t, const double& t1) const override {
            Harness h; ++backs; step();
            if (hook) { auto hk = hook; hk(calls + backs); }
            return back(S, (long)std::lround(t / (lastT / dim_)));
        }
        // The point one step earlier: a function of the later point and the step, so that order does not matter.
        double back(double S, long j) const {
            uint64_t b; memcpy(&b, &S, 8); b = (b ^ (uint64_t)j * 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull; b ^= b >> 31; b *= 0x94d049bb133111ebull; b ^= b >> 29;
            if (b % 16 == 0) return K;
            return K * 0.5 + 0.25 + (double)(b >> 20 & 0xffff) / 65536.0 * (K + 40);
        }
        mutable Paths script; mutable size_t calls = 0; mutable long backs = 0; mutable double lastT = -1;
        mutable std::function<void(long)> hook;     // before each call; may throw
        double K = 100;
        void load(Paths p) const { script = std::move(p); calls = 0; backs = 0; }
    private:
        vector<double> next(double T) const {
            step(); lastT = T;
            const size_t k = calls++;
            if (hook) { auto hk = hook; hk((long)k + 1); }
            return k < script.size() ? script[k] : script.empty() ? vector<double>(dim_, 100.0) : script.back();
        }
        unsigned dim_;
    };

    // Strategy stubs. All count their calls and can fail.
    struct Counter1 { mutable long calls = 0; mutable std::function<void(long)> hook; void hit() const { Harness h; ++calls; step(); if (hook) { auto hk = hook; hk(calls); } } };
    class StubBasis : public op::BasisFunction, public Counter1 {
    public:
        shared_ptr<op::BasisFunction> real;
        explicit StubBasis(shared_ptr<op::BasisFunction> r = nullptr) : BasisFunction(2), real(std::move(r)) {}
        Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override { hit(); return pure(x); }
        Eigen::MatrixXd pure(const Eigen::VectorXd& x) const {
            if (real) return real->generate(x);
            Eigen::MatrixXd m(x.size(), 2); for (long i = 0; i < x.size(); ++i) { m(i, 0) = 1; m(i, 1) = x(i); }
            return m;
        }
    };
    class StubRegression : public op::Regression, public Counter1 {
    public:
        shared_ptr<op::Regression> real;
        int mode = 0; double q = 1, K = 100; bool call = true;
        explicit StubRegression(shared_ptr<op::Regression> r = nullptr) : real(std::move(r)) {}
        Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { hit(); return pure(A, y); }
        Eigen::VectorXd pure(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const {
            if (real) return real->solve(A, y);
            Eigen::VectorXd c(2); c.setZero();
            switch (mode) {
                case 1: c(0) = call ? -K : K; c(1) = call ? 1 : -1; break;                                   // continuation == payoff, exactly
                case 2: c(0) = (call ? -K : K) * 0.5 + q * y.mean(); c(1) = call ? 0.5 : -0.5; break;
                default: c(0) = q * y.mean();
            }
            return c;
        }
    };
    class StubScheme : public op::CIRDiscretization, public Counter1 {
    public:
        shared_ptr<op::CIRDiscretization> real; double v = 0.09;
        explicit StubScheme(shared_ptr<op::CIRDiscretization> r = nullptr) : real(std::move(r)) {}
        void update(double& V, const double& dt, const double& k, const double& th, const double& sv, const double& z) const override {
            hit(); if (real) real->update(V, dt, k, th, sv, z); else V = v;
        }
    };
    class StubInterpolation : public op::Interpolation, public Counter1 {
    public:
        op::LinearInterpolation real; bool magic = false; double value = 0;
        mutable vector<double> xs, ys; mutable double at = 0;
        double interpolate(const vector<double>& x, const vector<double>& y, const double& xi) const override {
            hit(); { Harness h; xs = x; ys = y; at = xi; }
            return magic ? value : real.interpolate(x, y, xi);
        }
    };
    class StubMatrix : public op::MatrixSolver, public Counter1 {
    public:
        shared_ptr<op::MatrixSolver> real; bool magic = false; double value = 0;
        explicit StubMatrix(shared_ptr<op::MatrixSolver> r) : real(std::move(r)) {}
        Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override {
            hit();
            if (magic) { Eigen::VectorXd v(b.size()); v.setConstant(value); return v; }
            return real->solve(A, b);
        }
    };
    // A PDE with smooth coefficients of time and place; every evaluation can fail.
    struct PdeSpec { double sc = 1, d[4] = {1, 0, 0, 0}, c[3] = {0, 0, 0}, k = 0, k1 = 0, f[3] = {0, 0, 0}, bl[2] = {0, 0}, br[2] = {0, 0}, i[3] = {0, 1, 0}; };
    class StubPDE : public pd::ConvectionDiffusionPDE, public Counter1 {
    public:
        PdeSpec s; double X = 1, T = 1;
        StubPDE(const PdeSpec& s_, double X_, double T_) : s(s_), X(X_), T(T_) {}
        double diffusion(const double& t, const double& x) const override { hit(); return D(t, x); }
        double convection(const double& t, const double& x) const override { hit(); return C(t, x); }
        double reaction(const double& t, const double& x) const override { hit(); return R(t, x); }
        double rightHandSide(const double& t, const double& x) const override { hit(); return F(t, x); }
        double boundaryLeft(const double& t, const double& x) const override { hit(); return BL(t, x); }
        double boundaryRight(const double& t, const double& x) const override { hit(); return BR(t, x); }
        double initialCondition(const double& x) const override { hit(); return I(x); }
        double D(double t, double x) const { const double u = x / X; return (s.d[0] + s.d[1] * u + s.d[2] * u * u) * (1 + s.d[3] * t / T) * X * X; }
        double C(double t, double x) const { const double u = x / X; return (s.c[0] + s.c[1] * u) * (1 + s.c[2] * t / T) * X; }
        double R(double t, double x) const { return s.k + s.k1 * (t / T - x / X); }
        double F(double t, double x) const { return s.sc * (s.f[0] + s.f[1] * t / T + s.f[2] * x / X); }
        double BL(double t, double x) const { return s.sc * (s.bl[0] + s.bl[1] * t / T + x / X); }
        double BR(double t, double x) const { return s.sc * (s.br[0] + s.br[1] * t / T + x / X); }
        double I(double x) const { const double u = x / X; return s.sc * (s.i[0] + s.i[1] * u + s.i[2] * (u - 0.3) * (u - 0.7) * 10); }
    };
    inline PdeSpec gen_pde(const Grid& g) {
        // Diffusion of the order of dx^2/dt, so that every term matters and the scheme stays tame.
        PdeSpec s; const double l = 1.0 / ((g.J - 1) * (g.J - 1)) * (g.N - 1) / g.tDom;
        static const double ls[] = {0.25, 0.1, 0.4, 1.0}; const double a = (g.scheme == EXPLICIT && g.N > 100 ? 0.1 : ls[choose(4)]) * l;
        s.d[0] = a * (1 + choose(3)) / 3; s.d[1] = a * choose(3) / 4; s.d[2] = a * choose(3) / 4; s.d[3] = choose(3) / 2.0;
        const double lc = 1.0 / (g.J - 1) * (g.N - 1) / g.tDom;
        s.c[0] = lc * ((int)choose(5) - 2) / 20.0; s.c[1] = lc * ((int)choose(5) - 2) / 20.0; s.c[2] = choose(3) / 2.0;
        s.k = -(double)choose(4) / 4; s.k1 = choose(3) / 4.0;
        for (double& x : s.f) x = ((int)choose(5) - 2);
        s.bl[0] = choose(5); s.bl[1] = (int)choose(5) - 2; s.br[0] = choose(5); s.br[1] = (int)choose(5) - 2;
        s.i[0] = choose(4); s.i[1] = choose(4); s.i[2] = (int)choose(5) - 2;
        if (chance(1, 8)) { static const int e[] = {-20, 20, -34}; s.sc = std::ldexp(1.0, e[choose(3)]); }
        if (g.scheme != EXPLICIT && chance(1, 8)) { for (double* c : {&s.c[0], &s.c[1]}) *c *= 40; }    // convection dominates
        return s;
    }
    // The theta scheme, written down once more. level: the largest value met, for a tolerance.
    inline vector<double> ref_surface(const Grid& g, const StubPDE& p, double& level) {
        const size_t J = g.J; const double dx = g.xDom / (double)(J - 1), dt = g.tDom / (double)(g.N - 1), dx2 = dx * dx;
        vector<double> u(J), x(J), w(J);
        for (size_t j = 0; j < J; ++j) { x[j] = j * dx; u[j] = p.I(x[j]); level = std::max(level, std::fabs(u[j])); }
        auto L = [&](double t, size_t j, double a, double b, double c) { return p.D(t, x[j]) * (a - 2 * b + c) / dx2 + p.C(t, x[j]) * (c - a) / (2 * dx) + p.R(t, x[j]) * b; };
        for (unsigned long n = 0; n + 1 < g.N; ++n) {
            const double t0 = n * dt, t1 = (n + 1) * dt;
            const double th = g.scheme == EXPLICIT ? 0 : g.scheme == IMPLICIT ? 1 : 0.5;
            w[0] = p.BL(t1, x[0]); w[J - 1] = p.BR(t1, x[J - 1]);
            vector<double> lo(J), di(J), up(J), rhs(J);
            for (size_t j = 1; j + 1 < J; ++j) {
                rhs[j] = u[j] + (th < 1 ? dt * (1 - th) * (L(t0, j, u[j - 1], u[j], u[j + 1]) - p.F(t0, x[j])) : 0) - dt * th * p.F(t1, x[j]);
                const double D = p.D(t1, x[j]) / dx2, C = p.C(t1, x[j]) / (2 * dx), R = p.R(t1, x[j]);
                lo[j] = -dt * th * (D - C); di[j] = 1 - dt * th * (-2 * D + R); up[j] = -dt * th * (D + C);
            }
            rhs[1] -= lo[1] * w[0]; rhs[J - 2] -= up[J - 2] * w[J - 1];
            for (size_t j = 2; j + 1 < J; ++j) { const double m = lo[j] / di[j - 1]; di[j] -= m * up[j - 1]; rhs[j] -= m * rhs[j - 1]; }
            for (size_t j = J - 2; j >= 1; --j) { w[j] = (rhs[j] - (j + 2 < J ? up[j] * w[j + 1] : 0)) / di[j]; if (j == 1) break; }
            u = w; for (double y : u) level = std::max(level, std::fabs(y));
        }
        return u;
    }
    inline Grid gen_grid(bool large = false) {
        static const double ts[] = {1, 0.5, 2, 0.7, 0.1}, xs[] = {200, 150, 400, 1};
        Grid g; g.scheme = choose(N_SCHEME); g.J = 3 + choose(10); g.N = 2 + choose(12); if (chance(1, 24)) { g.J = 13 + choose(60); g.N = 14 + choose(60); }
        if (large && chance(1, 30)) { if (chance(1, 2)) { g.J = 130 + choose(40); g.N = 2 + choose(4); } else { g.J = 3 + choose(6); g.N = chance(1, 2) ? 160 + choose(60) : 500 + choose(400); } probe("large-grid"); }
        if (large && chance(1, 1200)) { g.J = 3; g.N = 65537 + choose(200); probe("many-steps"); }
        g.tDom = ts[choose(5)]; g.xDom = xs[choose(4)];
        return g;
    }
    inline shared_ptr<op::Regression> real_regression(int k) {
        if (k == 1) return std::make_shared<op::RidgeRegression>(0.5);
        if (k == 2) return std::make_shared<op::LassoRegression>(0.1);
        return std::make_shared<op::LeastSquaresRegression>();
    }
    inline shared_ptr<op::BasisFunction> real_basis(int k, unsigned n = 2) {
        if (k == 1) return std::make_shared<op::LaguerreBasisFunction>(n);
        if (k == 2) return std::make_shared<op::LegendreBasisFunction>(n);
        if (k == 3) return std::make_shared<op::ChebyshevBasisFunction>(n);
        return std::make_shared<op::MonomialBasisFunction>(n);
    }
    inline shared_ptr<op::MatrixSolver> real_matrix(int k) {
        if (k == 1) return std::make_shared<op::PartialPivotingLUSolver>();
        if (k == 2) return std::make_shared<op::ThomasAlgorithm>();
        return std::make_shared<op::LUDecompositionSolver>();
    }

    // ---- reference prices
    inline double path_payoff(const OptSpec& o, const vector<double>& p) {
        double mn = p[0], mx = p[0], s = 0, ls = 0; bool hit = false;
        for (double x : p) { mn = std::min(mn, x); mx = std::max(mx, x); s += x; ls += std::log(x); hit |= o.up ? x >= o.B : x <= o.B; }
        const double n = (double)p.size();
        switch (o.kind) {
            case ARITH_ASIAN: return ref_payoff(o, s / n);
            case GEOM_ASIAN: return ref_payoff(o, std::exp(ls / n));
            case KNOCK_IN: return hit ? ref_payoff(o, p.back()) : 0.0;
            case KNOCK_OUT: return hit ? 0.0 : ref_payoff(o, p.back());
            case FLOAT_LOOKBACK: return o.call ? p.back() - mn : mx - p.back();
            case FIXED_LOOKBACK: return ref_payoff(o, o.call ? mx : mn);
            default: return ref_payoff(o, p.back());
        }
    }
    // Least-squares Monte Carlo over columns of points (column j = time (j+1) dt). Near ties make the answer ambiguous.
    inline double ref_american(const OptSpec& o, const Paths& cols, double disc, const StubBasis& bs, const StubRegression& rg, bool& ambiguous) {
        const size_t steps = cols.size(), N = cols[0].size();
        vector<double> v(N);
        for (size_t i = 0; i < N; ++i) v[i] = ref_payoff(o, cols[steps - 1][i]);
        for (size_t jj = steps - 1; jj-- > 0;) {
            vector<size_t> itm;
            for (size_t i = 0; i < N; ++i) { v[i] *= disc; if (ref_payoff(o, cols[jj][i]) > 0) itm.push_back(i); }
            if (itm.empty()) { probe("no-path-in-the-money"); continue; }
            Eigen::VectorXd x(itm.size()), y(itm.size());
            for (size_t k = 0; k < itm.size(); ++k) { x(k) = cols[jj][itm[k]]; y(k) = v[itm[k]]; }
            const Eigen::MatrixXd A = bs.pure(x); const Eigen::VectorXd c = rg.pure(A, y);
            for (size_t k = 0; k < itm.size(); ++k) {
                const double ex = ref_payoff(o, x(k)), cont = A.row(k) * c;
                if (!(rg.mode == 1 && !rg.real) && !(std::fabs(ex - cont) > 1e-6 * (1 + std::fabs(ex)))) ambiguous = true;
                if (ex > cont) { v[itm[k]] = ex; probe("early-exercise"); } else probe("continued");
            }
        }
        double s = 0; for (double a : v) s += a;
        return s / N * disc;
    }
    inline double ref_price(const OptSpec& o, const Paths& p, double r, const StubBasis& bs, const StubRegression& rg, bool& ambiguous) {
        if (o.kind == AMERICAN) {
            const size_t steps = p[0].size(); Paths cols(steps, vector<double>(p.size()));
            for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < steps; ++j) cols[j][i] = p[i][j];
            return ref_american(o, cols, std::exp(-r * o.T / (double)steps), bs, rg, ambiguous);
        }
        double s = 0; for (auto& x : p) s += path_payoff(o, x);
        return s / (double)p.size() * std::exp(-r * o.T);
    }
    inline double ref_bridge(const OptSpec& o, const Paths& p, double r, const ScriptedModel& m, const StubBasis& bs, const StubRegression& rg, bool& ambiguous) {
        const size_t steps = p[0].size(); Paths cols(steps, vector<double>(p.size()));
        for (size_t i = 0; i < p.size(); ++i) { cols[steps - 1][i] = p[i].back(); for (size_t j = steps - 1; j-- > 0;) cols[j][i] = m.back(cols[j + 1][i], (long)j + 1); }
        return ref_american(o, cols, std::exp(-r * o.T / (double)steps), bs, rg, ambiguous);
    }
    // Points that touch strikes and barriers, and ordinary ones.
    inline double gen_point(const OptSpec& o) {
        switch (choose(11)) {
            case 9: return std::max(0.5, o.K + (chance(1, 2) ? 1e-4 : 1e-7)); case 10: return std::max(0.5, o.K - (chance(1, 2) ? 1e-4 : 1e-7));
            case 0: return 100; case 1: return o.K > 0 ? o.K : 100; case 2: return o.B; case 3: { static const double e[] = {-0.5, 0.5, -1e-7, 1e-7, -1e-10, 1e-10}; const double d = e[choose(6)]; return o.B + (o.up ? d : -d); }
            case 4: return o.kind == DOUBLE_DIGITAL ? o.K2 : o.K + 1; case 5: return o.K > 10 ? o.K - 5 : 5; case 6: return o.K + 40;
            default: return 1 + choose(2000) / 8.0;
        }
    }
    inline Paths gen_paths(const OptSpec& o, unsigned long N, unsigned steps) {
        Paths p(N, vector<double>(steps));
        if (N > 64 || N * steps > 400) {                                           // long runs: not one decision per point
            uint64_t s = 1 + choose(1000000);
            auto next = [&s](uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 40) % n); };
            const bool calm = steps > 12 && chance(1, 2);       // one excursion beyond the barrier, at most
            for (auto& x : p) {
                for (double& y : x) y = calm ? (o.up ? o.B - 1 - next(240) / 8.0 : o.B + 1 + next(240) / 8.0) : 1 + next(2000) / 8.0;
                if (calm && next(4)) x[next(steps)] = o.up ? o.B + next(100) / 8.0 : o.B - next(100) / 8.0;
            }
        } else for (auto& x : p) for (double& y : x) y = gen_point(o);
        return p;
    }
}
