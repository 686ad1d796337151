// C20: payoffs, their clones and comparisons; C21: numerical kernels, under histories of use and failing allocations.
#include "pricing.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
#include <sstream>

namespace sim {
    using op::PayoffType;
    enum PayKind { P_VANILLA, P_DIGITAL, P_DOUBLE, P_FLOAT, N_PAY };
    struct PaySpec { int kind = P_VANILLA; bool call = true; double K = 100, K2 = 120; };
    static string str(const PaySpec& s) {
        static const char* n[] = {"vanilla", "digital", "double-digital", "floating-lookback"};
        char b[120]; snprintf(b, sizeof b, "%s %s K=%.17g K2=%.17g", n[s.kind], s.call ? "call" : "put", s.K, s.K2); return b;
    }
    static bool equal(const PaySpec& a, const PaySpec& b) {
        if (a.kind != b.kind) return false;
        if (a.kind == P_DOUBLE) return a.K == b.K && a.K2 == b.K2;
        if (a.kind == P_FLOAT) return a.call == b.call;
        return a.call == b.call && a.K == b.K;
    }
    static unique_ptr<op::Payoff> make_payoff(const PaySpec& s) {
        const PayoffType t = s.call ? PayoffType::Call : PayoffType::Put;
        switch (s.kind) {
            case P_VANILLA: return std::make_unique<op::PayoffVanilla>(t, s.K);
            case P_DIGITAL: return std::make_unique<op::PayoffDigital>(t, s.K);
            case P_DOUBLE: return std::make_unique<op::PayoffDoubleDigital>(s.K, s.K2);
            default: return std::make_unique<op::PayoffLookbackFloatingStrike>(t);
        }
    }
    static double gen_strike() {
        static const double v[] = {100, 90, 0, 100.00000000000001, 1e-3, 1e9, 99.5, 1e300, 5e-324, 120};
        const uint32_t k = choose(14); return k < 10 ? v[k] : choose(4000) / 16.0;
    }
    static double near_point(double K) {
        switch (choose(9)) {
            case 0: return K; case 1: return std::nextafter(K, INFINITY); case 2: return K > 0 ? std::nextafter(K, 0) : 0; case 3: return 0; case 4: return 1e300; case 5: return K * 2; case 6: return K / 3;
            case 7: return K + 1e-7; default: return choose(4000) / 16.0;
        }
    }
    static double pays(const PaySpec& s, double S, double x) {
        switch (s.kind) {
            case P_VANILLA: return s.call ? (S > s.K ? S - s.K : 0.0) : (s.K > S ? s.K - S : 0.0);
            case P_DIGITAL: return (s.call ? S > s.K : S < s.K) ? 1.0 : 0.0;
            case P_DOUBLE: return S < s.K || S > s.K2 ? 0.0 : 1.0;
            default: return s.call ? (S > x ? S - x : 0.0) : (x > S ? x - S : 0.0);
        }
    }
    void c20() {
        component("Payoff");
        Hist h(1);
        struct P { PaySpec s; unique_ptr<op::Payoff> own; shared_ptr<Option> opt; const op::Payoff* p; };
        vector<P> ps;
        auto judge = [&](const P& x, const char* how) {
            const double K = (x.s.kind == P_DOUBLE && chance(1, 2) ? x.s.K2 : x.s.kind == P_FLOAT ? 100.0 : x.s.K), S = near_point(K), e = near_point(S);
            double got, got2 = 0;
            if (x.s.kind == P_FLOAT) { got = (*x.p)(S, e); bool ok = false; try { got2 = (*x.p)(S); } catch (const std::exception&) { ok = true; } if (!ok) violate("value-without-extreme", "%s answered %g without an extreme price", str(x.s).c_str(), got2); }
            else got = (*x.p)(S);
            if (!same(got, pays(x.s, S, e))) violate("wrong-value", "%s (%s) at %.17g (extreme %.17g) pays %.17g instead of %.17g", str(x.s).c_str(), how, S, e, got, pays(x.s, S, e));
            if (x.s.kind != P_DOUBLE && x.p->getPayoffType() != (x.s.call ? PayoffType::Call : PayoffType::Put)) violate("wrong-type", "%s (%s) says it is of another type", str(x.s).c_str(), how);
            if (x.s.kind == P_DOUBLE && x.p->getPayoffType() != PayoffType::DoubleDigital) violate("wrong-type", "%s (%s) says it is of another type", str(x.s).c_str(), how);
            log("%s at %.17g: %.17g", str(x.s).c_str(), S, got); step();
        };
        auto gen = [&] { PaySpec s; s.kind = choose(N_PAY); s.call = !chance(1, 2); s.K = gen_strike(); s.K2 = std::max(s.K, gen_strike()); if (!ps.empty() && chance(1, 3)) { s = ps[choose(ps.size())].s; if (chance(1, 2)) s.kind = choose(N_PAY); if (chance(1, 4)) s.call = !s.call; if (chance(1, 4)) { s.K = nudge(s.K); if (!(s.K >= 0 && s.K < 1e301)) s.K = 7; s.K2 = std::max(s.K, s.K2); } } return s; };
        auto add = [&] {
            P x; x.s = gen();
            if (chance(1, 3) && (x.s.kind == P_VANILLA || x.s.kind == P_DIGITAL || x.s.kind == P_DOUBLE) && x.s.K < 1e9 && x.s.K2 < 1e9) {   // through an option, which the payoff belongs to
                OptSpec o; o.kind = x.s.kind == P_VANILLA ? EUROPEAN : x.s.kind == P_DIGITAL ? DIGITAL : DOUBLE_DIGITAL; o.call = x.s.call; o.K = x.s.K; o.K2 = x.s.K2;
                if (o.kind == DOUBLE_DIGITAL && !(o.K < o.K2)) return;
                try { x.opt = make_option(o); } catch (const std::exception&) { return; }
                x.p = &x.opt->getPayoff();
            } else { x.own = make_payoff(x.s); x.p = x.own.get(); }
            ps.push_back(std::move(x));
        };
        add(); add();
        const int n = 4 + choose(16);
        for (int i = 0; i < n && !ps.empty(); ++i) {
            switch (choose(8)) {
                case 0: if (ps.size() < 12) add(); break;
                case 1: case 2: {                                           // a clone, perhaps of a clone; the original may go
                    const size_t k = choose(ps.size()); P c; c.s = ps[k].s;
                    const bool fail = chance(1, 4); const long before = live_blocks();
                    if (fail) alloc_arm(1);
                    bool threw = false;
                    try { auto q = ps[k].p->clone(); c.own = std::move(q); } catch (const std::bad_alloc&) { threw = true; }
                    const long failed = fail ? alloc_disarm() : 0;
                    if (failed) { fault("allocation"); if (!threw) probe("clone-without-allocation"); else if (live_blocks() > before) violate("leak", "a clone that failed left %ld blocks behind", live_blocks() - before); }
                    if (!c.own) { judge(ps[k], "after a failed clone"); break; }
                    c.p = c.own.get();
                    if (c.p == ps[k].p) violate("not-a-clone", "the clone of %s is the same object", str(c.s).c_str());
                    if (!(*c.p == *ps[k].p) || !(*ps[k].p == *c.p) || *c.p != *ps[k].p) violate("clone-differs", "the clone of %s does not compare equal to it", str(c.s).c_str());
                    std::ostringstream a, b; a << *c.p; b << *ps[k].p;
                    if (a.str() != b.str() || c.p->getType() != ps[k].p->getType()) violate("clone-differs", "the clone of %s prints differently", str(c.s).c_str());
                    const bool kill = chance(1, 2); log("clone of %s%s", str(c.s).c_str(), kill ? ", original destroyed" : "");
                    ps.push_back(std::move(c));
                    if (kill) { ps.erase(ps.begin() + k); probe("clone-outlives-original"); }
                    judge(ps.back(), "clone"); nontrivial(); break;
                }
                case 3: if (ps.size() > 2) { const size_t k = choose(ps.size()); log("destroy %s", str(ps[k].s).c_str()); ps.erase(ps.begin() + k); } break;
                case 4: {                                                   // comparisons
                    const P &a = ps[choose(ps.size())], &b = ps[choose(ps.size())]; const bool want = equal(a.s, b.s);
                    if ((*a.p == *b.p) != want || (*b.p == *a.p) != want || (*a.p != *b.p) == want || (*b.p != *a.p) == want)
                        violate("wrong-comparison", "%s and %s compare %s", str(a.s).c_str(), str(b.s).c_str(), want ? "unequal" : "equal");
                    probe(want ? "equal" : "unequal"); log("compare %s, %s", str(a.s).c_str(), str(b.s).c_str()); nontrivial(); break;
                }
                case 5: {                                                   // what does not exist is refused
                    PaySpec s = gen(); bool ok = false; static const double bad[] = {-1, -1e-300, -INFINITY, NAN};
                    try {
                        if (s.kind == P_FLOAT || chance(1, 3)) {
                            if (s.kind == P_FLOAT) op::PayoffLookbackFloatingStrike x(PayoffType::DoubleDigital);
                            else if (s.kind == P_DIGITAL) op::PayoffDigital x(PayoffType::DoubleDigital, 100); else op::PayoffVanilla x(PayoffType::DoubleDigital, 100);
                        } else { if (s.kind == P_DOUBLE && chance(1, 2)) s.K2 = bad[choose(4)]; else s.K = bad[choose(4)]; make_payoff(s); }
                    } catch (const std::invalid_argument&) { ok = true; }
                    if (!ok) violate("refusal", "an impossible payoff like %s was made", str(s).c_str());
                    fault("refused-payoff"); break;
                }
                default: judge(ps[choose(ps.size())], "as made");
            }
        }
        for (auto& x : ps) judge(x, "in the end");
    }

    // ---- C21
    static double gen_value() { static const double v[] = {0, 1, -1, 100, 1e-6, 1e6, -37.5}; const uint32_t k = choose(12); return k < 7 ? v[k] : ((int)choose(4001) - 2000) / 8.0; }
    struct Fill { uint64_t s; explicit Fill(uint64_t x) : s(x * 2 + 1) {} double operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)((s >> 33) % 20001) / 10000.0 - 1; } };
    template <class F> static auto with_failure(F f) -> decltype(f()) {
        if (chance(1, 5)) {
            alloc_arm(1 + choose(3));
            try { auto x = f(); alloc_disarm(); return x; } catch (const std::bad_alloc&) {}
            if (alloc_disarm() > 0) fault("allocation");
        }
        return f();
    }
    typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
    static Mat ref_basis(int kind, unsigned n, const Vec& x) {
        Mat m(x.size(), n);
        for (long i = 0; i < x.size(); ++i) {
            const long double y = x(i); long double a = 1, b = kind == 1 ? 1 - y : y;
            for (unsigned k = 0; k < n; ++k) {
                m(i, k) = (double)a; const long double j = k + 1;
                const long double c = kind == 1 ? ((2 * j + 1 - y) * b - j * a) / (j + 1) : kind == 2 ? ((2 * j + 1) * y * b - j * a) / (j + 1) : kind == 3 ? 2 * y * b - a : b * y;
                a = b; b = c;
            }
        }
        return m;
    }
    void c21() {
        op::LinearInterpolation lin; op::QuadraticInterpolation quad;
        shared_ptr<op::MatrixSolver> ms[3]; for (int i = 0; i < 3; ++i) ms[i] = real_matrix(i);
        struct R { int kind; double lambda; shared_ptr<op::Regression> r; }; vector<R> rs;
        struct B { int kind; unsigned n; shared_ptr<op::BasisFunction> b; }; vector<B> bs;
        auto add_regression = [&] { static const double la[] = {0.5, 0, 1e-3, 10}; R r; r.kind = choose(3); r.lambda = la[choose(4)];
            r.r = r.kind == 1 ? shared_ptr<op::Regression>(std::make_shared<op::RidgeRegression>(r.lambda)) : r.kind == 2 ? shared_ptr<op::Regression>(std::make_shared<op::LassoRegression>(r.lambda)) : std::make_shared<op::LeastSquaresRegression>(); rs.push_back(r); };
        auto add_basis = [&] { B b; b.kind = choose(4); b.n = 1 + choose(8); b.b = real_basis(b.kind, b.n); bs.push_back(b); };
        add_regression(); add_basis();
        vector<double> gx, gy; double lastx = 50; int shape = 0; double q0 = 0, q1 = 0, q2 = 0;
        auto grid = [&] {
            static const unsigned sz[] = {5, 2, 3, 4, 9, 17, 60, 200}; const int keep = gx.empty() ? 0 : choose(5);             // also: as before except for the values, one value, or the abscissae
            const unsigned n = keep > 1 ? gx.size() : sz[choose(8)]; const bool uniform = chance(1, 2); Fill f(choose(100000));
            if (keep == 2) { gy[choose(n)] += 1 + choose(50); shape = 0; log("one value changed"); return; }
            if (keep == 3) { shape = 0; for (double& y : gy) y = 100 * f(); log("values changed"); return; }
            gx.assign(n, 0); gy.assign(n, 0); double x = chance(1, 2) ? 0 : gen_value(); shape = choose(3); q0 = gen_value(); q1 = f(); q2 = f() / 8;
            const double dx = 0.125 * (1 + choose(40));
            for (unsigned i = 0; i < n; ++i) { gx[i] = x; x += uniform ? dx : dx * (1.2 + f()); const double c = gx[i] - gx[0]; gy[i] = shape == 0 ? 100 * f() : q0 + q1 * c + (shape == 2 ? q2 * c * c : 0); }
            log("grid of %u points, shape %d, x from %.10g to %.10g", n, shape, gx[0], gx[n - 1]);
        };
        auto large = [&] {                                                    // more points than fit into 16 bits; tridiagonal systems as well
            const unsigned n = 65537 + choose(4000); Fill f(choose(100000)); const unsigned at[] = {(unsigned)choose(n - 2), 65535, n - 2, 1 + (unsigned)choose(300), 32767};
            probe("large");
            if (chance(1, 2)) {
                vector<double> x(n), y(n); const double x0 = gen_value(), dx = 0.125 * (1 + choose(40)), c1 = f(); for (unsigned i = 0; i < n; ++i) { x[i] = x0 + dx * i; y[i] = x0 + c1 * (dx * i); }
                for (unsigned j : at) for (const op::Interpolation* in : {(const op::Interpolation*)&lin, (const op::Interpolation*)&quad}) {
                    const double u = dx * (j + (1 + choose(31)) / 32.0), want = x0 + c1 * u, got = in->interpolate(x, y, x0 + u);
                    if (!(std::fabs(got - want) <= 1e-7 * (std::fabs(x0) + std::fabs(c1) * dx * n))) violate("interpolation", "%s interpolation on %u points of a straight line gives %.15g at %.17g instead of %.15g", in == &lin ? "linear" : "quadratic", n, got, x0 + u, want);
                }
            } else {
                vector<Eigen::Triplet<double>> tr; tr.reserve(3 * n); for (unsigned i = 0; i < n; ++i) { if (i) tr.emplace_back(i, i - 1, f()); tr.emplace_back(i, i, 4 + f()); if (i + 1 < n) tr.emplace_back(i, i + 1, f()); }
                Eigen::SparseMatrix<double> T(n, n); T.setFromTriplets(tr.begin(), tr.end()); Vec b(n); for (unsigned i = 0; i < n; ++i) b(i) = 100 * f();
                const int k = chance(1, 2) ? 0 : 2; const Vec x = ms[k]->solve(T, b); static const char* nm[] = {"LU", "partial-pivoting LU", "Thomas"};
                if ((unsigned)x.size() != n || !((T * x - b).norm() <= 1e-9 * b.norm())) violate("linear-system", "%s leaves a residual of %g for a well conditioned tridiagonal system of %u equations", nm[k], (unsigned)x.size() == n ? (T * x - b).norm() : NAN, n);
            }
            log("large: %u", n); nontrivial();
        };
        grid();
        auto interpolate = [&] {
            const bool isq = chance(1, 2); const op::Interpolation& in = isq ? (const op::Interpolation&)quad : lin; component(isq ? "QuadraticInterpolation" : "LinearInterpolation");
            const size_t n = gx.size(), k = choose(n); double scale = 1; for (double y : gy) scale = std::max(scale, std::fabs(y));
            const vector<double> kx = gx, ky = gy; double x, want;
            const int at = choose(5); vector<double> other;
            switch (at) {
                case 0: x = gx[k]; want = gy[k]; probe("node"); break;
                case 1: if (chance(1, 2)) { x = gx[0] - 1 - choose(100); want = gy[0]; } else { x = gx[n - 1] + 1 + choose(100); want = gy[n - 1]; } probe("outside"); break;
                case 2: x = k == 0 ? gx[0] : chance(1, 2) ? std::nextafter(gx[k], gx[k - 1]) : k + 1 < n ? std::nextafter(gx[k], gx[k + 1]) : gx[k]; want = gy[k]; probe("next-to-node"); break;
                default: {
                    size_t j = std::min(k, n - 2); const double a0 = (1 + choose(63)) / 64.0; x = gx[j] + a0 * (gx[j + 1] - gx[j]);
                    if (at == 4) {
                        x = lastx; probe("same-abscissa"); j = 0;
                        if (x <= gx[0]) { want = gy[0]; break; } if (x >= gx[n - 1]) { want = gy[n - 1]; break; }
                        while (x > gx[j + 1]) ++j;
                    }
                    const double a = (x - gx[j]) / (gx[j + 1] - gx[j]), d = x - gx[0]; const bool inner = isq && n >= 4 && j >= 1 && j + 2 < n;
                    if (shape == 1) want = q0 + q1 * d;
                    else if (inner && shape == 2) { want = q0 + q1 * d + q2 * d * d; probe("parabola"); }
                    else {
                        want = gy[j] + a * (gy[j + 1] - gy[j]);             // quadratic: a parabola through the two neighbours and the next one on either side
                        if (isq) for (size_t t = j >= 1 ? j - 1 : j; t <= j && t + 2 < n; ++t) {
                            const double u = gx[t], v = gx[t + 1], w = gx[t + 2];
                            other.push_back(gy[t] * (x - v) * (x - w) / ((u - v) * (u - w)) + gy[t + 1] * (x - u) * (x - w) / ((v - u) * (v - w)) + gy[t + 2] * (x - u) * (x - v) / ((w - u) * (w - v)));
                        }
                    }
                }
            }
            lastx = x;
            const double got = with_failure([&] { return in.interpolate(gx, gy, x); });
            double slope = 0; for (size_t i = 1; i < n; ++i) slope = std::max(slope, std::fabs(gy[i] - gy[i - 1]) / (gx[i] - gx[i - 1]));
            const double tol = 1e-9 * scale + 1e-11 * slope * (1 + std::fabs(x));
            for (double o : other) if (std::fabs(got - o) <= tol * 10) want = got;
            if (!(std::fabs(got - want) <= tol)) violate("interpolation", "%s interpolation on %zu points gives %.15g at %.17g instead of %.15g", isq ? "quadratic" : "linear", n, got, x, want);
            if (kx != gx || ky != gy) violate("input-changed", "interpolation changed its input");
            if (!same(got, in.interpolate(gx, gy, x))) violate("not-repeatable", "interpolation at %.17g gave two answers", x);
            log("%s at %.10g: %.12g", isq ? "quadratic" : "linear", x, got); nontrivial();
        };
        bool tri = false; Mat A; Eigen::SparseMatrix<double> M; Mat RA; Vec BX;               // the same storage again and again
        auto system = [&] {
            static const unsigned sz[] = {4, 2, 3, 7, 12, 30, 80}; const int keep = M.rows() < 2 ? 0 : choose(5); const unsigned n = keep > 1 ? M.rows() : sz[choose(7)]; int k = choose(3); Fill f(choose(100000));
            if (keep >= 3 && tri) { if (chance(1, 2)) k = 2; } else if (keep >= 3 && k == 2) k = choose(2);
            const bool banded = k == 2 || chance(1, 2), swap = k != 2 && chance(1, 2);
            if (keep < 3) { A = Mat::Zero(n, n); tri = banded && !swap; }
            if (keep < 3) for (unsigned i = 0; i < n; ++i) {
                double s = 0;
                for (unsigned j = 0; j < n; ++j) if (i != j && (banded ? (i > j ? i - j : j - i) == 1 : f() > 0.6)) { A(i, j) = f(); s += std::fabs(A(i, j)); }
                A(i, i) = (s + 0.1 + std::fabs(f())) * (f() > 0 ? 1 : -1);
            }
            if (swap && keep < 3) for (unsigned i = 0; i + 1 < n; i += 2) A.row(i).swap(A.row(i + 1));           // needs pivoting
            if (keep < 3) A *= std::ldexp(1.0, (int)choose(21) - 10);
            if (keep == 3) { for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) A(i, j) *= i % 2 ? 3 : 0.5; probe("same-pattern"); }     // rows scaled: conditioning stays
            if (keep == 4) probe("same-matrix");
            vector<Eigen::Triplet<double>> tr; for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < n; ++i) if (A(i, j) != 0) tr.emplace_back(i, j, A(i, j));
            if (keep < 3) M.resize(n, n); M.setFromTriplets(tr.begin(), tr.end());
            Vec b(n); for (unsigned i = 0; i < n; ++i) b(i) = 100 * f(); if (chance(1, 8)) b.setZero(); if (chance(1, 4)) { static const double sc[] = {1e-13, 1e12, 1e-30, 1e-6}; b *= sc[choose(4)]; }
            static const char* nm[] = {"LU", "partial-pivoting LU", "Thomas"}; component(nm[k]);
            const Vec b0 = b; Vec x = with_failure([&] { return ms[k]->solve(M, b); });
            if ((unsigned)x.size() != n || !((A * x - b).norm() <= 1e-9 * (A.norm() * x.norm() + b.norm()) + 1e-300)) violate("linear-system", "%s leaves a residual of %g for a well conditioned system of %u equations", nm[k], (unsigned)x.size() == n ? (A * x - b).norm() : -1.0, n);
            if (b != b0 || (Mat(M) - A).norm() != 0) violate("input-changed", "%s changed its input", nm[k]);
            log("%s, %u equations: x0=%.10g", nm[k], n, x(0)); nontrivial();
        };
        auto regress = [&] {
            if (chance(1, 5) && rs.size() < 4) add_regression();
            const R& r = rs[choose(rs.size())]; Fill f(choose(100000));
            static const unsigned rows[] = {8, 3, 20, 60, 5, 2}; const int keep = RA.rows() ? choose(4) : 0; const unsigned m = keep > 1 ? RA.rows() : rows[choose(6)], n = keep > 1 ? RA.cols() : 1 + choose(4); const int form = choose(3);
            Mat& A = RA; if (keep < 2) A.resize(m, n); if (keep < 3) for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) A(i, j) = form == 1 ? std::pow(1 + 0.5 * f(), (double)j) : f();
            const bool ortho = form == 2 && m >= n; if (ortho && keep < 3) A = Mat(A.householderQr().householderQ()).leftCols(n);
            if (m < n && (r.kind == 2 || (r.kind == 1 && r.lambda == 0))) return;
            Vec y(m); for (unsigned i = 0; i < m; ++i) y(i) = 20 * f();
            const Mat A0 = A; const Vec y0 = y;
            static const char* nm[] = {"least squares", "ridge", "lasso"}; component(nm[r.kind]);
            const Vec c = with_failure([&] { return r.r->solve(A, y); });
            if (c.size() != n) violate("regression", "%s returned %ld coefficients for %u columns", nm[r.kind], (long)c.size(), n);
            if (A != A0 || y != y0) violate("input-changed", "%s changed its input", nm[r.kind]);
            const Vec ls = A.completeOrthogonalDecomposition().solve(y); const double sv = Eigen::JacobiSVD<Mat>(A).singularValues().minCoeff();
            log("%s(%g) on %u x %u: %.10g", nm[r.kind], r.lambda, m, n, c(0));
            if (sv < 1e-3) return;                                         // ill conditioned
            const double tol = 1e-8 * (1 + ls.norm() + y.norm()) / (sv * sv);
            auto soft = [&](double v) { return v > r.lambda ? v - r.lambda : v < -r.lambda ? v + r.lambda : 0.0; };
            for (unsigned j = 0; j < n; ++j) {
                const double g = (A.transpose() * (A * c - y))(j) + (r.kind == 1 ? r.lambda * c(j) : 0);
                if (r.kind < 2 && !(std::fabs(g) <= tol)) violate("regression", "%s(%g): the gradient of what it minimises is %g in coordinate %u (%u rows, %u columns)", nm[r.kind], r.lambda, g, j, m, n);
                if (r.kind == 2 && !(std::fabs(c(j) - soft(ls(j))) <= tol)) violate("regression", "lasso(%g): coefficient %u is %.12g, the least-squares one is %.12g", r.lambda, j, c(j), ls(j));
            }
            if (r.kind == 0 && m < n && !(c.norm() <= ls.norm() * (1 + 1e-6) + tol)) probe("not-minimal-norm");
            nontrivial();
        };
        auto basis = [&] {
            if (chance(1, 5) && bs.size() < 4) add_basis();
            const B& b = bs[choose(bs.size())]; Fill f(choose(100000)); static const unsigned sz[] = {5, 1, 2, 30, 100}; static const double sc[] = {1, 2, 100, 0.01};
            Vec& x = BX; const int keep = x.size() ? choose(4) : 0; if (keep < 2) x.resize(sz[choose(5)]); const double s = sc[choose(4)]; if (keep == 3) x(choose(x.size())) = s * f(); else for (long i = 0; i < x.size(); ++i) x(i) = s * f(); if (chance(1, 3)) x(0) = choose(3) - 1.0;
            static const char* nm[] = {"monomial", "laguerre", "legendre", "chebyshev"}; component(nm[b.kind]);
            const Vec x0 = x; const Mat got = with_failure([&] { return b.b->generate(x); }), want = ref_basis(b.kind, b.n, x);
            if (got.rows() != x.size() || got.cols() != b.n) violate("basis", "%s basis of %u functions at %ld points has %ld rows and %ld columns", nm[b.kind], b.n, (long)x.size(), (long)got.rows(), (long)got.cols());
            if (x != x0) violate("input-changed", "the %s basis changed its input", nm[b.kind]);
            for (long i = 0; i < got.rows(); ++i) for (long j = 0; j < got.cols(); ++j)
                if (!(std::fabs(got(i, j) - want(i, j)) <= 1e-12 * std::pow(2 * std::fabs(x(i)) + 2, (double)j))) violate("basis", "%s polynomial of degree %ld at %.12g is %.15g instead of %.15g", nm[b.kind], j, x(i), got(i, j), want(i, j));
            log("%s basis %u at %ld points", nm[b.kind], b.n, (long)x.size()); nontrivial();
        };
        const int n = 4 + choose(14);
        if (chance(1, 250)) large();
        for (int i = 0; i < n; ++i) {
            step();
            switch (choose(6)) {
                case 0: interpolate(); break; case 1: system(); break; case 2: regress(); break; case 3: basis(); break;
                case 4: grid(); interpolate(); break;
                default: {                                                  // what cannot be is refused
                    const int k = choose(5); bool ok = false;
                    try {
                        if (k == 0) op::RidgeRegression x(-0.5); else if (k == 1) op::LassoRegression x(-1e-9); else if (k == 2) real_basis(choose(4), 0);
                        else if (k == 4) {                                   // no unique solution: LU decomposition says so
                            const unsigned n = 2 + choose(5), z = choose(n); Fill f(choose(1000)); Eigen::SparseMatrix<double> M(n, n); Vec b(n);
                            for (unsigned i = 0; i < n; ++i) { b(i) = 1 + std::fabs(f()); for (unsigned j = 0; j < n; ++j) if (j != z) M.insert(i, j) = i == j ? 5 + f() : f(); }
                            (void)ms[0]->solve(M, b);
                        }
                        else { Eigen::SparseMatrix<double> M(1, 1); M.insert(0, 0) = 2; Vec b(1); b(0) = 3; const Vec x = ms[2]->solve(M, b); ok = x.size() == 1 && close(x(0), 1.5); }
                    } catch (const std::exception&) { ok = true; }
                    if (!ok) violate("refusal", "an impossible regression, basis or system (%d) was accepted", k);
                    fault("refused-kernel");
                }
            }
        }
    }
}
