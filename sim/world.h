// The simulated world around the library: markets, observers, generators, models and strategies that the
// simulator owns, plus makers for every kind of real object. Only the public interface of the library is used.
#pragma once
#include "sim.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "market_data/market_data.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/kou_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/variance_gamma_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/gamma_distrib.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "solver/monte_carlo/mc_single_path.h"
#include "solver/monte_carlo/mc_asian.h"
#include "solver/monte_carlo/mc_barrier.h"
#include "solver/monte_carlo/mc_lookback.h"
#include "solver/monte_carlo/mc_american.h"
#include "solver/monte_carlo/mc_solver.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"

namespace sim {
    namespace op = OptionPricer;
    using std::shared_ptr; using std::unique_ptr; using std::string; using std::vector; using std::optional;
    using op::StockData; using op::MarketData; using op::Option; using op::StockModel; using op::MCPricer;
    typedef shared_ptr<op::IMarketData> MarketP;

    // Exceptions of the simulator: nothing in the library throws them.
    struct SimFault { int code; };

    // Bitwise equality, all NaNs alike.
    inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
    inline bool same(const vector<double>& a, const vector<double>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
        return true;
    }
    inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b)) return a == b;
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    inline string str(const vector<double>& v) {
        string s = "["; char b[40];
        for (size_t i = 0; i < v.size() && i < 8; ++i) { snprintf(b, sizeof b, "%s%.17g", i ? " " : "", v[i]); s += b; }
        return s + (v.size() > 8 ? " ...]" : "]");
    }

    struct Vals {
        double S = 100, sig = 0.2; optional<double> c;
        bool operator==(const Vals& o) const { return same(S, o.S) && same(sig, o.sig) && c.has_value() == o.c.has_value() && (!c || same(*c, *o.c)); }
    };
    inline string str(const Vals& v) {
        char b[120];
        if (v.c) snprintf(b, sizeof b, "(S=%.10g sigma=%.10g c=%.10g)", v.S, v.sig, *v.c);
        else snprintf(b, sizeof b, "(S=%.10g sigma=%.10g)", v.S, v.sig);
        return b;
    }
    inline Vals read(const StockData& d) { return {d.getPrice(), d.getSigma(), d.getCoupon()}; }
    struct World { std::map<string, Vals> stocks; double r = 0.05; };   // reference model of the market

    // A market that only ever had the values it has now. Handles are live, as those of the real market.
    class FlatMarket : public op::IMarketData {
    public:
        FlatMarket(const World& w) : r_(w.r) { for (auto& [k, v] : w.stocks) set(k, v); }
        void set(const string& k, const Vals& v) {
            auto& p = m_[k];
            if (p) *p = StockData(v.S, v.sig, v.c); else p = std::make_shared<StockData>(v.S, v.sig, v.c);
        }
        void addObserver(const shared_ptr<op::MarketDataObserver>&) override {}
        void removeObserver() override {}
        shared_ptr<const StockData> getStockData(const string& t) const override {
            auto it = m_.find(t); if (it == m_.end()) throw std::invalid_argument("flat: " + t);
            return it->second;
        }
        double getR() const override { return r_; }
        void setR(const double& r) override { r_ = r; }
    private:
        std::map<string, shared_ptr<StockData>> m_; double r_;
    };

    // Random source owned by the simulator: a stream fixed by its seed, with a hook before every draw.
    class StreamGen : public op::NumberGenerator {
    public:
        StreamGen(unsigned dim, unsigned seed) : NumberGenerator(dim, seed), s_(seed), e_(seed) {}
        double operator()(op::Distribution& d) const override {
            ++draws; step();
            if (hook) { Harness h; hook(draws); }
            const double v = d(e_);
            if (record) {
                Harness h; rec.push_back(v);
                kinds.push_back(dynamic_cast<op::StandardNormalDistribution*>(&d) ? 'n' : dynamic_cast<op::GammaDistribution*>(&d) ? 'g' : 'o');
            }
            return v;
        }
        void rewind() const { e_.seed(s_); draws = 0; rec.clear(); kinds.clear(); }
        void rewind(unsigned s) { s_ = s; rewind(); }
        std::function<void(long)> hook;
        mutable long draws = 0; bool record = false; mutable vector<double> rec; mutable string kinds;
    private:
        unsigned s_; mutable std::mt19937 e_;
    };

    // ---- option kinds
    enum OptKind { EUROPEAN, DIGITAL, DOUBLE_DIGITAL, AMERICAN, ARITH_ASIAN, GEOM_ASIAN, KNOCK_IN, KNOCK_OUT, FLOAT_LOOKBACK, FIXED_LOOKBACK, N_OPT };
    inline const char* opt_name(int k) {
        static const char* n[] = {"european", "digital", "double-digital", "american", "arithmetic-asian", "geometric-asian",
                                  "knock-in", "knock-out", "floating-lookback", "fixed-lookback"};
        return n[k];
    }
    struct OptSpec { int kind = EUROPEAN; bool call = true; double K = 100, K2 = 120, T = 1, B = 110; bool up = true; string ticker = "AAA"; };
    inline string str(const OptSpec& o) {
        char b[200]; snprintf(b, sizeof b, "%s %s K=%g K2=%g T=%g B=%g %s on %s", opt_name(o.kind), o.call ? "call" : "put", o.K, o.K2, o.T, o.B, o.up ? "up" : "down", o.ticker.c_str());
        return b;
    }
    inline op::ParameterObject params(const OptSpec& o) {
        op::ParameterObject p;
        p.setParameter("ticker", o.ticker); p.setParameter("T", o.T);
        if (o.kind == DOUBLE_DIGITAL) { p.setParameter("K1", o.K); p.setParameter("K2", o.K2); }
        else if (o.kind != FLOAT_LOOKBACK) p.setParameter("K", o.K);
        if (o.kind == KNOCK_IN || o.kind == KNOCK_OUT) {
            p.setParameter("B", o.B); p.setParameter("direction", o.up ? op::BarrierDirection::Up : op::BarrierDirection::Down);
        }
        return p;
    }
    template <class F> shared_ptr<Option> via(const op::ParameterObject& p, bool call) { F f; return call ? shared_ptr<Option>(f.createCallOption(p)) : shared_ptr<Option>(f.createPutOption(p)); }
    inline shared_ptr<Option> make_option(int kind, bool call, const op::ParameterObject& p) {
        switch (kind) {
            case EUROPEAN: return via<op::EuropeanOptionFactory>(p, call);
            case DIGITAL: return via<op::DigitalOptionFactory>(p, call);
            case DOUBLE_DIGITAL: return via<op::DoubleDigitalOptionFactory>(p, call);
            case AMERICAN: return via<op::AmericanOptionFactory>(p, call);
            case ARITH_ASIAN: return via<op::ArithmeticAsianOptionFactory>(p, call);
            case GEOM_ASIAN: return via<op::GeometricAsianOptionFactory>(p, call);
            case KNOCK_IN: return via<op::KnockInBarrierOptionFactory>(p, call);
            case KNOCK_OUT: return via<op::KnockOutBarrierOptionFactory>(p, call);
            case FLOAT_LOOKBACK: return via<op::FloatingStrikeLookbackOptionFactory>(p, call);
            default: return via<op::FixedStrikeLookbackOptionFactory>(p, call);
        }
    }
    inline shared_ptr<Option> make_option(const OptSpec& o) { return make_option(o.kind, o.call, params(o)); }
    inline bool odd() { return wild && chance(1, 2); }
    inline OptSpec gen_option(const string& ticker, int kind = -1) {
        OptSpec o; o.kind = kind >= 0 ? kind : (int)choose(N_OPT); o.call = !chance(1, 2); o.ticker = ticker;
        static const double Ks[] = {100, 90, 110, 50, 150, 0, 100.0001, 99.99999999, 33.3}, Ts[] = {1, 0.5, 2, 0.25};
        o.K = Ks[choose(9)]; o.K2 = o.K + 10 * (1 + choose(4)); o.T = Ts[choose(4)];
        if (odd()) { static const double t[] = {5, 11, 25, 0.01}; o.T = t[choose(4)]; }
        if (chance(1, 16)) o.T = 0;
        o.up = !chance(1, 2); o.B = o.up ? 105 + 10.0 * choose(4) : 95 - 10.0 * choose(4);
        return o;
    }

    // ---- stock models
    enum ModelKind { GBM, HESTON, BATES, MERTON, KOU, VG, N_MODEL };
    inline const char* model_name(int k) { static const char* n[] = {"gbm", "heston", "bates", "merton", "kou", "variance-gamma"}; return n[k]; }
    struct ModelSpec { int kind = GBM; double a = 0; int scheme = 0; double sv = 0.3; };   // sv: volatility of variance, 0.3 meets the Feller condition, 0.8 does not
    inline ModelSpec gen_model(int kind = -1) { ModelSpec m; m.kind = kind >= 0 ? kind : (int)choose(N_MODEL); m.a = choose(5) / 4.0; m.scheme = choose(3); static const double sv[] = {0.3, 0.8, 0.1, 0.4}; m.sv = sv[choose(4)]; return m; }
    inline shared_ptr<op::CIRDiscretization> make_scheme(int s) {
        if (s == 1) return std::make_shared<op::CIRExplicitEulerDiscretization>();
        if (s == 2) return std::make_shared<op::CIRMilsteinDiscretization>();
        return nullptr;
    }
    inline shared_ptr<StockModel> make_model(const ModelSpec& m, const string& t, const MarketP& mk, const shared_ptr<op::NumberGenerator>& g, shared_ptr<op::CIRDiscretization> scheme = nullptr) {
        const double a = m.a; if (!scheme) scheme = make_scheme(m.scheme);
        switch (m.kind) {
            case GBM: return std::make_shared<op::GeometricBrownianMotionModel>(t, mk, g);
            case HESTON: return std::make_shared<op::HestonModel>(t, mk, g, 1.5 + a, 0.04, m.sv, -0.7 + a, 0.04 + 0.02 * a, scheme);
            case BATES: return std::make_shared<op::BatesModel>(t, mk, g, 1.5 + a, 0.04, m.sv, -0.7 + a, 0.04 + 0.02 * a, 1.0 + 4 * a, -0.1, 0.15, scheme);
            case MERTON: return std::make_shared<op::MertonJumpDiffusionModel>(t, mk, g, 1.0 + 4 * a, -0.1, 0.15);
            case KOU: return std::make_shared<op::KouModel>(t, mk, g, 1.0 + 4 * a, 0.4 + 0.2 * a, 10.0 + 4 * a, 5.0 + 2 * a);
            default: return std::make_shared<op::VarianceGammaModel>(t, mk, g, 0.2 + 0.1 * a, -0.1);
        }
    }

    // ---- Monte Carlo pricers
    inline unique_ptr<MCPricer> make_pricer(const OptSpec& o, const shared_ptr<Option>& opt, const MarketP& mk, const shared_ptr<StockModel>& m,
                                            shared_ptr<op::BasisFunction> basis = nullptr, shared_ptr<op::Regression> reg = nullptr) {
        if (!basis) basis = std::make_shared<op::MonomialBasisFunction>(3);
        if (!reg) reg = std::make_shared<op::LeastSquaresRegression>();
        switch (o.kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL:
                return std::make_unique<op::SinglePathMCPricer>(std::dynamic_pointer_cast<op::SinglePathOption>(opt), mk, m);
            case AMERICAN: return std::make_unique<op::AmericanMCPricer>(std::dynamic_pointer_cast<op::AmericanOption>(opt), mk, m, basis, reg);
            case ARITH_ASIAN: return std::make_unique<op::ArithmeticAsianMCPricer>(std::dynamic_pointer_cast<op::ArithmeticAsianOption>(opt), mk, m);
            case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCPricer>(std::dynamic_pointer_cast<op::GeometricAsianOption>(opt), mk, m);
            case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCPricer>(std::dynamic_pointer_cast<op::KnockInBarrierOption>(opt), mk, m);
            case KNOCK_OUT: return std::make_unique<op::KnockOutBarrierMCPricer>(std::dynamic_pointer_cast<op::KnockOutBarrierOption>(opt), mk, m);
            case FLOAT_LOOKBACK: return std::make_unique<op::FloatingStrikeLookbackMCPricer>(std::dynamic_pointer_cast<op::FloatingStrikeLookbackOption>(opt), mk, m);
            default: return std::make_unique<op::FixedStrikeLookbackMCPricer>(std::dynamic_pointer_cast<op::FixedStrikeLookbackOption>(opt), mk, m);
        }
    }

    // ---- finite differences
    namespace fd = OptionPricer::FDM::OneFactor;
    namespace pd = OptionPricer::PDE::OneFactor;
    enum Scheme { EXPLICIT, IMPLICIT, CRANK, N_SCHEME };
    inline const char* scheme_name(int s) { static const char* n[] = {"explicit", "implicit", "crank-nicolson"}; return n[s]; }
    struct Grid { int scheme = 0; double xDom = 200; unsigned long J = 9; double tDom = 1; unsigned long N = 9; };
    inline unique_ptr<fd::FDMSolver> make_fdm(const Grid& g, unique_ptr<pd::ConvectionDiffusionPDE> pde, const shared_ptr<op::EuropeanOption>& o, const MarketP& mk,
                                              shared_ptr<op::Interpolation> in = nullptr, shared_ptr<op::MatrixSolver> ms = nullptr) {
        switch (g.scheme) {
            case EXPLICIT: return std::make_unique<fd::EulerExplicitFDM>(g.xDom, g.J, g.tDom, g.N, std::move(pde), o, mk, in);
            case IMPLICIT: return std::make_unique<fd::EulerImplicitFDM>(g.xDom, g.J, g.tDom, g.N, std::move(pde), o, mk, in, ms);
            default: return std::make_unique<fd::CrankNicolsonFDMSolver>(g.xDom, g.J, g.tDom, g.N, std::move(pde), o, mk, in, ms);
        }
    }

    // ---- generated market values (mostly 4 significant digits, so that prints can show every difference)
    inline double gen_price() {
        if (odd()) { static const double o[] = {123456.789, 3e-10, 1e-7, 7654321.123, 2.5e9, 1e-300, 1e15, 1e300}; return o[choose(wild > 1 ? 8 : 5)]; }
        static const double v[] = {100, 50, 80.5, 120.3, 1, 999.5, 0.05, 1e6, 1e-3}; const uint32_t k = choose(16); return k < 9 ? v[k] : 20 + choose(2000) / 10.0; }
    // A value next to x: changes this small are changes, too.
    inline double nudge(double x) {
        static const double e[] = {1e-4, 1e-12, 1e-8, -1e-4, 1e-6};
        const uint32_t k = choose(7);
        return k < 5 ? x + e[k] * (x > 0 ? x : std::max(std::fabs(x), 1e-3)) : k == 5 ? std::nextafter(x, 1e300) : std::nextafter(x, -1e300);
    }
    inline double gen_sigma() {
        if (odd()) { static const double o[] = {2, 1.6, 1.8, 6, 12.5, 1000, 1e-9, 1e200}; return o[choose(wild > 1 ? 8 : 3)]; }
        static const double v[] = {0.2, 0.0, 0.05, 0.4, 1.0}; const uint32_t k = choose(9); return k < 5 ? v[k] : 0.01 + choose(90) / 100.0; }
    inline optional<double> gen_coupon() { static const double v[] = {0.0, 0.02, 1.0, 0.5}; const uint32_t k = choose(8); if (k == 0) return std::nullopt; return k < 5 ? v[k - 1] : choose(100) / 1000.0; }
    inline double gen_rate() {
        if (odd()) { static const double o[] = {-0.03, -0.4, -0.08, 0.8, -1.5, 5, -100, 1e-12}; return o[choose(wild > 1 ? 8 : 4)]; }
        static const double v[] = {0.05, 0.0, -0.01, 0.3}; const uint32_t k = choose(8); return k < 4 ? v[k] : choose(200) / 1000.0; }
    inline Vals gen_vals() { return {gen_price(), gen_sigma(), gen_coupon()}; }
    inline shared_ptr<MarketData> market() { return MarketData::getInstance(); }
}
