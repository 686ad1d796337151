// C27: one process that has lived long. Every request is answered first by a new process, then again and again by this
// one, between other requests, failures, threads and drops, with new objects at the addresses of old ones.
#include "pricing.h"
#include "history.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/mc_solver.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstring>
#include <iostream>
#include <locale>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace sim {
    enum JobKind { J_MC, J_PATHS, J_FDM, J_FIT, J_LINEAR, J_INTERP, J_DRAWS, J_OPTION, J_REFUSED, N_JOB };
    static const char* job_names[] = {"monte-carlo", "paths", "finite-difference", "fit", "linear-system", "interpolation", "draws", "option", "refused"};
    struct Req {
        int kind = J_MC; Vals v; double r = 0.05; string ticker = "AAA";
        OptSpec o; ModelSpec m; int gen = 0, how = 0, basis = 0, reg = 0, matrix = 0, interp = 0, dist = 0, bad = 0, order = 2;
        unsigned seed = 1, dim = 4; unsigned long N = 5; Grid g; PdeSpec pde; bool bs = true;
        int n = 5; double shift = 0, lambda = 0.5;
    };
    static string str(const Req& q) {
        char b[500];
        int k = snprintf(b, sizeof b, "%s in %s r=%g: ", job_names[q.kind], str(q.v).c_str(), q.r);
        switch (q.kind) {
            case J_MC: snprintf(b + k, sizeof b - k, "%s, %s a=%g sv=%g scheme %d, generator %d seed %u dim %u N=%lu how %d basis %d/%d regression %d", str(q.o).c_str(), model_name(q.m.kind), q.m.a, q.m.sv, q.m.scheme, q.gen, q.seed, q.dim, q.N, q.how, q.basis, q.order, q.reg); break;
            case J_PATHS: snprintf(b + k, sizeof b - k, "%s a=%g sv=%g scheme %d T=%g, generator %d seed %u dim %u, %d paths", model_name(q.m.kind), q.m.a, q.m.sv, q.m.scheme, q.o.T, q.gen, q.seed, q.dim, q.n); break;
            case J_FDM: snprintf(b + k, sizeof b - k, "%s %g/%lu x %g/%lu %s, matrix %d interpolation %d, %s", scheme_name(q.g.scheme), q.g.xDom, q.g.J, q.g.tDom, q.g.N, q.bs ? "Black-Scholes" : "other coefficients", q.matrix, q.interp, str(q.o).c_str()); break;
            case J_DRAWS: snprintf(b + k, sizeof b - k, "distribution %d (%g), generator %d seed %u dim %u, %d draws", q.dist, q.lambda, q.gen, q.seed, q.dim, q.n); break;
            case J_OPTION: snprintf(b + k, sizeof b - k, "%s", str(q.o).c_str()); break;
            case J_REFUSED: snprintf(b + k, sizeof b - k, "case %d", q.bad); break;
            default: snprintf(b + k, sizeof b - k, "size %d order %d shift %g basis %d regression %d lambda %g matrix %d interpolation %d", q.n, q.order, q.shift, q.basis, q.reg, q.lambda, q.matrix, q.interp);
        }
        return b;
    }
    static shared_ptr<op::NumberGenerator> req_gen(const Req& q) {
        switch (q.gen) {
            case 0: return std::make_shared<op::PseudoRandomNumberGenerator>(q.dim, q.seed);
            case 1: return std::make_shared<op::SobolGenerator>(q.dim, q.seed % 1000);
            default: return std::make_shared<op::FaureGenerator>(q.dim, q.seed % 1000);
        }
    }
    static unique_ptr<op::MCBuilder> req_builder(const Req& q) {
        switch (q.o.kind) {
            case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: return std::make_unique<op::MCSinglePathBuilder>();
            case AMERICAN: {
                auto b = std::make_unique<op::AmericanMCBuilder>();
                b->setBasisFunctionStrategy(real_basis(q.basis, q.order)); b->setRegressionStrategy(real_regression(q.reg));
                return b;
            }
            case ARITH_ASIAN: return std::make_unique<op::ArithmeticAsianMCBuilder>();
            case GEOM_ASIAN: return std::make_unique<op::GeometricAsianMCBuilder>();
            case KNOCK_IN: return std::make_unique<op::KnockInBarrierMCBuilder>();
            case KNOCK_OUT: return std::make_unique<op::KnockOutBarrierMCBuilder>();
            case FLOAT_LOOKBACK: return std::make_unique<op::FloatingStrikeLookbackMCBuilder>();
            default: return std::make_unique<op::FixedStrikeLookbackMCBuilder>();
        }
    }
    static unique_ptr<op::Distribution> req_dist(const Req& q) {
        const double l = q.lambda;
        switch (q.gen ? 0 : q.dist) {
            case 1: return std::make_unique<op::NormalDistribution>(l, 0.5 + l);
            case 2: return std::make_unique<op::ContinuousUniformDistribution>(-l, 1 + l);
            case 3: return std::make_unique<op::ExponentialDistribution>(0.1 + l);
            case 4: return std::make_unique<op::PoissonDistribution>(0.1 + 10 * l);
            case 5: return std::make_unique<op::GammaDistribution>(0.1 + l, 2 + l);
            default: return std::make_unique<op::StandardNormalDistribution>();
        }
    }
    static double wave(int i, double shift) { return std::sin(1.3 * i + shift) + 0.2 * std::cos(2.7 * i * (1 + shift)); }

    struct Answer { vector<double> v; string text; bool refused = false; };
    typedef vector<shared_ptr<void>> Kept;
    static void show(std::ostream& os, const Option& x, const StockData& d) { os << x << x.getType() << x.getPayoff().getType() << x.getPayoff() << d; }
    // The request itself, on objects made for it; what it made may be kept alive.
    static void answer(const Req& q, Answer& a, Kept* keep) {
        auto mk = market();
        auto kept = [&](auto p) { if (keep) { Harness h; keep->push_back(p); } };
        mk->addStock(q.ticker, q.v.S, q.v.sig, q.v.c); mk->setR(q.r);
        switch (q.kind) {
            case J_MC: {
                OptSpec o = q.o; o.ticker = q.ticker;
                auto opt = make_option(o); unique_ptr<MCPricer> p; unique_ptr<op::MCBuilder> b;
                if (q.how == 0) p = make_pricer(o, opt, mk, make_model(q.m, q.ticker, mk, req_gen(q)), real_basis(q.basis, q.order), real_regression(q.reg));
                else {
                    b = req_builder(q); b->setOption(opt);
                    if (q.how == 1) b->setStockPriceModel(make_model(q.m, q.ticker, mk, req_gen(q)));
                    else entropy_set(q.seed);                           // the default model is seeded by the system
                    p = b->build();
                }
                a.v.push_back(p->calculatePrice(q.N));
                if (q.how == 0) a.v.push_back(p->calculatePrice(1 + q.N / 2));
                else { op::MCSolver s(q.N); s.setPricer(std::move(p)); a.v.push_back(s.solve()); }
                kept(opt);
                break;
            }
            case J_PATHS: {
                auto m = make_model(q.m, q.ticker, mk, req_gen(q));
                for (int i = 0; i < q.n; ++i) {
                    const auto p = m->simulatePrices(q.o.T);
                    a.v.insert(a.v.end(), p.begin(), p.end());
                    a.v.push_back(m->simulatePriceAtMaturity(q.o.T));
                    if (q.m.kind == GBM) a.v.push_back(m->simulatePriceBackward(p.back(), 0.5 * q.o.T, q.o.T));
                }
                kept(m);
                break;
            }
            case J_FDM: {
                OptSpec o = q.o; o.ticker = q.ticker; o.kind = EUROPEAN;
                auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(o));
                unique_ptr<pd::ConvectionDiffusionPDE> pde;
                if (q.bs) pde = std::make_unique<pd::BlackScholesPDE>(opt, mk); else pde = std::make_unique<StubPDE>(q.pde, q.g.xDom, q.g.tDom);
                shared_ptr<op::Interpolation> in; if (q.interp == 1) in = std::make_shared<op::QuadraticInterpolation>(); else if (q.interp == 2) in = std::make_shared<op::LinearInterpolation>();
                shared_ptr<op::MatrixSolver> ms; if (q.matrix) ms = real_matrix(q.matrix - 1);
                auto s = make_fdm(q.g, std::move(pde), opt, mk, in, ms);
                if (q.how) a.v.push_back(s->calculatePrice());
                const auto u = s->solve(); a.v.insert(a.v.end(), u.begin(), u.end());
                a.v.push_back(s->calculatePrice());
                kept(shared_ptr<fd::FDMSolver>(std::move(s)));
                break;
            }
            case J_FIT: {
                const int n = q.n + q.order + 2;
                Eigen::VectorXd x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = 0.5 + 0.1 * i + 0.05 * wave(i, q.shift); y[i] = wave(3 * i, q.shift); }
                auto b = real_basis(q.basis, q.order); const Eigen::MatrixXd A = b->generate(x);
                shared_ptr<op::Regression> r;
                if (q.reg == 1) r = std::make_shared<op::RidgeRegression>(q.lambda); else if (q.reg == 2) r = std::make_shared<op::LassoRegression>(q.lambda); else r = real_regression(0);
                const Eigen::VectorXd c = r->solve(A, y);
                for (int i = 0; i < A.size(); ++i) a.v.push_back(A.data()[i]);
                for (int i = 0; i < c.size(); ++i) a.v.push_back(c[i]);
                kept(b); kept(r);
                break;
            }
            case J_LINEAR: {
                const int n = q.n + 1; vector<Eigen::Triplet<double>> t;
                for (int i = 0; i < n; ++i) { t.emplace_back(i, i, 4 + wave(i, q.shift)); if (i) t.emplace_back(i, i - 1, wave(i + 50, q.shift)); if (i + 1 < n) t.emplace_back(i, i + 1, wave(i + 90, q.shift)); }
                Eigen::SparseMatrix<double> A(n, n); A.setFromTriplets(t.begin(), t.end());
                Eigen::VectorXd b(n); for (int i = 0; i < n; ++i) b[i] = wave(i + 7, q.shift);
                auto s = real_matrix(q.matrix % 3); const Eigen::VectorXd x = s->solve(A, b);
                for (int i = 0; i < n; ++i) a.v.push_back(x[i]);
                kept(s);
                break;
            }
            case J_INTERP: {
                const int n = q.n + 3; vector<double> x(n), y(n);
                for (int i = 0; i < n; ++i) { x[i] = i + 0.3 * wave(i, q.shift) / 1.3; y[i] = wave(2 * i, q.shift); }
                shared_ptr<op::Interpolation> in; if (q.interp == 1) in = std::make_shared<op::QuadraticInterpolation>(); else in = std::make_shared<op::LinearInterpolation>();
                for (int i = 0; i < 6; ++i) a.v.push_back(in->interpolate(x, y, (n + 1.0) * ((i * 5 + q.order) % 6) / 5 - 0.7));
                kept(in);
                break;
            }
            case J_DRAWS: {
                auto g = req_gen(q); auto d = req_dist(q);
                for (int i = 0; i < 3 * q.n; ++i) a.v.push_back((*g)(*d));
                kept(g);
                break;
            }
            case J_OPTION: {
                OptSpec o = q.o; o.ticker = q.ticker; auto x = make_option(o);
                OptSpec o2 = o; o2.K += 1; auto y = make_option(o2), z = make_option(o);
                if (q.how) { std::ostringstream os; show(os, *x, *mk->getStockData(q.ticker)); if (!os) throw std::runtime_error("the stream failed"); a.text = os.str(); }
                else {                                                      // on the standard output, which is everybody's
                    std::stringbuf b; struct R { std::streambuf* old; ~R() { std::cout.rdbuf(old); } } back{std::cout.rdbuf(&b)};
                    show(std::cout, *x, *mk->getStockData(q.ticker));
                    const bool ok = bool(std::cout); std::cout.clear(); if (!ok) throw std::runtime_error("the stream failed");
                    a.text = b.str();
                }
                a.v = {x->getT(), double(*x == *y), double(*x == *z), double(*y != *z), double(x->getPayoff() == *z->getPayoff().clone())};
                for (double S : {0.0, 50.0, o.K, o.K2, o.B, 130.0}) {
                    if (o.kind == FLOAT_LOOKBACK) a.v.push_back(x->payoff(S, 90)); else a.v.push_back(x->payoff(S));
                    if (auto b = std::dynamic_pointer_cast<op::BarrierOption>(x)) a.v.push_back(b->isActive(S));
                }
                kept(x); kept(y);
                break;
            }
            default: {
                auto g = std::make_shared<op::PseudoRandomNumberGenerator>(3, 5);
                switch (q.bad) {
                    case 0: mk->updateStockPrice(q.ticker, -q.v.S); break;
                    case 1: (void)mk->getStockData("NO-SUCH-STOCK"); break;
                    case 2: { op::GammaDistribution d(-1, 1); break; }
                    case 3: { auto m = std::make_shared<op::HestonModel>(q.ticker, mk, g, 1.5, 0.04, 0.3, 1.5, 0.04, nullptr); break; }
                    case 4: { op::MCSinglePathBuilder b; (void)b.build(); break; }
                    case 5: { OptSpec o; o.K = -1; o.ticker = q.ticker; (void)make_option(o); break; }
                    case 6: { op::SobolGenerator s(2, 3); op::PoissonDistribution d(1); (void)s(d); break; }
                    default: { Eigen::SparseMatrix<double> A(1, 1); A.insert(0, 0) = 1; Eigen::VectorXd b(1); b[0] = 1; (void)op::ThomasAlgorithm().solve(A, b); break; }
                }
            }
        }
    }
    static Answer ask(const Req& q, Kept* keep) {
        Answer a;
        try { answer(q, a, keep); } catch (const std::exception&) { a.refused = true; a.v.clear(); a.text.clear(); }
        return a;
    }

    // What a process shares beyond the library's objects.
    struct Ambient {
        int round, exc; unsigned mx; unsigned short cw; std::ios_base::fmtflags fo, fe, fc, fi; std::streamsize pc, we; char fille; void* tie; std::ios_base::iostate maske; std::streamsize po, pe, wo; char fill; string loc, cloc; std::new_handler nh; std::terminate_handler th; string sig; std::ios_base::iostate mask;
        Ambient() : round(fegetround()), exc(fegetexcept()), mx(__builtin_ia32_stmxcsr() & ~0x3fu), fc(std::clog.flags()), fi(std::cin.flags()), pc(std::clog.precision()), we(std::cerr.width()), fille(std::cerr.fill()), tie(std::cin.tie()), maske(std::cerr.exceptions()), fo(std::cout.flags()), fe(std::cerr.flags()), po(std::cout.precision()), pe(std::cerr.precision()), wo(std::cout.width()), fill(std::cout.fill()),
            loc(std::locale().name()), cloc(setlocale(LC_ALL, nullptr)), nh(std::get_new_handler()), th(std::get_terminate()), mask(std::cout.exceptions()) {
            asm volatile("fnstcw %0" : "=m"(cw));
            for (int s : {SIGFPE, SIGSEGV, SIGABRT, SIGINT, SIGTERM, SIGPIPE}) { struct sigaction sa{}; sigaction(s, nullptr, &sa); sig += std::to_string((unsigned long)sa.sa_handler) + " "; }
        }
        string differs(const Ambient& o) const {
            if (round != o.round || exc != o.exc || mx != o.mx || cw != o.cw) return "the floating-point mode";
            if (fo != o.fo || fe != o.fe || po != o.po || pe != o.pe || wo != o.wo || fill != o.fill || mask != o.mask || fc != o.fc || fi != o.fi || pc != o.pc || we != o.we || fille != o.fille || tie != o.tie || maske != o.maske) return "the format of a standard stream";
            if (loc != o.loc || cloc != o.cloc) return "the locale";
            if (nh != o.nh || th != o.th || sig != o.sig) return "a process-wide handler";
            return "";
        }
    };

    struct Slab { uint64_t done; int refused; uint32_t nv, nt; double v[4096]; char text[4096]; };
    static Answer first_of_a_new_process(const Req& q, Slab* s) {
        memset(s, 0, 64);
        const uint64_t base = choose(1000000);
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            entropy_set(base);
            Answer a = ask(q, nullptr);
            s->refused = a.refused; s->nv = std::min<size_t>(a.v.size(), 4096); s->nt = std::min<size_t>(a.text.size(), 4096);
            memcpy(s->v, a.v.data(), s->nv * sizeof(double)); memcpy(s->text, a.text.data(), s->nt); s->done = 1;
            _exit(0);
        }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!s->done) violate("crash", "a new process died (status %d) of: %s", st, str(q).c_str());
        Answer a; a.refused = s->refused; a.v.assign(s->v, s->v + s->nv); a.text.assign(s->text, s->nt);
        return a;
    }
    static string differs(const Answer& want, Answer got) {
        char b[200];
        if (got.refused != want.refused) return got.refused ? "it is refused" : "it is not refused any more";
        if (got.v.size() > 4096) got.v.resize(4096);
        if (got.text.size() > 4096) got.text.resize(4096);
        if (got.v.size() != want.v.size()) { snprintf(b, sizeof b, "%zu numbers instead of %zu", got.v.size(), want.v.size()); return b; }
        for (size_t i = 0; i < got.v.size(); ++i) if (!same(got.v[i], want.v[i]) && !close(got.v[i], want.v[i], 1e-10, 1e-300)) { snprintf(b, sizeof b, "number %zu is %.17g instead of %.17g", i, got.v[i], want.v[i]); return b; }
        if (got.text != want.text) return "another text";
        return "";
    }

    static Req gen_req(int kind) {
        Req q; q.kind = kind >= 0 ? kind : (int)choose(N_JOB + 1) % N_JOB; q.v = gen_vals(); if (q.v.S < 1 || q.v.S > 1000) q.v.S = 100; q.r = gen_rate();
        static const char* ts[] = {"AAA", "BBB", "a-ticker-longer-than-any-small-string-buffer"}; q.ticker = ts[choose(3)];
        q.o = gen_option(q.ticker); q.m = gen_model(); q.gen = chance(1, 4) && (q.m.kind == GBM || q.m.kind == HESTON || q.kind == J_DRAWS) ? 1 + choose(2) : 0;
        q.how = choose(3); q.basis = choose(4); q.reg = choose(3); q.matrix = choose(4); q.interp = choose(3); q.dist = choose(6); q.bad = choose(8); q.order = 1 + choose(5);
        q.seed = 1 + choose(5000); q.dim = 1 + choose(8); q.N = 1 + choose(20); q.n = 1 + choose(8); q.shift = choose(100) / 50.0; q.lambda = choose(20) / 20.0;
        if (chance(1, 2)) q.seed = 1 + choose(2);
        if (chance(1, 20)) { q.dim = 20 + choose(40); q.N = 20 + choose(60); q.n = 10 + choose(20); }
        q.g = gen_grid(); q.bs = !chance(1, 3); if (!q.bs) q.pde = gen_pde(q.g);
        if (q.bs && q.g.scheme == EXPLICIT && q.g.J > 30) q.g.J = 3 + q.g.J % 10;
        if (q.kind == J_FDM && q.matrix == 3 && q.g.J < 4) q.g.J = 4;
        return q;
    }
    // A request that differs from another in one thing only: what is remembered of one must not be taken for the other.
    static Req vary(Req q) {
        static const vector<int> of[N_JOB] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 8}, {0, 1, 2, 3, 4, 5, 6, 10, 11, 13}, {0, 1, 2, 3, 5, 6, 7, 8, 10, 11, 12}, {4, 5, 6, 7, 9, 10}, {4, 5, 6, 7, 10}, {4, 5, 6, 7, 8}, {4, 5, 6, 7, 9}, {0, 1, 2, 7, 8, 9, 11, 12, 13}, {0, 1, 2, 3, 13}};
        switch (of[q.kind][choose(of[q.kind].size())]) {
            case 0: q.v.S = q.v.S * (1 + 0.01 * (1 + choose(5))); break;
            case 1: q.v.sig += 0.01 * (1 + choose(5)); break;
            case 2: q.v.c = q.v.c ? optional<double>() : optional<double>(0.03); break;
            case 3: q.r += 0.01 * (1 + choose(5)); break;
            case 4: q.seed += 1 + choose(3); q.shift += 0.1; break;
            case 5: q.N += 1 + choose(3); q.n += 1 + choose(3); q.g.N += 1 + choose(3); break;
            case 6: q.dim = 1 + (q.dim + choose(7)) % 8; q.g.J += 1; q.order = 1 + q.order % 5; break;
            case 7: q.o.K += 5; q.o.K2 += 5; q.lambda += 0.05; break;
            case 8: q.o.call = !q.o.call; q.interp = (q.interp + 1) % 3; break;
            case 9: q.o.kind = choose(N_OPT); q.dist = choose(6); q.basis = choose(4); break;
            case 10: q.m.a = choose(5) / 4.0; q.m.sv += 0.05; q.reg = choose(3); q.matrix = q.g.J < 4 ? choose(3) : choose(4); break;
            case 11: q.o.T = q.o.T == 0.5 ? 1 : 0.5; q.m.scheme = choose(3); q.g.tDom *= 1.25; break;
            case 12: q.o.up = !q.o.up; q.o.B += 10; q.g.xDom *= 1.25; break;
            default: q.ticker = q.ticker == "AAA" ? "BBB" : "AAA";
        }
        return q;
    }

    void c27() {
        component("whole library");
        static const int sizes[] = {12, 6, 25, 40, 12, 25, 120, 260}; const int n = chance(1, 40) ? 1200 : sizes[choose(8)];
        const int focus = chance(1, 2) ? (int)choose(N_JOB + 3) % N_JOB : -1;
        entropy_set(choose(1000000));
        Slab* slab = (Slab*)mmap(nullptr, sizeof(Slab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        vector<Req> rq; vector<Answer> want;
        const int M = 2 + choose(4);
        for (int i = 0; i < M; ++i) {
            rq.push_back(i && chance(focus < 0 ? 3 : 4, 6) ? vary(rq[choose(i)]) : gen_req(focus));
            want.push_back(first_of_a_new_process(rq.back(), slab));
            log("request %d: %s -> %s", i, str(rq.back()).c_str(), want.back().refused ? "refused" : str(want.back().v).c_str()); component(job_names[rq.back().kind]);
        }
        const Ambient before; Kept kept; long asked = 0, failed = 0;
        auto check = [&](int i, const Answer& a, const char* how) {
            const string d = differs(want[i], a);
            if (!d.empty()) violate("history", "request %d after %ld others%s: %s (%s)", i, asked, how, d.c_str(), str(rq[i]).c_str());
        };
        for (int k = 0; k < n; ++k) {
            const int i = choose(M); step();
            switch (choose(8)) {
                case 5: {                                                   // memory runs out on the way
                    alloc_arm(1 + choose(chance(1, 3) ? 400 : 40), 1 + choose(3)); Answer a = ask(rq[i], nullptr); const long f = alloc_disarm();
                    log("%d with %ld failed allocations%s", i, f, a.refused ? ": refused" : "");
                    if (f) ++failed; if (!f || !a.refused) check(i, a, f ? " (with a failed allocation)" : "");
                    break;
                }
                case 6: {                                                   // by another thread
                    Answer a; const Req& q = rq[i]; std::thread t([&] { a = ask(q, nullptr); }); t.join();
                    log("%d on another thread", i); probe("other-thread"); check(i, a, " (on another thread)");
                    break;
                }
                case 7: if (!kept.empty() && chance(1, 2)) { const size_t j = choose(kept.size()); kept.erase(kept.begin() + j); log("drop one"); break; }
                        if (chance(1, 4)) { kept.clear(); entropy_set(choose(1000000)); log("drop all, other entropy"); break; }
                        [[fallthrough]];
                case 4: { const Answer a = ask(rq[i], &kept); log("%d, kept", i); check(i, a, ""); break; }
                default: { const Answer a = ask(rq[i], nullptr); log("%d", i); check(i, a, ""); }
            }
            ++asked; if (kept.size() > 40) kept.erase(kept.begin(), kept.begin() + 20);
            const string d = before.differs(Ambient());
            if (!d.empty()) violate("ambient", "%s of the process has changed after request %d (%s)", d.c_str(), i, str(rq[i]).c_str());
        }
        for (int i = 0; i < M; ++i) check(i, ask(rq[i], nullptr), " (at the end)");
        log("%ld asked, %ld with failures", asked, failed); nontrivial();
    }
}
