// C28: prices of related contracts agree with each other on the same paths, whatever happens between the two prices.
#include "pricing.h"
#include "history.h"
#include <thread>

namespace sim {
    void c28() {
        component("pricers"); component("models"); component("number generators"); component("option factories"); component("finite differences");
        Hist h(3); const vector<string> ts{universe()[0], universe()[1], universe()[2]};
        const int rounds = 1 + choose(5);
        for (int round = 0; round < rounds; ++round) {
            step();
            if (chance(2, 3)) h.some(1 + choose(3), ts);
            const string t = ts[choose(3)]; Vals v = h.w.stocks.at(t);
            if (chance(1, 2) || v.S < 1 || v.S > 1e4) { Op o; o.kind = OP_ADD; o.t = t; o.v = gen_vals(); if (o.v.S < 1 || o.v.S > 1e4) o.v.S = 100; h.accept(o); v = o.v; }
            if (std::fabs(h.w.r) > 1) continue;
            const ModelSpec ms = gen_model(); const unsigned dim = chance(1, 12) ? 11 + choose(chance(1, 2) ? 390 : 60) : 1 + choose(10), seed = 1 + choose(10000);
            const int gk = (ms.kind == GBM || ms.kind == HESTON) && dim < 100 ? (int)choose(4) : 0;
            const unsigned long N = 1 + choose(dim > 100 ? 8 : chance(1, 30) ? 600 : 60); const double r = h.w.r;
            component(model_name(ms.kind));
            auto model = [&](const string& tk) {
                shared_ptr<op::NumberGenerator> g;
                if (gk == 1) g = std::make_shared<op::SobolGenerator>(dim, seed % 100); else if (gk == 2) g = std::make_shared<op::FaureGenerator>(dim, seed % 100); else g = std::make_shared<op::PseudoRandomNumberGenerator>(dim, seed);
                return make_model(ms, tk, h.m, g);
            };
            auto raw = [&](const OptSpec& o, unsigned long n) { auto opt = make_option(o); return make_pricer(o, opt, h.m, model(o.ticker))->calculatePrice(n); };
            auto disturb = [&] {
                switch (choose(6)) {
                    case 1: { const OptSpec o = gen_option(ts[choose(3)]); alloc_arm(1 + choose(60)); try { raw(o, 1 + choose(5)); } catch (const std::exception&) {} alloc_disarm(); log("  a pricing with a failing allocation"); break; }
                    case 2: { OptSpec o = gen_option(t); o.K = -1; if (o.kind == FLOAT_LOOKBACK) o.T = -1; try { make_option(o); } catch (const std::exception&) {} log("  a refused option"); break; }
                    case 3: { string u = ts[choose(3)]; if (u != t) { h.accept(gen_op(u, false, choose(2) ? OP_ADD : OP_PRICE)); } break; }
                    case 4: entropy_set(choose(100000)); break;
                    case 5: { const OptSpec o = gen_option(t); std::thread x([&] { try { raw(o, 2); } catch (const std::exception&) {} }); x.join(); log("  a pricing on another thread"); break; }
                    default:;
                }
            };
            auto price = [&](const OptSpec& o) { const double x = raw(o, N); log("  %s: %.17g", str(o).c_str(), x); if (chance(1, 2)) disturb(); return x; };
            OptSpec base = gen_option(t); if (base.K == 0 && chance(1, 2)) base.K = 100; if (chance(1, 2)) { base.K = v.S; base.K2 = 1.2 * v.S; base.B = (base.up ? 1.1 : 0.9) * v.S; }
            const double df = std::exp(-r * base.T); const bool random = v.sig >= 0.01 && base.T > 0;
            string where; { char b[300]; snprintf(b, sizeof b, "%s on %s (S=%g sigma=%g) r=%g, T=%g, %lu paths of %u steps", model_name(ms.kind), t.c_str(), v.S, v.sig, r, base.T, N, dim); where = b; }
            auto of = [&](int kind, bool call, double K) { OptSpec o = base; o.kind = kind; o.call = call; o.K = K; o.K2 = K + (base.K2 - base.K); return o; };
            auto equal = [&](const char* cls, double a, double b, double scale, const string& what) {
                if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(scale)) return;
                if (!(std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b) + std::fabs(scale)) + 1e-300)) violate(cls, "%s: %s: %.15g and %.15g", where.c_str(), what.c_str(), a, b);
                nontrivial();
            };
            auto less = [&](const char* cls, double a, double b, double scale, const string& what) {
                if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(scale)) return;
                if (!(a <= b + 1e-9 * (std::fabs(a) + std::fabs(b) + std::fabs(scale)) + 1e-300)) violate(cls, "%s: %s: %.15g and %.15g", where.c_str(), what.c_str(), a, b);
                nontrivial();
            };
            // Do prices at maturity come from the same paths? (Nothing says that they have to.)
            auto one_path = [&] {
                auto a = model(t), b = model(t);
                for (unsigned long i = 0; i < std::min(N, 4ul); ++i) if (!close(a->simulatePriceAtMaturity(base.T), b->simulatePrices(base.T).back(), 1e-12)) { probe("terminal-apart"); return false; }
                return true;
            };
            try { model(t)->simulatePrices(base.T); } catch (const std::invalid_argument&) { probe("no-finite-mean"); continue; } catch (const std::runtime_error&) { continue; } catch (const std::logic_error&) { continue; }
            const double K = base.K, K2 = base.K2 > K ? base.K2 : K + 10;
            const int rel = choose(11);
            log("relation %d: %s", rel, where.c_str());
            switch (rel) {
                case 0: {                                                   // in and out are all there is
                    OptSpec in = of(KNOCK_IN, base.call, K), out = of(KNOCK_OUT, base.call, K), in2 = in, out2 = out;
                    in2.up = out2.up = chance(1, 2); in2.B = out2.B = v.S * (0.8 + 0.05 * choose(9));
                    const double s = price(in) + price(out);
                    equal("in-out", s, price(in2) + price(out2), K, "knock-in plus knock-out at two barriers"); probe("in-out");
                    if (one_path()) equal("in-out", s, price(of(EUROPEAN, base.call, K)), K, "knock-in plus knock-out, and the option without barrier");
                    break;
                }
                case 1: {                                                   // a call less a put is a forward
                    static const int kinds[] = {EUROPEAN, ARITH_ASIAN, GEOM_ASIAN}; const int k = kinds[choose(3)];
                    const double a = price(of(k, true, K)) - price(of(k, false, K)), b = price(of(k, true, K2)) - price(of(k, false, K2));
                    equal("parity", a - b, df * (K2 - K), K2 + std::fabs(a) + std::fabs(b), string(opt_name(k)) + " calls less puts at two strikes, and the discounted difference of the strikes"); probe("parity");
                    break;
                }
                case 2: {                                                   // digital calls, puts and double digitals
                    if (!random) break;
                    const double K = 1.0001234567 * base.K + 1e-5, K2 = 1.2 * K + 1;   // no path ends exactly there
                    const double c = price(of(DIGITAL, true, K)), p = price(of(DIGITAL, false, K));
                    equal("digital", c + p, df, 1, "digital call plus digital put, and the discount factor");
                    const double c2 = price(of(DIGITAL, true, K2)); OptSpec dd = of(DOUBLE_DIGITAL, true, K); dd.K2 = K2;
                    equal("digital", c - c2, price(dd), 1, "digital calls at two strikes, and the double digital between them"); probe("digital");
                    break;
                }
                case 3: {                                                   // lookbacks of both kinds see the same extremes
                    double top = 0; auto m = model(t); for (unsigned long i = 0; i < N; ++i) for (double x : m->simulatePrices(base.T)) top = std::max(top, x);
                    if (!(top < 1e6)) break;
                    const double mx = price(of(FIXED_LOOKBACK, true, 0)), mn = df * 2 * top - price(of(FIXED_LOOKBACK, false, 2 * top)), a = mx - price(of(FLOAT_LOOKBACK, false, K)), b = price(of(FLOAT_LOOKBACK, true, K)) + mn;
                    equal("lookback", a, b, 2 * top, "the end of the paths, as the maximum less a floating put and as the minimum plus a floating call");
                    less("lookback", mn, mx, 2 * top, "the mean minimum and the mean maximum");
                    if (one_path()) equal("lookback", a, price(of(EUROPEAN, true, 0)), 2 * top, "the end of the paths, by lookbacks and by a call with strike 0");
                    probe("lookback"); break;
                }
                case 4: {                                                   // strikes
                    static const int kinds[] = {EUROPEAN, ARITH_ASIAN, GEOM_ASIAN, FIXED_LOOKBACK, KNOCK_IN, KNOCK_OUT}; const int k = kinds[choose(6)]; const double d = (K2 - K) * 0.5;
                    const double lo = price(of(k, base.call, K)), mid = price(of(k, base.call, K + d)), hi = price(of(k, base.call, K2)), s = K2 + lo + mid + hi; const string n = opt_name(k);
                    less("strikes", base.call ? hi : lo, base.call ? lo : hi, s, n + " prices in the order of their strikes");
                    less("strikes", std::fabs(lo - hi), df * (K2 - K), s, n + " prices, and the discounted difference of their strikes");
                    less("strikes", 2 * mid, lo + hi, s, n + ": twice the middle strike, and the strikes on both sides"); less("strikes", 0, lo, s, n + " price");
                    probe("strikes"); break;
                }
                case 5: {                                                   // barriers
                    OptSpec near = of(KNOCK_OUT, base.call, K), far = near; near.B = v.S * (base.up ? 1.05 : 0.95); far.B = v.S * (base.up ? 1.15 : 0.85);
                    less("barriers", price(near), price(far), K, "knock-out with a near and with a far barrier"); near.kind = far.kind = KNOCK_IN;
                    less("barriers", price(far), price(near), K, "knock-in with a far and with a near barrier"); probe("barriers");
                    break;
                }
                case 6: {                                                   // means and extremes
                    const double g = price(of(GEOM_ASIAN, base.call, K)), a = price(of(ARITH_ASIAN, base.call, K)), x = price(of(FIXED_LOOKBACK, base.call, K)), s = K + v.S + a + g + x;
                    if (base.call) less("means", g, a, s, "geometric and arithmetic asian call"); else less("means", a, g, s, "arithmetic and geometric asian put");
                    less("means", a, x, s, "asian and lookback of the same strike"); less("means", g, x, s, "geometric asian and lookback of the same strike"); probe("means");
                    break;
                }
                case 7: {                                                   // another unit of money
                    OptSpec o = base; if (o.kind == AMERICAN) o.kind = EUROPEAN;
                    const bool unit = o.kind == DIGITAL || o.kind == DOUBLE_DIGITAL, jump = unit || o.kind == KNOCK_IN || o.kind == KNOCK_OUT;
                    if (jump && !random) break;
                    if (jump) { o.K = 1.0001234567 * o.K + 1e-5; o.K2 = 1.2 * o.K + 1; o.B *= 1.0001234567; }
                    static const double fs[] = {2, 0.5, 4, 0.25, 1024}; const double f = fs[choose(5)], a = price(o);
                    Op u; u.kind = OP_PRICE; u.t = t; u.x = f * v.S; h.accept(u); o.K *= f; o.K2 *= f; o.B *= f;
                    equal("scale", unit ? a : f * a, price(o), f * K, string(opt_name(o.kind)) + " in two units of money"); probe("scale");
                    break;
                }
                case 8: {                                                   // one run or two
                    OptSpec o = base; if (o.kind == AMERICAN) o.kind = ARITH_ASIAN;
                    const unsigned long n = 1 + choose(30); auto opt = make_option(o); auto p = make_pricer(o, opt, h.m, model(t)); const double a = p->calculatePrice(N);
                    if (chance(1, 2)) disturb();
                    const double b = p->calculatePrice(n), c = raw(o, N + n); log("  %lu paths %.17g, %lu more %.17g, all %.17g", N, a, n, b, c);
                    equal("batches", (N * a + n * b) / (double)(N + n), c, K, string(opt_name(o.kind)) + " in two runs and in one"); probe("batches");
                    break;
                }
                case 9: {                                                   // another name
                    OptSpec o = base; const string u = t == ts[0] ? ts[1] : ts[0]; const double a = price(o);
                    Op w; w.kind = OP_ADD; w.t = u; w.v = v; h.accept(w); o.ticker = u;
                    equal("names", a, price(o), 0, string(opt_name(o.kind)) + " on two stocks that are alike"); probe("names");
                    break;
                }
                default: {                                                  // finite differences in another unit of money
                    Grid g = gen_grid(); OptSpec o = of(EUROPEAN, base.call, K); if (o.T == 0) o.T = 1; g.tDom = o.T; g.xDom = 2 * std::max(v.S, K) * (1 + 0.25 * choose(4));
                    if (g.scheme == EXPLICIT) { g.J = std::min(g.J, 8ul); if (v.sig > 0.5) break; g.N = 10 + choose(30); }
                    auto fdm = [&](const Grid& gg, const OptSpec& oo) {
                        auto opt = std::dynamic_pointer_cast<op::EuropeanOption>(make_option(oo));
                        auto s = make_fdm(gg, std::make_unique<pd::BlackScholesPDE>(opt, h.m), opt, h.m); const double x = s->calculatePrice(); log("  %s grid of %lu: %.17g", scheme_name(gg.scheme), gg.J, x); return x;
                    };
                    const double a = fdm(g, o); if (chance(1, 2)) disturb();
                    Op w; w.kind = OP_ADD; w.t = t == ts[0] ? ts[1] : ts[0]; w.v = v; h.accept(w); OptSpec q = o; q.ticker = w.t;
                    equal("names", a, fdm(g, q), 0, "finite differences on two stocks that are alike");
                    const double f = chance(1, 2) ? 2 : 0.25; Op u; u.kind = OP_PRICE; u.t = t; u.x = f * v.S; h.accept(u); o.K *= f; g.xDom *= f;
                    equal("scale", f * a, fdm(g, o), f * K, "finite differences in two units of money"); probe("finite-differences");
                }
            }
        }
    }
}
