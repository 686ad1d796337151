// C06: option creation under bad parameters and memory exhaustion.
#include "pricing.h"
#include <algorithm>

namespace sim {
    // The first way in which the option is not the one asked for.
    static string wrong(const shared_ptr<Option>& p, const OptSpec& o) {
        if (!p) return "no option";
        if (p->getID() != o.ticker) return "its stock is '" + p->getID() + "'";
        if (!same(p->getT(), o.T)) return "its maturity is " + std::to_string(p->getT());
        vector<double> spots{0, 1e-9, 49.5, 50, 90, 99.99, 100, 100.01, 110, 120, 150, 160, 1e6};
        for (double k : {o.K, o.K2}) for (double s : {k, std::nextafter(k, 1e9), std::nextafter(k, -1e9), k + 1e-8, k - 1e-8, k + 1e-4, k - 1e-4, k + 1e-3, k - 1e-3}) if (s >= 0) spots.push_back(s);
        for (double k : {o.K, o.K2}) for (double f : {0.0, 0.5, 0.999, 1.001, 2.0, 1e3}) spots.push_back(k * f);
        if (o.kind == FLOAT_LOOKBACK) {
            for (double S : spots) for (double E : {40.0, 100.0, 200.0})
                if (!close(p->payoff(S, E), o.call ? std::max(S - E, 0.0) : std::max(E - S, 0.0))) return "its payoff is wrong";
        } else {
            for (double S : spots) if (!close(p->payoff(S), ref_payoff(o, S), 1e-12, 1e-12)) return "its payoff at " + std::to_string(S) + " is " + std::to_string(p->payoff(S));
        }
        const auto t = p->getPayoff().getPayoffType();
        if (o.kind != DOUBLE_DIGITAL && t != (o.call ? op::PayoffType::Call : op::PayoffType::Put)) return "its payoff type is wrong";
        bool type = false;
        const Option* q = p.get();
        switch (o.kind) {
            case EUROPEAN: type = dynamic_cast<const op::EuropeanOption*>(q); break;
            case DIGITAL: type = dynamic_cast<const op::DigitalOption*>(q); break;
            case DOUBLE_DIGITAL: type = dynamic_cast<const op::DoubleDigitalOption*>(q); break;
            case AMERICAN: type = dynamic_cast<const op::AmericanOption*>(q); break;
            case ARITH_ASIAN: type = dynamic_cast<const op::ArithmeticAsianOption*>(q); break;
            case GEOM_ASIAN: type = dynamic_cast<const op::GeometricAsianOption*>(q); break;
            case KNOCK_IN: type = dynamic_cast<const op::KnockInBarrierOption*>(q); break;
            case KNOCK_OUT: type = dynamic_cast<const op::KnockOutBarrierOption*>(q); break;
            case FLOAT_LOOKBACK: type = dynamic_cast<const op::FloatingStrikeLookbackOption*>(q); break;
            default: type = dynamic_cast<const op::FixedStrikeLookbackOption*>(q);
        }
        if (!type) return "it is an option of another kind";
        if (auto* b = dynamic_cast<const op::BarrierOption*>(q)) {
            for (double S : {o.B - 1, o.B, o.B + 1, std::nextafter(o.B, 1e9), std::nextafter(o.B, -1e9), o.B + 1e-6, o.B - 1e-6}) {
                const bool hit = o.up ? S >= o.B : S <= o.B;
                if (b->isActive(S) != (o.kind == KNOCK_IN ? hit : !hit)) return "its barrier is wrong";
            }
        }
        return "";
    }
    enum Defect { NO_DEFECT, MISSING, MISTYPED, UNKNOWN_STOCK, NEGATIVE_T, NEGATIVE_K, N_DEFECT };
    static vector<string> needed(const OptSpec& o) {
        vector<string> v{"ticker", "T"};
        if (o.kind == DOUBLE_DIGITAL) { v.push_back("K1"); v.push_back("K2"); }
        else if (o.kind != FLOAT_LOOKBACK) v.push_back("K");
        if (o.kind == KNOCK_IN || o.kind == KNOCK_OUT) { v.push_back("B"); v.push_back("direction"); }
        return v;
    }
    static op::ParameterObject spoil(const OptSpec& o, int& defect, string& what, const op::ParameterObject* used) {
        op::ParameterObject p;
        if (used && defect != MISSING) { p = *used; probe("reused-parameters"); }   // every value it needs is set anew; what else it holds is of no use
        const auto names = needed(o);
        const string victim = names[choose(names.size())];
        const uint32_t alt = choose(3);
        static const double negs[] = {-5, -1e-9, NAN, -INFINITY, -1e-300, -1}; const double neg = negs[choose(6)];
        if (defect == NEGATIVE_K && o.kind == FLOAT_LOOKBACK) defect = NEGATIVE_T;
        for (auto& n : names) {
            if (defect == MISSING && n == victim) { what = "without " + n; continue; }
            if (defect == MISTYPED && n == victim) {
                what = n + " of a wrong type";
                if (n == "ticker") { if (alt == 0) p.setParameter(n, 1.0); else if (alt == 1) p.setParameter(n, 7); else p.setParameter(n, op::BarrierDirection::Up); }
                else if (n == "direction") { if (alt == 0) p.setParameter(n, string("Up")); else if (alt == 1) p.setParameter(n, 0); else p.setParameter(n, 1.0); }
                else { if (alt == 0) p.setParameter(n, 100); else if (alt == 1) p.setParameter(n, string("100")); else p.setParameter(n, op::BarrierDirection::Down); }
                continue;
            }
            if (n == "ticker") { if (defect == UNKNOWN_STOCK) { what = "unknown stock"; p.setParameter(n, string(alt ? "ZZZ" : "no-such-stock-with-quite-a-long-ticker")); } else p.setParameter(n, o.ticker); }
            else if (n == "T") { if (defect == NEGATIVE_T) { what = "T=" + std::to_string(neg); p.setParameter(n, neg); } else p.setParameter(n, o.T); }
            else if (n == "K" || n == "K1") { if (defect == NEGATIVE_K && (n == "K" || alt)) { what = n + "=" + std::to_string(neg); p.setParameter(n, neg); } else p.setParameter(n, o.K); }
            else if (n == "K2") { if (defect == NEGATIVE_K && !alt) { what = "K2=" + std::to_string(neg); p.setParameter(n, neg); } else p.setParameter(n, o.K2); }
            else if (n == "B") p.setParameter(n, o.B);
            else p.setParameter(n, o.up ? op::BarrierDirection::Up : op::BarrierDirection::Down);
        }
        if (chance(1, 6)) p.setParameter("unused", 3.0);
        return p;
    }
    enum Res { OKAY, INVALID, NOMEM, OTHER };
    static Res attempt(int kind, bool call, const op::ParameterObject& p, long k, long burst, shared_ptr<Option>& out, long& fired) {
        Res r = OKAY;
        alloc_arm(k, burst);
        try { out = make_option(kind, call, p); }
        catch (const std::invalid_argument&) { r = INVALID; }
        catch (const std::bad_alloc&) { r = NOMEM; }
        catch (...) { r = OTHER; }
        fired = alloc_disarm();
        return r;
    }
    static const char* res_name(Res r) { static const char* n[] = {"success", "invalid-argument", "bad-alloc", "another error"}; return n[r]; }

    void c06() {
        component("option factories"); component("ParameterObject"); component("Option"); component("payoffs"); component("MarketData");
        Hist h(3);
        vector<std::pair<shared_ptr<Option>, OptSpec>> live;
        const vector<string> ts{universe()[0], universe()[1], universe()[2]};
        auto keep = [&](shared_ptr<Option> p, const OptSpec& o) { live.push_back({p, o}); };
        { OptSpec o; keep(make_option(o), o); }
        op::ParameterObject desk;
        const bool faults = chance(1, 2);
        const int n = 1 + choose(10);
        for (int i = 0; i < n; ++i) {
            step();
            if (chance(1, 6)) h.some(1, ts);
            OptSpec o = gen_option(ts[choose(3)]);
            if (chance(1, 8)) o.T = 0;
            if (chance(1, 6)) { static const double v[] = {1e7, 1e-9, 1e15, 1e4, 2.5e6}; o.K = v[choose(5)]; o.K2 = o.K * (1 + 0.5 * choose(3)) + choose(2); if (o.K2 <= o.K) o.K2 = o.K * 2; probe("extreme-strike"); }
            if (chance(1, 10)) { static const double v[] = {1e-6, 30, 365, 1e4, 1e-300}; o.T = v[choose(5)]; probe("extreme-maturity"); }
            int defect = chance(1, 2) ? 1 + (int)choose(N_DEFECT - 1) : NO_DEFECT; string what = "as it should be";
            const op::ParameterObject p = spoil(o, defect, what, i && chance(1, 2) ? &desk : nullptr); desk = p;
            const World before = h.w;
            // how many allocations does it take?
            long k = 0, fired = 0; const long burst = faults && chance(1, 3) ? 1000 : 1;
            shared_ptr<Option> out;
            if (faults && chance(1, 3)) k = 1 + choose(20);         // unrehearsed: a rehearsal leaves room in containers behind
            else if (faults && chance(1, 2)) {
                alloc_arm(0); try { out = make_option(o.kind, o.call, p); } catch (...) {}
                const long total = alloc_seen(); out.reset();
                k = 1 + choose(total > 0 ? (uint32_t)total : 1);
            }
            log("create %s, %s%s", str(o).c_str(), what.c_str(), k ? (burst > 1 ? ", memory exhausted" : ", one allocation fails") : "");
            Res r = attempt(o.kind, o.call, p, k, burst, out, fired);
            log("-> %s", res_name(r));
            if (defect != NO_DEFECT) {
                nontrivial(); probe(("defect: " + what).c_str());
                if (r == OKAY) violate("accepted-bad-parameters", "%s with %s was created", str(o).c_str(), what.c_str());
                if (r == OTHER || (r == NOMEM && !fired)) violate("wrong-error", "%s with %s failed with %s", str(o).c_str(), what.c_str(), res_name(r));
            } else {
                if (r == INVALID || r == OTHER || (r == NOMEM && !fired)) violate("wrong-error", "%s failed with %s", str(o).c_str(), res_name(r));
                if (r == OKAY && fired) violate("failure-hidden", "%s was created although memory ran out on the way", str(o).c_str());
                if (r == NOMEM) { nontrivial(); probe("creation-out-of-memory"); }
                if (r == OKAY) {
                    const string w = wrong(out, o);
                    if (!w.empty()) violate("wrong-option", "%s was created, but %s", str(o).c_str(), w.c_str());
                    if (!live.empty()) nontrivial();
                }
            }
            if (r != OKAY) {
                if (out) violate("half-option", "a failed creation left an option");
                // a leak is what grows every time
                long prev = 0; int grew = 0;
                for (int rep = 0; rep < 6; ++rep) {
                    shared_ptr<Option> o2; long f2;
                    attempt(o.kind, o.call, p, k, burst, o2, f2);
                    o2.reset();
                    const long b = live_blocks();
                    if (rep && b > prev) ++grew;
                    prev = b;
                }
                if (grew >= 5) violate("leak", "every failed creation of %s (%s) leaves memory allocated", str(o).c_str(), what.c_str());
            } else { if (live.size() < 20) keep(out, o); }
            out.reset();
            const string d = difference(*h.m, before);
            if (!d.empty()) violate("market-changed", "creating %s (%s) changed the market: %s", str(o).c_str(), what.c_str(), d.c_str());
            for (auto& [q, s] : live) { const string w = wrong(q, s); if (!w.empty()) violate("other-option-changed", "after creating %s: of %s, %s", str(o).c_str(), str(s).c_str(), w.c_str()); }
            if (chance(1, 5) && live.size() > 1) { const size_t x = 1 + choose(live.size() - 1); live.erase(live.begin() + x); }
        }
        // whatever failed before, creation still works, and the market still delivers
        OptSpec o = gen_option(ts[choose(3)]);
        auto q = make_option(o); const string w = wrong(q, o);
        if (!w.empty()) violate("wrong-option", "%s was created, but %s", str(o).c_str(), w.c_str());
        Op u = gen_op(ts[0], false, OP_PRICE); h.accept(u);
        const string d = difference(*h.m, h.w);
        if (!d.empty()) violate("market-changed", "at the end: %s", d.c_str());
        // an option that lost its last owner is gone
        std::weak_ptr<Option> gone = q; q.reset();
        if (!gone.expired()) violate("leak", "the option survives its last owner");
    }
}
