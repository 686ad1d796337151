// Histories of market operations against the real market, with a reference model beside it.
#pragma once
#include "world.h"

namespace sim {
    inline const vector<string>& universe() {
        static const vector<string> u{"AAA", "BBB", "a-ticker-longer-than-any-small-string-buffer", "", "AAA ", "aaa",
            string(80, 'L') + "1", string(80, 'L') + "2", string("AAA\0B", 5), "ZZZ"};
        return u;
    }
    enum OpKind { OP_PRICE, OP_SIGMA, OP_COUPON, OP_ADD, OP_RATE, N_OP };
    struct Op { int kind = OP_PRICE; string t; double x = 0; optional<double> c; Vals v; int form = 0; };
    inline string str(const Op& o) {
        char b[200];
        switch (o.kind) {
            case OP_PRICE: snprintf(b, sizeof b, "updateStockPrice(%s, %.17g)", o.t.c_str(), o.x); break;
            case OP_SIGMA: snprintf(b, sizeof b, "updateStockSigma(%s, %.17g)", o.t.c_str(), o.x); break;
            case OP_COUPON: if (o.c) snprintf(b, sizeof b, "updateStockCoupon(%s, %.17g)", o.t.c_str(), *o.c);
                            else snprintf(b, sizeof b, "updateStockCoupon(%s, none)", o.t.c_str()); break;
            case OP_ADD: snprintf(b, sizeof b, "addStock(%s, %s)", o.t.c_str(), str(o.v).c_str()); break;
            default: snprintf(b, sizeof b, "setR(%.17g)", o.x);
        }
        return b;
    }
    // The call itself, nothing of the harness around it.
    inline void perform(MarketData& m, const Op& o) {
        switch (o.kind) {
            case OP_PRICE: m.updateStockPrice(o.t, o.x); break;
            case OP_SIGMA: m.updateStockSigma(o.t, o.x); break;
            case OP_COUPON: m.updateStockCoupon(o.t, o.c); break;
            case OP_ADD:
                if (!o.v.c && o.form == 0) m.addStock(o.t, o.v.S, o.v.sig);
                else if (o.v.c && o.form == 0) m.addStock(o.t, o.v.S, o.v.sig, *o.v.c);
                else if (o.form == 1) m.addStock(o.t, o.v.S, o.v.sig, o.v.c);
                else m.addStock(o.t, StockData(o.v.S, o.v.sig, o.v.c));
                break;
            default: m.setR(o.x);
        }
    }
    inline bool ok_price(double S) { return S > 0; }
    inline bool ok_sigma(double s) { return s >= 0; }
    inline bool ok_coupon(const optional<double>& c) { return !c || (*c >= 0 && *c <= 1); }
    inline bool ok_vals(const Vals& v) { return ok_price(v.S) && ok_sigma(v.sig) && ok_coupon(v.c); }
    inline bool admissible(const World& w, const Op& o) {
        switch (o.kind) {
            case OP_PRICE: return w.stocks.count(o.t) && ok_price(o.x);
            case OP_SIGMA: return w.stocks.count(o.t) && ok_sigma(o.x);
            case OP_COUPON: return w.stocks.count(o.t) && ok_coupon(o.c);
            case OP_ADD: return ok_vals(o.v);
            default: return true;
        }
    }
    inline World applied(World w, const Op& o) {
        switch (o.kind) {
            case OP_PRICE: w.stocks[o.t].S = o.x; break;
            case OP_SIGMA: w.stocks[o.t].sig = o.x; break;
            case OP_COUPON: w.stocks[o.t].c = o.c; break;
            case OP_ADD: w.stocks[o.t] = o.v; break;
            default: w.r = o.x;
        }
        return w;
    }
    inline bool changes(const World& w, const Op& o) {
        const World n = applied(w, o);
        if (n.stocks.size() != w.stocks.size() || !same(n.r, w.r)) return true;
        for (auto& [k, v] : n.stocks) if (!(v == w.stocks.at(k))) return true;
        return false;
    }
    // Everything the market shows, or the first difference from w.
    inline string difference(const MarketData& m, const World& w) {
        string why;
        auto bad = [&](const string& t) {
            const bool known = w.stocks.count(t);
            shared_ptr<const StockData> d;
            try { d = m.getStockData(t); } catch (const std::exception&) {}
            if (!d && known) why = "stock '" + t + "' is not there any more";
            else if (d && !known) why = "stock '" + t + "' is known although it was never added";
            else if (d && !(read(*d) == w.stocks.at(t))) why = "stock '" + t + "' shows " + str(read(*d)) + " and should show " + str(w.stocks.at(t));
            return !why.empty();
        };
        for (auto& t : universe()) if (bad(t)) return why;
        if (w.stocks.size() > universe().size()) for (auto& [t, v] : w.stocks) if (bad(t)) return why;
        if (!same(m.getR(), w.r)) { char b[100]; snprintf(b, sizeof b, "the rate is %.17g and should be %.17g", m.getR(), w.r); return b; }
        return "";
    }
    inline double bad_price() { static const double v[] = {0.0, -1.0, -0.0, NAN, -INFINITY, -1e-300}; return v[choose(6)]; }
    inline double bad_sigma() { static const double v[] = {-0.1, NAN, -INFINITY, -1e-300}; return v[choose(4)]; }
    inline double bad_coupon() { static const double v[] = {-0.01, 1.5, NAN, INFINITY, -INFINITY, 1.0000000000000002}; return v[choose(6)]; }
    // An operation on one of the tickers; `bad` makes it inadmissible by value (or by ticker, if unknown ones are in the universe).
    inline Op gen_op(const string& t, bool bad, int kind = -1) {
        Op o; o.t = t; o.kind = kind >= 0 ? kind : (int)choose(N_OP); o.form = choose(3);
        if (bad && o.kind == OP_RATE) o.kind = OP_PRICE;
        switch (o.kind) {
            case OP_PRICE: o.x = bad ? bad_price() : gen_price(); break;
            case OP_SIGMA: o.x = bad ? bad_sigma() : gen_sigma(); break;
            case OP_COUPON: o.c = bad ? optional<double>(bad_coupon()) : gen_coupon(); break;
            case OP_ADD:
                o.v = gen_vals();
                if (bad) { const uint32_t k = choose(3); if (k == 0) o.v.S = bad_price(); else if (k == 1) o.v.sig = bad_sigma(); else o.v.c = bad_coupon(); }
                break;
            default: o.x = gen_rate();
        }
        return o;
    }
    // The same, but now and then right next to the value in force.
    inline Op gen_op_near(const World& w, const string& t, bool bad, int kind = -1) {
        Op o = gen_op(t, bad, kind);
        if (bad || !w.stocks.count(t) || !chance(1, 5)) return o;
        const Vals v = w.stocks.at(t);
        switch (o.kind) {
            case OP_PRICE: o.x = nudge(v.S); break;
            case OP_SIGMA: o.x = std::fabs(nudge(v.sig)); break;
            case OP_COUPON: if (v.c) o.c = std::min(1.0, std::fabs(nudge(*v.c))); break;
            case OP_ADD: {
                o.v = v; const uint32_t k = choose(3);
                if (k == 0) o.v.S = nudge(v.S); else if (k == 1) o.v.sig = std::fabs(nudge(v.sig)); else o.v.c = v.c ? std::min(1.0, std::fabs(nudge(*v.c))) : 0.0;
                break;
            }
            default: o.x = nudge(w.r);
        }
        return o;
    }
    struct Hist {
        World w; shared_ptr<MarketData> m;
        explicit Hist(int nstocks = 2) : m(market()) {
            m->setR(w.r);
            for (int i = 0; i < nstocks; ++i) { Op o; o.kind = OP_ADD; o.t = universe()[i]; perform(*m, o); w = applied(w, o); }
        }
        vector<string> extra;                                // stocks beyond the universe, in crowded markets
        void crowd(int n, const char* prefix = "X") {
            for (int i = 0; i < n; ++i) {
                Op o; o.kind = OP_ADD; o.t = prefix + std::to_string(extra.size()); o.v = gen_vals(); o.form = i % 3;
                perform(*m, o); w.stocks[o.t] = o.v; extra.push_back(o.t);
            }
            log("%d more stocks", n); step();
        }
        const string& ticker() { return !extra.empty() && chance(1, 2) ? extra[choose(extra.size())] : universe()[choose(universe().size())]; }
        // An accepted operation, without observers that throw.
        void accept(const Op& o) { log("%s", str(o).c_str()); step(); perform(*m, o); w = applied(w, o); }
        void refuse(const Op& o) {
            log("%s (to be refused)", str(o).c_str()); step();
            try { perform(*m, o); } catch (const std::exception&) { fault("refused-update"); return; }
            violate("refusal", "%s was accepted", str(o).c_str());
        }
        // A random piece of history on the stocks known so far.
        void some(int n, const vector<string>& ts) {
            for (int i = 0; i < n; ++i) {
                const bool bad = chance(1, 5);
                const Op o = gen_op_near(w, ts[choose(ts.size())], bad);
                if (admissible(w, o)) accept(o); else refuse(o);
            }
        }
    };
}
