// C02, C03, C04: the shared market under refused updates, memory exhaustion, throwing and re-entrant observers.
#include "history.h"
#include <algorithm>
#include <set>

namespace sim {
    // An observer of the simulator. `fn` is what the run wants it to do when called.
    struct Obs : op::MarketDataObserver {
        explicit Obs(const string& id, int no) : MarketDataObserver(id), no(no) {}
        ~Obs() override { alive = false; no = -1; }
        void update() override {
            Harness h; step();
            if (!alive || no < 0) violate("destroyed-observer-called", "a destroyed observer was called");
            if (const auto f = fn) f(*this);
            if (!alive) violate("destroyed-in-its-update", "an observer was destroyed while its update() was running");
        }
        int no; bool alive = true;
        std::function<void(Obs&)> fn;
    };

    // ------------------------------------------------------------------ C02
    void c02() {
        component("MarketData"); component("StockData"); component("Option");
        if (chance(1, 6)) { wild = 2; probe("unusual-values"); }
        Hist h(1 + choose(3));
        long calls = 0;
        vector<shared_ptr<Obs>> obs;
        for (auto& t : universe()) {
            if (chance(1, 4)) continue;
            auto o = std::make_shared<Obs>(t, (int)obs.size()); o->fn = [&](Obs&) { ++calls; };
            h.m->addObserver(o); obs.push_back(o);
        }
        vector<shared_ptr<Option>> opts;
        if (chance(1, 2)) opts.push_back(make_option(gen_option("AAA")));
        const bool faults = chance(1, 2);   // fault-free and fault-injecting runs are separate
        vector<std::pair<string, shared_ptr<const StockData>>> handles;
        for (auto& [t, v] : h.w.stocks) handles.push_back({t, h.m->getStockData(t)});
        const bool crowded = chance(1, 15);
        const int n = 1 + choose(12);
        for (int i = 0; i < n; ++i) {
            if (crowded && chance(1, 2)) {
                h.crowd(1 + choose(60)); probe("crowded-market");
                for (int k = 0; k < 3; ++k) { const string& t = h.extra[choose(h.extra.size())]; handles.push_back({t, h.m->getStockData(t)}); }
            }
            const Op o = gen_op_near(h.w, h.ticker(), chance(1, 2));
            const bool good = admissible(h.w, o);
            long k = 0;
            if (faults && chance(1, 2)) k = 1 + choose(12);
            const long burst = k && chance(1, 3) ? 1000 : 1;
            log("%s%s", str(o).c_str(), k ? " with a failing allocation" : "");
            step();
            const long calls0 = calls;
            enum { OKAY, INVALID, NOMEM, OTHER } res = OKAY; string what;
            {
                alloc_arm(k, burst);
                try { perform(*h.m, o); }
                catch (const std::invalid_argument&) { res = INVALID; }
                catch (const std::bad_alloc&) { res = NOMEM; }
                catch (const std::exception&) { res = OTHER; }
            }
            const long fired = alloc_disarm();
            const World before = h.w;
            if (!good) {
                nontrivial();
                if (res == OKAY) violate("accepted-inadmissible", "%s was accepted", str(o).c_str());
                if (res == NOMEM && !fired) violate("wrong-error", "%s failed with bad_alloc without memory having run out", str(o).c_str());
                if (calls != calls0) violate("observer-called-for-refused", "%s was refused, but %ld observer calls were made", str(o).c_str(), calls - calls0);
                const string d = difference(*h.m, before);
                if (!d.empty()) violate("state-changed-by-refused", "after refused %s: %s", str(o).c_str(), d.c_str());
                probe("refused");
                if (fired) probe("refused-while-out-of-memory");
            } else {
                const World after = applied(before, o);
                if (res == OKAY) h.w = after;
                else if (!fired) violate("refused-admissible", "%s was refused", str(o).c_str());
                else {
                    nontrivial();
                    const string dn = difference(*h.m, after), dold = difference(*h.m, before);
                    if (!dn.empty() && !dold.empty()) violate("torn-by-out-of-memory", "after out-of-memory in %s: %s", str(o).c_str(), dold.c_str());
                    probe(dold.empty() ? "out-of-memory-old-data" : "out-of-memory-new-data");
                    // and once there is memory again, the same call works
                    try { perform(*h.m, o); } catch (const std::exception& e) { violate("no-retry", "%s failed again after out-of-memory: %s", str(o).c_str(), e.what()); }
                    h.w = after;
                }
                const string d = difference(*h.m, h.w);
                if (!d.empty()) violate("state", "after %s: %s", str(o).c_str(), d.c_str());
            }
            for (auto& [t, p] : handles)
                if (!(read(*p) == h.w.stocks.at(t))) violate("handle", "a handle of '%s' shows %s, the market %s", t.c_str(), str(read(*p)).c_str(), str(h.w.stocks.at(t)).c_str());
            if (good && o.kind == OP_ADD) handles.push_back({o.t, h.m->getStockData(o.t)});
            // reading never changes anything, and an unknown stock cannot be read
            const string t = universe()[choose(universe().size())];
            if (!h.w.stocks.count(t)) {
                try { (void)h.m->getStockData(t); violate("unknown-read", "reading unknown stock '%s' succeeded", t.c_str()); }
                catch (const std::exception&) {}
                const string d = difference(*h.m, h.w);
                if (!d.empty()) violate("state-changed-by-read", "after reading unknown '%s': %s", t.c_str(), d.c_str());
            }
            log("state %s rate %g", h.w.stocks.count(o.t) ? str(h.w.stocks[o.t]).c_str() : "-", h.w.r);
        }
    }

    // ------------------------------------------------------------------ C03
    void c03() {
        component("MarketData");
        Hist h(1 + choose(3));
        struct Slot { shared_ptr<Obs> o; string id; int regs = 0; int calls = 0; int arm = 0; };
        std::map<int, Slot> slots; int next = 0;
        vector<shared_ptr<Option>> opts;
        World expect = h.w; bool in_change = false, raised = false; string ctx;
        // Usually a handful of observers and of changes; now and then a crowd, or a long history.
        const uint32_t shape = choose(20); const bool crowd = shape == 18, lengthy = shape == 19;
        if (crowd && chance(1, 2)) h.crowd(10 + choose(90));
        auto make = [&] {
            const int no = next++;
            Slot& s = slots[no]; s.id = crowd ? universe()[choose(2)] : universe()[choose(universe().size() - 1)];
            s.regs = crowd && chance(1, 20) ? 1 + choose(70) : 1 + choose(3) / 2;
            s.o = std::make_shared<Obs>(s.id, no);
            s.o->fn = [&](Obs& o) {
                Slot& me = slots.at(o.no); ++me.calls;
                log("  observer %d called", o.no);
                if (in_change) {
                    const string d = difference(*h.m, expect);
                    if (!d.empty()) violate("stale-during-notification", "during %s observer %d sees old data: %s", ctx.c_str(), o.no, d.c_str());
                }
                if (me.arm > 0 && --me.arm == 0) { fault("observer-throws"); raised = true; throw SimFault{100 + o.no}; }
            };
            for (int i = 0; i < s.regs; ++i) h.m->addObserver(s.o);
            log("observer %d on '%s' registered %d times", no, s.id.c_str(), s.regs);
        };
        const int n0 = crowd ? 10 + choose(290) : 1 + choose(5);
        for (int i = 0; i < n0; ++i) make();
        if (crowd) probe("crowd-of-observers");
        if (lengthy) probe("long-history");
        const bool oom = chance(1, 4), throwing = chance(1, 2);
        const int n = lengthy ? 300 + choose(600) : 2 + choose(14);
        const uint32_t favourite = lengthy ? choose(4) : 0;     // 0: everything, 1: rates, 2: prices, 3: everything but registrations
        for (int i = 0; i < n; ++i) {
            uint32_t act = lengthy && favourite ? 11 : choose(12);
            if (crowd && act < 6 && chance(2, 3)) act = 11;
            step();
            if (act == 1 && slots.size() < (crowd ? 400u : 9u)) { make(); continue; }
            if (act == 2 && slots.size() > 0) {
                auto it = slots.begin(); std::advance(it, choose(slots.size()));
                log("observer %d destroyed", it->first); slots.erase(it); probe("observer-destroyed"); continue;
            }
            if (act == 3) { log("purge"); h.m->removeObserver(); continue; }
            if (act == 4 && !slots.empty()) {
                auto it = slots.begin(); std::advance(it, choose(slots.size()));
                h.m->addObserver(it->second.o); it->second.regs++; log("observer %d registered again", it->first); continue;
            }
            if (act == 5) { if (opts.size() < 3) opts.push_back(make_option(gen_option("AAA"))); else opts.erase(opts.begin()); log("options: %zu", opts.size()); continue; }
            for (auto& [no, s] : slots) s.calls = 0;
            bool armed = false; raised = false;
            if (throwing && !slots.empty() && chance(1, 3)) {
                auto it = slots.begin(); std::advance(it, choose(slots.size()));
                it->second.arm = 1 + choose(2); armed = true;
            }
            enum { NONE, SIMFAULT, NOMEM, OTHER } res = NONE; int code = 0;
            std::function<bool(const string&)> concerned; bool optional_delivery = false;
            long k = oom && chance(1, 3) ? 1 + choose(4) : 0;
            if (act == 6) {                                                  // explicit notification
                const bool all = chance(1, 2); const string t = universe()[choose(universe().size())];
                ctx = all ? "notifyObservers()" : "notifyObserver(" + t + ")"; k = 0;
                concerned = [=](const string& id) { return all || id == t; };
                log("%s", ctx.c_str());
                try { if (all) h.m->notifyObservers(); else h.m->notifyObserver(t); }
                catch (const SimFault& f) { res = SIMFAULT; code = f.code; }
            } else {
                Op o = gen_op_near(h.w, h.ticker(), chance(1, 8), favourite == 1 ? (int)OP_RATE : favourite == 2 ? (int)OP_PRICE : -1);
                if (!admissible(h.w, o)) {
                    for (auto& [no, s] : slots) s.arm = 0;
                    log("%s (refused)", str(o).c_str());
                    try { perform(*h.m, o); violate("accepted-inadmissible", "%s was accepted", str(o).c_str()); } catch (const std::exception&) {}
                    for (auto& [no, s] : slots) if (s.calls) violate("called-for-refused", "observer %d was called for a refused update", no);
                    continue;
                }
                if (!changes(h.w, o)) { for (auto& [no, s] : slots) s.arm = 0; continue; }
                ctx = str(o); log("%s", ctx.c_str());
                optional_delivery = o.kind == OP_ADD && !h.w.stocks.count(o.t);
                concerned = [=](const string& id) { return o.kind == OP_RATE || id == o.t; };
                expect = applied(h.w, o); in_change = true;
                alloc_arm(k);
                try { perform(*h.m, o); }
                catch (const SimFault& f) { res = SIMFAULT; code = f.code; }
                catch (const std::bad_alloc&) { res = NOMEM; }
                catch (const std::exception&) { res = OTHER; }
                const long fired = alloc_disarm();
                in_change = false;
                if (res == NOMEM && !fired) violate("wrong-error", "%s failed with bad_alloc without memory having run out", ctx.c_str());
                if (res == OTHER) violate("wrong-error", "%s failed with an unexpected error", ctx.c_str());
                if (res == NOMEM) { const string d = difference(*h.m, expect); if (d.empty()) h.w = expect; }   // old or new is C02's business
                else {
                    h.w = expect;
                    const string d = difference(*h.m, h.w);
                    if (!d.empty()) violate(res == SIMFAULT ? "change-lost-by-throwing-observer" : "state", "after %s: %s", ctx.c_str(), d.c_str());
                }
            }
            bool fired = false;
            for (auto& [no, s] : slots) if (armed && s.arm == 0 && s.calls > 0 && code == 100 + no) fired = true;
            if (res == SIMFAULT && !fired) violate("wrong-error", "%s: the exception is not the one the observer threw", ctx.c_str());
            if (raised && res != SIMFAULT) violate("exception-lost", "%s: an observer threw, and the caller did not get its exception", ctx.c_str());
            for (auto& [no, s] : slots) {
                const bool mine = concerned(s.id);
                if (!mine && s.calls) violate("called-for-other-stock", "%s: observer %d of '%s' was called", ctx.c_str(), no, s.id.c_str());
                if (s.calls > s.regs) violate("called-too-often", "%s: observer %d was called %d times for %d registrations", ctx.c_str(), no, s.calls, s.regs);
                if (mine && res == NONE && !optional_delivery && s.calls != s.regs)
                    violate("not-called", "%s: observer %d was called %d times for %d registrations", ctx.c_str(), no, s.calls, s.regs);
                if (mine && s.calls) nontrivial();
            }
            if (res == SIMFAULT) probe("exception-reached-caller");
            for (auto& [no, s] : slots) s.arm = 0;
        }
    }
    // ------------------------------------------------------------------ C04
    struct Round { int id; std::map<int, int> due, calls; string ctx; };
    struct C04 {
        Hist h{2};
        struct Slot { shared_ptr<Obs> o; std::weak_ptr<Obs> w; string id; int regs = 0; };
        std::map<int, Slot> slots; int next = 0;
        vector<shared_ptr<Option>> opts;
        vector<Round*> stack; int budget = 0, rounds = 0; bool throwing = false;
        size_t deep = 0, deepest = 0;                        // a chain of changes, each made while the last is being announced

        bool alive(const Slot& s) const { return !s.w.expired(); }
        int make(int regs) {
            const int no = next++;
            Slot& s = slots[no]; s.id = universe()[choose(2)]; s.o = std::make_shared<Obs>(s.id, no); s.w = s.o;
            s.o->fn = [this](Obs& o) { called(o); };
            for (int i = 0; i < regs; ++i) { h.m->addObserver(s.o); s.regs++; }
            log("%*sobserver %d on '%s' registered %d times", (int)stack.size() * 2, "", no, s.id.c_str(), regs);
            return no;
        }
        int pick() { if (slots.empty()) return -1; auto it = slots.begin(); std::advance(it, choose(slots.size())); return it->first; }
        void drop(int no) {
            if (no < 0 || !slots[no].o) return;
            log("%*sobserver %d dropped", (int)stack.size() * 2, "", no);
            auto p = std::move(slots[no].o); slots[no].o = nullptr; p.reset();
        }
        void change(const Op& o) {
            if (!admissible(h.w, o)) {
                try { perform(*h.m, o); violate("accepted-inadmissible", "%s was accepted", str(o).c_str()); } catch (const std::exception&) {}
                return;
            }
            if (!changes(h.w, o)) return;
            Round r; r.id = ++rounds; r.ctx = str(o);
            const bool fresh = o.kind == OP_ADD && !h.w.stocks.count(o.t);
            if (!fresh) for (auto& [no, s] : slots) if (alive(s) && (o.kind == OP_RATE || s.id == o.t)) r.due[no] = s.regs;
            log("%*s%s {", (int)stack.size() * 2, "", r.ctx.c_str());
            stack.push_back(&r); h.w = applied(h.w, o);
            if (stack.size() > 1) { fault("re-entrant-change"); nontrivial(); }
            bool ended = true; int code = 0;
            try { perform(*h.m, o); } catch (const SimFault& f) { ended = false; code = f.code; }
            catch (const std::exception& e) { violate("exception", "%s failed: %s", r.ctx.c_str(), e.what()); }
            stack.pop_back();
            log("%*s}%s", (int)stack.size() * 2, "", ended ? "" : " ended by exception");
            for (auto& [no, d] : r.due) {
                const Slot& s = slots[no]; const int got = r.calls.count(no) ? r.calls[no] : 0;
                if (ended && alive(s) && got < d) violate("not-called", "%s: observer %d, registered before and alive after, was called %d times for %d registrations", r.ctx.c_str(), no, got, d);
            }
            for (auto& [no, got] : r.calls) {
                const Slot& s = slots[no]; const int d = r.due.count(no) ? r.due[no] : 0;
                if (!fresh && o.kind != OP_RATE && s.id != o.t) violate("called-for-other-stock", "%s: observer %d of '%s' was called", r.ctx.c_str(), no, s.id.c_str());
                if (got > std::max(d, s.regs)) violate("called-too-often", "%s: observer %d was called %d times for %d registrations", r.ctx.c_str(), no, got, s.regs);
            }
            if (!ended) throw SimFault{code};
        }
        void called(Obs& o) {
            if (stack.empty()) violate("called-without-change", "observer %d was called outside a change", o.no);
            stack.back()->calls[o.no]++;
            log("%*sobserver %d called", (int)stack.size() * 2, "", o.no);
            const string d = difference(*h.m, h.w);
            if (!d.empty()) violate("stale-during-notification", "observer %d: %s", o.no, d.c_str());
            deepest = std::max(deepest, stack.size());
            if (deep > 0) {
                --deep;
                Op n; n.t = universe()[choose(2)]; n.kind = choose(4) ? (int)OP_PRICE : (int)choose(N_OP);
                n = gen_op(n.t, false, n.kind);
                if (!changes(h.w, n)) { n.kind = OP_PRICE; n.x = 40 + deep; }
                change(n);
                return;
            }
            while (budget > 0 && chance(3, 5)) { --budget; act(&o); }
        }
        void act(Obs* self) {
            step();
            const uint32_t a = choose(self ? 12 : 9);
            switch (a) {
                case 0: { Op o = gen_op_near(h.w, universe()[choose(2)], chance(1, 8)); change(o); break; }
                case 1: make(1 + choose(2)); fault("observer-created"); break;
                case 2: drop(pick()); fault("observer-destroyed"); break;
                case 3: if (opts.size() < 6) { opts.push_back(make_option(gen_option(universe()[choose(2)]))); log("option created"); fault("option-created"); } break;
                case 4: if (!opts.empty()) { const size_t k = choose(opts.size()); auto p = opts[k]; opts.erase(opts.begin() + k); p.reset(); log("option destroyed"); fault("option-destroyed"); } break;
                case 5: h.m->removeObserver(); log("purge"); fault("purge"); break;
                case 6: { Op o; o.kind = OP_ADD; const uint32_t k = choose(universe().size()); o.t = universe()[k]; o.v = gen_vals(); change(o); fault("stock-added"); break; }
                case 7: { const int no = pick(); if (no >= 0 && slots[no].o) { h.m->addObserver(slots[no].o); slots[no].regs++; log("observer %d registered again", no); } break; }
                case 8: { Op o = gen_op("", false, OP_RATE); change(o); break; }
                case 9: if (self) { log("observer %d drops itself", self->no); drop(self->no); fault("observer-drops-itself"); } break;
                case 10: if (throwing && self) { fault("observer-throws"); throw SimFault{self->no}; } break;
                default: try { Op o = gen_op(universe()[choose(2)], false); change(o); } catch (const SimFault&) { log("caught"); } break;
            }
        }
    };
    void c04_growth() {
        Hist h(1);
        auto watcher = std::make_shared<Obs>("AAA", 0); h.m->addObserver(watcher);
        vector<shared_ptr<Option>> live;
        const int kind = choose(N_OPT), hold = choose(3); const bool tick = chance(1, 2);
        log("cycles of %s options, %d held, %s", opt_name(kind), hold, tick ? "with ticks" : "without ticks");
        OptSpec s; s.kind = kind;
        for (int i = 0; i < hold; ++i) live.push_back(make_option(s));
        // the newest goes first, or the oldest, or any, out of a window of constant size
        const int order = choose(3); const size_t window = order ? 2 + choose(8) : 0; uint32_t salt = 1 + choose(1000);
        vector<shared_ptr<Option>> win; for (size_t i = 0; i < window; ++i) win.push_back(make_option(s));
        auto cycle = [&](int n) {
            for (int i = 0; i < n; ++i) {
                win.push_back(make_option(s));
                if (tick && i % 7 == 0) h.m->updateStockPrice("AAA", 50 + i % 50);
                salt = salt * 1664525u + 1013904223u;
                if (order == 0) win.pop_back(); else win.erase(win.begin() + (order == 1 ? 0 : (salt >> 8) % win.size()));
                if (i % 16 == 0) step();
            }
        };
        cycle(100);
        const long b0 = live_bytes(), n0 = live_blocks();
        cycle(1000);
        const long b1 = live_bytes(), n1 = live_blocks();
        nontrivial(); probe("growth-measured");
        if (b1 - b0 > 12000 || n1 - n0 > 500)
            violate("market-grows", "1000 creations and destructions of an option made memory grow by %ld bytes in %ld blocks", b1 - b0, n1 - n0);
    }
    void c04() {
        component("MarketData"); component("Option"); component("option factories");
        if (chance(1, 20)) { c04_growth(); return; }
        C04 c; c.throwing = chance(1, 3);
        const uint32_t shape = choose(20); const bool crowd = shape == 18, deep = shape == 19;
        const int n = crowd ? 10 + choose(150) : 1 + choose(4);
        for (int i = 0; i < n; ++i) c.make(crowd && chance(1, 20) ? 1 + choose(70) : 1 + choose(3) / 2);
        if (crowd) { probe("crowd-of-observers"); if (chance(1, 2)) c.h.crowd(1 + choose(40)); }
        const int ops = 1 + choose(8);
        for (int i = 0; i < ops; ++i) {
            c.budget = crowd ? 1 + choose(60) : 1 + choose(8);
            if (deep) {
                c.deep = 2 + choose(choose(4) ? 30 : 150); c.budget = 0;
                for (auto& t : {universe()[0], universe()[1]}) { Op o; o.kind = OP_PRICE; o.t = t; o.x = 33 + i; if (changes(c.h.w, o)) { try { c.change(o); } catch (const SimFault&) {} } }
                c.deep = 0; if (c.deepest > 9) probe("deeply-nested-changes");
                c.budget = 1 + choose(8);
            }
            try { c.act(nullptr); } catch (const SimFault&) { log("exception reached the top"); }
        }
        // the market is still usable, and delivers exactly
        c.budget = 0;
        for (auto& t : {universe()[0], universe()[1]}) { Op o; o.kind = OP_PRICE; o.t = t; o.x = 77.25; if (!changes(c.h.w, o)) o.x = 78.5; c.change(o); }
        Op o; o.kind = OP_RATE; o.x = 0.0123; c.change(o);
        const string d = difference(*c.h.m, c.h.w);
        if (!d.empty()) violate("state", "at the end: %s", d.c_str());
        auto opt = make_option(OptSpec{}); if (opt->getID() != "AAA") violate("state", "option created at the end is wrong");
    }
}
