// Histories: a register file of objects and a menu of calls on them (C13, C19).
#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <fstream>
#include "ops.hh"

inline bool log_on = true;
template <class T> const T &cref(const T &v) { return v; }
// a call on registers: x names operands, d destinations of the results
struct Step {
    Str h, d;
    Step(const char *o, const char *p, const char *x, const char *d_, const char *t = nullptr) {
        if (!log_on) {
            pending = Str("{\"o\":\"") + o + "\",\"p\":" + p + ",\"x\":" + x;
            return;
        }
        h = Str("{\"o\":\"") + o + "\",\"p\":" + p + ",\"x\":" + x;
        if (t) h += ",\"t\":" + jstr(t);
        d = d_;
        pending = h;
    }
    template <class... T> void res(const T &...r) {
        if (log_on) flush_event(h + ",\"d\":" + d + ",\"r\":" + jlist({jval(r)...}));
    }
};
// results that are kept in other registers / changed operands
#define OPR(o, p, x, d, dst, e) { Step s_(o, p, x, d); auto const r_ = e; s_.res(r_); dst = r_; }
#define OPM(o, p, x, d, obj, e) { Step s_(o, p, x, d); e; s_.res(obj); }
#define OPT(o, p, x, d, t, dst, e) { Step s_(o, p, x, d, t); auto const r_ = e; s_.res(r_); dst = r_; }
#define OPP(o, p, x, d, obj, dst, e) { Step s_(o, p, x, d); auto const r_ = e; s_.res(obj, r_); dst = r_; }

template <class R> struct Hist {
    using Fn = void (*)(R &);
    std::vector<Fn> menu;
    std::vector<const char *> names;

    static Str all(const R &g) {
        Str s;
        g.each([&](auto const &v) { s += (s.empty() ? "" : " ") + digits(v); });
        return s;
    }
    static long probes(const R &g) {
        long c = 0;
        g.each([&](auto const &v) { c |= probe_if(v); });
        return c;
    }
    static Str values(const R &g) {
        std::vector<Str> l;
        g.each([&](auto const &v) { l.push_back(jval(v)); });
        return jlist(l);
    }
    static void load(R &g, const std::vector<Str> &c) {
        size_t i = 0;
        g.each([&](auto &v) {
            using T = std::decay_t<decltype(v)>;
            v = mk<T>(c.at(i++));
        });
    }
    // random walk, recorded
    void walk(int rounds, int steps) {
        for (int r = 0; r < rounds; r++) {
            auto g = std::make_unique<R>();
            if (r % 3)
                g->each([](auto &v) {
                    using T = std::decay_t<decltype(v)>;
                    v = mk<T>(in1<T>(35));
                });
            pending = "{\"o\":\"reset\"";
            flush_event("{\"o\":\"reset\",\"r\":" + values(*g));
            for (int i = 0; i < steps; i++) {
                menu[rng.below(static_cast<int>(menu.size()))](*g);
                if (i % 3 == 2 || i == steps - 1) dump(*g);
                if (rng.chance(5)) {  // some register gets boundary contents
                    int pick = rng.below(12);
                    g->each([&pick](auto &v) {
                        using T = std::decay_t<decltype(v)>;
                        if (pick-- == 0) v = mk<T>(rng.chance(50) ? Str(T::size, "01"[rng.below(2)]) : in1<T>(20));
                    });
                    flush_event("{\"o\":\"reset\",\"r\":" + values(*g));
                }
                if (rng.chance(10)) {  // copies are as good as the original
                    auto h = std::make_unique<R>(*g);
                    g = std::move(h);
                }
            }
        }
    }
    void dump(const R &g) {
        pending = "{\"o\":\"dump\"";
        flush_event("{\"o\":\"dump\",\"r\":" + values(g) + ",\"c\":" + std::to_string(probes(g)));
    }
    void compare(const R &g, int k, const Str &from, const Str &want) {
        Str got = all(g);
        long c = probes(g);
        // of the many steps of the exhaustive mode that agree, every eighth is kept
        if (thin && got == want && !c && ++thinned % 8) return;
        flush_event(Str("{\"o\":\"replayed\",\"t\":") + jstr(k ? names.at(k - 1) : "load") + ",\"from\":" +
                    jstr(from) + ",\"r\":[],\"rt\":" + jstr(got) + ",\"rt4\":" + jstr(want) +
                    ",\"c\":" + std::to_string(c));
    }
    bool thin = false;
    long thinned = 0;
    // behaviours of the specification
    void replay(const char *file) {
        log_on = false;
        std::ifstream in(file);
        Str line;
        auto g = std::make_unique<R>();
        size_t n = 0;
        g->each([&n](auto const &) { n++; });
        std::map<Str, std::pair<std::unique_ptr<R>, std::unique_ptr<R>>> seen;  // contents -> first, latest
        Str prev;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            Str w;
            is >> w;
            auto read = [&] {
                std::vector<Str> c;
                for (size_t i = 0; i < n; i++) {
                    Str x;
                    is >> x;
                    c.push_back(x);
                }
                return c;
            };
            auto join = [](const std::vector<Str> &c) {
                Str s;
                for (auto const &x : c) s += (s.empty() ? "" : " ") + x;
                return s;
            };
            if (w == "B") {
                auto c = read();
                g = std::make_unique<R>();
                load(*g, c);
                prev = join(c);
                compare(*g, 0, "", prev);
            } else if (w == "S") {
                int k;
                is >> k;
                auto c = join(read());
                menu.at(k - 1)(*g);
                compare(*g, k, prev, c);
                if (all(*g) != c) {  // go on from where the specification is
                    std::istringstream cs(c);
                    std::vector<Str> v(n);
                    for (auto &x : v) cs >> x;
                    load(*g, v);
                }
                prev = c;
            } else if (w == "T") {
                thin = true;
                auto from = read();
                int k;
                is >> k;
                auto to = join(read());
                auto f = join(from);
                auto &s = seen[f];
                if (!s.first) {
                    s.first = std::make_unique<R>();
                    load(*s.first, from);
                    if (all(*s.first) != f) compare(*s.first, 0, "", f);
                }
                // the objects as the code reached these contents first and last
                std::vector<std::unique_ptr<R>> from_;
                from_.push_back(std::make_unique<R>(*s.first));
                if (s.second) from_.push_back(std::make_unique<R>(*s.second));
                for (auto &h : from_) {
                    menu.at(k - 1)(*h);
                    Str got = all(*h);
                    compare(*h, k, f, to);
                    if (got == to) {
                        auto &t = seen[to];
                        (t.first ? t.second : t.first) = std::move(h);
                    }
                }
            }
        }
    }
};
