// Recording harness: calls the public API of /repo and logs one JSON event per call.
// Nothing here knows what a result should be; the TLA+ specification decides that.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <string_view>
#include <sys/time.h>
#include <type_traits>
#include <unistd.h>
#include <vector>

#include "logic/array.hh"
#include "logic/logic.hh"
#include "logic/struct.hh"
#include "logic/union.hh"

template <int w, bool s = false> using B = logic::bit<w - 1, 0, s>;
template <int w, bool s = false> using G = logic::logic<w - 1, 0, s>;
// declared ranges
template <int m, int l, bool s = false> using BR = logic::bit<m, l, s>;
template <int m, int l, bool s = false> using GR = logic::logic<m, l, s>;

using Str = std::string;
using Sv = std::string_view;

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); }
    bool chance(int pct) { return below(100) < pct; }
};
extern Rng rng;

// ---------------------------------------------------------------- log
extern FILE *out;
extern long ev_count;
extern Str pending;  // the call in progress, for crash and hang reports
void flush_event(const Str &s);
void open_log(const char *path, uint64_t seed);
void close_log();
Str jstr(Sv s);  // JSON string literal

// ---------------------------------------------------------------- values
template <class T> concept Obj = requires { T::is_4state; T::size; };
template <class T> constexpr int kind_of = T::is_4state ? 4 : 2;
template <Obj T> constexpr bool sgn_of = T::is_signed;

// contents through the text form, cross-checked with single reads
// false: the words are kept in some other way; then only the text and single reads are used
template <class B> concept Words = requires(const B &b) { b.value.values[0] >> 1; } ||
                                   requires(const B &b) { static_cast<uint64_t>(b.value) >> 1; };
template <class T> constexpr bool has_words = [] {
    if constexpr (!T::is_4state) return Words<T>;
    else if constexpr (requires(const T &v) { v.value; v.xz_mask; })
        return Words<decltype(T::value)> && Words<decltype(T::xz_mask)>;
    else return false;
}();
template <Obj T> Str raw_digits(const T &v) requires(has_words<T>) {
    constexpr int w = static_cast<int>(T::size);
    Str r(w, '0');
    auto bit_of = [](const auto &b, int i) -> bool {
        if constexpr (requires { b.value.values; }) return (b.value.values[i / 64] >> (i % 64)) & 1;
        else return (static_cast<uint64_t>(b.value) >> i) & 1;
    };
    for (int i = 0; i < w; i++) {
        char c;
        if constexpr (T::is_4state) {
            bool v_ = bit_of(v.value, i), m = bit_of(v.xz_mask, i);
            c = m ? (v_ ? 'z' : 'x') : (v_ ? '1' : '0');
        } else {
            c = bit_of(v, i) ? '1' : '0';
        }
        r[w - 1 - i] = c;
    }
    return r;
}
// vote: the text, unless single reads and the stored words agree on something else; a broken
// printer then only matters where printing is the subject
template <Obj T> Str digits(const T &v) {
    Str s = v.str("b");
    if constexpr (requires { v[0]; } && has_words<T>) {
        Str r = raw_digits(v);
        if (r != s) {
            constexpr int w = static_cast<int>(T::size);
            if (s.size() != static_cast<size_t>(w)) return r;
            Str g(w, '?');
            for (int i = 0; i < w; i++) {
                auto d = v[i];
                g[w - 1 - i] = d.str("b")[0];
            }
            if (g == r) return r;
        }
    }
    return s;
}

template <class T> Str jval(const T &v) {
    if constexpr (std::is_same_v<T, bool>) {
        return v ? "[1,0,0,\"1\"]" : "[1,0,0,\"0\"]";
    } else if constexpr (std::is_integral_v<T>) {
        constexpr int n = sizeof(T) * 8;
        Str s(n, '0');
        for (int i = 0; i < n; i++)
            if ((static_cast<uint64_t>(v) >> i) & 1) s[n - 1 - i] = '1';
        return "[" + std::to_string(n) + (std::is_signed_v<T> ? ",1,1,\"" : ",0,1,\"") + s + "\"]";
    } else {
        Str s = digits(v);
        return "[" + std::to_string(T::size) + (sgn_of<T> ? ",1," : ",0,") +
               std::to_string(kind_of<T>) + ",\"" + s + "\"]";
    }
}
inline Str jlist(std::initializer_list<Str> l) {
    Str s = "[";
    for (auto const &x : l) {
        if (s.size() > 1) s += ",";
        s += x;
    }
    return s + "]";
}
inline Str jlist(const std::vector<Str> &l) {
    Str s = "[";
    for (auto const &x : l) {
        if (s.size() > 1) s += ",";
        s += x;
    }
    return s + "]";
}
struct P {
    int n = 0, v[6] = {};
    P() = default;
    P(std::initializer_list<int> l) {
        for (auto x : l) v[n++] = x;
    }
    [[nodiscard]] bool empty() const { return n == 0; }
    [[nodiscard]] const int *begin() const { return v; }
    [[nodiscard]] const int *end() const { return v + n; }
};
inline Str jp(const P &p) {
    Str s = "[";
    for (auto x : p) {
        if (s.size() > 1) s += ",";
        s += std::to_string(x);
    }
    return s + "]";
}

// an object with the given contents (most significant digit first)
template <Obj T> T mk(const Str &bits) {
    T v{Sv("'b" + bits)};
    if (digits(v) != bits) {
        // literals may be what is broken: store bit by bit
        if constexpr (requires { v.set(0, true); } && has_words<T>) {
            constexpr int w = static_cast<int>(T::size);
            auto put = [](auto &b, int i, bool x) {
                if constexpr (requires { b.value.values; }) {
                    auto &l = b.value.values[i / 64];
                    l = x ? (l | (1ull << (i % 64))) : (l & ~(1ull << (i % 64)));
                } else {
                    b.set(i, x);
                }
            };
            for (int i = 0; i < w; i++) {
                char c = bits[w - 1 - i];
                if constexpr (T::is_4state) {
                    put(v.value, i, c == '1' || c == 'z');
                    put(v.xz_mask, i, c == 'x' || c == 'z');
                } else {
                    put(v, i, c == '1');
                }
            }
        }
    }
    return v;
}

// ---------------------------------------------------------------- probes
// which observers tell the object from a freshly built one with the same printed contents
template <class T> long probe(const T &r) {
    if constexpr (!Obj<T>) {
        return 0;
    } else {
        constexpr bool s = sgn_of<T>;
        constexpr int w = static_cast<int>(T::size);
        using C = std::conditional_t<T::is_4state, G<w, s>, B<w, s>>;  // plain type
        C a = [&] {
            if constexpr (std::is_same_v<C, T>) return r;
            else {
                // the contents of an array as a plain vector, any residue included
                if constexpr (requires(C c) { c.value = r.value; c.xz_mask.value = r.xz_mask.value; }) {
                    C c = mk<C>(Str(w, '0'));
                    c.value = r.value;
                    c.xz_mask.value = r.xz_mask.value;
                    return c;
                } else if constexpr (!T::is_4state && requires(C c) { c.value = r.value; }) {
                    C c = mk<C>(Str(w, '0'));
                    c.value = r.value;
                    return c;
                } else {
                    return mk<C>(r.str("b"));
                }
            }
        }();
        Str bits = a.str("b");
        C f = mk<C>(bits);
        long m = 0;
        auto chk = [&m](int bit, bool same) {
            if (!same) m |= 1l << bit;
        };
        auto st = [](const auto &v) {
            if constexpr (std::is_same_v<std::decay_t<decltype(v)>, bool>) return Str(v ? "1" : "0");
            else return v.str("b");
        };
        chk(0, a.match(f) && f.match(a) && !a.nmatch(f));
        chk(1, static_cast<bool>(a) == static_cast<bool>(f) && st(!a) == st(!f));
        chk(2, st(a.r_and()) == st(f.r_and()));
        chk(3, st(a.r_or()) == st(f.r_or()));
        chk(4, st(a.r_xor()) == st(f.r_xor()));
        chk(5, a.str("d") == f.str("d") && a.str("0d") == f.str("0d"));
        chk(6, a.str("h") == f.str("h") && a.str("o") == f.str("o") && a.str("s") == f.str("s"));
        chk(7, a.to_uint64() == f.to_uint64());
        if constexpr (w <= 64) chk(8, a.to_num() == f.to_num());
        chk(9, st(a == f) == st(f == f) && st(a != f) == st(f != f));
        chk(10, st(a > f) == st(f > f) && st(a < f) == st(f < f));
        chk(11, st(a >= f) == st(f >= f) && st(a <= f) == st(f <= f));
        C k = mk<C>(Str(w - 1, '0') + "1");
        chk(12, st(a > k) == st(f > k) && st(a < k) == st(f < k) && st(k < a) == st(k < f));
        chk(13, st(a + k) == st(f + k) && st(k - a) == st(k - f) && st(a * a) == st(f * f));
        chk(14, st(a >> k) == st(f >> k) && st(a.ashr(k)) == st(f.ashr(k)) && st(a << k) == st(f << k));
        chk(15, st(~a) == st(~f) && st(-a) == st(-f));
        chk(16, st(a.template extend<w + 9>()) == st(f.template extend<w + 9>()) &&
                    st(a.template extend<w + 70>()) == st(f.template extend<w + 70>()));
        chk(17, st(a / k) == st(f / k) && st(k / a) == st(k / f) && st(a % k) == st(f % k));
        chk(18, st(a[w - 1]) == st(f[w - 1]) && st(a[0]) == st(f[0]) && st(a[w]) == st(f[w]));
        chk(19, st(k << a) == st(k << f) && st(k >> a) == st(k >> f));
        chk(20, st(a.to_signed()) == st(f.to_signed()) && st(a.to_unsigned()) == st(f.to_unsigned()));
        chk(21, st(a & k) == st(f & k) && st(a | k) == st(f | k) && st(a ^ k) == st(f ^ k));
        if constexpr (!T::is_4state)
            chk(22, a.popcount() == f.popcount() && a.any_set() == f.any_set() &&
                        a.all_set() == f.all_set() && a.negative() == f.negative());
        return m;
    }
}
extern bool probing;
// (probes are compiled in only where they are wanted: they instantiate everything)
template <class R> long probe_if(const R &r) {
#ifdef PROBING
    return probing ? probe(r) : 0;
#else
    (void)r;
    return 0;
#endif
}

// ---------------------------------------------------------------- events
inline Str head(const char *o, const P &p, const Str &x, Sv t = {}) {
    Str s = "{\"o\":\"";
    s += o;
    s += "\"";
    if (!p.empty()) s += ",\"p\":" + jp(p);
    if (!t.empty() || !strcmp(o, "parse") || !strcmp(o, "str")) s += ",\"t\":" + jstr(t);
    s += ",\"x\":" + x;
    return s;
}
// arm the crash report, run, log
inline void finish(const Str &h, const Str &r, long c, long u) {
    Str s = h + ",\"r\":" + r;
    if (c) s += ",\"c\":" + std::to_string(c);
    if (u) s += ",\"u\":" + std::to_string(u);
    flush_event(s);
}

// the parts of an event that do not depend on types are kept out of the templates
using Show = Str (*)(const void *);
template <class T> Str show(const void *v) { return jval(*static_cast<const T *>(v)); }
struct Call {
    Str h, ja, jb;
    Call(const char *o, const P &p, const void *a, Show sa, const void *b, Show sb);
    // r, r2: results; ca, cb: operands that must not have changed
    void done(const void *r, Show sr, const void *r2, Show sr2, const void *a, Show sa, const void *b, Show sb,
              long c);
};

// r = f(a, b) on constant operands
template <class A, class C, class F>
void ev2(const char *o, const P &p, const A &a, const C &b, F f) {
    Call e(o, p, &a, show<A>, &b, show<C>);
    auto const r = f(a, b);
    using R = std::decay_t<decltype(r)>;
    e.done(&r, show<R>, nullptr, nullptr, &a, show<A>, &b, show<C>, probe_if(r));
}
// r = f(a)
template <class A, class F> void ev1(const char *o, const P &p, const A &a, F f) {
    Call e(o, p, &a, show<A>, nullptr, nullptr);
    auto const r = f(a);
    using R = std::decay_t<decltype(r)>;
    e.done(&r, show<R>, nullptr, nullptr, &a, show<A>, nullptr, nullptr, probe_if(r));
}
// f(a, b) changes a
template <class A, class C, class F>
void evm2(const char *o, const P &p, A a, const C &b, F f) {
    Call e(o, p, &a, show<A>, &b, show<C>);
    f(a, b);
    e.done(&a, show<A>, nullptr, nullptr, nullptr, nullptr, &b, show<C>, probe_if(a));
}
// f(a, a) changes a
template <class A, class F> void evself(const char *o, const P &p, A a, F f) {
    Call e(o, p, &a, show<A>, &a, show<A>);
    f(a, a);
    e.done(&a, show<A>, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, probe_if(a));
}
template <class A, class F> void evm1(const char *o, const P &p, A a, F f) {
    Call e(o, p, &a, show<A>, nullptr, nullptr);
    f(a);
    e.done(&a, show<A>, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, probe_if(a));
}
// f(a) changes a and returns something
template <class A, class F> void evm1r(const char *o, const P &p, A a, F f) {
    Call e(o, p, &a, show<A>, nullptr, nullptr);
    auto const r = f(a);
    using R = std::decay_t<decltype(r)>;
    e.done(&a, show<A>, &r, show<R>, nullptr, nullptr, nullptr, nullptr, probe_if(a) | probe_if(r));
}
// result without operands
template <class F> void ev0(const char *o, const P &p, Sv t, F f) {
    Str h = head(o, p, "[]", t);
    pending = h;
    auto const r = f();
    Str jr = jval(r);
    finish(h, "[" + jr + "]", probe_if(r), 0);
}
template <class A> void evstr(const A &a, const Str &fmt) {
    Str h = head("str", {}, "[" + jval(a) + "]", fmt);
    pending = h;
    Str r = a.str(fmt);
    for (auto &ch : r)
        if (ch == 0) ch = '^';
    flush_event(h + ",\"rt\":" + jstr(r));
}

#include "inp.hh"
