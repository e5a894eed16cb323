// Families of calls. Each template makes n calls per operation for one combination of types.
#pragma once
#include "h.hh"

// ------------------------------------------------------------------ bitwise (C01)
template <class A, class C> void bitwise(int n) {
    for (int i = 0; i < n; i++) {
        auto in = in2<A, C>(75);
        A a = mk<A>(in.a);
        C b = mk<C>(in.b);
        ev2("and", {}, a, b, [](auto const &x, auto const &y) { return x & y; });
        ev2("or", {}, a, b, [](auto const &x, auto const &y) { return x | y; });
        ev2("xor", {}, a, b, [](auto const &x, auto const &y) { return x ^ y; });
        if constexpr (A::is_4state == C::is_4state) {
            evm2("andeq", {}, a, b, [](auto &x, auto const &y) { x &= y; });
            evm2("oreq", {}, a, b, [](auto &x, auto const &y) { x |= y; });
            evm2("xoreq", {}, a, b, [](auto &x, auto const &y) { x ^= y; });
        }
    }
}
template <class A, class C, int t> void bitwise_to(int n) {
    for (int i = 0; i < n; i++) {
        auto in = in2<A, C>(75);
        A a = mk<A>(in.a);
        C b = mk<C>(in.b);
        ev2("and_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template and_<t>(y); });
        ev2("or_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template or_<t>(y); });
        ev2("xor_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template xor_<t>(y); });
    }
}
template <class A> void invert(int n) {
    for (int i = 0; i < n; i++) ev1("not", {}, mk<A>(in1<A>()), [](auto const &x) { return ~x; });
}
// every pair of contents
template <class A, class C> void bitwise_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (int j = 0; j < count_all(C::size, C::is_4state); j++) {
            A a = mk<A>(nth(i, A::size, A::is_4state));
            C b = mk<C>(nth(j, C::size, C::is_4state));
            ev2("and", {}, a, b, [](auto const &x, auto const &y) { return x & y; });
            ev2("or", {}, a, b, [](auto const &x, auto const &y) { return x | y; });
            ev2("xor", {}, a, b, [](auto const &x, auto const &y) { return x ^ y; });
        }
}

// ------------------------------------------------------------------ reductions, truth (C02)
template <class A> void reduce_one(const A &a) {
    ev1("rand", {}, a, [](auto const &x) { return x.r_and(); });
    ev1("rnand", {}, a, [](auto const &x) { return x.r_nand(); });
    ev1("ror", {}, a, [](auto const &x) { return x.r_or(); });
    ev1("rnor", {}, a, [](auto const &x) { return x.r_nor(); });
    ev1("rxor", {}, a, [](auto const &x) { return x.r_xor(); });
    ev1("rxnor", {}, a, [](auto const &x) { return x.r_xnor(); });
    ev1("lnot", {}, a, [](auto const &x) { return !x; });
    ev1("bool", {}, a, [](auto const &x) { return static_cast<bool>(x); });
    if constexpr (!A::is_4state) {
        ev1("popcount", {}, a, [](auto const &x) { return x.popcount(); });
        ev1("allset", {}, a, [](auto const &x) { return x.all_set(); });
        ev1("anyset", {}, a, [](auto const &x) { return x.any_set(); });
        ev1("negative", {}, a, [](auto const &x) { return x.negative(); });
        if (digits(a).find('1') != Str::npos)
            ev1("hibit", {}, a, [](auto const &x) { return x.highest_bit(); });
        if (rng.chance(20)) evm1("maskall", {}, a, [](auto &x) { x.mask(); });
    }
}
template <class A> void reduce(int n) {
    constexpr int w = A::size;
    auto go = [](Str s) { reduce_one(mk<A>(s)); };
    go(Str(w, '0'));
    go(Str(w, '1'));
    // one decisive digit anywhere
    for (int i = 0; i < n; i++) {
        Str s(w, "01"[rng.below(2)]);
        int p = rng.chance(30) ? (rng.chance(50) ? 0 : w - 1) : rng.below(w);
        s[p] = A::is_4state ? "01xz"[rng.below(4)] : "01"[rng.below(2)];
        if (A::is_4state && rng.chance(40)) s[rng.below(w)] = "01xz"[rng.below(4)];
        go(s);
        if (rng.chance(50)) go(in1<A>());
    }
}
template <class A> void reduce_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        reduce_one(mk<A>(nth(i, A::size, A::is_4state)));
}
// the one differing digit walks over every position
template <class A> void reduce_walk() {
    constexpr int w = A::size;
    for (int p = 0; p < w; p++)
        for (char bg : {'0', '1'})
            for (char d : {'0', '1', 'x', 'z'}) {
                if (d == bg || (!A::is_4state && (d == 'x' || d == 'z'))) continue;
                Str s(w, bg);
                s[p] = d;
                A a = mk<A>(s);
                ev1("rand", {}, a, [](auto const &x) { return x.r_and(); });
                ev1("ror", {}, a, [](auto const &x) { return x.r_or(); });
                ev1("rxor", {}, a, [](auto const &x) { return x.r_xor(); });
                ev1("lnot", {}, a, [](auto const &x) { return !x; });
                ev1("bool", {}, a, [](auto const &x) { return static_cast<bool>(x); });
            }
}

// every pair of digits at and next to the ends and the word boundaries, anywhere in two backgrounds
template <class A> void reduce_pair() {
    constexpr int w = A::size;
    for (int p : {0, 1, 6, 7, 15, 30, 31, 62, 63, 64, 126, 127, 128, w - 3, w - 2}) {
        if (p < 0 || p > w - 2 || (p > 1 && p < w - 3 && rng.chance(75))) continue;
        for (char bg : {'0', '1'})
            for (char hi : {'0', '1', 'x', 'z'})
                for (char lo : {'0', '1', 'x', 'z'}) {
                    if (!A::is_4state && (hi > '1' || lo > '1')) continue;
                    Str s(w, bg);
                    s[w - 1 - p] = lo;
                    s[w - 2 - p] = hi;
                    A a = mk<A>(s);
                    ev1("rand", {}, a, [](auto const &x) { return x.r_and(); });
                    ev1("ror", {}, a, [](auto const &x) { return x.r_or(); });
                    ev1("rxor", {}, a, [](auto const &x) { return x.r_xor(); });
                    ev1("lnot", {}, a, [](auto const &x) { return !x; });
                    ev1("bool", {}, a, [](auto const &x) { return static_cast<bool>(x); });
                }
    }
}

// ------------------------------------------------------------------ arithmetic (C03)
template <class A, class C> void arith_one(const A &a, const C &b) {
    ev2("add", {}, a, b, [](auto const &x, auto const &y) { return x + y; });
    ev2("sub", {}, a, b, [](auto const &x, auto const &y) { return x - y; });
    ev2("mul", {}, a, b, [](auto const &x, auto const &y) { return x * y; });
}
template <class A, class C> void arith(int n) {
    for (int i = 0; i < n; i++) {
        auto in = in2<A, C>(8);
        arith_one(mk<A>(in.a), mk<C>(in.b));
    }
}
template <class A, class C> void arith_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (int j = 0; j < count_all(C::size, C::is_4state); j++)
            arith_one(mk<A>(nth(i, A::size, A::is_4state)), mk<C>(nth(j, C::size, C::is_4state)));
}
template <class A, class C, int t> void arith_to(int n) {
    for (int i = 0; i < n; i++) {
        auto in = in2<A, C>(8);
        A a = mk<A>(in.a);
        C b = mk<C>(in.b);
        ev2("add_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template add<t>(y); });
        ev2("sub_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template minus<t>(y); });
        ev2("mul_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template multiply<t>(y); });
    }
}
template <class A> void unary_one(const A &a) {
    ev1("neg", {}, a, [](auto const &x) { return -x; });
    ev1("pos", {}, a, [](auto const &x) { return +x; });
    evm1("preinc", {}, a, [](auto &x) { ++x; });
    evm1("predec", {}, a, [](auto &x) { --x; });
    evm1r("postinc", {}, a, [](auto &x) { return x++; });
    evm1r("postdec", {}, a, [](auto &x) { return x--; });
    if constexpr (!A::is_4state) {
        ev1("negate", {}, a, [](auto const &x) { return x.negate(); });
        evm1("negateeq", {}, a, [](auto &x) { x.negate(); });
    }
}
template <class A> void unary(int n) {
    for (int i = 0; i < n; i++) unary_one(mk<A>(in1<A>(8)));
}
template <class A> void neg_only(int n) {
    for (int i = 0; i < n; i++) ev1("neg", {}, mk<A>(in1<A>(8)), [](auto const &x) { return -x; });
}
template <class A> void unary_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        unary_one(mk<A>(nth(i, A::size, A::is_4state)));
}

// ------------------------------------------------------------------ division (C04)
template <class A, class C> void div_one(const A &a, const C &b) {
    ev2("div", {}, a, b, [](auto const &x, auto const &y) { return x / y; });
    ev2("mod", {}, a, b, [](auto const &x, auto const &y) { return x % y; });
}
template <class A, class C> void divide(int n) {
    for (int i = 0; i < n; i++) {
        auto in = indiv<A, C>();
        div_one(mk<A>(in.a), mk<C>(in.b));
    }
}
template <class A, class C> void divide_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (int j = 0; j < count_all(C::size, C::is_4state); j++)
            div_one(mk<A>(nth(i, A::size, A::is_4state)), mk<C>(nth(j, C::size, C::is_4state)));
}
template <class A, class C, int t> void divide_to(int n) {
    for (int i = 0; i < n; i++) {
        auto in = indiv<A, C>();
        A a = mk<A>(in.a);
        C b = mk<C>(in.b);
        ev2("div_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template divide<t>(y); });
        ev2("mod_to", {t}, a, b, [](auto const &x, auto const &y) { return x.template mod<t>(y); });
    }
}

// ------------------------------------------------------------------ shifts (C05)
template <class A, class C> void shift_one(const A &a, const C &b) {
    constexpr bool mixed = A::is_4state != C::is_4state;
    if constexpr (!mixed) {
        ev2("shl", {}, a, b, [](auto const &x, auto const &y) { return x << y; });
        ev2("shr", {}, a, b, [](auto const &x, auto const &y) { return x >> y; });
    }
    ev2("ashl", {}, a, b, [](auto const &x, auto const &y) { return x.ashl(y); });
    if constexpr (!mixed) {
#ifdef PROBING  // known finding of C05
        if constexpr (!sgn_of<A> || A::size <= 64)
#endif
            ev2("ashr", {}, a, b, [](auto const &x, auto const &y) { return x.ashr(y); });
        evm2("shleq", {}, a, b, [](auto &x, auto const &y) { x <<= y; });
        evm2("shreq", {}, a, b, [](auto &x, auto const &y) { x >>= y; });
    }
}
template <class A, class C> void shift(int n) {
    for (int i = 0; i < n; i++) {
        auto in = inshift<A, C>();
        shift_one(mk<A>(in.a), mk<C>(in.b));
    }
}
template <class A, class C> void shift_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (int j = 0; j < count_all(C::size, C::is_4state); j++)
            shift_one(mk<A>(nth(i, A::size, A::is_4state)), mk<C>(nth(j, C::size, C::is_4state)));
}
// every amount up to past the width
template <class A, class C> void shift_walk() {
    for (int k = 0; k <= static_cast<int>(A::size) + 2; k++) {
        Str s = g01(A::size);
        if (k % 2) s[0] = '1';
        shift_one(mk<A>(s), mk<C>(gnum(static_cast<uint64_t>(k), C::size)));
    }
}

// ------------------------------------------------------------------ comparison (C06, C07)
template <class A, class C> void compare_one(const A &a, const C &b) {
    if constexpr (A::is_4state || !C::is_4state) {
        ev2("eq", {}, a, b, [](auto const &x, auto const &y) { return x == y; });
        ev2("ne", {}, a, b, [](auto const &x, auto const &y) { return x != y; });
    }
    ev2("lt", {}, a, b, [](auto const &x, auto const &y) { return x < y; });
    ev2("gt", {}, a, b, [](auto const &x, auto const &y) { return x > y; });
    ev2("le", {}, a, b, [](auto const &x, auto const &y) { return x <= y; });
    ev2("ge", {}, a, b, [](auto const &x, auto const &y) { return x >= y; });
}
template <class A, class C> void compare(int n) {
    for (int i = 0; i < n; i++) {
        auto in = in2<A, C>(12);
        compare_one(mk<A>(in.a), mk<C>(in.b));
    }
}
template <class A, class C> void compare_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (int j = 0; j < count_all(C::size, C::is_4state); j++)
            compare_one(mk<A>(nth(i, A::size, A::is_4state)), mk<C>(nth(j, C::size, C::is_4state)));
}
// a value against itself with one digit changed, at every position
template <class A, class C> void compare_walk() {
    constexpr int wa = A::size, wb = C::size;
    for (int p = 0; p < wb; p++) {
        Str a = g01(wa), b = gext(a, sgn_of<A>, wb);
        b[p] ^= 1;
        compare_one(mk<A>(a), mk<C>(b));
    }
}
template <class A, class C> void match_one(const A &a, const C &b) {
    ev2("match", {}, a, b, [](auto const &x, auto const &y) { return x.match(y); });
    ev2("nmatch", {}, a, b, [](auto const &x, auto const &y) { return x.nmatch(y); });
}
template <class A, class C> void match(int n) {
    for (int i = 0; i < n; i++) {
        auto in = in2<A, C>(70);
        match_one(mk<A>(in.a), mk<C>(in.b));
        Str s = in1<A>(70);
        if (A::size == C::size && A::is_4state == C::is_4state) {
            match_one(mk<A>(s), mk<C>(s));
            match_one(mk<A>(s), mk<C>(gmut(s, A::is_4state)));
        }
    }
}
template <class A, class C> void match_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (int j = 0; j < count_all(C::size, C::is_4state); j++)
            match_one(mk<A>(nth(i, A::size, A::is_4state)), mk<C>(nth(j, C::size, C::is_4state)));
}
template <class A, class C> void match_walk() {
    for (int p = 0; p < static_cast<int>(A::size); p++) {
        Str a = in1<A>(70), b = a;
        while (b[p] == a[p]) b[p] = A::is_4state ? "01xz"[rng.below(4)] : "01"[rng.below(2)];
        match_one(mk<A>(a), mk<C>(b));
        match_one(mk<A>(a), mk<C>(a));
    }
}
// values reached by operations rather than built
template <class A> void match_computed(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(40)), b = mk<A>(in1<A>(40));
        auto go = [](auto const &r, auto const &s) {
            using R = std::decay_t<decltype(r)>;
            R f = mk<R>(digits(r));
            match_one(r, f);
            match_one(f, r);
            match_one(r, s);
        };
        go(a + b, b + a);
        go(a - b, b - a);
        go(a & b, a);
        go(a | b, b);
        go(a ^ b, b ^ a);
        go(~a, ~b);
        go(-a, a);
        go(a << b, a);
        go(a >> b, a);
        go(a.to_unsigned(), b.to_unsigned());
        go(a.to_signed(), b.to_signed());
        A c = a;
        ++c;
        go(c, a);
    }
}

// ------------------------------------------------------------------ conversion (C08)
template <class A, int t> void extend_(int n) {
    for (int i = 0; i < n; i++)
        ev1("ext", {t}, mk<A>(in1<A>()), [](auto const &x) { return x.template extend<t>(); });
}
template <class A> void resign(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        ev1("tosigned", {}, a, [](auto const &x) { return x.to_signed(); });
        ev1("tounsigned", {}, a, [](auto const &x) { return x.to_unsigned(); });
    }
}
template <class A, class C> constexpr bool A_is_B = std::is_same_v<A, C>;
template <class D, class S> void assign(int n) {
    for (int i = 0; i < n; i++) {
        D d = mk<D>(in1<D>());
        S s = mk<S>(in1<S>());
        evm2("assign", {}, d, s, [](auto &x, auto const &y) { x = y; });
        if constexpr (A_is_B<D, S> || (sgn_of<S> && D::is_4state == S::is_4state))
            ev1("conv", {D::size, sgn_of<D>, kind_of<D>}, s, [](auto const &x) { return D(x); });
    }
}
template <class D, class S> void construct(int n) {
    for (int i = 0; i < n; i++)
        ev1("conv", {D::size, sgn_of<D>, kind_of<D>}, mk<S>(in1<S>()), [](auto const &x) { return D(x); });
}
template <class D, class I> void fromint_one(I v) {
    ev1("fromint", {D::size, sgn_of<D>, kind_of<D>}, v, [](auto const &x) { return D(x); });
    D d = mk<D>(in1<D>());
    evm2("assignint", {}, d, v, [](auto &x, auto const &y) { x = y; });
}
template <class D, class I> void fromint(int n) {
    for (int i = 0; i < n; i++) {
        Str s = g01(sizeof(I) * 8);
        uint64_t u = 0;
        for (char c : s) u = u * 2 + (c == '1');
        fromint_one<D, I>(static_cast<I>(u));
    }
}
// (arrays are built from numbers but not assigned from them)
template <class D> void array_ints(int n) {
    auto one = [](auto v) {
        ev1("fromint", {D::size, sgn_of<D>, kind_of<D>}, v, [](auto const &x) { return D(x); });
    };
    for (int i = 0; i < n; i++) {
        one(static_cast<int32_t>(strtoull(g01(32).c_str(), nullptr, 2)));
        one(static_cast<uint64_t>(strtoull(g01(64).c_str(), nullptr, 2)));
        one(static_cast<int8_t>(strtoull(g01(8).c_str(), nullptr, 2)));
    }
}
template <class D> void fromints(int n) {
    fromint<D, bool>(2);
    fromint<D, int8_t>(n);
    fromint<D, uint8_t>(n);
    fromint<D, int16_t>(n);
    fromint<D, uint16_t>(n);
    fromint<D, int32_t>(n);
    fromint<D, uint32_t>(n);
    fromint<D, int64_t>(n);
    fromint<D, uint64_t>(n);
}

// ------------------------------------------------------------------ single digits (C09)
template <class A> constexpr int msb_of = 0;
template <int m, int l, bool s, bool a> constexpr int msb_of<logic::bit<m, l, s, a>> = m;
template <int m, int l, bool s, bool a> constexpr int msb_of<logic::logic<m, l, s, a>> = m;
template <class A> constexpr int lsb_of = 0;
template <int m, int l, bool s, bool a> constexpr int lsb_of<logic::bit<m, l, s, a>> = l;
template <int m, int l, bool s, bool a> constexpr int lsb_of<logic::logic<m, l, s, a>> = l;

template <class A> void bits_at(const A &a, int idx) {
    constexpr int m = msb_of<A>, l = lsb_of<A>;
    P p{m, l, idx};
    ev1("get", p, a, [idx](auto const &x) { return x[idx]; });
    bool v = rng.chance(50);
    evm2("set", p, a, v, [idx](auto &x, auto const &y) { x.set(idx, y); });
    if constexpr (A::is_4state) {
        auto d = mk<G<1>>(gany(1, true));
        evm2("set", p, a, d, [idx](auto &x, auto const &y) { x.set(idx, y); });
        ev1("isx", p, a, [idx](auto const &x) { return x.x_set(idx); });
        ev1("isz", p, a, [idx](auto const &x) { return x.z_set(idx); });
        evm1("setx", p, a, [idx](auto &x) { x.set_x(idx); });
        evm1("setz", p, a, [idx](auto &x) { x.set_z(idx); });
    } else {
        auto d = mk<B<1>>(g01(1));
        evm2("set", p, a, d, [idx](auto &x, auto const &y) { x.set(idx, y); });
    }
}
// index known at compile time, inside the range
template <class A, int idx> void bits_const(int n) {
    constexpr int m = msb_of<A>, l = lsb_of<A>;
    P p{m, l, idx};
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        ev1("get", p, a, [](auto const &x) { return x.template get<idx>(); });
        bool v = rng.chance(50);
        evm2("set", p, a, v, [](auto &x, auto const &y) { x.template set<idx>(y); });
        evm2("set", p, a, true, [](auto &x, auto const &) { x.template set<idx, true>(); });
        evm2("set", p, a, false, [](auto &x, auto const &) { x.template set<idx, false>(); });
        if constexpr (A::is_4state) {
            ev1("isx", p, a, [](auto const &x) { return x.template x_set<idx>(); });
            ev1("isz", p, a, [](auto const &x) { return x.template z_set<idx>(); });
            evm1("setx", p, a, [](auto &x) { x.template set_x<idx>(); });
            evm1("setz", p, a, [](auto &x) { x.template set_z<idx>(); });
        } else {
            auto d = mk<B<1>>(g01(1));
            evm2("set", p, a, d, [](auto &x, auto const &y) { x.template set<idx>(y); });
        }
    }
}
template <class A> void bits_walk() {
    constexpr int m = msb_of<A>, l = lsb_of<A>;
    constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
    for (int idx = lo - 2; idx <= hi + 2; idx++) bits_at(mk<A>(in1<A>()), idx);
    for (int far : {-1, -64, -1000, lo - 64, hi + 64, hi + 1000, 1 << 20, -(1 << 20)})
        if (far < lo || far > hi) bits_at(mk<A>(in1<A>()), far);
}
// the index is a two-state object
template <class A, class I> void bits_obj(int n) {
    constexpr int m = msb_of<A>, l = lsb_of<A>, lo = m < l ? m : l, hi = m < l ? l : m;
    for (int i = 0; i < n; i++) {
        int64_t at = rng.chance(20) ? lo - 1 - rng.below(3) : rng.chance(20) ? hi + 1 + rng.below(3) : lo + rng.below(hi - lo + 1);
        Str s(I::size, at < 0 ? '1' : '0');
        for (int j = 0; j < static_cast<int>(I::size) && j < 63; j++) s[I::size - 1 - j] = (at >> j) & 1 ? '1' : '0';
        if (rng.chance(15)) s[rng.below(static_cast<int>(I::size))] ^= 1;
        ev2("geti", {m, l}, mk<A>(in1<A>()), mk<I>(s), [](auto const &x, auto const &y) { return x.get(y); });
    }
}
// a few indices only
template <class A> void bits_some(int n) {
    constexpr int m = msb_of<A>, l = lsb_of<A>;
    constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
    for (int i = 0; i < n; i++) bits_at(mk<A>(in1<A>()), lo - 2 + rng.below(hi - lo + 5));
    for (int e : {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1}) bits_at(mk<A>(in1<A>()), e);
}

// ------------------------------------------------------------------ parts (C10)
template <class A, int a, int b> void slice_const(int n) {
    for (int i = 0; i < n; i++)
        ev1("slice", {a, b}, mk<A>(in1<A>()), [](auto const &x) { return x.template slice<a, b>(); });
}
template <class A, int k> void slice_run(int n) {
    constexpr int w = A::size;
    for (int i = 0; i < n; i++) {
        int lo = rng.chance(30) ? (rng.chance(50) ? 0 : w - k) : rng.below(w - k + 1), hi = lo + k - 1;
        if (rng.chance(20)) std::swap(lo, hi);
        ev1("slice", {hi, lo}, mk<A>(in1<A>()),
            [hi, lo](auto const &x) { return x.template slice<k>(hi, lo); });
    }
}
template <class A, int k> void slice_run_all() {
    constexpr int w = A::size;
    for (int lo = 0; lo + k <= w; lo++) {
        int hi = lo + k - 1;
        ev1("slice", {hi, lo}, mk<A>(in1<A>()),
            [hi, lo](auto const &x) { return x.template slice<k>(hi, lo); });
    }
}
// base given by an object of type I
template <class A, int k, class I> void slice_base(int n) {
    constexpr int w = A::size;
    for (int i = 0; i < n; i++) {
        bool up = rng.chance(50);
        int lo = rng.chance(30) ? (rng.chance(50) ? 0 : w - k) : rng.below(w - k + 1);
        int base = up ? lo : lo + k - 1;
        if (I::size < 31 && base >= (1 << (I::size - (sgn_of<I> ? 1 : 0)))) continue;
        I b = mk<I>(gnum(static_cast<uint64_t>(base), I::size));
        A a = mk<A>(in1<A>());
        if (up)
            ev2("slicei", {k, 1}, a, b, [](auto const &x, auto const &y) { return x.template slice<k, true>(y); });
        else
            ev2("slicei", {k, 0}, a, b, [](auto const &x, auto const &y) { return x.template slice<k, false>(y); });
    }
}

// ------------------------------------------------------------------ part updates (C11)
template <class A, int hi, int lo, class V> void update_const(int n) {
    P p{msb_of<A>, lsb_of<A>, hi, lo};
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        V v = mk<V>(in1<V>());
        evm2("update", p, a, v, [](auto &x, auto const &y) { x.template update<hi, lo>(y); });
    }
}
template <class A, int hi, int lo, class V> void update_ref(int n) {
    P p{msb_of<A>, lsb_of<A>, hi, lo};
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        V v = mk<V>(in1<V>());
        evm2("update", p, a, v, [](auto &x, auto const &y) { x.template slice_ref<hi, lo>() = y; });
    }
}
template <class A, class V> void update_run_at(int hi, int lo) {
    P p{msb_of<A>, lsb_of<A>, hi, lo};
    A a = mk<A>(in1<A>());
    V v = mk<V>(in1<V>());
    if (rng.chance(50))
        evm2("update", p, a, v, [hi, lo](auto &x, auto const &y) { x.update(hi, lo, y); });
    else
        evm2("update", p, a, v, [hi, lo](auto &x, auto const &y) { x.slice_ref(hi, lo) = y; });
}
// part of k digits anywhere, operand of type V
template <class A, class V> void update_run(int k, int n) {
    constexpr int m = msb_of<A>, l = lsb_of<A>, w = A::size;
    constexpr int base = m < l ? m : l;
    for (int i = 0; i < n; i++) {
        int lo = base + (rng.chance(30) ? (rng.chance(50) ? 0 : w - k) : rng.below(w - k + 1));
        int hi = lo + k - 1;
        if (rng.chance(20)) std::swap(hi, lo);
        update_run_at<A, V>(hi, lo);
    }
}
template <class A, class V, int k, class I> void update_base(int n) {
    constexpr int w = A::size;
    for (int i = 0; i < n; i++) {
        bool up = rng.chance(50);
        int lo = rng.below(w - k + 1), base = up ? lo : lo + k - 1;
        if (I::size < 31 && base >= (1 << (I::size - (sgn_of<I> ? 1 : 0)))) continue;
        I b = mk<I>(gnum(static_cast<uint64_t>(base), I::size));
        A a = mk<A>(in1<A>());
        V v = mk<V>(in1<V>());
        Str h = head("updatei", {k, up}, jlist({jval(a), jval(v), jval(b)}));
        pending = h;
        if (up) a.template slice_ref<k, true>(b) = v;
        else a.template slice_ref<k, false>(b) = v;
        finish(h, jlist({jval(a)}), probe_if(a), 0);
    }
}

// two references into one variable, both assigned several times with reads and other writes between
template <class A, int hi, int lo, class V, class W> void update_refs(int n) {
    constexpr int m = msb_of<A>, l = lsb_of<A>, w = A::size, base = m < l ? m : l;
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        int b1 = base + rng.below(w), b2 = base + rng.below(w);
        if ((b1 > b2) != (m >= l) && b1 != b2) std::swap(b1, b2);
        auto f = a.template slice_ref<hi, lo>();
        auto r = a.slice_ref(b1, b2);
        auto write = [&](auto &ref, int x, int y, auto const &v) {
            Str h = head("update", {m, l, x, y}, jlist({jval(a), jval(v)}));
            pending = h;
            ref = v;
            finish(h, jlist({jval(a)}), probe_if(a), 0);
        };
        for (int k = 0; k < 6; k++) {
            if (rng.chance(15)) a = mk<A>(in1<A>());
            V v = mk<V>(in1<V>());
            W u = mk<W>(in1<W>());
            switch (rng.below(5)) {
                case 0: write(f, hi, lo, v); break;
                case 1: write(f, hi, lo, u); break;
                case 2: write(r, b1, b2, v); break;
                default: write(r, b1, b2, u); break;
            }
        }
    }
}

// one variable as both operands
template <class A> void same_bits(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(80));
        ev2("and", {}, a, a, [](auto const &x, auto const &y) { return x & y; });
        ev2("or", {}, a, a, [](auto const &x, auto const &y) { return x | y; });
        ev2("xor", {}, a, a, [](auto const &x, auto const &y) { return x ^ y; });
        evself("andeq", {}, a, [](auto &x, auto const &y) { x &= y; });
        evself("oreq", {}, a, [](auto &x, auto const &y) { x |= y; });
        evself("xoreq", {}, a, [](auto &x, auto const &y) { x ^= y; });
    }
}
template <class A> void same_arith(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(15));
        arith_one(a, a);
    }
}
template <class A> void same_div(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(15));
        div_one(a, a);
    }
}
template <class A> void same_shift(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(rng.chance(60) ? gnum(static_cast<uint64_t>(rng.below(A::size)), A::size) : in1<A>(15));
        ev2("shl", {}, a, a, [](auto const &x, auto const &y) { return x << y; });
        ev2("shr", {}, a, a, [](auto const &x, auto const &y) { return x >> y; });
        ev2("ashl", {}, a, a, [](auto const &x, auto const &y) { return x.ashl(y); });
        ev2("ashr", {}, a, a, [](auto const &x, auto const &y) { return x.ashr(y); });
        evself("shleq", {}, a, [](auto &x, auto const &y) { x <<= y; });
        evself("shreq", {}, a, [](auto &x, auto const &y) { x >>= y; });
    }
}
template <class A> void same_compare(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(20));
        compare_one(a, a);
    }
}
template <class A> void same_match(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(70));
        match_one(a, a);
    }
}
template <class A> void same_assign(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        evself("assign", {}, a, [](auto &x, auto const &y) { x = y; });
    }
}
template <class A, int hi, int lo> void same_update(int n) {
    P p{msb_of<A>, lsb_of<A>, hi, lo};
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>());
        evself("update", p, a, [](auto &x, auto const &y) { x.template update<hi, lo>(y); });
        evself("update", p, a, [](auto &x, auto const &y) { x.template slice_ref<hi, lo>() = y; });
        evself("update", p, a, [](auto &x, auto const &y) { x.update(hi, lo, y); });
        evself("update", p, a, [](auto &x, auto const &y) { x.slice_ref(hi, lo) = y; });
    }
}

// ------------------------------------------------------------------ concatenation (C12)
template <class... T> void concat_(int n) {
    for (int i = 0; i < n; i++) {
        auto t = std::make_tuple(mk<T>(in1<T>())...);
        Str h = std::apply([](auto &...v) { return head("concat", {}, jlist({jval(v)...})); }, t);
        pending = h;
        auto const r = std::apply([](auto &...v) { return logic::concat(v...); }, t);
        Str j = std::apply([](auto &...v) { return head("concat", {}, jlist({jval(v)...})); }, t);
        finish(h, jlist({jval(r)}), probe_if(r), j != h);
    }
}
template <class S, class... T> void unpack_(int n) {
    for (int i = 0; i < n; i++) {
        S s = mk<S>(in1<S>());
        auto t = std::make_tuple(mk<T>(in1<T>())...);
        Str h = std::apply([&](auto &...v) { return head("unpack", {}, jlist({jval(s), jval(v)...})); }, t);
        Str js = jval(s);
        pending = h;
        std::apply([&](auto &...v) { s.unpack(v...); }, t);
        long c = 0;
        Str r = std::apply([&](auto &...v) { ((c |= probe_if(v)), ...); return jlist({jval(v)...}); }, t);
        finish(h, r, c, jval(s) != js);
    }
}
// the source is the first target as well, and one variable is concatenated several times
template <class S, class... T> void unpack_self(int n) {
    for (int i = 0; i < n; i++) {
        S s = mk<S>(in1<S>());
        auto t = std::make_tuple(mk<T>(in1<T>())...);
        Str h = std::apply([&](auto &...v) { return head("unpack", {}, jlist({jval(s), jval(s), jval(v)...})); }, t);
        pending = h;
        std::apply([&](auto &...v) { s.unpack(s, v...); }, t);
        finish(h, std::apply([&](auto &...v) { return jlist({jval(s), jval(v)...}); }, t), probe_if(s), 0);
        S a = mk<S>(in1<S>());
        Str j = jval(a);
        h = head("concat", {}, jlist({j, j, j}));
        pending = h;
        auto const r = a.concat(a, a);
        finish(h, jlist({jval(r)}), probe_if(r), jval(a) != j);
    }
}
// unpack what was concatenated, into variables of the same types
template <class... T> void roundtrip_(int n) {
    for (int i = 0; i < n; i++) {
        auto t = std::make_tuple(mk<T>(in1<T>())...);
        Str h = std::apply([](auto &...v) { return head("roundtrip", {}, jlist({jval(v)...})); }, t);
        pending = h;
        auto const r = std::apply([](auto &...v) { return logic::concat(v...); }, t);
        auto u = std::make_tuple(mk<T>(in1<T>())...);
        std::apply([&](auto &...v) { r.unpack(v...); }, u);
        finish(h, std::apply([](auto &...v) { return jlist({jval(v)...}); }, u), 0, 0);
    }
}

// ------------------------------------------------------------------ text (C14, C15)
Str glit(int w, bool four, char base);  // a literal around w digits long
Str gdec(int maxdigits);
Str hexbytes(Sv s);
template <class A> void parse_one(const Str &t) {
    ev0("parse", {A::size, sgn_of<A>, kind_of<A>}, t, [&t] {
        if constexpr (A::is_4state) {
            if (ev_count % 4 == 0) return A(t.c_str());
        }
        return A(Sv(t));
    });
}
// any bytes
template <class A> void parse_bytes() {
    Str s;
    for (int n = 1 + rng.below(static_cast<int>(A::size) / 8 + 4); n > 0; n--) {
        char c;
        do c = static_cast<char>(rng.chance(30) ? 128 + rng.below(128) : rng.below(256));
        while (c == '\'');
        s += c;
    }
    ev0("parsebytes", {A::size, sgn_of<A>, kind_of<A>}, hexbytes(s), [&s] { return A(Sv(s)); });
}
template <class A> void parse(int n) {
    for (int i = 0; i < n; i++)
        for (char b : {'b', 'o', 'h'}) parse_one<A>(glit(A::size, A::is_4state, b));
    for (int i = 0; i < n; i++) {
        parse_one<A>(glit(A::size, A::is_4state, 'd'));
        if (rng.chance(50)) parse_one<A>(glit(A::size, A::is_4state, 's'));
        if (rng.chance(40)) parse_bytes<A>();
    }
}
Str gfmt(int w);
template <class A> void format(int n) {
    for (int i = 0; i < n; i++) {
        A a = mk<A>(in1<A>(50));
        for (const char *f : {"b", "o", "h"}) evstr(a, f);
        evstr(a, A::size <= 128 ? "d" : "0d");
        evstr(a, gfmt(A::size));
        evstr(a, gfmt(A::size));
    }
}
template <class A> void format_chars(int n) {
    for (int i = 0; i < n; i++) {
        Str s(A::size, '0');
        for (int k = 0; k < static_cast<int>(A::size); k += 8) {
            uint64_t c = rng.chance(15) ? 0 : static_cast<uint64_t>(33 + rng.below(94));
            if (c == '^') c = 'a';
            for (int j = 0; j < 8 && k + j < static_cast<int>(A::size); j++)
                if ((c >> j) & 1) s[A::size - 1 - k - j] = '1';
        }
        // a partial last character has to be printable or zero
        if (A::size % 8) for (int j = 0; j < static_cast<int>(A::size % 8); j++) s[j] = '0';
        A a = mk<A>(s);
        evstr(a, "s");
        evstr(a, std::to_string(rng.below(static_cast<int>(A::size / 8) + 6)) + (rng.chance(50) ? "s" : "S"));
    }
    // any bytes
    for (int i = 0; i < 2 * n; i++) {
        A a = mk<A>(g01(A::size));
        Str f = rng.chance(30) ? "" : std::to_string(rng.below(static_cast<int>(A::size / 8) + 6));
        f += rng.chance(50) ? "s" : "S";
        Str h = head("strbytes", {}, jlist({jval(a)}), f);
        pending = h;
        auto const r = a.str(f);
        flush_event(h + ",\"rt\":" + jstr(hexbytes(r)));
    }
}
template <class A> void format_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        for (const char *f : {"b", "o", "h", "d", "0d", "0h", "x", "D"})
            evstr(mk<A>(nth(i, A::size, A::is_4state)), f);
}
// print and parse back
template <class A> void print_parse(int n) {
    for (int i = 0; i < n; i++)
        for (const char *f : {"b", "o", "h"}) {
            A a = mk<A>(g01(A::size));
            Str h = head("reparse", {}, jlist({jval(a)}), f);
            pending = h;
            A r{Sv(Str("'") + f + a.str(f))};
            finish(h, jlist({jval(r)}), 0, 0);
        }
}

// ------------------------------------------------------------------ numbers out (C18)
template <class A> void numbers_one(const A &a) {
    if constexpr (A::size <= 64) ev1("tonum", {}, a, [](auto const &x) { return x.to_num(); });
    if constexpr (!sgn_of<A> || A::size >= 64)
        ev1("touint64", {}, a, [](auto const &x) { return x.to_uint64(); });
    else
        ev1("touint64", {}, a, [](auto const &x) { return x.to_uint64(); });
}
template <class A> void numbers(int n) {
    for (int i = 0; i < n; i++) numbers_one(mk<A>(in1<A>(25)));
}
template <class A> void numbers_all() {
    for (int i = 0; i < count_all(A::size, A::is_4state); i++)
        numbers_one(mk<A>(nth(i, A::size, A::is_4state)));
}

// ------------------------------------------------------------------ arrays (C16)
// a packed array of elements E over [m:l] with a history of writes and reads
template <class E, int m, int l> struct Arr {
    using A = logic::packed_array<E, m, l>;
    static constexpr int e = E::size, lo = m < l ? m : l, hi = m < l ? l : m;
    static constexpr bool four = E::is_4state;
    template <int k> using Vec = std::conditional_t<four, G<k>, B<k>>;
    A a{};
    void fresh() {
        Str h = head("default", {A::size, sgn_of<A>, kind_of<A>}, "[]");
        pending = h;
        A n{};
        finish(h, jlist({jval(n)}), probe_if(n), 0);
        a = rng.chance(50) ? n : mk<A>(gany(A::size, four));
    }
    template <class I> I index(int at) {
        if (rng.chance(8)) return mk<I>(g4(I::size));
        Str s = gext(gnum(static_cast<uint64_t>(static_cast<int64_t>(at)), 64), true, I::size);
        // a valid number plus a high digit
        if (I::size > 20 && rng.chance(8)) s[rng.below(static_cast<int>(I::size) - 16)] = '1';
        return mk<I>(s);
    }
    static int pick() {
        if (rng.chance(20))
            return rng.chance(50) ? hi + 1 + rng.below(3) : lo > 0 ? lo - 1 - rng.below(lo) : lo < 0 ? lo - 1 - rng.below(4) : hi + 1;
        return rng.chance(30) ? (rng.chance(50) ? hi : lo) : lo + rng.below(hi - lo + 1);
    }
    template <class I, class V> void write() {
        I ix = index<I>(pick());
        V v = mk<V>(in1<V>());
        Str h = head("aupdr", {e, m, l}, jlist({jval(a), jval(ix), jval(v)}));
        pending = h;
        a.update(ix, v);
        finish(h, jlist({jval(a)}), probe_if(a), 0);
    }
    template <class I> void read() {
        I ix = index<I>(pick());
        Str h = head("aref", {e, m, l}, jlist({jval(a), jval(ix)}));
        pending = h;
        const A &c = a;
        auto const r = c[ix];
        Str ja = jval(a);
        finish(h, jlist({jval(r)}), probe_if(r), 0);
    }
    template <int x, int y, class V> void write_const() {
        V v = mk<V>(in1<V>());
        Str h = head("aupd", {e, m, l, x, y}, jlist({jval(a), jval(v)}));
        pending = h;
        a.template update<x, y>(v);
        finish(h, jlist({jval(a)}), probe_if(a), 0);
    }
    template <int x, int y> void read_const() {
        Str h = head("aslice", {e, m, l, x, y}, jlist({jval(a)}));
        pending = h;
        auto const r = a.template slice_array<x, y>();
        finish(h, jlist({jval(r)}), probe_if(r), 0);
    }
};

// an unpacked array
template <class E, int m, int l> struct UArr {
    using A = logic::unpacked_array<E, m, l>;
    static constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
    A a{};
    Str elems() {
        std::vector<Str> v;
        if constexpr (requires(A &b) { b.value[0]; b.value.begin(); }) {
            for (auto const &x : a.value) v.push_back(jval(x));
        } else {
            const A &c = a;
            for (int i = lo; i <= hi; i++) v.push_back(jval(c[i]));
        }
        return jlist(v);
    }
    void fresh() {
        a = A{};
        if (rng.chance(50))
            [this]<int... i>(std::integer_sequence<int, i...>) {
                (a.template update<lo + i>(mk<E>(in1<E>())), ...);
            }(std::make_integer_sequence<int, hi - lo + 1>{});
    }
    void read() {
        int i = rng.chance(30) ? (rng.chance(50) ? hi + 1 + rng.below(3) : lo - 1 - rng.below(3))
                               : lo + rng.below(hi - lo + 1);
        Str h = head("uget", {m, l, i}, elems());
        pending = h;
        const A &c = a;
        E r = c[i];
        finish(h, jlist({jval(r)}), 0, 0);
    }
    template <int i, class V> void write() {
        V v = mk<V>(in1<V>());
        Str x = elems();
        x.back() = ',';
        Str h = head("uupd", {m, l, i}, x + jval(v) + "]");
        pending = h;
        a.template update<i>(v);
        finish(h, elems(), 0, 0);
    }
};

// ------------------------------------------------------------------ two kinds, one value (C17)
// op on known four-state operands and on the corresponding two-state operands
template <class R2, class R4> void mirror_log(const char *o, const Str &x, const P &p, const R2 &r2, const R4 &r4) {
    Str h = head("mirror", p, x, o);
    finish(h, jlist({jval(r2), jval(r4)}), 0, 0);
}
template <int wa, bool sa, int wb, bool sb> void mirror2(int n) {
    for (int i = 0; i < n; i++) {
        int c = rng.below(3);
        Pair in = c == 0 ? gdiv(wa, sa, false, wb, sb, false)
                : c == 1 ? gshift(wa, false, wb, false)
                         : gpair(wa, sa, false, wb, sb, false, 0);
        using A2 = B<wa, sa>; using A4 = G<wa, sa>; using C2 = B<wb, sb>; using C4 = G<wb, sb>;
        A2 a2 = mk<A2>(in.a); A4 a4 = mk<A4>(in.a);
        C2 b2 = mk<C2>(in.b); C4 b4 = mk<C4>(in.b);
        Str x = jlist({jval(a2), jval(b2)});
        auto both = [&](const char *o, auto f) {
            pending = head("mirror", {}, x, o);
            auto const r2 = f(a2, b2);
            auto const r4 = f(a4, b4);
            mirror_log(o, x, {}, r2, r4);
        };
#define M2(o, e) both(o, [](auto const &a, auto const &b) { return e; })
        M2("and", a & b); M2("or", a | b); M2("xor", a ^ b);
        M2("add", a + b); M2("sub", a - b); M2("mul", a * b); M2("div", a / b); M2("mod", a % b);
        M2("shl", a << b); M2("shr", a >> b); M2("ashl", a.ashl(b)); M2("ashr", a.ashr(b));
        M2("eq", a == b); M2("ne", a != b); M2("lt", a < b); M2("gt", a > b); M2("le", a <= b); M2("ge", a >= b);
        M2("match", a.match(b)); M2("nmatch", a.nmatch(b));
#undef M2
        auto change = [&](const char *o, auto f) {
            pending = head("mirror", {}, x, o);
            A2 r2 = a2; A4 r4 = a4;
            f(r2, b2); f(r4, b4);
            mirror_log(o, x, {}, r2, r4);
        };
#define M2(o, e) change(o, [](auto &a, auto const &b) { e; })
        M2("andeq", a &= b); M2("oreq", a |= b); M2("xoreq", a ^= b); M2("shleq", a <<= b); M2("shreq", a >>= b);
        M2("assign", a = b);
#undef M2
        pending = head("mirror", {}, x, "concat");
        auto const r2 = logic::concat(a2, b2);
        auto const r4 = logic::concat(a4, b4);
        mirror_log("concat", x, {}, r2, r4);
    }
}
template <int w, bool s> void mirror1(int n) {
    for (int i = 0; i < n; i++) {
        using A2 = B<w, s>; using A4 = G<w, s>;
        Str in = g01(w);
        A2 a2 = mk<A2>(in); A4 a4 = mk<A4>(in);
        Str x = jlist({jval(a2)});
        auto both = [&](const char *o, auto f) {
            pending = head("mirror", {}, x, o);
            auto const r2 = f(a2);
            auto const r4 = f(a4);
            mirror_log(o, x, {}, r2, r4);
        };
#define M1(o, e) both(o, [](auto a) { return e; })
        M1("not", ~a); M1("neg", -a); M1("pos", +a); M1("lnot", !a); M1("bool", static_cast<bool>(a));
        M1("rand", a.r_and()); M1("rnand", a.r_nand()); M1("ror", a.r_or()); M1("rnor", a.r_nor());
        M1("rxor", a.r_xor()); M1("rxnor", a.r_xnor());
        M1("preinc", ++a); M1("predec", --a); M1("postinc", a++); M1("postdec", a--);
        M1("tosigned", a.to_signed()); M1("tounsigned", a.to_unsigned());
        M1("ext", a.template extend<w + 1>()); M1("ext", a.template extend<w + 64>());
        M1("touint64", a.to_uint64());
        if constexpr (w <= 64) M1("tonum", a.to_num());
        M1("slice", (a.template slice<w - 1, w / 2>()));
        M1("slice", (a.template slice<w / 2 + 1>(w / 2, 0)));
#undef M1
        int idx = rng.below(w);  // past the end the kinds differ (C09)
        both("get", [idx](auto const &a) { return a[idx]; });
        bool v = rng.chance(50);
        both("set", [idx, v](auto a) { a.set(idx, v); return a; });
        for (const char *f : {"b", "o", "h", "d", "0d", "0h"}) {
            Str h = head("mirrortext", {}, x, f);
            pending = h;
            Str t2 = a2.str(f), t4 = a4.str(f);
            flush_event(h + ",\"rt\":" + jstr(t2) + ",\"rt4\":" + jstr(t4));
        }
    }
}
// defaults and making a four-state value from a two-state value or a number
template <int w, bool s> void lift(int n) {
    ev0("default", {w, s, 4}, {}, [] { return G<w, s>{}; });
    ev0("default", {w, s, 2}, {}, [] { return B<w, s>{}; });
    for (int i = 0; i < n; i++) {
        ev1("conv", {w, s, 4}, mk<B<w, s>>(g01(w)), [](auto const &x) { return G<w, s>(x); });
        ev1("conv", {w, s, 4}, mk<B<w, s>>(g01(w)), [](auto const &x) { G<w, s> r = x; return r; });
        uint64_t u = rng.next();
        if (rng.chance(50)) u = rng.chance(50) ? static_cast<uint64_t>(rng.below(4)) : ~static_cast<uint64_t>(rng.below(4));
        fromint_one<G<w, s>>(static_cast<int64_t>(u));
        fromint_one<G<w, s>>(u);
        fromint_one<G<w, s>>(static_cast<int32_t>(u));
        fromint_one<G<w, s>>(static_cast<uint32_t>(u));
        fromint_one<G<w, s>>(static_cast<uint8_t>(u));
        fromint_one<G<w, s>>(static_cast<int8_t>(u));
        fromint_one<G<w, s>>(static_cast<int16_t>(u));
        if (rng.chance(50))
            fromint_one<G<w, s>>(static_cast<uint16_t>(u));
        else
            fromint_one<G<w, s>>((u & 1) != 0);
    }
}
