// Contents for operands, biased to where words, signs and x/z meet. Strings are most significant
// digit first. Plain random digits are the minority.
#pragma once

Str g01(int w);                      // known digits
Str g4(int w);                       // 0/1/x/z digits
Str gmut(const Str &s, bool four);   // s with a digit changed
Str gnum(uint64_t v, int w);         // v mod 2^w
Str gext(const Str &s, bool sgn, int w);  // extended or truncated
Str gadd(const Str &s, uint64_t v);  // s + v, known digits
Str gneg(const Str &s);
inline Str gany(int w, bool four) { return four && rng.chance(70) ? g4(w) : g01(w); }

struct Pair {
    Str a, b;
};
// related operands for bitwise operations, comparison, arithmetic
Pair gpair(int wa, bool sa, bool fa, int wb, bool sb, bool fb, int xz_pct);
// dividend and divisor
Pair gdiv(int wa, bool sa, bool fa, int wb, bool sb, bool fb);
// value and shift amount
Pair gshift(int wa, bool fa, int wb, bool fb);

template <class A> Str in1(int xz_pct = 60) {
    return A::is_4state && rng.chance(xz_pct) ? g4(A::size) : g01(A::size);
}
template <class A, class C> Pair in2(int xz_pct = 30) {
    return gpair(A::size, sgn_of<A>, A::is_4state, C::size, sgn_of<C>, C::is_4state, xz_pct);
}
template <class A, class C> Pair indiv() {
    return gdiv(A::size, sgn_of<A>, A::is_4state, C::size, sgn_of<C>, C::is_4state);
}
template <class A, class C> Pair inshift() {
    return gshift(A::size, A::is_4state, C::size, C::is_4state);
}
// all contents of width w, for exhaustive runs
inline int count_all(int w, bool four) { return four ? 1 << (2 * w) : 1 << w; }
inline Str nth(int n, int w, bool four) {
    Str s(w, '0');
    for (int i = 0; i < w; i++) {
        s[w - 1 - i] = "01xz"[four ? n & 3 : n & 1];
        n >>= four ? 2 : 1;
    }
    return s;
}
