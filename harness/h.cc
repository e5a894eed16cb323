#include "h.hh"

Rng rng{1};
FILE *out = nullptr;
long ev_count = 0;
Str pending;
bool probing = false;
static Str crash_path;
static volatile long last_seen = -1;

Str jstr(Sv s) {
    Str r = "\"";
    for (char ch : s) {
        auto c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += ch;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += ch;
        }
    }
    return r + "\"";
}

void flush_event(const Str &s) {
    ev_count++;
    fprintf(out, "{\"i\":%ld,%s}\n", ev_count, s.c_str() + 1);
    pending.clear();
}

static void report(const char *what) {
    fflush(out);
    FILE *f = fopen(crash_path.c_str(), "w");
    if (f) {
        fprintf(f, "%s %s}\n", what, pending.empty() ? "{\"o\":\"?\"" : pending.c_str());
        fclose(f);
    }
    _exit(3);
}
static void on_signal(int sig) {
    switch (sig) {
        case SIGSEGV: report("SIGSEGV");
        case SIGFPE: report("SIGFPE");
        case SIGABRT: report("SIGABRT");
        case SIGILL: report("SIGILL");
        case SIGBUS: report("SIGBUS");
        default: report("SIGNAL");
    }
}
static void on_timer(int) {
    if (last_seen == ev_count) report("HANG");
    last_seen = ev_count;
}

void open_log(const char *path, uint64_t seed) {
    rng.s = seed * 0x9e3779b97f4a7c15ull + 12345;
    out = fopen(path, "w");
    if (!out) exit(2);
    crash_path = Str(path) + ".crash";
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS}) signal(s, on_signal);
    signal(SIGPROF, on_timer);  // CPU time: a busy machine is not a hang
    itimerval t{};
    t.it_interval.tv_sec = t.it_value.tv_sec = 10;
    setitimer(ITIMER_PROF, &t, nullptr);
}
void close_log() { fclose(out); }

Call::Call(const char *o, const P &p, const void *a, Show sa, const void *b, Show sb) {
    ja = sa(a);
    if (b) jb = sb(b);
    h = head(o, p, b ? "[" + ja + "," + jb + "]" : "[" + ja + "]");
    pending = h;
}
void Call::done(const void *r, Show sr, const void *r2, Show sr2, const void *a, Show sa, const void *b, Show sb,
                long c) {
    Str s = "[" + sr(r);
    if (r2) s += "," + sr2(r2);
    finish(h, s + "]", c, (a && sa(a) != ja) || (b && sb(b) != jb));
}

// ---------------------------------------------------------------- inputs
Str gnum(uint64_t v, int w) {
    Str s(w, '0');
    for (int i = 0; i < w && i < 64; i++)
        if ((v >> i) & 1) s[w - 1 - i] = '1';
    return s;
}
Str gext(const Str &s, bool sgn, int w) {
    int n = static_cast<int>(s.size());
    if (w <= n) return s.substr(n - w);
    return Str(w - n, sgn ? s[0] : '0') + s;
}
Str gadd(const Str &s, uint64_t v) {
    Str r = s;
    int carry = 0, n = static_cast<int>(s.size());
    for (int i = 0; i < n; i++) {
        int d = (s[n - 1 - i] == '1') + (i < 64 ? (v >> i) & 1 : 0) + carry;
        r[n - 1 - i] = d & 1 ? '1' : '0';
        carry = d >> 1;
    }
    return r;
}
Str gneg(const Str &s) {
    Str r = s;
    for (auto &c : r) c = c == '1' ? '0' : '1';
    return gadd(r, 1);
}

Str g01(int w) {
    Str s(w, '0');
    switch (rng.below(14)) {
        case 0: return s;
        case 1: return Str(w, '1');
        case 2: s[rng.below(w)] = '1'; return s;
        case 3: s = Str(w, '1'); s[rng.below(w)] = '0'; return s;
        case 4: s[0] = '1'; return s;
        case 5: s = Str(w, '1'); s[0] = '0'; return s;
        case 6: return gnum(static_cast<uint64_t>(rng.below(20)), w);
        case 7: return gneg(gnum(static_cast<uint64_t>(rng.below(20)), w));
        case 8: {  // words that are empty, full or random
            for (int base = 0; base < w; base += 64) {
                int k = rng.below(4);
                for (int i = base; i < base + 64 && i < w; i++)
                    s[w - 1 - i] = k == 0 ? '0' : k == 1 ? '1' : "01"[rng.below(2)];
            }
            return s;
        }
        case 9: {  // around a word or half word boundary
            static const int cut[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256};
            int c = cut[rng.below(19)];
            bool hi = rng.chance(50);
            for (int i = 0; i < w; i++) s[w - 1 - i] = (i < c) != hi ? '1' : '0';
            if (rng.chance(30)) s[rng.below(w)] ^= 1;
            return s;
        }
        case 10: {  // long runs
            char c = "01"[rng.below(2)];
            for (int i = 0; i < w; i++) {
                if (rng.chance(8)) c ^= 1;
                s[i] = c;
            }
            return s;
        }
        case 11: {  // mostly leading zeros or ones
            char c = "01"[rng.below(2)];
            int n = rng.below(w);
            for (int i = 0; i < w; i++) s[i] = i < n ? c : "01"[rng.below(2)];
            return s;
        }
        default:
            for (auto &c : s) c = "01"[rng.below(2)];
            return s;
    }
}
Str g4(int w) {
    Str s = g01(w);
    switch (rng.below(10)) {
        case 0: return Str(w, 'x');
        case 1: return Str(w, 'z');
        case 2: case 3: s[rng.below(w)] = "xz"[rng.below(2)]; return s;
        case 4: s[0] = "xz"[rng.below(2)]; return s;
        case 5: s[w - 1] = "xz"[rng.below(2)]; return s;
        case 6: {  // every digit of one word, or the digits above a word
            int base = 64 * rng.below((w + 63) / 64), end = rng.chance(50) ? base + 64 : w;
            for (int i = base; i < end && i < w; i++) s[w - 1 - i] = "xz"[rng.below(2)];
            return s;
        }
        case 7: for (auto &c : s) c = "xz"[rng.below(2)]; return s;
        default:
            for (auto &c : s) c = "01xz"[rng.below(4)];
            return s;
    }
}
Str gmut(const Str &s0, bool four) {
    Str s = s0;
    int w = static_cast<int>(s.size());
    int p = rng.chance(40) ? (rng.chance(50) ? 0 : w - 1) : rng.below(w);
    char c;
    do c = four ? "01xz"[rng.below(4)] : "01"[rng.below(2)];
    while (c == s[p]);
    s[p] = c;
    return s;
}
static bool known(const Str &s) { return s.find_first_of("xz") == Str::npos; }
static Str fix2(Str s, bool four) {
    if (!four)
        for (auto &c : s)
            if (c == 'x') c = '0';
            else if (c == 'z') c = '1';
    return s;
}

Pair gpair(int wa, bool sa, bool fa, int wb, bool sb, bool fb, int xz_pct) {
    if ((fa || fb) && xz_pct && rng.chance(5)) {  // unknown digits against a decisive number
        bool left = fa && (!fb || rng.chance(50));
        int w = left ? wb : wa;
        Str u = g4(left ? wa : wb), k;
        switch (rng.below(4)) {
            case 0: k = Str(w, '1'); break;
            case 1: k = gnum(1, w); break;
            default: k = Str(w, '0');
        }
        return left ? Pair{u, k} : Pair{k, u};
    }
    bool x = rng.chance(xz_pct);
    Str a = x && fa ? g4(wa) : g01(wa);
    Str b;
    switch (rng.below(10)) {
        case 9:                                                  // the same digits in another order
            if (x && fa && fb && rng.chance(50)) {
                char c = "01"[rng.below(2)], u = "xz"[rng.below(2)];
                a = Str(wa, c);
                b = Str(wb, c);
                a[rng.below(wa)] = b[rng.below(wb)] = u;
            } else {
                b = gext(a, sa, wb);
                std::swap(b[rng.below(wb)], b[rng.below(wb)]);
            }
            break;
        case 0: case 1: b = gext(a, sa, wb); break;              // the same number
        case 2: b = gmut(gext(a, sa, wb), fb && x); break;       // one digit off
        case 3: b = gext(a, sb, wb); if (known(b)) b = gadd(b, rng.chance(50) ? 1 : ~0ull); break;
        case 4: b = gext(a, sa, wb); if (known(b)) b = gneg(b); break;
        case 5: b = gext(a, !sa, wb); break;
        default: b = x && fb ? g4(wb) : g01(wb);
    }
    b = fix2(b, fb);
    if (rng.chance(30) && wb > wa) {  // start from the wide side
        b = x && fb ? g4(wb) : g01(wb);
        a = fix2(gext(b, sb, wa), fa);
        if (rng.chance(30)) a = gmut(a, fa && x);
    }
    return {a, b};
}
Pair gdiv(int wa, bool sa, bool fa, int wb, bool sb, bool fb) {
    if (rng.chance(8)) return gpair(wa, sa, fa, wb, sb, fb, 100);
    Str a = g01(wa), b;
    switch (rng.below(12)) {
        case 0: b = gnum(static_cast<uint64_t>(rng.below(20)), wb); break;
        case 1: b = gneg(gnum(static_cast<uint64_t>(rng.below(6)), wb)); break;
        case 2: b = Str(wb, '0'); break;
        case 3: b = gext(a, sa, wb); break;
        case 4: b = gadd(gext(a, sa, wb), rng.chance(50) ? 1 : ~0ull); break;
        case 5: {  // a shortened: quotients of a few digits
            int n = rng.below(wa);
            b = gext(Str(n, '0') + a.substr(0, wa - n), false, wb);
            if (rng.chance(50)) b = gadd(b, rng.chance(50) ? 1 : ~0ull);
            break;
        }
        case 6: a = Str(wa, '0'); a[0] = '1'; b = Str(wb, '1'); break;  // smallest / -1
        case 7: b = Str(wb, '0'); b[rng.below(wb)] = '1'; break;
        case 8: {  // divisor of about half the width
            b = Str(wb, '0');
            for (int i = 0; i < (wb + 1) / 2; i++) b[wb - 1 - i] = "01"[rng.below(2)];
            break;
        }
        case 9: b = gneg(gext(a, sa, wb)); break;
        default: b = g01(wb);
    }
    return {a, b};
}
Pair gshift(int wa, bool fa, int wb, bool fb) {
    Str a = fa && rng.chance(12) ? g4(wa) : g01(wa);
    if (rng.chance(40) && known(a)) a[0] = '1';
    if (fb && rng.chance(8)) return {a, g4(wb)};
    uint64_t w = static_cast<uint64_t>(wa), v;
    switch (rng.below(12)) {
        case 0: v = static_cast<uint64_t>(rng.below(4)); break;
        case 1: v = w; break;
        case 2: v = w - 1; break;
        case 3: v = w + 1; break;
        case 4: v = 64ull * static_cast<uint64_t>(rng.below(5)); break;
        case 5: v = 64ull * static_cast<uint64_t>(rng.below(5)) + static_cast<uint64_t>(rng.below(5)) - 2; break;
        case 6: return {a, g01(wb)};
        case 7: v = ~0ull; break;
        case 8: {  // a small amount with one high bit set
            Str b = gnum(static_cast<uint64_t>(rng.below(wa + 2)), wb);
            b[rng.below(wb)] = '1';
            return {a, b};
        }
        case 9: return {a, Str(1, '1') + Str(wb - 1, '0')};
        default: v = static_cast<uint64_t>(rng.below(wa + 2));
    }
    return {a, gnum(v, wb)};
}

// ---------------------------------------------------------------- texts
Str gdec(int w) {  // decimal digits of a number of about w bits
    int n = 1 + rng.below(w * 3 / 10 + 3);
    if (rng.chance(10)) return Str("0");
    if (rng.chance(20)) {  // around a power of two
        Str s = "1";
        int e = rng.chance(50) ? w : rng.below(w + 2);
        for (int i = 0; i < e; i++) {
            int c = 0;
            for (int k = static_cast<int>(s.size()); k-- > 0;) {
                int d = (s[k] - '0') * 2 + c;
                s[k] = static_cast<char>('0' + d % 10);
                c = d / 10;
            }
            if (c) s = "1" + s;
        }
        if (rng.chance(50) && s.back() != '0') s.back()--;
        return s;
    }
    Str s;
    for (int i = 0; i < n; i++) s += static_cast<char>('0' + rng.below(10));
    return s;
}
static Str underscores(const Str &s) {
    if (rng.chance(50)) return s;
    int pct = rng.chance(50) ? 10 : 40;
    Str r;
    for (size_t i = 0; i < s.size(); i++) {
        r += s[i];
        while (i + 1 < s.size() && rng.chance(pct)) r += '_';
    }
    return r;
}
Str glit(int w, bool four, char base) {
    if (base == 's') {
        int n = 1 + rng.below(w / 8 + 4);
        Str s;
        for (int i = 0; i < n; i++) {
            char c;
            do c = static_cast<char>(32 + rng.below(95));
            while (c == '\'' || c == '^');
            s += c;
        }
        return s;
    }
    Str size;
    switch (rng.below(4)) {
        case 0: break;
        case 1: size = std::to_string(1 + rng.below(2 * w)); break;
        default: size = std::to_string(w);
    }
    if (base == 'd') return size + "'" + (rng.chance(50) ? "d" : "D") + underscores(gdec(w));
    int stride = base == 'b' ? 1 : base == 'o' ? 3 : 4;
    int full = (w + stride - 1) / stride, n;
    switch (rng.below(6)) {
        case 0: n = 1 + rng.below(full + 1); break;
        case 1: n = full + 1 + rng.below(64 / stride + 3); break;
        case 2: n = full > 1 ? full - 1 : 1; break;
        default: n = full;
    }
    bool xz = four && rng.chance(60);
    int style = rng.below(5);
    Str s;
    for (int i = 0; i < n; i++) {
        static const char lower[] = "0123456789abcdefxz", upper[] = "0123456789ABCDEFXZ";
        int max = 1 << stride, d = rng.below(max);
        if (style == 0) d = max - 1;
        if (style == 1) d = rng.chance(8) ? rng.below(max) : 0;
        if (xz && rng.chance(style == 2 ? 90 : 25)) d = 16 + rng.below(2);
        s += rng.chance(50) ? lower[d] : upper[d];
    }
    char b = rng.chance(60) ? base : static_cast<char>(base - 32);
    return size + "'" + b + underscores(s);
}
Str hexbytes(Sv s) {
    static const char digit[] = "0123456789abcdef";
    Str r;
    for (char c : s) {
        r += digit[static_cast<unsigned char>(c) >> 4];
        r += digit[c & 15];
    }
    return r;
}
Str gfmt(int w) {
    static const char bases[] = "bohdxBOHDX";
    char b = bases[rng.below(10)];
    bool dec = b == 'd' || b == 'D';
    if (dec && w > 128) return Str("0") + b;
    switch (rng.below(4)) {
        case 0: return Str(1, b);
        case 1: return Str("0") + b;
        default: return std::to_string(1 + rng.below(w + 12)) + b;
    }
}
