// Families of source strings. Each takes a sink; what comes out is deterministic in (seed, tier, shard).
#pragma once
#include "drv.hpp"

inline bool mine(uint64_t i) { return int(i % uint64_t(A.nshards)) == A.shard; }

// ---- code points of interest: limits of every range and encoding length, what the specification's tables
// single out, and the integer literals of the library's sources (only a dictionary: it decides nothing)
inline const std::vector<uint32_t>& hotCps() {
    static std::vector<uint32_t> v;
    if (v.empty()) {
        std::set<uint32_t> s;
        auto around = [&](uint64_t x) { for (int d = -2; d <= 2; ++d) { uint64_t y = x + d; if (y > 0 && y <= 0xffffffffull) s.insert(uint32_t(y)); } };
        for (int b = 5; b < 32; ++b) around(1ull << b);
        for (uint32_t x : { 0x7fu, 0x7ffu, 0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0xe000u, 0xf8ffu, 0xfdd0u, 0xfdefu, 0xfeffu, 0xfffeu, 0xffffu, 0x1fffeu, 0x10000u, 0xf0000u, 0xffffdu, 0x100000u,
                            0x10fffdu, 0x10ffffu, 0x110000u, 0x13ffffu, 0x1fffffu, 0x200000u, 0x3ffffffu, 0x4000000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xe0001u, 0x1f600u, 0x2028u, 0x3000u, 0x1680u, 0x180eu, 0x200bu, 0x85u, 0xa0u, 0x130u, 0x131u, 0x49u, 0x3a3u, 0xd8000041u })
            around(x);
        for (int i = 0; i < T_white_n; ++i) { around(T_white[i][0]); around(T_white[i][1]); }
        for (int i = 1; i < 128; ++i) s.insert(i);
        for (auto x : A.novel) around(x);
        for (size_t i = 0; i < A.novel.size() && i < 24; ++i) for (size_t j = 0; j < A.novel.size() && j < 24; ++j) {      // put together from two
            uint32_t a = A.novel[i], b = A.novel[j]; for (uint32_t y : { a + b, a - b, a * b, a ^ b, a | b }) s.insert(y); for (int k : { 4, 6, 8, 10, 12, 16, 18, 20, 24 }) { s.insert((a << k) + b); s.insert(a << k); s.insert(a >> k); } }
        s.erase(0);
        v.assign(s.begin(), s.end());
    }
    return v;
}
inline const std::vector<uint32_t>& dictCps() {
    static std::vector<uint32_t> v;
    if (v.empty()) {
        std::set<uint32_t> s;
        for (auto x : A.dict) for (int d = -1; d <= 1; ++d) { uint32_t y = x + uint32_t(d); if (y) s.insert(y); }
        s.insert('A'); v.assign(s.begin(), s.end());
    }
    return v;
}
// a few code points of each kind, and the literals that the sources did not always have: for pairs and triples
inline const std::vector<uint32_t>& novelCps() {
    static std::vector<uint32_t> v; static bool done = false;
    if (!done) { done = true; std::set<uint32_t> s; for (auto x : A.novel) for (int d = -1; d <= 1; ++d) { uint32_t y = x + uint32_t(d); if (y && s.size() < 90) s.insert(y); } v.assign(s.begin(), s.end()); }
    return v;
}
inline const std::vector<uint32_t>& keyCps() {
    static std::vector<uint32_t> v;
    if (v.empty()) {
        std::set<uint32_t> s = { 0x01, 0x09, 0x0a, 0x0d, 0x20, 0x27, 0x2e, 0x30, 0x41, 0x49, 0x61, 0x69, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xbf, 0xc4, 0xd7, 0xdf, 0xe9, 0xff, 0x130, 0x131, 0x300, 0x307, 0x345, 0x3a3, 0x3c3, 0x5d0, 0x7ff, 0x800,
            0x1680, 0x200b, 0x200d, 0x2028, 0x2029, 0x202e, 0x20ac, 0x3000, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xfe0f, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10400, 0x10428, 0x103ff, 0x10fff, 0x1e900, 0x1f1e6, 0x1f3fb, 0x1f600, 0x1ffff, 0xe0001, 0xe0100, 0xf0000, 0xfffff, 0x100000, 0x10fc00, 0x10fffd, 0x10ffff,
            0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff };
        for (auto x : novelCps()) s.insert(x);
        v.assign(s.begin(), s.end());
    }
    return v;
}
template <class F> void keyTexts(F f, uint32_t top, double scale = 1.0) {   // all pairs; triples around what is new; runs
    const auto& K = keyCps(); const auto& N = novelCps(); uint64_t k = 0; auto fits = [&](uint32_t c) { return c <= top && !isSurr(c); };
    std::vector<uint32_t> C; for (auto c : K) if (fits(c)) C.push_back(c);
    std::vector<uint32_t> Q; for (auto c : N) if (fits(c) && Q.size() < 40) Q.push_back(c);
    for (uint32_t c : { 0x01u, 0x20u, 0x41u, 0x69u, 0xe9u, 0x3a3u, 0x20acu, 0xfeffu, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu, 0x7fffffffu }) if (fits(c)) Q.push_back(c);
    for (auto a : C) for (auto b : C) { if (!mine(k++)) continue; f(U{ a, b }); f(U{ 'x', a, b, 'y' }); f(U{ a, b, a }); }
    for (auto a : Q) for (auto b : Q) { if (!mine(k++)) continue; for (auto c : Q) f(U{ a, b, c }); if (scale >= 0.2) for (int n : { 3, 4, 7, 8, 9, 15, 16, 17, 31, 33 }) { U u(size_t(n), a); u.push_back(b); f(u); u.insert(u.begin(), b); f(u); } }
    for (uint32_t a : { 0x61u, 0xe9u, 0x20acu, 0x1f600u, 0x7fffffffu }) for (auto b : C) { if (!fits(a) || !mine(k++)) continue; for (size_t n : { 70, 140, 270, 530 }) { U u(n, a); u.push_back(b); f(u); u.insert(u.begin(), b); u.pop_back(); f(u); } }
}
inline const std::vector<size_t>& hotLengths() {
    static std::vector<size_t> v;
    if (v.empty()) {
        std::set<size_t> s;
        for (int b = 2; b <= (A.thorough ? 17 : 16); ++b) for (int d = -2; d <= 2; ++d) s.insert((size_t(1) << b) + d);
        for (size_t i = 1; i < 70; ++i) s.insert(i);
        for (size_t x : { 99, 100, 101, 199, 200, 201, 299, 300, 301, 499, 500, 501, 999, 1000, 1001, 9999, 10000, 10001 }) s.insert(x);
        for (auto x : A.dict) if (x > 0 && x <= 70000) { s.insert(x); s.insert(x + 1); }
        for (auto x : A.novel) if (x <= 140000) for (uint32_t m : { 1u, 2u, 3u }) for (int d = -2; d <= 2; ++d) if (int64_t(x) * m + d > 0 && int64_t(x) * m + d < 140000) s.insert(size_t(int64_t(x) * m + d));
        v.assign(s.begin(), s.end());
    }
    return v;
}

// the longest ones: few strings each
inline const std::vector<size_t>& longLengths() {
    static std::vector<size_t> v;
    if (v.empty()) {
        std::set<size_t> s = { 131072, 131075, 262147, 1048576, 1048579 };
        if (A.thorough) for (size_t x : { 262143, 524287, 524288, 1000000, 2000003 }) s.insert(x);
        for (auto x : A.novel) if (x > 70000 && x <= 2000000 && s.size() < 40) for (int d = -1; d <= 1; ++d) s.insert(size_t(int64_t(x) + d));
        for (auto x : A.novel) if (x >= 128 && x <= 2048 && s.size() < 60) s.insert(size_t(x) * 1024 + 1);
        v.assign(s.begin(), s.end());
    }
    return v;
}

// a code point up to `top`, from all magnitudes alike
inline uint32_t someCp(Rng& r, uint32_t top, bool surrogates = false) {
    for (;;) {
        uint32_t c;
        switch (r.below(8)) {
        case 0: c = 0x20 + uint32_t(r.below(0x5f)); break;
        case 1: c = r.pick(hotCps()); break;
        case 2: c = novelCps().empty() || r.below(2) ? r.pick(dictCps()) : r.pick(novelCps()); break;
        case 3: c = 0x80 + uint32_t(r.below(0x780)); break;
        case 4: c = 0x800 + uint32_t(r.below(0xf800)); break;
        case 5: c = 0x10000 + uint32_t(r.below(0x100000)); break;
        default: { int bits = 1 + int(r.below(32)); c = uint32_t(r.next() & ((1ull << bits) - 1)); }
        }
        if (c == 0 || c > top || (!surrogates && isSurr(c))) continue;
        return c;
    }
}

// texts of the lengths that matter: one character over and over, a few by turns, and any
template <class F> void mixed(F f, Rng& r, uint32_t top, double scale) {
    uint64_t k = 0;
    for (size_t len : hotLengths()) { if (!mine(k++) || (len > 5000 && (scale < 0.2 || k % 8))) continue;
        static const uint32_t tops[] = { 0x7f, 0x7ff, 0xffff, 0x10ffff, 0xffffffffu };
        for (int kind = 0; kind < 4; ++kind) { uint32_t t = std::min(top, tops[r.below(5)]); U few; for (int i = 0; i < (kind == 0 ? 1 : kind == 1 ? 2 : 5); ++i) few.push_back(someCp(r, t)); if (kind == 0 && r.below(2)) few[0] = 0x41 + uint32_t(r.below(26));
            U u; u.reserve(len); while (u.size() < len) u.push_back(kind == 0 ? few[0] : kind < 3 ? r.pick(few) : someCp(r, t)); f(u); } }
}

typedef std::basic_string<uint8_t> B8; typedef std::u16string B16; typedef std::u32string B32;

inline void add8(B8& s, uint32_t c) { U u; enc8(c, u); for (auto x : u) s.push_back(uint8_t(x)); }
inline void add8pair(B8& s, uint32_t c) { U u, w; enc16(c, u); for (auto h : u) { w.clear(); encWith(T_enc8, T_enc8_n, h, w); for (auto x : w) s.push_back(uint8_t(x)); } }  // CESU-8 form
inline void add16(B16& s, uint32_t c) { U u; enc16(c, u); for (auto x : u) s.push_back(char16_t(x)); }

// ---------------------------------------------------------------- 8 bits
inline std::vector<B8> items8() {       // valid sequences of every kind and limit; cut-off ones; broken ones
    std::vector<B8> v; std::set<B8> seen;
    auto put = [&](const B8& b) { if (seen.insert(b).second) v.push_back(b); };
    for (uint32_t c : { 0x01u, 0x41u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0x110000u, 0x1fffffu, 0x200000u, 0x3ffffffu, 0x4000000u, 0x7fffffffu }) { B8 b; add8(b, c); put(b); }
    for (uint32_t c : { 0x10000u, 0x10ffffu, 0x1f600u }) { B8 b; add8pair(b, c); put(b); }
    size_t nvalid = v.size();
    for (size_t i = 0; i < nvalid; ++i) for (size_t k = 1; k < v[i].size(); ++k) put(v[i].substr(0, k));
    for (const char* t : { "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xb0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf8\x80\x80\x80\x80", "\xf8\x87\xbf\xbf\xbf",
                           "\xfc\x80\x80\x80\x80\x80", "\xfc\x83\xbf\xbf\xbf\xbf", "\xfe", "\xff", "\xed\xa0\x80\xed\xa0\x80", "\xed\xa0\x80\xe0\xa0\x80", "\xed\xa0\x80\x41", "\xed\xaf\xbf\xee\x80\x80", "\xc2\x41", "\xe1\x80\x41", "\xf1\x80\x80\x41" })
        put(B8(reinterpret_cast<const uint8_t*>(t)));
    return v;
}

inline B8 random8(Rng& r, size_t maxItems) {
    B8 s; size_t n = r.below(maxItems + 1);
    bool broken = r.below(3) == 0;
    uint32_t top = r.below(2) ? 0x10ffff : (r.below(2) ? 0xffffu : 0x7fffffffu);
    for (size_t i = 0; i < n; ++i) {
        uint32_t c = someCp(r, top);
        if (c >= 0x10000 && c <= 0x10ffff && r.below(4) == 0) add8pair(s, c); else add8(s, c);
    }
    if (r.below(3) == 0) { B8 t; uint32_t c = someCp(r, 0x7fffffff); if (c >= 0x10000 && c <= 0x10ffff && r.below(2)) add8pair(t, c); else add8(t, c); if (t.size() > 1) s += t.substr(0, 1 + r.below(t.size() - 1)); }
    if (broken && !s.empty()) switch (r.below(4)) {
        case 0: s[r.below(s.size())] = uint8_t(1 + r.below(255)); break;
        case 1: s.erase(r.below(s.size()), 1); break;
        case 2: s.insert(r.below(s.size() + 1), 1, uint8_t(1 + r.below(255))); break;
        case 3: { size_t i = r.below(s.size()); s[i] = uint8_t(s[i] ^ (1u << r.below(8))); if (!s[i]) s[i] = 1; } }
    return s;
}

template <class Sink> void gen8(Sink sink, double scale = 1.0) {
    scale *= A.scale;
    auto out = [&](const B8& s) { sink(s.data(), s.size()); };
    Rng r(A.seed * 1000003 + uint64_t(A.shard) * 7919 + 8);

    family("8:all strings up to 3 bytes");
    { uint8_t b[3]; if (A.shard == 0) sink(b, 0);
      for (int x = 1; x < 256; ++x) { if (!mine(x)) continue; b[0] = uint8_t(x); sink(b, 1);
        for (int y = 1; y < 256; ++y) { b[1] = uint8_t(y); sink(b, 2);
          if (scale < 0.2 && !(y == 0x41 || (y >= 0x7e && y <= 0xc2) || (y > 0xdc))) continue;
          for (int z = 1; z < 256; ++z) { b[2] = uint8_t(z); sink(b, 3); } } } }

    family("8:machine paths");          // every path of the machine over the units where it changes, 7 deep
    { std::vector<std::vector<uint32_t>> hot; for (int q = 0; q < M8.nq; ++q) hot.push_back(M8.interesting(q));
      B8 s; uint64_t k = 0; int depthMax = A.thorough ? 9 : scale < 0.2 ? 6 : 7;
      std::function<void(int, int, int)> go = [&](int q, int depth, int emits) {
        if (!s.empty()) out(s);
        if (depth == depthMax || emits > 1) return;
        for (uint32_t u : hot[q]) {
            if (depth == 1) { if (!mine(k++)) continue; }
            const Row& t = M8.at(q, u); s.push_back(uint8_t(u));
            if (t.to == 1) { out(s); s.push_back('A'); out(s); s.pop_back(); s.push_back(0x80); out(s); s.pop_back(); }
            else go(t.to, depth + 1, emits + (t.emit ? 1 : 0));
            s.pop_back();
        } };
      go(0, 0, 0); }

    family("8:code points");            // alone, between letters, and as a surrogate pair spelled out
    { auto one = [&](uint32_t c) { if (c == 0 || c > 0x7fffffff) return; B8 s;
        if (isSurr(c)) { uint8_t t[3] = { uint8_t(0xe0 | c >> 12), uint8_t(0x80 | (c >> 6 & 63)), uint8_t(0x80 | (c & 63)) }; s.assign(t, 3); out(s); s += 'z'; out(s); return; }
        add8(s, c); out(s); s.insert(size_t(0), 1, uint8_t('A')); s.push_back('z'); out(s);
        if (c >= 0x10000 && c <= 0x10ffff) { s.clear(); add8pair(s, c); out(s); s.push_back('z'); out(s); } };
      uint32_t step = scale >= 1 ? 1 : scale >= 0.3 ? 3 : 17;
      for (uint32_t c = 1; c <= 0x120000; c += (c < 0x20000 ? 1 : step)) if (mine(c / 64)) one(c);
      for (size_t i = 0; i < hotCps().size(); ++i) if (g_hashes || mine(i)) one(hotCps()[i]);
      for (size_t i = 0; i < dictCps().size(); ++i) if (g_hashes || mine(i)) one(dictCps()[i]);
      for (uint64_t i = 0, n = uint64_t((A.thorough ? 4000000 : 250000) * scale) + 1000; i < n; ++i) one(0x120000 + uint32_t(r.below(0x7fee0000u))); }

    family("8:batches");                // strings of 61 successive code points
    { uint64_t lim = A.thorough ? 0x80000000ull : 0x400000ull; uint64_t stride = 61;
      if (A.thorough && scale < 1) stride = 61 * 16;
      uint64_t k = 0;
      for (uint64_t base = 1; base < lim; base += stride) { if (!mine(k++)) continue; B8 s; for (uint64_t c = base; c < base + 61 && c < lim; ++c) if (!isSurr(uint32_t(c))) add8(s, uint32_t(c)); out(s); } }

    family("8:item triples");
    { auto it = items8(); uint64_t k = 0; size_t n = it.size(); size_t n3 = scale < 0.2 ? n / 3 : n;
      for (size_t i = 0; i < n; ++i) { if (!mine(k++)) continue; for (size_t j = 0; j < n; ++j) { out(it[i] + it[j]); for (size_t l = 0; l < n3; ++l) out(it[i] + it[j] + it[l]); } } }

    family("8:lengths");                // long runs, with something special at the start, middle and end
    { auto it = items8(); std::vector<B8> fill; for (uint32_t c : { 0x61u, 0xe9u, 0x20acu, 0x1f600u }) { B8 b; add8(b, c); fill.push_back(b); }
      uint64_t k = 0;
      for (size_t len : hotLengths()) { if (len > 5000 && scale < 0.1) continue;
        for (size_t f = 0; f < fill.size(); ++f) { if (!mine(k++) || (len > 5000 && scale < 0.5 && f != len % 4)) continue;
          B8 base; while (base.size() + fill[f].size() <= len) base += fill[f]; while (base.size() < len) base += uint8_t('b');
          out(base);
          size_t reps = len > 5000 ? 3 : len > 300 ? 8 : it.size();
          for (size_t i = 0; i < reps; ++i) { const B8& x = reps == it.size() ? it[i] : it[r.below(it.size())]; out(base + x); out(x + base); if (f == 0) { B8 m = base; m.insert(m.size() / 2, x); out(m); } } } } }

    family("8:longest");
    if (scale >= 0.2) { auto it = items8(); uint64_t k = 0; std::vector<B8> fill; for (uint32_t c : { 0x61u, 0xe9u, 0x20acu, 0x1f600u }) { B8 b; add8(b, c); fill.push_back(b); }
      for (size_t len : longLengths()) for (size_t f = 0; f < fill.size(); ++f) { if (!mine(k++ * 5) || (f && (len + A.seed) % 3 + 1 != f)) continue;
        B8 base; base.reserve(len + 16); while (base.size() + fill[f].size() <= len) base += fill[f]; while (base.size() < len) base += uint8_t('b');
        out(base); out(base + B8(1, 0xff)); out(base + it[r.below(it.size())]); } }

    family("8:mixed lengths");
    mixed([&](const U& c) { B8 s; for (auto x : c) add8(s, x); out(s); out(s + B8(1, uint8_t(0x80 + r.below(128)))); }, r, 0x7fffffffu, scale);

    family("8:key texts");
    keyTexts([&](const U& c) { B8 s; for (auto x : c) add8(s, x); out(s); if (r.below(4) == 0) { B8 t; bool any = false; for (auto x : c) if (x >= 0x10000 && x <= 0x10ffff) { add8pair(t, x); any = true; } else add8(t, x); if (any) out(t); }
        if (r.below(6) == 0) { B8 t; uint32_t x = c[r.below(c.size())]; if (x >= 0x10000 && x <= 0x10ffff && r.below(2)) add8pair(t, x); else add8(t, x); if (t.size() < 2) { t.clear(); add8(t, 0x20ac); } out(s + t.substr(0, 1 + r.below(t.size() - 1))); out(s + B8(1, uint8_t(0x80 + r.below(128)))); } }, 0x7fffffffu, scale);
    for (size_t i = 0; i < A.strings.size(); ++i) if (mine(i)) { B8 s(reinterpret_cast<const uint8_t*>(A.strings[i].data()), A.strings[i].size()); out(s); out(s + s); out(B8(1, 'x') + s + B8(1, 'y')); }

    family("8:positions");              // something at every place of short strings, and two things at every distance
    { auto it = items8(); std::vector<B8> fill; for (uint32_t c : { 0x61u, 0xe9u, 0x20acu, 0x1f600u }) { B8 b; add8(b, c); fill.push_back(b); }
      uint64_t k = 0; size_t top = A.thorough ? 300 : scale < 0.2 ? 24 : 72;
      for (size_t f = 0; f < fill.size(); ++f) for (size_t a = 0; a < top; ++a) for (size_t b = 0; b < top; b += (b < 20 ? 1 : 1 + r.below(6))) { if (!mine(k++)) continue;
        B8 pre, post; for (size_t i = 0; i < a; ++i) pre += fill[f]; for (size_t i = 0; i < b; ++i) post += fill[f];
        for (int j = 0; j < 3; ++j) { const B8& x = it[r.below(it.size())]; out(pre + x + post); if (j == 0) { const B8& y = it[r.below(it.size())]; out(x + pre + y + post); } } } }

    family("8:pairs of code points");
    for (uint64_t i = 0, n = uint64_t((A.thorough ? 3000000 : 200000) * scale) / A.nshards + 100; i < n; ++i) { B8 s; add8(s, someCp(r, 0x7fffffff)); add8(s, someCp(r, 0x10ffff)); if (r.below(2)) add8(s, someCp(r, 0x10ffff)); out(s); }

    family("8:random");
    for (uint64_t i = 0, n = uint64_t((A.thorough ? 12000000 : 1200000) * scale) / A.nshards + 100; i < n; ++i) { size_t m = r.below(50) == 0 ? 200 : r.below(4) == 0 ? 30 : 6; out(random8(r, m)); }
    family("end of 8");
}

// ---------------------------------------------------------------- 16 bits
inline std::vector<uint32_t> hot16() {
    std::set<uint32_t> s;
    for (auto c : hotCps()) if (c <= 0xffff && (c < 4 || c > 0x7c)) s.insert(c);
    for (int q = 0; q < M16.nq; ++q) for (auto u : M16.interesting(q)) if (u) { s.insert(u); if (u < 0xffff) s.insert(u + 1); }
    s.insert(0x41); return std::vector<uint32_t>(s.begin(), s.end());
}
inline B16 random16(Rng& r, size_t maxItems) {
    B16 s; size_t n = r.below(maxItems + 1); uint32_t top = r.below(3) ? 0x10ffff : 0xffff;
    for (size_t i = 0; i < n; ++i) add16(s, someCp(r, top));
    if (r.below(3) == 0) s.push_back(char16_t(0xd800 + r.below(0x400)));
    if (r.below(3) == 0 && !s.empty()) switch (r.below(4)) {
        case 0: s[r.below(s.size())] = char16_t(1 + r.below(0xffff)); break;
        case 1: s.erase(r.below(s.size()), 1); break;
        case 2: s.insert(r.below(s.size() + 1), 1, char16_t(0xd800 + r.below(0x800))); break;
        case 3: { size_t i = r.below(s.size()); s[i] = char16_t(s[i] ^ (1u << r.below(16))); if (!s[i]) s[i] = 1; } }
    return s;
}
template <class Sink> void gen16(Sink sink, double scale = 1.0) {
    scale *= A.scale;
    auto out = [&](const B16& s) { sink(s.data(), s.size()); };
    Rng r(A.seed * 1000003 + uint64_t(A.shard) * 7919 + 16);
    family("16:all single units");
    { char16_t b[3]; if (A.shard == 0) sink(b, 0);
      for (uint32_t u = 1; u < 0x10000; ++u) { if (!mine(u / 64)) continue; b[0] = char16_t(u); sink(b, 1); char16_t c[3] = { u'A', char16_t(u), u'z' }; sink(c, 3); sink(c, 2); sink(c + 1, 2); } }
    family("16:surrogate pairs");
    { uint32_t st = scale >= 1 ? 1 : scale >= 0.3 ? 3 : 13;
      for (uint32_t h = 0xd800; h < 0xe000; ++h) { if (!mine(h)) continue; for (uint32_t l = 0xd800 + (st > 1 ? uint32_t(r.below(st)) : 0); l < 0xe000; l += st) { char16_t b[3] = { char16_t(h), char16_t(l), u'z' }; sink(b, 2); if ((l ^ h) % 5 == 0) sink(b, 3); } } }
    family("16:any unit before or behind one of interest");
    { auto hot = hot16(); uint32_t st = scale >= 1 ? 1 : 7;
      for (size_t i = 0; i < hot.size(); ++i) { if (!mine(i)) continue; for (uint32_t u = 1; u < 0x10000; u += st) { char16_t b[2] = { char16_t(u), char16_t(hot[i]) }; sink(b, 2); char16_t c[2] = { char16_t(hot[i]), char16_t(u) }; sink(c, 2); } } }
    family("16:machine paths");
    { std::vector<uint32_t> hot; for (int q = 0; q < M16.nq; ++q) for (auto u : M16.interesting(q)) hot.push_back(u);
      std::sort(hot.begin(), hot.end()); hot.erase(std::unique(hot.begin(), hot.end()), hot.end());
      uint64_t n = hot.size(), k = 0;
      for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) for (size_t c = 0; c < n; ++c) { if (!mine(k++)) continue; char16_t t[4] = { char16_t(hot[a]), char16_t(hot[b]), char16_t(hot[c]), 0 }; sink(t, 3); for (size_t d = 0; d < n; ++d) { t[3] = char16_t(hot[d]); sink(t, 4); } } }
    family("16:batches");
    { uint64_t k = 0; for (uint32_t base = 1; base < 0x110000; base += 61) { if (!mine(k++)) continue; B16 s; for (uint32_t c = base; c < base + 61 && c < 0x110000; ++c) if (!isSurr(c)) add16(s, c); out(s); } }
    family("16:lengths");
    { std::vector<B16> it = { u"\xd800", u"\xdc00", u"\xd83d\xde00", u"\xdbff\xdfff", u"\xde00\xd83d", u"\xd800\xd800\xdc00", u"\xffff", u"\xfeff", u"A" }; uint64_t k = 0;
      for (size_t len : hotLengths()) { if (len > 5000 && scale < 0.1) continue; for (int f = 0; f < 3; ++f) { if (!mine(k++) || (len > 5000 && scale < 0.5 && f != int(len % 3))) continue;
        B16 base; uint32_t c = f == 0 ? 0x61 : f == 1 ? 0x20ac : 0x1f600; while (base.size() + (c > 0xffff ? 2 : 1) <= len) add16(base, c); while (base.size() < len) base += u'b';
        out(base); for (size_t i = 0; i < it.size(); ++i) { if (len > 5000 && i > 2) break; out(base + it[i]); out(it[i] + base); B16 m = base; m.insert(m.size() / 2, it[i]); out(m); } } } }
    family("16:longest");
    if (scale >= 0.2) { uint64_t k = 0; for (size_t len : longLengths()) for (int f = 0; f < 3; ++f) { if (!mine(k++ * 5) || (f && int((len + A.seed) % 2) + 1 != f)) continue;
        B16 base; uint32_t c = f == 0 ? 0x61 : f == 1 ? 0x20ac : 0x1f600; base.reserve(len + 4); while (base.size() + (c > 0xffff ? 2 : 1) <= len) add16(base, c); while (base.size() < len) base += u'b';
        out(base); out(base + char16_t(0xdc00)); out(base + char16_t(0xd800 + r.below(0x400))); } }
    family("16:mixed lengths");
    mixed([&](const U& c) { B16 s; for (auto x : c) add16(s, x); out(s); out(s + char16_t(0xd800 + r.below(0x800))); }, r, 0x10ffffu, scale);
    family("16:key texts");
    keyTexts([&](const U& c) { B16 s; for (auto x : c) add16(s, x); out(s); if (r.below(6) == 0) { out(s + char16_t(0xd800 + r.below(0x400))); out(s + char16_t(0xdc00 + r.below(0x400))); } }, 0x10ffff, scale);
    { std::vector<uint32_t> n; for (auto x : novelCps()) if (x <= 0xffff) n.push_back(x); for (uint32_t x : { 0x41u, 0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0xfeffu, 0xffffu, 0xd83du, 0xde00u }) n.push_back(x); uint64_t k = 0;      // units, whether or not they are whole
      for (auto a : n) for (auto b : n) { if (!mine(k++)) continue; for (auto c : n) { char16_t t[3] = { char16_t(a), char16_t(b), char16_t(c) }; sink(t, 3); } } }
    family("16:positions");
    { std::vector<B16> it = { u"\xd800", u"\xdc00", u"\xd83d\xde00", u"\xdbff\xdfff", u"\xde00\xd83d", u"\xd800\xd800\xdc00", u"\xffff", u"\xfeff", u"A", u"\xdbff", u"\xe9", u"\x20ac" }; uint64_t k = 0; size_t top = A.thorough ? 300 : scale < 0.2 ? 24 : 72;
      for (uint32_t c : { 0x61u, 0x20acu, 0x1f600u }) for (size_t a = 0; a < top; ++a) for (size_t b = 0; b < top; b += (b < 20 ? 1 : 1 + r.below(6))) { if (!mine(k++)) continue;
        B16 pre, post; for (size_t i = 0; i < a; ++i) add16(pre, c); for (size_t i = 0; i < b; ++i) add16(post, c);
        for (int j = 0; j < 3; ++j) { const B16& x = it[r.below(it.size())]; out(pre + x + post); if (j == 0) { const B16& y = it[r.below(it.size())]; out(x + pre + y + post); } } } }
    family("16:random");
    for (uint64_t i = 0, n = uint64_t((A.thorough ? 12000000 : 1200000) * scale) / A.nshards + 100; i < n; ++i) { size_t m = r.below(50) == 0 ? 200 : r.below(4) == 0 ? 30 : 6; out(random16(r, m)); }
    family("end of 16");
}

// ---------------------------------------------------------------- 32 bits
inline B32 random32(Rng& r, size_t maxItems) {
    B32 s; size_t n = r.below(maxItems + 1); static const uint32_t tops[] = { 0x7f, 0xffff, 0x10ffff, 0x10ffff, 0x7fffffff, 0xffffffff };
    uint32_t top = tops[r.below(6)];
    for (size_t i = 0; i < n; ++i) s.push_back(someCp(r, top));
    if (r.below(3) == 0 && !s.empty()) s[r.below(s.size())] = someCp(r, 0xffffffff, true);
    if (r.below(6) == 0) s.insert(r.below(s.size() + 1), 1, char32_t(0xd800 + r.below(0x800)));
    return s;
}
template <class Sink> void gen32(Sink sink, double scale = 1.0) {
    scale *= A.scale;
    auto out = [&](const B32& s) { sink(s.data(), s.size()); };
    Rng r(A.seed * 1000003 + uint64_t(A.shard) * 7919 + 32);
    family("32:single units");
    { auto one = [&](uint32_t u) { if (!u) return; char32_t b[3] = { u, U'z', 0 }; sink(b, 1); sink(b, 2); char32_t c[3] = { U'A', u, U'z' }; sink(c, 3); sink(c, 2); };
      if (A.shard == 0) { char32_t z = 0; sink(&z, 0); }
      for (uint32_t u = 1; u < 0x220000; ++u) if (mine(u / 64)) one(u);
      for (size_t i = 0; i < hotCps().size(); ++i) if (g_hashes || mine(i)) one(hotCps()[i]);
      for (size_t i = 0; i < dictCps().size(); ++i) if (g_hashes || mine(i)) { one(dictCps()[i]); one(~dictCps()[i]); one(0u - dictCps()[i]); one(dictCps()[i] | 0x80000000u); one(dictCps()[i] << 16); }
      for (uint64_t i = 0, n = uint64_t((A.thorough ? 8000000 : 1000000) * scale) / A.nshards + 1000; i < n; ++i) one(uint32_t(r.next()));
      for (uint64_t i = 0, n = uint64_t((A.thorough ? 8000000 : 400000) * scale) / A.nshards + 1000; i < n; ++i) one(uint32_t(r.below(0x110000)) | uint32_t(r.next() & 0xffe00000u)); }
    family("32:tuples");
    { std::vector<uint32_t> h = { 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x80000000u, 0x8000d800u, 0xffffffffu };
      uint64_t k = 0; for (auto a : h) for (auto b : h) { if (!mine(k++)) continue; char32_t t[3] = { a, b, 0 }; sink(t, 2); for (auto c : h) { t[2] = c; sink(t, 3); } } }
    family("32:lengths");
    { std::vector<uint32_t> it = { 0xd800, 0xdfff, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000u, 0x1f600, 0x41 }; uint64_t k = 0;
      for (size_t len : hotLengths()) { if (len > 5000 && scale < 0.1) continue; for (int f = 0; f < 3; ++f) { if (!mine(k++) || (len > 5000 && scale < 0.5 && f != int(len % 3))) continue;
        uint32_t c = f == 0 ? 0x61 : f == 1 ? 0x20ac : 0x1f600; B32 base(len, c); out(base); for (size_t i = 0; i < it.size(); ++i) { if (len > 5000 && i > 2) break; B32 m = base; m.push_back(it[i]); out(m); m = base; m.insert(size_t(0), 1, it[i]); out(m); m = base; m[len / 2] = it[i]; out(m); } } } }
    family("32:longest");
    if (scale >= 0.2) { uint64_t k = 0; for (size_t len : longLengths()) for (int f = 0; f < 3; ++f) { if (!mine(k++ * 5) || (f && int((len + A.seed) % 2) + 1 != f)) continue;
        B32 base(len, f == 0 ? U'a' : f == 1 ? char32_t(0x20ac) : char32_t(0x1f600)); out(base); out(base + char32_t(0xdc00)); out(base + char32_t(r.next())); } }
    family("32:mixed lengths");
    mixed([&](const U& c) { B32 s; for (auto x : c) s.push_back(char32_t(x)); out(s); out(s + char32_t(r.next())); }, r, 0xffffffffu, scale);
    family("32:key texts");
    keyTexts([&](const U& c) { out(B32(c.begin(), c.end())); }, 0xffffffffu, scale);
    { auto n = novelCps(); uint64_t k = 0; for (uint32_t x : { 0x41u, 0xd800u, 0xdfffu, 0x10ffffu, 0x110000u, 0x7fffffffu, 0x80000000u, 0xffffffffu }) n.push_back(x);
      for (auto a : n) for (auto b : n) { if (!mine(k++)) continue; char32_t t[2] = { a, b }; sink(t, 2); } }
    family("32:positions");
    { std::vector<uint32_t> it = { 0xd800, 0xdfff, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000u, 0x1f600, 0x41, 0xe9, 0x20ac, 0xffffffffu, 0xfeff }; uint64_t k = 0; size_t top = A.thorough ? 300 : scale < 0.2 ? 24 : 72;
      for (uint32_t c : { 0x61u, 0x20acu, 0x1f600u }) for (size_t a = 0; a < top; ++a) for (size_t b = 0; b < top; b += (b < 20 ? 1 : 1 + r.below(6))) { if (!mine(k++)) continue;
        for (int j = 0; j < 3; ++j) { B32 s(a, char32_t(c)); s += char32_t(it[r.below(it.size())]); s.append(b, char32_t(c)); out(s); if (j == 0) { s.insert(s.begin(), char32_t(it[r.below(it.size())])); out(s); } } } }
    family("32:random");
    for (uint64_t i = 0, n = uint64_t((A.thorough ? 12000000 : 1200000) * scale) / A.nshards + 100; i < n; ++i) { size_t m = r.below(50) == 0 ? 200 : r.below(4) == 0 ? 30 : 6; out(random32(r, m)); }
    if (A.thorough && A.more.count("all32")) {
        family("32:every unit");
        for (uint64_t u = 1; u <= 0xffffffffull; ++u) { if (!mine(u >> 16)) continue; char32_t b = char32_t(u); sink(&b, 1); }
    }
    family("end of 32");
}
