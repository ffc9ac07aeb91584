// Conformance driver for the templates: split, join, trim, for several character types.
#include "gen.hpp"
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
using namespace ansak;

static Rng R(1);
typedef std::vector<U> UU;
static Op oSplit("split"), oJoin("join"), oTrim("trim"), oTrimSet("trimSet");

static std::string nested(const UU& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; putArr(s, v[i]); } return s + "]"; }
static std::string ev(const char* op, const char* form, const L& a, const std::string& x, const std::string& r, const char* out) {
    std::string s = "{\"k\":\"api\",\"op\":\""; s += op; s += "\",\"a\":"; putArr(s, a); s += ",\"p\":[],\"v\":16,\"x\":" + x + ",\"r\":" + r + ",\"out\":\"" + out + "\",\"form\":\"" + form + "\",\"fam\":\"" + g_family + "\"}";
    return s;
}
static std::string flat(const U& u) { std::string s; putArr(s, u); return s; }

// what the specification's Split, Join and Trim say
static UU splitOf(const U& s, uint32_t d) { UU v; if (s.empty()) return v; v.push_back(U()); for (auto c : s) if (c == d) v.push_back(U()); else v.back().push_back(c); return v; }
static U joinOf(const UU& p, uint32_t d) { U r; for (size_t i = 0; i < p.size(); ++i) { if (i) r.push_back(d); r.insert(r.end(), p[i].begin(), p[i].end()); } return r; }
static U trimOf(const U& s, const U& set) {
    auto in = [&](uint32_t x) { return std::find(set.begin(), set.end(), x) != set.end(); };
    size_t a = 0, b = s.size(); while (b > 0 && in(s[b - 1])) --b; while (a < b && in(s[a])) ++a; return U(s.begin() + a, s.begin() + b);
}

template <class C> struct Text {
    typedef std::basic_string<C> S;
    typedef typename std::conditional<sizeof(C) == 1, uint8_t, typename std::conditional<sizeof(C) == 2, uint16_t, uint32_t>::type>::type W;
    const char* name; uint32_t top = W(-1);
    static S str(const U& u) { S s; for (auto c : u) s.push_back(static_cast<C>(c)); return s; }
    static U un(const S& s) { U u; u.reserve(s.size()); for (auto c : s) u.push_back(static_cast<W>(c)); return u; }
    static UU uns(const std::vector<S>& v) { UU r; for (auto& s : v) r.push_back(un(s)); return r; }
    void note(const Op& o, const L& a, const S& s) { g_cur = Cur{ "api", o.name, name, s.data(), s.size(), int(sizeof(C) * 8), &a, nullptr }; }

    void split1(const U& u, uint32_t d) {
        S s = str(u), keep = s; L a{ int64_t(d) }; note(oSplit, a, s);
        try { auto got = uns(split(s, static_cast<C>(d)));
              judge(oSplit, got == splitOf(u, d) && s == keep, [&](const char* out) { return ev("split", name, a, flat(u), nested(got), s == keep ? out : "modified"); });
        } catch (...) { mismatch(ev("split", name, a, flat(u), "[]", "throw")); }
    }
    void join1(const UU& p, uint32_t d) {
        std::vector<S> v; for (auto& u : p) v.push_back(str(u)); auto keep = v; L a{ int64_t(d) }; S none; note(oJoin, a, none);
        try { U got = un(join(v, static_cast<C>(d)));
              judge(oJoin, got == joinOf(p, d) && v == keep, [&](const char* out) { return ev("join", name, a, nested(p), flat(got), v == keep ? out : "modified"); });
        } catch (...) { mismatch(ev("join", name, a, nested(p), "[]", "throw")); }
    }
    void trim1(const U& u) {
        S s = str(u); L a; note(oTrim, a, s);
        try { trim(s); U got = un(s); judge(oTrim, got == trimOf(u, U{ 32 }), [&](const char* out) { return ev("trim", name, a, flat(u), flat(got), out); });
        } catch (...) { mismatch(ev("trim", name, a, flat(u), "[]", "throw")); }
    }
    void trimS(const U& u, const U& set) {
        S s = str(u), b = str(set), keep = b; L a; for (auto c : set) a.push_back(c); note(oTrimSet, a, s);
        try { trim(s, b); U got = un(s);
              judge(oTrimSet, got == trimOf(u, set) && b == keep, [&](const char* out) { return ev("trimSet", name, a, flat(u), flat(got), b == keep ? out : "modified"); });
        } catch (...) { mismatch(ev("trimSet", name, a, flat(u), "[]", "throw")); }
    }
    // ---------------------------------------------------------- inputs
    std::vector<uint32_t> hot() {
        std::set<uint32_t> v; for (auto c : hotCps()) v.insert(c & top); for (auto c : dictCps()) v.insert(c & top);
        for (uint32_t c : { 0u, top, top - 1, top / 2, top / 2 + 1 }) v.insert(c);
        return std::vector<uint32_t>(v.begin(), v.end());
    }
    void both(const U& u, uint32_t d) { split1(u, d); join1(splitOf(u, d), d); }
    template <class F> void words(const U& alpha, size_t n, F f) { // every string over alpha up to n characters
        U w; std::vector<size_t> ix; f(w);
        for (size_t len = 1; len <= n; ++len) {
            ix.assign(len, 0);
            for (;;) { w.clear(); for (auto i : ix) w.push_back(alpha[i]); f(w); size_t k = len; while (k > 0 && ++ix[k - 1] == alpha.size()) ix[--k] = 0; if (k == 0) break; }
        }
    }
    void splitJoin() {
        auto H = hot(); uint64_t n = 0;
        family("short strings, complete");
        for (U alpha : { U{ ',', 'a', 0 }, U{ 0, 'b' }, U{ top, top - 1, 0 }, U{ (top / 2) + 1, top / 2, 'x' } })
            words(alpha, A.thorough ? 9 : 7, [&](const U& w) { if (!mine(n++)) return; for (auto d : alpha) both(w, d); both(w, ' '); });
        family("all delimiters");
        U D; if (top <= 0xffff) for (uint32_t d = 0; d <= top; ++d) D.push_back(d); else D = H;
        for (auto d : D) { if (!mine(n++)) continue;
            U near{ d, (d + 1) & top, (d - 1) & top, d ^ 0x80u, (d ^ 0x100u) & top, d ^ (top / 2 + 1), (d << 8) & top, d >> 8, d & 0xff, (d | 0xff00) & top, 0, 'q' };
            U w; for (auto c : near) { w.push_back(c); w.push_back(d); w.push_back(c); } both(w, d); both(U{ d }, d); both(U{ d, d }, d); both(U{ 'q' }, d);
            UU p; for (auto c : near) p.push_back(U{ c, c }); p.push_back(U()); join1(p, d); }
        family("many pieces");
        for (auto k : hotLengths()) { if (k > (A.thorough ? 140000u : 66000u) || !mine(n++)) continue;
            uint32_t d = R.below(3) ? ',' : H[R.below(H.size())]; U w; for (size_t i = 0; i < k; ++i) { for (size_t j = R.below(3); j > 0; --j) w.push_back(R.below(2) ? uint32_t('a' + i % 26) : H[R.below(H.size())]); w.push_back(d); }
            if (R.below(2)) w.push_back('z'); both(w, d); U ds(k, d); both(ds, d); }
        family("long pieces");
        for (auto k : hotLengths()) { if (!mine(n++)) continue; uint32_t d = H[R.below(H.size())], e = (d + 1) & top; U w(k, e); split1(w, d); U x = w; x.push_back(d); x.insert(x.end(), w.begin(), w.end()); both(x, d); x.insert(x.begin(), d); both(x, d); }
        family("random");
        size_t N = size_t((A.thorough ? 400000 : 40000) * A.scale / A.nshards);
        for (size_t i = 0; i < N; ++i) {
            size_t kinds = 1 + R.below(6); U alpha; for (size_t j = 0; j < kinds; ++j) alpha.push_back(R.below(4) ? H[R.below(H.size())] : uint32_t(R.next()) & top);
            uint32_t d = R.below(8) ? alpha[R.below(kinds)] : H[R.below(H.size())];
            size_t len = R.below(R.below(8) ? 40 : 900); U w; for (size_t j = 0; j < len; ++j) w.push_back(alpha[R.below(kinds)]);
            both(w, d);
            UU p; size_t np = R.below(R.below(8) ? 8 : 300); for (size_t j = 0; j < np; ++j) { U q; for (size_t m = R.below(R.below(3) ? 4 : 40); m > 0; --m) q.push_back(alpha[R.below(kinds)]); p.push_back(q); }
            join1(p, d);
        }
    }
    void trims() {
        auto H = hot(); uint64_t n = 0;
        family("templates: short strings, complete");
        U alpha{ ' ', 'a', 9, 0, (0xa0u & top) };
        words(alpha, A.thorough ? 7 : 6, [&](const U& w) { if (!mine(n++)) return; trim1(w); trimS(w, U{ ' ', 9 }); trimS(w, U{ 0 }); trimS(w, U{ 0xa0u & top, 'a', 0 }); trimS(w, U{}); });
        family("templates: every character");
        U D; if (top <= 0xffff) for (uint32_t d = 0; d <= top; ++d) D.push_back(d); else D = H;
        for (auto d : D) { if (!mine(n++)) continue;
            for (U w : { U{ d }, U{ d, 'a', d }, U{ ' ', d, ' ' }, U{ ' ', 'a', d, ' ', d }, U{ d, d, (d + 1) & top, d } }) { trim1(w); trimS(w, U{ d }); trimS(w, U{ ' ', d }); trimS(w, U{ (d + 1) & top, (d ^ 0x80u) & top, (d ^ 0x100u) & top }); } }
        family("templates: long");
        for (auto k : hotLengths()) { if (k > 20000 || !mine(n++)) continue;      // erasing is quadratic
            for (int side = 1; side < 4; ++side) { U w; if (side & 1) w.insert(w.end(), k, 32u); w.push_back('x'); w.push_back(32); w.push_back('y'); if (side & 2) w.insert(w.end(), k, 32u); trim1(w); if (k < 5000) trimS(w, U{ 9, 32 }); }
            U m(k, 32u); trim1(m); if (k < 5000) { trimS(m, U{ 32 }); m.insert(m.begin(), 'x'); m.push_back('y'); trim1(m); trimS(m, U{ 32, 9, 10 }); }
            U set; for (size_t j = 0; j < k && j < 3000; ++j) set.push_back(H[R.below(H.size())]); U w; for (int j = 0; j < 12; ++j) w.push_back(R.below(2) ? set[R.below(set.size())] : H[R.below(H.size())]); trimS(w, set); }
        family("templates: random");
        size_t N = size_t((A.thorough ? 400000 : 40000) * A.scale / A.nshards);
        for (size_t i = 0; i < N; ++i) {
            size_t kinds = 1 + R.below(6); U al; for (size_t j = 0; j < kinds; ++j) al.push_back(R.below(4) ? H[R.below(H.size())] : uint32_t(R.next()) & top); if (R.below(2)) al.push_back(32);
            U w; for (size_t j = R.below(R.below(8) ? 30 : 600); j > 0; --j) w.push_back(al[R.below(al.size())]);
            trim1(w); U set; for (size_t j = R.below(6); j > 0; --j) set.push_back(R.below(2) ? al[R.below(al.size())] : H[R.below(H.size())]); trimS(w, set);
        }
    }
};

int main(int argc, char** argv) {
    parseArgs(argc, argv); R.s = A.seed * 7919 + uint64_t(A.shard) * 104729 + 17;
    auto run = [&](auto t) { if (A.prop == "C17") t.trims(); else t.splitJoin(); };
    run(Text<char>{ "char" }); run(Text<char16_t>{ "char16_t" }); run(Text<char32_t>{ "char32_t" }); run(Text<wchar_t>{ "wchar_t" });
    run(Text<unsigned char>{ "unsigned char" });
    finish(); return 0;
}
