// Conformance driver: is-, to-, unicodeLength, toLower, code pages, trimWhiteSpace, decodeUtf8.
#include "gen.hpp"
#include "string.hxx"
#include "string_trim.hxx"
#include "internal/string_decode_utf8.hxx"
#include <climits>
using namespace ansak;

static bool P(const char* id) { return A.prop == id; }

static Op oIs8("isUtf8"), oIs16("isUtf16"), oIsU2("isUcs2"), oIsU4("isUcs4"), oIs8N("isUtf8N"),
    oT48("toUcs4_8"), oT168("toUtf16_8"), oT28("toUcs2_8"), oT816("toUtf8_16"), oT416("toUcs4_16"), oT832("toUtf8_32"), oT1632("toUtf16_32"), oT232("toUcs2_32"),
    oL8("ulen8"), oL16("ulen16"), oL32("ulen32"), oL8N("ulen8N"), oL16N("ulen16N"), oL32N("ulen32N"),
    oLow8("lower8"), oLow16("lower16"), oLow32("lower32"), oSrc("fromSource"), oTr8("trimWS8"), oTr16("trimWS16"), oTr32("trimWS32"), oTrA("trimA7"), oDec("decode8");

static Guarded<char> G8(9 << 20); static Guarded<char16_t> G16(9 << 20); static Guarded<char32_t> G32(9 << 20);
static uint64_t g_known;
static Rng R(1);

static const L noA; static const Conds noP;
struct Src { const void* x; size_t n; int w; };
static Src S;                                   // the source of the case in hand
static U srcUnits() { U u(S.n); for (size_t i = 0; i < S.n; ++i) u[i] = S.w == 8 ? static_cast<const uint8_t*>(S.x)[i] : S.w == 16 ? static_cast<const uint16_t*>(S.x)[i] : static_cast<const uint32_t*>(S.x)[i]; return u; }
static void cur(const Op& o, const char* form, const L& a, const Conds& p) { g_cur = Cur{ "api", o.name, form, S.x, S.n, S.w, &a, &p }; }

template <class F> static void isOp(Op& o, const char* form, const L& a, const Conds& p, bool want, F f) {
    cur(o, form, a, p); bool got;
    try { got = f(); } catch (...) { threwEvent(); return; }
    judge(o, got == want, [&](const char* out) { return eventJson("api", o.name, form, a, p, srcUnits(), U{ got ? 1u : 0u }, out); });
}
template <class Str> static bool same(const U& want, const Str& got) {
    if (want.size() != got.size()) return false;
    typedef typename Str::value_type C; typedef typename std::conditional<sizeof(C) == 1, uint8_t, typename std::conditional<sizeof(C) == 2, uint16_t, uint32_t>::type>::type UC1;
    for (size_t i = 0; i < want.size(); ++i) if (want[i] != static_cast<UC1>(got[i])) return false;
    return true;
}
template <class F> static void toOp(Op& o, const char* form, const L& a, const U& want, F f) {
    cur(o, form, a, noP);
    try { auto got = f(); judge(o, same(want, got), [&](const char* out) { return eventJson("api", o.name, form, a, noP, srcUnits(), unitsOf(got), out); }); }
    catch (...) { threwEvent(); }
}
template <class F> static void lenOp(Op& o, const char* form, const L& a, F allowed, std::function<unsigned()> f) {
    cur(o, form, a, noP); unsigned got;
    try { got = f(); } catch (...) { threwEvent(); return; }
    judge(o, allowed(got), [&](const char* out) { return eventJson("api", o.name, form, a, noP, srcUnits(), U{ got }, out); });
}

static EncodingCheckPredicate build(const Conds& k) {
    EncodingCheckPredicate p;
    for (auto& c : k) p = c.second ? p.andIf(EncodingType(c.first)) : p.andIfNot(EncodingType(c.first));
    return p;
}
static RangeType RT(int64_t r) { return static_cast<RangeType>(static_cast<int>(r)); }
static const std::vector<int64_t> allRanges = { 0, 1, 2, 3, 4, 5, 6, -1 };
static const std::vector<int64_t> oddRanges = { 7, 8, 100, 255, 256, 65536, INT_MIN, INT_MAX, -2, -6, 0x40000000 };

static std::vector<L> aRange;                   // {r} for r in 0..7 to avoid building them again
static const L& ar(int64_t r) { static std::map<int64_t, L> m; if (r >= 0 && r < 8) return aRange[size_t(r)]; auto& x = m[r]; if (x.empty()) x = L{ r }; return x; }

static Scanned X;

// conditions that hold for one of the code points, chosen at random: others may or may not meet them
static Conds someConds(const U& cps) {
    Conds k; size_t n = R.below(4);
    uint32_t c = cps.empty() || R.below(8) == 0 ? uint32_t(R.below(0x110000)) : cps[R.below(cps.size())];
    for (size_t i = 0; i <= n; ++i) { int t = 1 + int(R.below(4)); int w = UC.in(t, c) ? 1 : 0; if (R.below(7) == 0) w = 1 - w; k.push_back({ t, w }); }
    if (R.below(20) == 0) k.push_back({ int(R.below(2)) ? 0 : 5, int(R.below(2)) });
    return k;
}
static bool allHold(const Conds& k, const U& cps) { for (auto c : cps) if (!condsHold(UC, k, c)) return false; return true; }

static const char* const langs[] = { nullptr, "", "tr", "en", "az", "kk", "tt", "tur", "aze", "azb", "azj", "kaz", "tat", "t", "tu", "turk", "TR", "tr-TR", "trk", "ka", "az_", "lt", "de", "zz", "at", "rt" };
static L langBytes(const char* l) { L a; if (l) for (; *l; ++l) a.push_back(uint8_t(*l)); return a; }

// ---- C06: what is accepted re-encodes; what is refused (cut-off end apart) converts to nothing
static Op oIsTo8("isto8"), oIsTo16("isto16"), oIsTo32("isto32");
template <class FI, class FW, class FT> static void istoOp(Op& o, const char* form, int r, int w, FI is, FW isWhole, FT to) {
    const L& a = ar(r); cur(o, form, a, noP);
    try {
        bool i = is(), j = X.st == CUT ? isWhole() : i; auto t = to(); bool ok;
        if (i) { if (X.st != BAD && allIn(r, X.cps)) ok = same(convert(X, r, w), t); else ok = X.cps.empty() || !t.empty(); }
        else ok = j || t.empty();
        judge(o, ok, [&](const char* out) { return eventJson("rel", o.name, form, a, noP, srcUnits(), U{ i ? 1u : 0u, j ? 1u : 0u }, out, field("t", unitsOf(t))); });
    } catch (...) { threwEvent(); }
}
// ---- C07: a cut-off end changes nothing; what does not continue it breaks the string
static Op oCutIs8("cutIs8"), oCutIs16("cutIs16"), oCutTo8("cutTo8"), oCutTo16("cutTo16"), oInIs8("insideIs8"), oInIs16("insideIs16"), oInTo8("insideTo8"), oInTo16("insideTo16");
template <class F, class G> static void cutIsOp(Op& oc, Op& oi, const char* form, int r, bool fits, F f, G whole) {
    Op& o = X.st == CUT ? oc : oi; const L& a = ar(r); cur(o, form, a, noP);
    try {
        bool g = f(), b = X.st == CUT ? whole() : false; bool ok = X.st == CUT ? g == (b && fits) : !g;
        judge(o, ok, [&](const char* out) { return eventJson("rel", o.name, form, a, noP, srcUnits(), U{ g ? 1u : 0u }, out, field("b", U{ b ? 1u : 0u })); });
    } catch (...) { threwEvent(); }
}
template <class F, class G> static void cutToOp(Op& oc, Op& oi, const char* form, F f, G whole) {
    Op& o = X.st == CUT ? oc : oi; cur(o, form, noA, noP);
    try {
        auto g = f(); auto b = g; bool ok;
        if (X.st == CUT) { b = whole(); ok = g == b; } else { b.clear(); ok = g.empty(); }
        judge(o, ok, [&](const char* out) { return eventJson("rel", o.name, form, noA, noP, srcUnits(), unitsOf(g), out, field("b", unitsOf(b))); });
    } catch (...) { threwEvent(); }
}
// ---- C11: with a predicate: as without, and the predicate itself for each code point
static Op oP8("pIsUtf8"), oP16("pIsUtf16"), oPU2("pIsUcs2"), oPU4("pIsUcs4"), oP8N("pIsUtf8N");
template <class F, class G> static void predOp(Op& o, const char* form, int64_t r, const Conds& c, const EncodingCheckPredicate& q, const Scanned& y, F f, G plain) {
    const L& a = ar(r); cur(o, form, a, c);
    try {
        bool g = f(), b = plain(); U h; bool all = true;
        for (auto x : y.cps) { bool k = q(char32_t(x)); h.push_back(k ? 1u : 0u); all = all && k; }
        bool ok = g == (b && all) || (y.st == BAD && b);
        judge(o, ok, [&](const char* out) { return eventJson("rel", o.name, form, a, c, srcUnits(), U{ g ? 1u : 0u }, out, field("b", U{ b ? 1u : 0u }) + field("h", h)); });
    } catch (...) { threwEvent(); }
}
// ---- C14: the mapping of single characters as the library gives it for them alone
static std::vector<uint32_t> g_single;
static uint32_t single(uint32_t c) {
    if (g_single.empty()) { g_single.resize(0x110000); std::u32string s(1, U'x'); for (uint32_t i = 0; i < 0x110000; ++i) { s[0] = i; std::u32string t = toLower(s); g_single[i] = t.size() == 1 ? uint32_t(t[0]) : 0xfffffffeu; } }
    if (c < 0x110000) return g_single[c];
    std::u32string t = toLower(std::u32string(1, char32_t(c))); return t.size() == 1 ? uint32_t(t[0]) : 0xfffffffeu;
}
template <class Str, class F> static void lowOp(Op& o, const char* lang, const U& cps, bool bad, int w, F f) {
    L a = langBytes(lang); bool tk = lang && isTurkicCode(lang);
    cur(o, lang ? "str" : "null lang", a, noP);
    try {
        Str got = f(); U m; for (auto c : cps) m.push_back(c == 'I' ? (tk ? 0x131u : 'i') : single(c));
        U want; if (!bad && (w == 32 || allIn(w == 8 ? k8 : k16, m))) want = w == 8 ? encAll8(m) : w == 16 ? encAll16(m) : m;
        judge(o, same(want, got), [&](const char* out) { return eventJson("rel", o.name, lang ? "str" : "null lang", a, noP, srcUnits(), unitsOf(got), out, field("m", m)); });
    } catch (...) { threwEvent(); }
}

static U trimmed(const U& c, const uint32_t* set, int n) {
    auto in = [&](uint32_t x) { return std::find(set, set + n, x) != set + n; };
    size_t a = 0, b = c.size(); while (b > 0 && in(c[b - 1])) --b; while (a < b && in(c[a])) ++a;
    return U(c.begin() + a, c.begin() + b);
}

// ------------------------------------------------------------------ per source width
static bool wantIsTo, wantCut, wantIs, wantTo, wantLen, wantLower, wantPred, wantTrim, wantSrc, wantDec, wantN, wantDefault, strForms = true;

static void lens8(const char* z, const std::string& s) {
    uint32_t n = countCps(X, kU); bool cut = X.st == CUT && n >= 1;
    auto ok = [&](unsigned g) { if (g == n) return true; if (cut && g + 1 == n) { ++g_known; return true; } return false; };
    lenOp(oL8, "ptr", noA, ok, [&] { return unicodeLength(z); });
    if (strForms) lenOp(oL8, "str", noA, ok, [&] { return unicodeLength(s); });
    lenOp(oL8N, "ptr,0", ar(0), ok, [&] { return unicodeLength(z, 0u); });
}

static void on8(const uint8_t* p, size_t n) {
    S = Src{ p, n, 8 };
    M8.scan(p, n, X);
    const char* z = G8.putz(p, n);
    std::string s(reinterpret_cast<const char*>(p), n);
    if (wantIs) {
        if (wantDefault) {
            bool w = is8(X, p, k8);
            isOp(oIs8, "ptr", ar(k8), noP, w, [&] { return isUtf8(z); });
            if (strForms) isOp(oIs8, "str", ar(k8), noP, w, [&] { return isUtf8(s); });
        }
        if (!P("C01")) for (int64_t r : allRanges) {
            bool w = is8(X, p, int(r));
            isOp(oIs8, "ptr,range", ar(r), noP, w, [&] { return isUtf8(z, RT(r)); });
            if (strForms) isOp(oIs8, "str,range", ar(r), noP, w, [&] { return isUtf8(s, RT(r)); });
        }
        if (P("C02") && R.below(16) == 0) { int64_t r = R.pick(oddRanges); isOp(oIs8, "ptr,range", ar(r), noP, false, [&] { return isUtf8(z, RT(r)); }); isOp(oIs8, "str,range", ar(r), noP, false, [&] { return isUtf8(s, RT(r)); }); }
    }
    if (wantPred) for (int k = 0; k < 2; ++k) {
        Conds c = someConds(X.cps); int r = R.below(2) ? 1 : int(R.below(6)); EncodingCheckPredicate q = build(c);
        predOp(oP8, "ptr,range,pred", r, c, q, X, [&] { return isUtf8(z, RT(r), q); }, [&] { return isUtf8(z, RT(r)); });
        predOp(oP8, "str,range,pred", r, c, q, X, [&] { return isUtf8(s, RT(r), q); }, [&] { return isUtf8(s, RT(r)); });
        predOp(oP8, "ptr,pred", k8, c, q, X, [&] { return isUtf8(z, q); }, [&] { return isUtf8(z); });
        predOp(oP8, "str,pred", k8, c, q, X, [&] { return isUtf8(s, q); }, [&] { return isUtf8(s); });
        if (k == 0 && R.below(4) == 0) { EncodingCheckPredicate none; predOp(oP8, "ptr,range,no conditions", r, noP, none, X, [&] { return isUtf8(z, RT(r), none); }, [&] { return isUtf8(z, RT(r)); }); }
        if (n && k == 0) { const char* b = G8.put(p, n); predOp(oP8N, "length,pred", int64_t(n), c, q, X, [&] { return isUtf8(b, unsigned(n), q); }, [&] { return isUtf8(b, unsigned(n)); }); z = G8.putz(p, n); }
    }
    if (wantIsTo) {
        const std::string wh = s.substr(0, X.st == CUT ? X.used : n);
        for (int fm = 0; fm < 2; ++fm) {
            const char* form = fm ? "str" : "ptr";
            istoOp(oIsTo8, form, k2, 32, [&] { return fm ? isUtf8(s, kUcs2) : isUtf8(z, kUcs2); }, [&] { return isUtf8(wh, kUcs2); }, [&] { return fm ? toUcs2(s) : toUcs2(z); });
            istoOp(oIsTo8, form, k16, 16, [&] { return fm ? isUtf8(s, kUtf16) : isUtf8(z, kUtf16); }, [&] { return isUtf8(wh, kUtf16); }, [&] { return fm ? toUtf16(s) : toUtf16(z); });
            istoOp(oIsTo8, form, k4, 32, [&] { return fm ? isUtf8(s, kUcs4) : isUtf8(z, kUcs4); }, [&] { return isUtf8(wh, kUcs4); }, [&] { return fm ? toUcs4(s) : toUcs4(z); });
        }
    }
    if (wantCut && (X.st == CUT || (X.st == BAD && X.inside))) {
        const std::string wh = s.substr(0, X.st == CUT ? X.used : n);
        for (int r = 0; r < 6; ++r) { bool fits = X.st == CUT && T_fits8[r][uint8_t(p[X.used])];
            cutIsOp(oCutIs8, oInIs8, "ptr", r, fits, [&] { return isUtf8(z, RT(r)); }, [&] { return isUtf8(wh, RT(r)); });
            cutIsOp(oCutIs8, oInIs8, "str", r, fits, [&] { return isUtf8(s, RT(r)); }, [&] { return isUtf8(wh, RT(r)); }); }
        cutToOp(oCutTo8, oInTo8, "toUcs4", [&] { return toUcs4(s); }, [&] { return toUcs4(wh); });
        cutToOp(oCutTo8, oInTo8, "toUcs4 ptr", [&] { return toUcs4(z); }, [&] { return toUcs4(wh); });
        cutToOp(oCutTo8, oInTo8, "toUtf16", [&] { return toUtf16(s); }, [&] { return toUtf16(wh); });
        cutToOp(oCutTo8, oInTo8, "toUtf16 ptr", [&] { return toUtf16(z); }, [&] { return toUtf16(wh); });
        cutToOp(oCutTo8, oInTo8, "toUcs2", [&] { return toUcs2(s); }, [&] { return toUcs2(wh); });
        cutToOp(oCutTo8, oInTo8, "toUcs2 ptr", [&] { return toUcs2(z); }, [&] { return toUcs2(wh); });
        const char* l = langs[R.below(sizeof langs / sizeof *langs)];
        cutToOp(oCutTo8, oInTo8, "toLower", [&] { return toLower(s, l); }, [&] { return toLower(wh, l); });
    }
    if (wantTo) {
        U w = convert(X, k8, 32); toOp(oT48, "ptr", noA, w, [&] { return toUcs4(z); }); if (strForms) toOp(oT48, "str", noA, w, [&] { return toUcs4(s); });
        w = convert(X, k16, 16); toOp(oT168, "ptr", noA, w, [&] { return toUtf16(z); }); if (strForms) toOp(oT168, "str", noA, w, [&] { return toUtf16(s); });
        w = convert(X, k2, 32); toOp(oT28, "ptr", noA, w, [&] { return toUcs2(z); }); if (strForms) toOp(oT28, "str", noA, w, [&] { return toUcs2(s); });
    }
    if (wantLen) lens8(z, s);
    if (wantLower) {
        const char* l = langs[R.below(sizeof langs / sizeof *langs)];
        lowOp<std::string>(oLow8, l, X.cps, X.st == BAD, 8, [&] { return toLower(s, l); });
        if (P("C14") && R.below(4) == 0) lowOp<std::string>(oLow8, nullptr, X.cps, X.st == BAD, 8, [&] { return toLower(s); });
    }
    if (wantTrim) {
        U w = X.st == BAD ? U() : encAll8(trimmed(X.cps, T_trim, T_trim_n));
        toOp(oTr8, "str", noA, w, [&] { std::string t(s); trimWhiteSpace(t); return t; });
        w = trimmed(units(s.data(), s.size()), T_ascii7, T_ascii7_n);
        toOp(oTrA, "str", noA, w, [&] { std::string t(s); trimAscii7WhiteSpace(t); return t; });
    }
    if (wantSrc) for (int e = 0; e < 3; ++e) {
        U w; if (e == 0) { if (is8(X, p, k8)) w = units(s.data(), s.size()); }
        else { const uint32_t* t = e == 1 ? T_cp1252 : T_cp1250; U c; bool ok = true; for (size_t i = 0; i < n; ++i) { uint32_t x = p[i] < 128 ? p[i] : t[p[i] - 128]; if (!x) { ok = false; break; } c.push_back(x); } if (ok) w = encAll8(c); }
        toOp(oSrc, "ptr", ar(e), w, [&] { return toUtf8(z, SourceEncoding(e)); });
        if (e == 0 && R.below(16) == 0) { static const std::vector<int64_t> odd = { 3, 4, -1, 100, INT_MAX, INT_MIN, 1252, 1250 }; int64_t x = R.pick(odd); toOp(oSrc, "ptr", ar(x), U(), [&] { return toUtf8(z, SourceEncoding(int(x))); }); }
    }
    if (wantDec && n) {
        // memory ends right behind the byte that decides
        int q = 0; size_t i = 0; int64_t acc = 0; uint32_t cp = 0; long pos = -1; bool decided = false;
        for (; i < n; ++i) { const Row& t = M8.at(q, p[i]); int64_t v = t.mul * acc + p[i] + t.add; if (t.to == 1) { decided = true; pos = -1; break; } if (t.emit) { cp = uint32_t(v); pos = long(i); decided = true; break; } q = t.to; acc = v; }
        const char* b; if (decided) b = G8.put(p, i + 1); else { b = G8.putz(p, n); pos = long(n); cp = 0; }
        cur(oDec, "cursor", noA, noP);
        try {
            const char* c = b; char32_t got = ansak::internal::decodeUtf8(c); long gp = c ? long(c - b) : -1;
            judge(oDec, got == cp && gp == pos, [&](const char* out) { return eventJson("api", "decode8", "cursor", noA, noP, srcUnits(), U{ uint32_t(got), uint32_t(gp) }, out); });
        } catch (...) { threwEvent(); }
    }
    if (wantN && n) {
        // exactly n bytes of memory; a prefix of longer memory; a NUL somewhere
        auto one = [&](const uint8_t* m, size_t have, size_t len) {
            S = Src{ m, have, 8 };
            size_t nul = len; for (size_t i = 0; i < len; ++i) if (!m[i]) { nul = i; break; }
            static Scanned y; M8.scan(m, nul, y); const L a{ int64_t(len) };
            const char* b = G8.put(m, have);
            bool low = y.st == CUT && nul == y.used + 2 && m[y.used] == 0xed && m[y.used + 1] >= 0xb0;
            bool full = nul == len;
            for (int k = 0; k < 2; ++k) {
                Conds c = k ? someConds(y.cps) : noP; bool h = allHold(c, y.cps);
                bool v = is8(y, m, k8) && h, f0 = false, f1 = false;      // allowed: false? true?
                if (nul == 0) f1 = true; else if (full) { (v ? f1 : f0) = true; if (low) f0 = true; } else { f0 = true; if (y.st == CUT && v) f1 = true; }
                EncodingCheckPredicate q = build(c); cur(oIs8N, "length", a, c); bool got;
                try { got = k ? isUtf8(b, unsigned(len), q) : isUtf8(b, unsigned(len)); } catch (...) { threwEvent(); continue; }
                judge(oIs8N, got ? f1 : f0, [&](const char* out) { return eventJson("api", "isUtf8N", "length", a, c, srcUnits(), U{ got ? 1u : 0u }, out); });
                if (!P("C08")) break;
            }
            uint32_t cnt = countCps(y, kU);
            lenOp(oL8N, "length", a, [&](unsigned g) { if (nul == 0) return g == 0; if (full) return g == cnt || (low && g == 0); return y.st == CUT ? g <= y.cps.size() : g == 0; }, [&] { return unicodeLength(b, unsigned(len)); });
        };
        one(p, n, n);
        if (n > 1) { one(p, n, 1 + R.below(n - 1)); }
        if (R.below(4) == 0) { std::basic_string<uint8_t> t(p, n); t[R.below(n)] = 0; one(t.data(), n, n); size_t at = R.below(n + 1); t.assign(p, n); t.insert(at, 1, uint8_t(0)); one(t.data(), n + 1, n + 1); one(t.data(), n + 1, 1 + R.below(n + 1)); }
        S = Src{ p, n, 8 };
        if (R.below(8) == 0) isOp(oIs8N, "length 0", ar(0), noP, is8(X, p, k8), [&] { const char* zz = G8.putz(p, n); return isUtf8(zz, 0u); });
    }
}

static void on16(const char16_t* p, size_t n) {
    S = Src{ p, n, 16 };
    M16.scan(p, n, X);
    const char16_t* z = G16.putz(p, n); std::u16string s(p, n);
    if (wantIs) {
        static Scanned y; MU2.scan(p, n, y);
        if (wantDefault) {
            bool w = is16(X, k16); isOp(oIs16, "ptr", ar(k16), noP, w, [&] { return isUtf16(z); }); if (strForms) isOp(oIs16, "str", ar(k16), noP, w, [&] { return isUtf16(s); });
            w = isFlat(y, k2); isOp(oIsU2, "ptr", ar(k2), noP, w, [&] { return isUcs2(z); }); if (strForms) isOp(oIsU2, "str", ar(k2), noP, w, [&] { return isUcs2(s); });
        }
        for (int64_t r : allRanges) {
            bool w = is16(X, int(r));
            isOp(oIs16, "ptr,range", ar(r), noP, w, [&] { return isUtf16(z, RT(r)); });
            if (strForms) isOp(oIs16, "str,range", ar(r), noP, w, [&] { return isUtf16(s, RT(r)); });
            w = isFlat(y, int(r));
            isOp(oIsU2, "ptr,range", ar(r), noP, w, [&] { return isUcs2(z, RT(r)); });
            if (strForms) isOp(oIsU2, "str,range", ar(r), noP, w, [&] { return isUcs2(s, RT(r)); });
        }
        if (P("C02") && R.below(16) == 0) { int64_t r = R.pick(oddRanges); isOp(oIs16, "ptr,range", ar(r), noP, false, [&] { return isUtf16(z, RT(r)); }); isOp(oIsU2, "ptr,range", ar(r), noP, false, [&] { return isUcs2(z, RT(r)); });
            isOp(oIs16, "str,range", ar(r), noP, false, [&] { return isUtf16(s, RT(r)); }); isOp(oIsU2, "str,range", ar(r), noP, false, [&] { return isUcs2(s, RT(r)); }); }
    }
    if (wantPred) for (int k = 0; k < 2; ++k) {
        static Scanned y; MU2.scan(p, n, y);
        Conds c = someConds(X.cps); int r = R.below(2) ? 3 : int(R.below(6)); EncodingCheckPredicate q = build(c);
        predOp(oP16, "ptr,range,pred", r, c, q, X, [&] { return isUtf16(z, RT(r), q); }, [&] { return isUtf16(z, RT(r)); });
        predOp(oP16, "str,range,pred", r, c, q, X, [&] { return isUtf16(s, RT(r), q); }, [&] { return isUtf16(s, RT(r)); });
        predOp(oP16, "ptr,pred", k16, c, q, X, [&] { return isUtf16(z, q); }, [&] { return isUtf16(z); });
        predOp(oP16, "str,pred", k16, c, q, X, [&] { return isUtf16(s, q); }, [&] { return isUtf16(s); });
        predOp(oPU2, "ptr,range,pred", r, c, q, y, [&] { return isUcs2(z, RT(r), q); }, [&] { return isUcs2(z, RT(r)); });
        predOp(oPU2, "str,range,pred", r, c, q, y, [&] { return isUcs2(s, RT(r), q); }, [&] { return isUcs2(s, RT(r)); });
        predOp(oPU2, "ptr,pred", k2, c, q, y, [&] { return isUcs2(z, q); }, [&] { return isUcs2(z); });
        predOp(oPU2, "str,pred", k2, c, q, y, [&] { return isUcs2(s, q); }, [&] { return isUcs2(s); });
    }
    if (wantIsTo) {
        const std::u16string wh = s.substr(0, X.st == CUT ? X.used : n);
        for (int fm = 0; fm < 2; ++fm) {
            const char* form = fm ? "str" : "ptr";
            istoOp(oIsTo16, form, k8, 8, [&] { return fm ? isUtf16(s, kUtf8) : isUtf16(z, kUtf8); }, [&] { return isUtf16(wh, kUtf8); }, [&] { return fm ? toUtf8(s) : toUtf8(z); });
            istoOp(oIsTo16, form, k4, 32, [&] { return fm ? isUtf16(s, kUcs4) : isUtf16(z, kUcs4); }, [&] { return isUtf16(wh, kUcs4); }, [&] { return fm ? toUcs4(s) : toUcs4(z); });
        }
    }
    if (wantCut && (X.st == CUT || (X.st == BAD && X.inside))) {
        const std::u16string wh = s.substr(0, X.st == CUT ? X.used : n);
        for (int r = 0; r < 6; ++r) { bool fits = T_fits16[r];
            cutIsOp(oCutIs16, oInIs16, "ptr", r, fits, [&] { return isUtf16(z, RT(r)); }, [&] { return isUtf16(wh, RT(r)); });
            cutIsOp(oCutIs16, oInIs16, "str", r, fits, [&] { return isUtf16(s, RT(r)); }, [&] { return isUtf16(wh, RT(r)); }); }
        cutToOp(oCutTo16, oInTo16, "toUtf8", [&] { return toUtf8(s); }, [&] { return toUtf8(wh); });
        cutToOp(oCutTo16, oInTo16, "toUtf8 ptr", [&] { return toUtf8(z); }, [&] { return toUtf8(wh); });
        cutToOp(oCutTo16, oInTo16, "toUcs4", [&] { return toUcs4(s); }, [&] { return toUcs4(wh); });
        cutToOp(oCutTo16, oInTo16, "toUcs4 ptr", [&] { return toUcs4(z); }, [&] { return toUcs4(wh); });
        const char* l = langs[R.below(sizeof langs / sizeof *langs)];
        cutToOp(oCutTo16, oInTo16, "toLower", [&] { return toLower(s, l); }, [&] { return toLower(wh, l); });
    }
    if (wantTo) {
        U w = convert(X, k8, 8); toOp(oT816, "ptr", noA, w, [&] { return toUtf8(z); }); if (strForms) toOp(oT816, "str", noA, w, [&] { return toUtf8(s); });
        w = convert(X, k4, 32); toOp(oT416, "ptr", noA, w, [&] { return toUcs4(z); }); if (strForms) toOp(oT416, "str", noA, w, [&] { return toUcs4(s); });
    }
    if (wantLen) {
        uint32_t cn = countCps(X, k4); bool cut = X.st == CUT && cn >= 1;
        auto ok = [&](unsigned g) { if (g == cn) return true; if (cut && g + 1 == cn) { ++g_known; return true; } return false; };
        lenOp(oL16, "ptr", noA, ok, [&] { return unicodeLength(z); });
        if (strForms) lenOp(oL16, "str", noA, ok, [&] { return unicodeLength(s); });
        lenOp(oL16N, "ptr,0", ar(0), ok, [&] { return unicodeLength(z, 0u); });
    }
    if (wantLower) {
        const char* l = langs[R.below(sizeof langs / sizeof *langs)];
        lowOp<std::u16string>(oLow16, l, X.cps, X.st == BAD, 16, [&] { return toLower(s, l); });
        if (P("C14") && R.below(4) == 0) lowOp<std::u16string>(oLow16, nullptr, X.cps, X.st == BAD, 16, [&] { return toLower(s); });
    }
    if (wantTrim) toOp(oTr16, "str", noA, trimmed(units(p, n), T_trim, T_trim_n), [&] { std::u16string t(s); trimWhiteSpace(t); return t; });
    if (wantN && n) {
        auto one = [&](const char16_t* m, size_t have, size_t len) {
            S = Src{ m, have, 16 }; size_t nul = len; for (size_t i = 0; i < len; ++i) if (!m[i]) { nul = i; break; }
            static Scanned y; M16.scan(m, nul, y); const L a{ int64_t(len) }; const char16_t* b = G16.put(m, have); uint32_t cnt = countCps(y, k4);
            lenOp(oL16N, "length", a, [&](unsigned g) { if (nul == 0) return g == 0; if (nul == len) return g == cnt; return y.st == CUT ? g <= y.cps.size() : g == 0; }, [&] { return unicodeLength(b, unsigned(len)); });
        };
        one(p, n, n); if (n > 1) one(p, n, 1 + R.below(n - 1));
        if (R.below(4) == 0) { std::u16string t(p, n); t[R.below(n)] = 0; one(t.data(), n, n); one(t.data(), n, 1 + R.below(n)); }
        S = Src{ p, n, 16 };
    }
}

static void on32(const char32_t* p, size_t n) {
    S = Src{ p, n, 32 };
    MU4.scan(p, n, X);
    const char32_t* z = G32.putz(p, n); std::u32string s(p, n);
    if (wantIs) {
        if (wantDefault) { bool w = isFlat(X, k4); isOp(oIsU4, "ptr", ar(k4), noP, w, [&] { return isUcs4(z); }); if (strForms) isOp(oIsU4, "str", ar(k4), noP, w, [&] { return isUcs4(s); }); }
        for (int64_t r : allRanges) {
            bool w = isFlat(X, int(r));
            isOp(oIsU4, "ptr,range", ar(r), noP, w, [&] { return isUcs4(z, RT(r)); });
            if (strForms) isOp(oIsU4, "str,range", ar(r), noP, w, [&] { return isUcs4(s, RT(r)); });
        }
        if (P("C02") && R.below(16) == 0) { int64_t r = R.pick(oddRanges); isOp(oIsU4, "ptr,range", ar(r), noP, false, [&] { return isUcs4(z, RT(r)); }); isOp(oIsU4, "str,range", ar(r), noP, false, [&] { return isUcs4(s, RT(r)); }); }
    }
    if (wantPred) for (int k = 0; k < 2; ++k) {
        Conds c = someConds(X.cps); int r = R.below(2) ? 4 : int(R.below(6)); EncodingCheckPredicate q = build(c);
        predOp(oPU4, "ptr,range,pred", r, c, q, X, [&] { return isUcs4(z, RT(r), q); }, [&] { return isUcs4(z, RT(r)); });
        predOp(oPU4, "str,range,pred", r, c, q, X, [&] { return isUcs4(s, RT(r), q); }, [&] { return isUcs4(s, RT(r)); });
        predOp(oPU4, "ptr,pred", k4, c, q, X, [&] { return isUcs4(z, q); }, [&] { return isUcs4(z); });
        predOp(oPU4, "str,pred", k4, c, q, X, [&] { return isUcs4(s, q); }, [&] { return isUcs4(s); });
    }
    if (wantIsTo) for (int fm = 0; fm < 2; ++fm) {
        const char* form = fm ? "str" : "ptr"; auto never = [] { return false; };
        istoOp(oIsTo32, form, k8, 8, [&] { return fm ? isUcs4(s, kUtf8) : isUcs4(z, kUtf8); }, never, [&] { return fm ? toUtf8(s) : toUtf8(z); });
        istoOp(oIsTo32, form, k16, 16, [&] { return fm ? isUcs4(s, kUtf16) : isUcs4(z, kUtf16); }, never, [&] { return fm ? toUtf16(s) : toUtf16(z); });
        istoOp(oIsTo32, form, k2, 32, [&] { return fm ? isUcs4(s, kUcs2) : isUcs4(z, kUcs2); }, never, [&] { return fm ? toUcs2(s) : toUcs2(z); });
    }
    if (wantTo) {
        U w = convert(X, k8, 8); toOp(oT832, "ptr", noA, w, [&] { return toUtf8(z); }); if (strForms) toOp(oT832, "str", noA, w, [&] { return toUtf8(s); });
        w = convert(X, k16, 16); toOp(oT1632, "ptr", noA, w, [&] { return toUtf16(z); }); if (strForms) toOp(oT1632, "str", noA, w, [&] { return toUtf16(s); });
        w = convert(X, k2, 32); toOp(oT232, "ptr", noA, w, [&] { return toUcs2(z); }); if (strForms) toOp(oT232, "str", noA, w, [&] { return toUcs2(s); });
    }
    if (wantLen) {
        uint32_t cn = countCps(X, k4); auto ok = [&](unsigned g) { return g == cn; };
        lenOp(oL32, "ptr", noA, ok, [&] { return unicodeLength(z); });
        if (strForms) lenOp(oL32, "str", noA, ok, [&] { return unicodeLength(s); });
        lenOp(oL32N, "ptr,0", ar(0), ok, [&] { return unicodeLength(z, 0u); });
    }
    if (wantLower) {
        const char* l = langs[R.below(sizeof langs / sizeof *langs)]; U c = units(p, n);
        lowOp<std::u32string>(oLow32, l, c, false, 32, [&] { return toLower(s, l); });
        if (P("C14") && n && R.below(8) == 0) { U d = c; d.insert(d.begin() + R.below(n + 1), 0u); std::u32string t(d.begin(), d.end()); S = Src{ t.data(), t.size(), 32 }; lowOp<std::u32string>(oLow32, l, d, false, 32, [&] { return toLower(t, l); }); S = Src{ p, n, 32 }; }
        if (P("C14") && R.below(4) == 0) lowOp<std::u32string>(oLow32, nullptr, c, false, 32, [&] { return toLower(s); });
    }
    if (wantTrim) toOp(oTr32, "str", noA, trimmed(units(p, n), T_trim, T_trim_n), [&] { std::u32string t(s); trimWhiteSpace(t); return t; });
    if (wantN && n) {
        auto one = [&](const char32_t* m, size_t have, size_t len) {
            S = Src{ m, have, 32 }; size_t nul = len; for (size_t i = 0; i < len; ++i) if (!m[i]) { nul = i; break; }
            static Scanned y; MU4.scan(m, nul, y); const L a{ int64_t(len) }; const char32_t* b = G32.put(m, have); uint32_t cnt = countCps(y, k4);
            lenOp(oL32N, "length", a, [&](unsigned g) { if (nul == 0) return g == 0; if (nul == len) return g == cnt; return g == 0; }, [&] { return unicodeLength(b, unsigned(len)); });
        };
        one(p, n, n); if (n > 1) one(p, n, 1 + R.below(n - 1));
        if (R.below(4) == 0) { std::u32string t(p, n); t[R.below(n)] = 0; one(t.data(), n, n); }
        S = Src{ p, n, 32 };
    }
}

// null pointers and empty strings
static void nulls() {
    family("null and empty");
    for (int form = 0; form < 2; ++form) {
        static const char e8[] = ""; static const char16_t e16[] = u""; static const char32_t e32[] = U"";
        const char* n8 = form ? e8 : nullptr; const char16_t* n16 = form ? e16 : nullptr; const char32_t* n32 = form ? e32 : nullptr;
        const char* f = form ? "empty" : "null";
        S = Src{ nullptr, 0, 8 };
        if (wantIs) for (int64_t r : { 0, 1, 2, 3, 4, 5, 6, -1, 99 }) {
            bool w = r >= 0 && r <= 5;
            for (int k = 0; k < 5; ++k) { Conds c; if (k) c.push_back({ k, 1 }); auto q = build(c);
                isOp(oIs8, f, ar(r), c, w, [&] { return isUtf8(n8, RT(r), q); }); if (P("C01")) continue;
                isOp(oIs16, f, ar(r), c, w, [&] { return isUtf16(n16, RT(r), q); });
                isOp(oIsU2, f, ar(r), c, w, [&] { return isUcs2(n16, RT(r), q); }); isOp(oIsU4, f, ar(r), c, w, [&] { return isUcs4(n32, RT(r), q); }); }
        }
        if (wantTo) {
            toOp(oT48, f, noA, U(), [&] { return toUcs4(n8); }); toOp(oT168, f, noA, U(), [&] { return toUtf16(n8); }); toOp(oT28, f, noA, U(), [&] { return toUcs2(n8); });
            toOp(oT816, f, noA, U(), [&] { return toUtf8(n16); }); toOp(oT416, f, noA, U(), [&] { return toUcs4(n16); });
            toOp(oT832, f, noA, U(), [&] { return toUtf8(n32); }); toOp(oT1632, f, noA, U(), [&] { return toUtf16(n32); }); toOp(oT232, f, noA, U(), [&] { return toUcs2(n32); });
        }
        auto zero = [](unsigned g) { return g == 0; };
        if (wantLen || wantN) { for (unsigned n : { 0u, 1u, 5u, 4096u, 0xffffffffu }) { L a{ int64_t(n & 0x7fffffffu) };
            lenOp(oL8N, f, a, zero, [&] { return unicodeLength(n8, n); }); lenOp(oL16N, f, a, zero, [&] { return unicodeLength(n16, n); }); lenOp(oL32N, f, a, zero, [&] { return unicodeLength(n32, n); });
            if (wantN) isOp(oIs8N, f, a, noP, true, [&] { return isUtf8(n8, n); }); } }
        if (wantSrc) for (int64_t e : { 0, 1, 2, 3, -1 }) toOp(oSrc, f, ar(e), U(), [&] { return toUtf8(n8, SourceEncoding(int(e))); });
    }
}

// C07: valid text, then every kind of cut, then something that does not continue it
static void cuts() {
    Rng r(A.seed * 77 + A.shard);
    std::vector<B8> its = items8();
    family("8:cut after every prefix");
    uint64_t rounds = (A.thorough ? 400000 : 24000) / A.nshards;
    for (uint64_t i = 0; i < rounds; ++i) {
        B8 s; uint32_t top = r.below(2) ? 0xffff : r.below(2) ? 0x10ffff : 0x7fffffff; for (size_t k = r.below(i % 50 == 0 ? 60 : 5); k > 0; --k) { uint32_t c = someCp(r, top); if (c > 0xffff && c < 0x110000 && r.below(3) == 0) add8pair(s, c); else add8(s, c); }
        on8(s.data(), s.size());
        uint32_t c = someCp(r, 0x7fffffff); B8 q; if (c > 0xffff && c < 0x110000 && r.below(2)) add8pair(q, c); else add8(q, c);
        for (size_t k = 1; k < q.size(); ++k) {
            B8 t = s + q.substr(0, k); on8(t.data(), t.size());
            for (int j = 0; j < 3; ++j) { B8 u = t; if (j == 0) u.push_back(uint8_t(1 + r.below(127))); else if (j == 1) u.push_back(uint8_t(0xc0 + r.below(0x40))); else u += its[r.below(its.size())]; on8(u.data(), u.size()); }
            B8 v = t; v.push_back(uint8_t(0x80 + r.below(0x40))); on8(v.data(), v.size());
        }
    }
    family("16:cut after a high half");
    for (uint64_t i = 0; i < rounds; ++i) {
        B16 s; for (size_t k = r.below(i % 50 == 0 ? 60 : 5); k > 0; --k) add16(s, someCp(r, 0x10ffff));
        on16(s.data(), s.size()); s.push_back(char16_t(0xd800 + r.below(0x400))); on16(s.data(), s.size());
        B16 t = s; t.push_back(char16_t(1 + r.below(0xd7ff))); on16(t.data(), t.size()); t = s; t.push_back(char16_t(0xd800 + r.below(0x800))); on16(t.data(), t.size());
        t.push_back(char16_t(1 + r.below(0xffff))); on16(t.data(), t.size());
    }
}

// C14: which strings select dotless i
static void languages() {
    family("language codes");
    static const char32_t src[] = U"Iai\u0130\u0131I"; const U cps(src, src + 6); std::u32string s4(src); std::u16string s2(s4.begin(), s4.end()); std::string s1; { U u = encAll8(cps); s1.assign(u.begin(), u.end()); }
    uint64_t k = 0;
    auto one = [&](const std::string& l) { if (!mine(k++) || l.find('\0') != std::string::npos) return;
        const char* z = G8.putz(reinterpret_cast<const uint8_t*>(l.data()), l.size());
        switch (k / uint64_t(A.nshards) % 3) {
        case 0: S = Src{ s4.data(), s4.size(), 32 }; lowOp<std::u32string>(oLow32, z, cps, false, 32, [&] { return toLower(s4, z); }); break;
        case 1: S = Src{ s2.data(), s2.size(), 16 }; lowOp<std::u16string>(oLow16, z, cps, false, 16, [&] { return toLower(s2, z); }); break;
        default: S = Src{ s1.data(), s1.size(), 8 }; lowOp<std::string>(oLow8, z, cps, false, 8, [&] { return toLower(s1, z); }); } };
    auto all3 = [&](const std::string& l) { one(l); one(l); one(l); };
    std::vector<std::string> T; for (int i = 0; i < T_turkic_n; ++i) T.push_back(T_turkic[i]);
    Rng r(A.seed);
    for (int x = 1; x < 256; ++x) { one(std::string(1, char(x))); for (int y = 1; y < 256; ++y) one(std::string(1, char(x)) + char(y)); }
    for (int x = 0; x < 26; ++x) for (int y = 0; y < 26; ++y) for (int z = 0; z < 26; ++z) { std::string l{ char('a' + x), char('a' + y), char('a' + z) }; one(l); if (A.thorough) for (int w = 0; w < 26; ++w) one(l + char('a' + w)); }
    for (auto& c : T) {
        for (int i = 0; i < 24; ++i) all3(c);
        for (size_t i = 0; i < c.size(); ++i) for (int x = 1; x < 256; ++x) { std::string l = c; l[i] = char(x); all3(l); l = c; l.insert(i, 1, char(x)); all3(l); }
        for (int x = 1; x < 256; ++x) { all3(c + char(x)); all3(c + char(x) + "TR"); all3(c + char(x) + "Latn"); all3(c + char(x) + "Latn" + char(x) + "TR"); }
        for (const char* q : { "-TR", "_TR", ".UTF-8", "_TR.UTF-8", "_TR.ISO8859-9@x", "-Latn-AZ", " ", "\n", "k", "ki", "kish", "atar", "akh" }) { all3(c + q); all3(q + c); std::string u = c + q; for (auto& h : u) h = char(toupper(h)); all3(u); }
        for (auto& d : T) { all3(c + d); all3(c + "," + d); }
        std::string u = c; u[0] = char(toupper(u[0])); all3(u);
        for (size_t n : hotLengths()) if (n < 5000) one(c + std::string(n, 'r'));
    }
    for (auto& c : A.strings) { all3(c); for (auto& d : A.strings) all3(c + d); for (auto& d : T) { all3(c + d); all3(d + c); } for (auto x : A.novel) if (x < 256) { all3(c + char(x)); } }
    for (auto x : A.novel) if (x < 256) for (auto& c : T) for (auto y : A.novel) if (y < 256) { all3(c + char(x) + char(y)); std::string l = c; l[0] = char(x); l[1] = char(y); all3(l); }
    for (int i = 0; i < 20000; ++i) { std::string l; static const char al[] = "aztrkuebj-_TRAZ"; for (size_t n = 1 + r.below(7); n > 0; --n) l += al[r.below(sizeof al - 1)]; one(l); }
}

int main(int argc, char** argv) {
    parseArgs(argc, argv);
    for (int i = 0; i < 8; ++i) aRange.push_back(L{ i });
    R = Rng(A.seed * 31337 + A.shard);
    bool g8 = false, g16 = false, g32 = false; double scale = 1;
    if (P("C01")) wantIs = wantDefault = g8 = true;
    else if (P("C02")) { wantIs = wantDefault = g8 = g16 = g32 = true; scale = 0.3; }
    else if (P("C03")) wantTo = g8 = true;
    else if (P("C04")) wantTo = g16 = g32 = true;
    else if (P("C06")) { wantIsTo = g8 = g16 = g32 = true; scale = 0.35; }
    else if (P("C07")) { wantCut = g8 = g16 = true; scale = 0.3; }
    else if (P("C08")) { wantN = g8 = g16 = g32 = true; scale = 0.5; }
    else if (P("C09")) wantLen = g8 = g16 = g32 = true;
    else if (P("C11")) { wantPred = g8 = g16 = g32 = true; scale = 0.08; }
    else if (P("C14")) { wantLower = g8 = g16 = g32 = true; scale = 0.5; }
    else if (P("C15")) wantSrc = g8 = true;
    else if (P("C17")) { wantTrim = g8 = g16 = g32 = true; scale = 0.5; }
    else if (P("C21")) wantDec = g8 = true;
    else if (P("C23")) { wantIs = wantDefault = wantTo = wantLen = wantSrc = wantN = wantTrim = wantDec = g8 = g16 = g32 = true; scale = 0.02; }
    else { fprintf(stderr, "unknown property\n"); return 2; }
    if (A.shard == 0) nulls();
    if (P("C07")) cuts();
    if (P("C14")) languages();
    if (g8) gen8(on8, scale);
    if (g16) gen16(on16, scale);
    if (g32) gen32(on32, scale);
    finish();
    return 0;
}
