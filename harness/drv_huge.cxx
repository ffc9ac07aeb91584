// Strings of more units than 31 or 32 bits can count: a pattern repeated over and over (the same few pages of memory
// mapped again and again), something in front of it and something behind it. Nothing is compared here: all of it is
// recorded, the long parts as a pattern and a count, and judged by TLC (Huge.tla).
#include "drv.hpp"
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#include <sys/syscall.h>
#include <unistd.h>
using namespace ansak;

static std::string pairOf(uint64_t v) { return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]"; }
static std::string list(const U& u) { std::string s; putArr(s, u); return s; }
static std::string g_open;             // the event in progress, without its result
static void emit(const std::string& rest) { ++g_total; writeLine(g_smp, g_open + rest + ",\"out\":\"ok\"}"); fflush(g_smp); }
static void onDeath(int sig) { signal(sig, SIG_DFL); writeLine(g_mis, g_open + ",\"r\":[],\"out\":\"crash\"}"); fflush(g_mis); fflush(g_smp); _exit(0); }

template <class C> struct Mapped {      // pat, over and over, and tail, and hostile units behind it (or a NUL)
    char* base = nullptr; size_t span = 0; C* p = nullptr; uint64_t reps = 0, n = 0;
    // at least `want` units; a multiple of the pattern
    Mapped(const U& pat, uint64_t want, const U& tail, bool nul) {
        size_t unit = pat.size() * sizeof(C), chunk = unit * (1 << 20); uint64_t per = 1 << 20;      // repetitions in a chunk
        uint64_t need = (want + pat.size() - 1) / pat.size(), m = (need + per - 1) / per; size_t skip = size_t(m * per - need);    // start inside of the first chunk
        int fd = int(syscall(SYS_memfd_create, "huge", 0u)); if (fd < 0) { FILE* t = tmpfile(); fd = t ? fileno(t) : -1; }
        if (fd < 0 || ftruncate(fd, off_t(chunk))) return;
        C* w = static_cast<C*>(mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); if (w == MAP_FAILED) return;
        for (size_t i = 0, k = 0; i < chunk / sizeof(C); ++i) { w[i] = C(pat[k]); if (++k == pat.size()) k = 0; }
        munmap(w, chunk);
        span = size_t(m) * chunk + (1 << 16);
        base = static_cast<char*>(mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (base == MAP_FAILED) { base = nullptr; return; }
        for (uint64_t i = 0; i < m; ++i) if (mmap(base + i * chunk, chunk, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return;
        close(fd);
        C* e = static_cast<C*>(mmap(base + m * chunk, 1 << 15, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0)); if (e == MAP_FAILED) return;
        for (size_t i = 0; i < 4096; ++i) e[i] = i < tail.size() ? C(tail[i]) : C(0x80);
        if (nul) e[tail.size()] = 0;
        p = reinterpret_cast<C*>(base) + skip * pat.size(); reps = need; n = need * pat.size() + tail.size();
    }
    ~Mapped() { if (base) munmap(base, span); }
};
static void open(const char* op, int w, int64_t a, const U& pre, const U& pat, uint64_t k, const U& tail) {
    g_open = std::string("{\"k\":\"huge\",\"op\":\"") + op + "\",\"w\":" + std::to_string(w) + ",\"a\":" + std::to_string(a) + ",\"pre\":" + list(pre) + ",\"pat\":" + list(pat) + ",\"n\":" + pairOf(k) + ",\"tail\":" + list(tail);
}
static std::string flag(bool b) { return std::string(",\"r\":[") + (b ? "1" : "0") + "]"; }
static std::string num(uint64_t v) { return ",\"r\":" + pairOf(v); }

struct Text { U pat, tail; };
static const Text t8[] = { { { 'a' }, {} }, { { 0xe2, 0x82, 0xac }, { 'z' } }, { { 'b' }, { 0xff } }, { { 'd', 0xf0, 0x9f, 0x98, 0x80 }, { 0xe2, 0x82 } }, { { 0xc3, 0xa9 }, { 0xed, 0xa0, 0x80, 'x' } }, { { 'c' }, { 0xf0, 0x90, 0x80, 0x80 } } };
static const Text t16[] = { { { 'a' }, {} }, { { 'c', 0xd83d, 0xde00 }, { 'z' } }, { { 0x20ac }, { 0xdc00 } }, { { 'b' }, { 0xd83d, 0xde00 } } };
static const Text t32[] = { { { 'a' }, {} }, { { 0x20ac }, { 'z' } }, { { 'b' }, { 0xd800 } }, { { 0x1f600 }, { 0x10ffff } } };
template <class C> struct Texts { static const Text* b() { return t8; } static const Text* e() { return t8 + sizeof t8 / sizeof *t8; } };
template <> struct Texts<char16_t> { static const Text* b() { return t16; } static const Text* e() { return t16 + sizeof t16 / sizeof *t16; } };
template <> struct Texts<char32_t> { static const Text* b() { return t32; } static const Text* e() { return t32 + sizeof t32 / sizeof *t32; } };

static unsigned g_case;
static bool take() { return int(g_case++ % unsigned(A.nshards)) == A.shard && !g_stop; }

static bool isOf(const char* p, RangeType r) { return isUtf8(p, r); }
static bool isOf(const char16_t* p, RangeType r) { return isUtf16(p, r); }
static bool isOf(const char32_t* p, RangeType r) { return isUcs4(p, r); }
template <class C> static void isCase(const Text& t, uint64_t want, RangeType r, const char* op = "is") {
    if (!take()) return; const int w = int(sizeof(C)) * 8;
    Mapped<C> m(t.pat, want, t.tail, true); if (!m.p) return; open(op, w, r, {}, t.pat, m.reps, t.tail); emit(flag(isOf(m.p, r)));
}
static void isUcs2Case(const Text& t, uint64_t want, RangeType r) { if (!take()) return; Mapped<char16_t> m(t.pat, want, t.tail, true); if (!m.p) return; open("isUcs2", 16, r, {}, t.pat, m.reps, t.tail); emit(flag(isUcs2(m.p, r))); }
template <class C> static void lenCase(const Text& t, uint64_t want) {
    if (!take()) return; Mapped<C> m(t.pat, want, t.tail, true); if (!m.p) return; open("ulen", int(sizeof(C)) * 8, 0, {}, t.pat, m.reps, t.tail); emit(num(unicodeLength(m.p)));
}
template <class C> static void lenNCase(const Text& t, uint64_t want) {
    if (!take()) return; Mapped<C> m(t.pat, want, t.tail, false); if (!m.p || m.n > 0xffffffffu) return; open("ulenN", int(sizeof(C)) * 8, 0, {}, t.pat, m.reps, t.tail); emit(num(unicodeLength(m.p, unsigned(m.n))));
}
static void isNCase(const Text& t, uint64_t want) { if (!take()) return; Mapped<char> m(t.pat, want, t.tail, false); if (!m.p || m.n > 0xffffffffu) return; open("isN", 8, 1, {}, t.pat, m.reps, t.tail); emit(flag(isUtf8(m.p, unsigned(m.n)))); }
// a NUL soon, and NULs up to a far end
template <class C> static void nulCases(const std::vector<U>& pres) {
    if (!take()) return; size_t span = (size_t(1) << 32) * sizeof(C);
    C* p = static_cast<C*>(mmap(nullptr, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (p == MAP_FAILED) return;
    for (auto& pre : pres) for (uint64_t n : { uint64_t(0x10000), uint64_t(0x1000001), uint64_t(0x7fffffff), uint64_t(0x80000000), uint64_t(0x80000005), uint64_t(0xfffffffe), uint64_t(0xffffffff) }) {
        for (size_t i = 0; i < 16; ++i) p[i] = i < pre.size() ? C(pre[i]) : C(0);
        uint64_t k = n - pre.size();
        open("ulenN", int(sizeof(C)) * 8, 0, pre, { 0 }, k, {}); emit(num(unicodeLength(p, unsigned(n))));
        if (sizeof(C) == 1) { open("isN", 8, 1, pre, { 0 }, k, {}); emit(flag(isUtf8(reinterpret_cast<const char*>(p), unsigned(n)))); }
    }
    munmap(p, span);
}

// what came of a conversion: its length, its first period, its end, and whether everything between repeats
template <class S> static std::string summary(const S& s, size_t q, size_t t) {
    bool per = true; size_t n = s.size(), to = n >= t ? n - t : 0; if (q) for (size_t i = q; i < to; ++i) if (s[i] != s[i - q]) { per = false; break; }
    auto part = [&](size_t a, size_t b) { U u; for (size_t i = a; i < b && i < n; ++i) u.push_back(uint32_t(typename std::make_unsigned<typename std::conditional<sizeof(s[0]) == 1, char, typename std::conditional<sizeof(s[0]) == 2, short, int>::type>::type>::type(s[i]))); return u; };
    return ",\"len\":" + pairOf(n) + ",\"q\":" + std::to_string(q) + ",\"t\":" + std::to_string(t) + ",\"head\":" + list(part(0, q)) + ",\"end\":" + list(part(to, n)) + ",\"r\":[" + (per ? "1" : "0") + "]";
}
template <class C> static std::basic_string<C> str(const U& u) { std::basic_string<C> s; for (auto x : u) s.push_back(C(x)); return s; }
template <class C, class F> static void toCase(const char* op, int64_t a, const Text& t, uint64_t want, F f) {
    if (!take()) return; Mapped<C> m(t.pat, want, t.tail, true); if (!m.p) return;
    size_t q = f(str<C>(t.pat).c_str()).size(), e = f(str<C>(t.tail).c_str()).size();
    open(op, int(sizeof(C)) * 8, a, {}, t.pat, m.reps, t.tail);
    try { auto r = f(static_cast<const C*>(m.p)); emit(summary(r, q, e)); } catch (const std::bad_alloc&) { ++g_total; }
}

// texts: these want memory of their own
template <class C> static std::basic_string<C> big(const U& pre, const U& pat, uint64_t k, const U& tail) {
    std::basic_string<C> s; s.reserve(pre.size() + pat.size() * k + tail.size()); for (auto x : pre) s.push_back(C(x));
    if (pat.size() == 1) s.append(size_t(k), C(pat[0])); else { std::basic_string<C> p = str<C>(pat), q; for (int i = 0; i < 4096; ++i) q += p; uint64_t i = 0; for (; i + 4096 <= k; i += 4096) s += q; for (; i < k; ++i) s += p; }
    for (auto x : tail) s.push_back(C(x)); return s;
}
template <class C, class F> static void trimCase(const char* op, const U& pre, const U& pat, uint64_t want, const U& tail, F f) {
    if (!take()) return; uint64_t k = want / pat.size() + 1; std::basic_string<C> s = big<C>(pre, pat, k, tail);
    open(op, int(sizeof(C)) * 8, 0, pre, pat, k, tail); uint64_t total = s.size(); f(s);
    // where in the source the result lies: the first place that fits (what is in front is not in the pattern)
    std::basic_string<C> front = str<C>(pre) + str<C>(pat); size_t off = 0; while (off < front.size() && !(s.size() && front.compare(off, C() == 0 ? std::min(front.size() - off, s.size()) : 0, s, 0, std::min(front.size() - off, s.size())) == 0)) ++off;
    bool same = off + s.size() <= total; std::basic_string<C> p = str<C>(pat);
    for (size_t i = 0; i < s.size() && same; ++i) { uint64_t at = off + i; C want1 = at < pre.size() ? C(pre[size_t(at)]) : at - pre.size() < k * pat.size() ? p[size_t((at - pre.size()) % pat.size())] : C(tail[size_t(at - pre.size() - k * pat.size())]); same = s[i] == want1; }
    emit(",\"len\":" + pairOf(s.size()) + ",\"off\":" + std::to_string(off) + flag(same));
}
template <class C> static void splitCase(const U& pre, const U& pat, uint64_t want, const U& tail, uint32_t d) {
    if (!take()) return; uint64_t k = want / pat.size() + 1; std::basic_string<C> s = big<C>(pre, pat, k, tail);
    open("split", int(sizeof(C)) * 8, d, pre, pat, k, tail); auto v = split(s, C(d));
    std::string lens = ",\"lens\":["; bool ok = true; size_t off = 0; for (size_t i = 0; i < v.size(); ++i) { if (i) lens += ','; lens += pairOf(v[i].size()); ok = ok && off <= s.size() && s.compare(off, v[i].size(), v[i]) == 0; off += v[i].size() + 1; }
    emit(lens + "]" + flag(ok));
    open("join", int(sizeof(C)) * 8, d, pre, pat, k, tail); auto j = join(v, C(d)); std::string l = ",\"len\":" + pairOf(j.size()); emit(l + flag(j == s));
}

int main(int argc, char** argv) {
    g_noLimit = true; parseArgs(argc, argv); signal(SIGALRM, SIG_DFL); alarm(0);
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, onDeath);
    family("huge"); const std::string& P = A.prop; const uint64_t B31 = (1ull << 31) + 3, B32 = (1ull << 32) + 5, B24 = (1ull << 24) + 7, B26 = (1ull << 26) + 1;
    const uint64_t N32 = (1ull << 32) - 8;
    const bool th = A.thorough;
    try {
    if (P == "C01") { for (int i = 0; i < (th ? 6 : 3); ++i) isCase<char>(t8[i], B31, kUtf8); if (th) { isCase<char>(t8[1], B32, kUtf8); isCase<char>(t8[2], B32, kUtf8); isCase<char>(t8[3], B32, kUtf8); isCase<char>(t8[5], 3 * B32, kUtf8); } }
    if (P == "C02") for (uint64_t w : th ? std::vector<uint64_t>{ B31, B32 } : std::vector<uint64_t>{ B31 }) {
        isCase<char>(t8[5], w, kUcs2); isCase<char16_t>(t16[3], w, kUtf8); isCase<char16_t>(t16[2], w, kUtf16); isCase<char32_t>(t32[2], w, kUcs4); isUcs2Case(t16[2], w, kUtf8);
        if (th) { isCase<char>(t8[0], w, kAscii); isCase<char16_t>(t16[1], w, kUnicode); isCase<char32_t>(t32[3], w, kUtf16); isUcs2Case(t16[0], w, kUcs2); } }
    if (P == "C09") {
        lenCase<char>(t8[0], B31); lenCase<char>(t8[1], N32); lenCase<char16_t>(t16[2], B31); lenCase<char16_t>(t16[0], B31); lenCase<char32_t>(t32[1], B31); lenCase<char>(t8[2], B31);
        if (th) { lenCase<char>(t8[0], N32); lenCase<char>(t8[3], 3 * B32); lenCase<char16_t>(t16[1], N32); lenCase<char32_t>(t32[2], N32); lenCase<char32_t>(t32[0], N32); lenCase<char16_t>(t16[0], N32); } }
    if (P == "C08") {
        isNCase(t8[0], N32); isNCase(t8[2], B31); lenNCase<char>(t8[1], N32); lenNCase<char16_t>(t16[1], B31); lenNCase<char32_t>(t32[0], B31);
        nulCases<char>({ { 'a' }, { 'a', 'b', 'c' }, { 0xc3, 0xa9 }, { 0xf0, 0x9f, 0x98, 0x80 } }); nulCases<char16_t>({ { 'a' }, { 0xd83d, 0xde00, 'b' } }); nulCases<char32_t>({ { 'a' }, { 0x1f600, 'b' } });
        if (th) for (uint64_t w : { B31, N32 }) { isNCase(t8[4], w); isNCase(t8[3], w); lenNCase<char>(t8[0], w); lenNCase<char>(t8[2], w); lenNCase<char>(t8[3], w); lenNCase<char16_t>(t16[0], w); lenNCase<char16_t>(t16[2], w); lenNCase<char32_t>(t32[2], w); lenNCase<char32_t>(t32[3], w); } }
    if (P == "C03") for (uint64_t w : A.thorough ? std::vector<uint64_t>{ B24, B26, 1ull << 30 } : std::vector<uint64_t>{ B24, B26 }) for (int i = 0; i < 6; ++i) {
        toCase<char>("toUcs4", 0, t8[i], w, [](const char* p) { return toUcs4(p); }); toCase<char>("toUtf16", 0, t8[i], w, [](const char* p) { return toUtf16(p); }); toCase<char>("toUcs2", 0, t8[i], w, [](const char* p) { return toUcs2(p); }); }
    if (P == "C04") for (uint64_t w : A.thorough ? std::vector<uint64_t>{ B24, B26, 1ull << 30 } : std::vector<uint64_t>{ B24, B26 }) for (int i = 0; i < 4; ++i) {
        toCase<char16_t>("toUtf8", 0, t16[i], w, [](const char16_t* p) { return toUtf8(p); }); toCase<char16_t>("toUcs4", 0, t16[i], w, [](const char16_t* p) { return toUcs4(p); });
        toCase<char32_t>("toUtf8", 0, t32[i], w, [](const char32_t* p) { return toUtf8(p); }); toCase<char32_t>("toUtf16", 0, t32[i], w, [](const char32_t* p) { return toUtf16(p); }); toCase<char32_t>("toUcs2", 0, t32[i], w, [](const char32_t* p) { return toUcs2(p); }); }
    if (P == "C15") for (uint64_t w : { B24, A.thorough ? B31 : B26 }) { for (int e = 0; e < 3; ++e) toCase<char>("fromSource", e, t8[e == 0 ? 1 : 0], w, [e](const char* p) { return toUtf8(p, SourceEncoding(e)); });
        toCase<char>("fromSource", 1, Text{ { 0x80, 'a', 0xe9 }, { 0x81 } }, w, [](const char* p) { return toUtf8(p, kSrcCP1252); }); toCase<char>("fromSource", 2, Text{ { 0x80, 'a', 0xb9 }, { 0x8a } }, w, [](const char* p) { return toUtf8(p, kSrcCP1250); }); }
    if (P == "C17") {
        trimCase<char>("trim", { ' ', ' ' }, { 'a' }, B31, { ' ' }, [](std::string& s) { trim(s); }); trimCase<char>("trimWS8", { 9, ' ' }, { 'a', 0xe2, 0x82, 0xac }, A.thorough ? B31 : B26, { 0xc2, 0xa0 }, [](std::string& s) { trimWhiteSpace(s); }); trimCase<char>("trimA7", { ' ', 10 }, { 'b' }, B31, { 13, ' ' }, [](std::string& s) { trimAscii7WhiteSpace(s); });
        trimCase<char16_t>("trimWS", { 0x3000 }, { 'a' }, A.thorough ? B31 : B26, { ' ', 0xa0 }, [](std::u16string& s) { trimWhiteSpace(s); }); trimCase<char32_t>("trimWS", { 0x3000 }, { 'a' }, B26, { ' ', 0xa0 }, [](std::u32string& s) { trimWhiteSpace(s); });
    }
    if (P == "C16") { splitCase<char>({ 'x', ',' }, { 'a' }, B31, { ',', 'y', ',' }, ','); splitCase<char16_t>({ ',' }, { 'a', 'b' }, B26, { 'z', ',' }, ','); splitCase<char32_t>({ 'q' }, { 'c' }, B26, { ',', ',' }, ','); splitCase<wchar_t>({ 'q' }, { 'c' }, B26, { ',', ',' }, ','); if (A.thorough) splitCase<char16_t>({ ',' }, { 'a' }, B31, { 'z', ',' }, ','); }
    } catch (const std::bad_alloc&) {}     // not enough memory here: nothing is said
    finish();
    return 0;
}
