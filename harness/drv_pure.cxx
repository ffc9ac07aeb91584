// The same calls in many circumstances: as the only call of a process, one after the other in several orders, from
// different places in memory, as pointer and as string, with different things around the source, in eight threads
// at once. Each call must give the same whatever the circumstances.
#include "gen.hpp"
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#include "internal/string_decode_utf8.hxx"
#include <sys/wait.h>
#include <malloc.h>
#include <clocale>
#include <atomic>
#include <thread>
#include <mutex>
using namespace ansak;

enum Form { PTR, STR, EMB };            // EMB: a string with a NUL and more behind the source
struct CallOp { const char* name; int w; bool ptr, str, emb; };
static const CallOp ops[] = {
    { "isUtf8", 8, 1, 1, 1 }, { "isUtf8N", 8, 1, 0, 0 }, { "toUcs4_8", 8, 1, 1, 1 }, { "toUtf16_8", 8, 1, 1, 1 }, { "toUcs2_8", 8, 1, 1, 1 }, { "ulen8", 8, 1, 1, 1 }, { "ulen8N", 8, 1, 0, 0 },
    { "lower8", 8, 0, 1, 1 }, { "fromSource", 8, 1, 0, 0 }, { "trimWS8", 8, 0, 1, 0 }, { "trimA7", 8, 0, 1, 0 }, { "split8", 8, 0, 1, 0 }, { "decode8", 8, 1, 0, 0 }, { "pred8", 8, 1, 0, 0 }, { "trim8", 8, 0, 1, 0 },
    { "isUtf16", 16, 1, 1, 1 }, { "isUcs2", 16, 1, 1, 1 }, { "toUtf8_16", 16, 1, 1, 1 }, { "toUcs4_16", 16, 1, 1, 1 }, { "ulen16", 16, 1, 1, 1 }, { "ulen16N", 16, 1, 0, 0 }, { "lower16", 16, 0, 1, 1 }, { "trimWS16", 16, 0, 1, 0 }, { "pred16", 16, 1, 0, 0 },
    { "isUcs4", 32, 1, 1, 1 }, { "toUtf8_32", 32, 1, 1, 1 }, { "toUtf16_32", 32, 1, 1, 1 }, { "toUcs2_32", 32, 1, 1, 1 }, { "ulen32", 32, 1, 1, 1 }, { "ulen32N", 32, 1, 0, 0 }, { "lower32", 32, 0, 1, 0 }, { "trimWS32", 32, 0, 1, 0 }, { "pred32", 32, 1, 0, 0 },
    { "wToUtf8", 33, 1, 1, 1 }, { "wToUtf16", 33, 1, 1, 1 }, { "wIsUtf8", 33, 1, 1, 1 }, { "wToUcs4", 33, 1, 1, 1 }, { "version", 8, 1, 0, 0 } };
static const int nOps = int(sizeof ops / sizeof *ops);
struct ACall { int op; int a; Conds p; EncodingCheckPredicate q; U x; };
static int widthOf(const ACall& c) { return ops[c.op].w == 33 ? 32 : ops[c.op].w; }
static const char* const langs[] = { nullptr, "", "tr", "en", "az", "tur", "TR", "t" };

static EncodingCheckPredicate build(const Conds& k) { EncodingCheckPredicate p; for (auto& c : k) p = c.second ? p.andIf(EncodingType(c.first)) : p.andIfNot(EncodingType(c.first)); return p; }
static U B(bool b) { return U{ b ? 1u : 0u }; }
template <class C> static U N(const std::basic_string<C>& s) { typedef typename std::conditional<sizeof(C) == 1, uint8_t, typename std::conditional<sizeof(C) == 2, uint16_t, uint32_t>::type>::type V; U u; u.reserve(s.size()); for (auto c : s) u.push_back(V(c)); return u; }

template <class C> struct In {          // the source, as one form or another
    const C* p; size_t n; Form f;
    std::basic_string<C> s() const { std::basic_string<C> t(p, n); if (f == EMB) { t.push_back(C(0)); t.push_back(C(0xd83d)); t.push_back(C(0x80)); t.push_back(C('z')); } return t; }
};
#define BOTH(fn) (i.f == PTR ? fn(i.p) : fn(i.s()))
#define BOTH2(fn, ...) (i.f == PTR ? fn(i.p, __VA_ARGS__) : fn(i.s(), __VA_ARGS__))
static U run8(const ACall& c, const In<char>& i) {
    const std::string o = ops[c.op].name; RangeType r = RangeType(c.a);
    if (o == "isUtf8") return B(BOTH2(isUtf8, r, c.q)); if (o == "isUtf8N") return B(isUtf8(i.p, unsigned(i.n), c.q));
    if (o == "toUcs4_8") return N(BOTH(toUcs4)); if (o == "toUtf16_8") return N(BOTH(toUtf16)); if (o == "toUcs2_8") return N(BOTH(toUcs2));
    if (o == "ulen8") return U{ BOTH(unicodeLength) }; if (o == "ulen8N") return U{ unicodeLength(i.p, unsigned(i.n)) };
    if (o == "lower8") return N(toLower(i.s(), langs[c.a & 7])); if (o == "fromSource") return N(toUtf8(i.p, SourceEncoding(c.a % 3)));
    if (o == "trimWS8") { auto s = i.s(); trimWhiteSpace(s); return N(s); } if (o == "trimA7") { auto s = i.s(); trimAscii7WhiteSpace(s); return N(s); } if (o == "trim8") { auto s = i.s(); trim(s); return N(s); }
    if (o == "split8") { U u; for (auto& x : split(i.s(), char(c.a))) { U y = N(x); u.push_back(uint32_t(y.size())); u.insert(u.end(), y.begin(), y.end()); } return u; }
    if (o == "decode8") { U u; const char* q = i.p; if (!q) return u; for (int k = 0; k < 1000 && *q; ++k) { u.push_back(internal::decodeUtf8(q)); u.push_back(q ? uint32_t(q - i.p) : ~0u); if (!q || !*q) break; ++q; } return u; }
    if (o == "pred8") { U u; for (size_t k = 0; k < i.n; ++k) u.push_back(c.q(i.p[k])); return u; }
    return N(getUnicodeVersionSupported());
}
static U run16(const ACall& c, const In<char16_t>& i) {
    const std::string o = ops[c.op].name; RangeType r = RangeType(c.a);
    if (o == "isUtf16") return B(BOTH2(isUtf16, r, c.q)); if (o == "isUcs2") return B(BOTH2(isUcs2, r, c.q));
    if (o == "toUtf8_16") return N(BOTH(toUtf8)); if (o == "toUcs4_16") return N(BOTH(toUcs4));
    if (o == "ulen16") return U{ BOTH(unicodeLength) }; if (o == "ulen16N") return U{ unicodeLength(i.p, unsigned(i.n)) };
    if (o == "lower16") return N(toLower(i.s(), langs[c.a & 7])); if (o == "trimWS16") { auto s = i.s(); trimWhiteSpace(s); return N(s); }
    U u; for (size_t k = 0; k < i.n; ++k) u.push_back(c.q(i.p[k])); return u;
}
static U run32(const ACall& c, const In<char32_t>& i) {
    const std::string o = ops[c.op].name; RangeType r = RangeType(c.a);
    if (o == "isUcs4") return B(BOTH2(isUcs4, r, c.q));
    if (o == "toUtf8_32") return N(BOTH(toUtf8)); if (o == "toUtf16_32") return N(BOTH(toUtf16)); if (o == "toUcs2_32") return N(BOTH(toUcs2));
    if (o == "ulen32") return U{ BOTH(unicodeLength) }; if (o == "ulen32N") return U{ unicodeLength(i.p, unsigned(i.n)) };
    if (o == "lower32") return N(toLower(i.s(), langs[c.a & 7])); if (o == "trimWS32") { auto s = i.s(); trimWhiteSpace(s); return N(s); }
    U u; for (size_t k = 0; k < i.n; ++k) u.push_back(c.q(i.p[k])); return u;
}
static U runW(const ACall& c, const In<char32_t>& j) {
    In<wchar_t> i{ reinterpret_cast<const wchar_t*>(j.p), j.n, j.f }; const std::string o = ops[c.op].name;
    if (o == "wToUtf8") return N(BOTH(toUtf8)); if (o == "wToUtf16") return N(BOTH(toUtf16)); if (o == "wToUcs4") return N(BOTH(toUcs4)); return B(BOTH(isUtf8));
}
static U runAt(const ACall& c, const void* p, Form f) {
    int w = ops[c.op].w; size_t n = c.x.size();
    if (w == 8) return run8(c, In<char>{ static_cast<const char*>(p), n, f });
    if (w == 16) return run16(c, In<char16_t>{ static_cast<const char16_t*>(p), n, f });
    In<char32_t> i{ static_cast<const char32_t*>(p), n, f };
    return w == 32 ? run32(c, i) : runW(c, i);
}
static bool lengthOp(const ACall& c) { const char* o = ops[c.op].name; if (c.x.empty()) return false;  return !strcmp(o, "isUtf8N") || !strcmp(o, "ulen8N") || !strcmp(o, "ulen16N") || !strcmp(o, "ulen32N"); }

// ------------------------------------------------------------------ the calls, and what they gave
static std::vector<ACall> calls; static std::vector<U> memo;
static std::string ctx = "none";
static Op oCall("call"), oThread("threads");
static std::vector<uint32_t> said;     // calls already reported
static std::mutex mx;

static std::string describe(const ACall& c) { std::string s = "{\"op\":\""; s += ops[c.op].name; s += "\",\"a\":" + std::to_string(c.a) + ",\"p\":["; for (size_t i = 0; i < c.p.size(); ++i) { if (i) s += ','; s += "[" + std::to_string(c.p[i].first) + "," + std::to_string(c.p[i].second) + "]"; } s += "],\"x\":"; putArr(s, c.x); return s + "}"; }
static std::string pairJson(size_t k, const U* got, const char* out) {
    std::string s = "{\"k\":\"pure\",\"threads\":1,\"n\":1,\"log\":[[0,0,1,0],[0,1,1,0],[0,0,1,0],[0,1,1,"; s += got ? "1" : "-1"; s += "]],\"ctx\":\"" + ctx + "\",\"out\":\"" + out + "\",\"calls\":[" + describe(calls[k]) + "],\"first\":"; putArr(s, memo[k]); s += ",\"then\":"; if (got) putArr(s, *got); else s += "[]"; return s + "}";
}
static size_t g_now; static bool g_inFork;
static void onDeath(int sig) { signal(sig, SIG_DFL); if (g_inFork) _exit(99); writeLine(g_mis, pairJson(g_now, nullptr, "crash")); fflush(g_mis); fflush(g_smp); _exit(0); }
static void onHang(int) { static uint64_t last = ~0ull; if (g_total == last) onDeath(SIGALRM); last = g_total; alarm(30); }

static void differ(size_t k, const U* got, const char* out) { std::lock_guard<std::mutex> g(mx); if (std::find(said.begin(), said.end(), uint32_t(k)) != said.end()) return; said.push_back(uint32_t(k)); mismatch(pairJson(k, got, out)); }
static void check(size_t k, const U& got) { ++g_total; ++oCall.all; if (g_stop) { finish(); _exit(0); } if (got != memo[k]) differ(k, &got, "ok"); }
static void at(size_t k, const void* p, Form f) { g_now = k; try { check(k, runAt(calls[k], p, f)); } catch (...) { differ(k, nullptr, "throw"); } }

static void store(const ACall& c, void* p, bool nul = true) {       // units at p, in the width of the call
    size_t n = c.x.size(); int w = widthOf(c);
    for (size_t i = 0; i < n + (nul ? 1 : 0); ++i) { uint32_t u = i < n ? c.x[i] : 0; if (w == 8) static_cast<uint8_t*>(p)[i] = uint8_t(u); else if (w == 16) static_cast<uint16_t*>(p)[i] = uint16_t(u); else static_cast<uint32_t*>(p)[i] = u; }
}
static size_t bytesOf(const ACall& c, bool nul = true) { return (c.x.size() + (nul ? 1 : 0)) * size_t(widthOf(c) / 8); }
static bool unchanged(const ACall& c, const void* p) { std::vector<char> b(bytesOf(c) + 8); store(c, b.data()); return !memcmp(b.data(), p, bytesOf(c, false)); }

static std::vector<std::vector<uint64_t>> own;      // each call's source in memory of its own
static Form formOf(const ACall& c, int k) { const CallOp& o = ops[c.op]; if (o.ptr && (k == 0 || !o.str)) return PTR; if (o.emb && k == 2) return EMB; return STR; }

__attribute__((noinline)) static void poison(int v) { volatile char b[6000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = char(v); }

// ------------------------------------------------------------------ circumstances
static void fresh() {                   // a process that makes no other call
    size_t cap = 1 << 20; uint32_t* sh = static_cast<uint32_t*>(mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (size_t k = 0; k < calls.size(); ++k) {
        g_now = k; sh[0] = ~0u; fflush(g_mis); fflush(g_smp);
        pid_t pid = fork();
        if (pid == 0) { g_inFork = true; alarm(30); signal(SIGALRM, SIG_DFL); try { U r = runAt(calls[k], own[k].data(), formOf(calls[k], 0)); if (r.size() + 1 < cap) { memcpy(sh + 1, r.data(), r.size() * 4); sh[0] = uint32_t(r.size()); } } catch (...) {} _exit(0); }
        if (pid < 0) { perror("fork"); exit(2); }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (sh[0] == ~0u) { std::string s = pairJson(k, nullptr, "crash"); mismatch(s); memo[k] = U{ 0xdeadbeefu }; said.push_back(uint32_t(k)); }
        else memo[k].assign(sh + 1, sh + 1 + sh[0]);
        ++g_total;
    }
    munmap(sh, cap * 4);
}
static void orders(Rng& r) {
    size_t n = calls.size();
    ctx = "in order"; for (size_t k = 0; k < n; ++k) at(k, own[k].data(), formOf(calls[k], int(k % 3)));
    ctx = "in reverse"; for (size_t k = n; k-- > 0; ) at(k, own[k].data(), formOf(calls[k], 0));
    ctx = "each twice"; for (size_t k = 0; k < n; ++k) { at(k, own[k].data(), formOf(calls[k], 0)); at(k, own[k].data(), formOf(calls[k], 1)); at(k, own[k].data(), formOf(calls[k], 2)); at(k, own[k].data(), formOf(calls[k], 0)); }
    ctx = "at random"; for (size_t j = 0; j < 6 * n; ++j) { size_t k = r.below(n); at(k, own[k].data(), formOf(calls[k], int(r.below(3)))); }
    ctx = "by turns with another"; for (size_t j = 0; j < n; ++j) { size_t a = r.below(n), b = r.below(n); for (int t = 0; t < 3; ++t) { at(a, own[a].data(), formOf(calls[a], t)); at(b, own[b].data(), formOf(calls[b], t)); } }
    for (size_t k = 0; k < n; ++k) if (!unchanged(calls[k], own[k].data())) { ctx = "source"; g_now = k; differ(k, nullptr, "modified"); }
}
static void places(Rng& r) {
    size_t n = calls.size(); std::vector<uint64_t> buf(1 << 17); char* base = reinterpret_cast<char*>(buf.data());
    ctx = "in the same place, one after the other";
    for (int pass = 0; pass < 2; ++pass) for (size_t k = 0; k < n; ++k) { size_t j = pass ? r.below(n) : k; if (bytesOf(calls[j]) > 500000) continue; store(calls[j], base); at(j, base, formOf(calls[j], int(r.below(3)))); if (!unchanged(calls[j], base)) differ(j, nullptr, "modified"); }
    ctx = "at another alignment, with other things around";
    for (size_t k = 0; k < n; ++k) for (int t = 0; t < 8; ++t) {
        const ACall& c = calls[k]; size_t sz = size_t(widthOf(c) / 8), off = 64 + sz * (t < 4 ? size_t(t) : r.below(64)), len = bytesOf(c); if (len > 100000) continue;
        static const int fills[] = { 0x00, 0xff, 0x80, 0x41, 0xed, 0xbf, 0xd8, 0xdc }; memset(base, fills[t], off); memset(base + off + len - (lengthOp(c) ? sz : 0), fills[(t + 3) & 7], 256);
        store(c, base + off, !lengthOp(c)); at(k, base + off, formOf(c, t % 3));
    }
    ctx = "before unmapped memory, read only"; size_t cap = 1 << 16;
    char* g = static_cast<char*>(mmap(nullptr, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (g == MAP_FAILED) { perror("mmap"); exit(2); }
    mprotect(g, 4096, PROT_NONE); mprotect(g + 4096 + cap, 4096, PROT_NONE);
    for (size_t k = 0; k < n; ++k) { const ACall& c = calls[k]; size_t len = bytesOf(c, !lengthOp(c)); if (len > cap) continue;
        char* p = g + 4096 + cap - len; mprotect(g + 4096, cap, PROT_READ | PROT_WRITE); store(c, p, !lengthOp(c)); mprotect(g + 4096, cap, PROT_READ); at(k, p, formOf(c, 0));
        p = g + 4096; mprotect(g + 4096, cap, PROT_READ | PROT_WRITE); store(c, p); mprotect(g + 4096, cap, PROT_READ); at(k, p, formOf(c, 0)); }
    munmap(g, cap + 8192);
    // across the border of two pages, at each of its units; once with memory that lies across a multiple of 2^32, once below it
    ctx = "across a border";
    for (int t = 0; t < 2; ++t) {
        const size_t half = 1 << 20; char* want = reinterpret_cast<char*>(t ? uintptr_t(0x5500000) : uintptr_t(0x1700000000ull)) - half;
        char* q = static_cast<char*>(mmap(want, 2 * half, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (q == MAP_FAILED) continue;
        char* mid = q + half;
        for (size_t k = 0; k < n; ++k) { const ACall& c = calls[k]; size_t sz = size_t(widthOf(c) / 8), m = c.x.size() + 1; if (m > 4000) continue;
            for (size_t j = 0; j <= m; j += m > 60 ? 1 + r.below(m / 24) : 1) { char* p = mid - j * sz; store(c, p, !lengthOp(c)); at(k, p, formOf(c, 0)); } }
        munmap(q, 2 * half);
    }
    ctx = "null pointer for an empty string"; for (size_t k = 0; k < n; ++k) { const ACall& c = calls[k]; const CallOp& o = ops[c.op]; if (c.x.empty() && o.ptr && strcmp(o.name, "decode8")) at(k, nullptr, PTR); }
    ctx = "after other things on stack and heap";
    for (int v : { 0x00, 0xff, 0x55 }) { mallopt(M_PERTURB, v); for (size_t k = 0; k < n; ++k) { poison(v); at(k, own[k].data(), formOf(calls[k], int(k % 3))); } }
    mallopt(M_PERTURB, 0);
    ctx = "in another locale"; for (const char* l : { "C.UTF-8", "C.utf8", "en_US.UTF-8", "tr_TR.UTF-8" }) if (setlocale(LC_ALL, l)) { for (size_t k = 0; k < n; ++k) at(k, own[k].data(), formOf(calls[k], 0)); }
    setlocale(LC_ALL, "C");
    ctx = "in another environment"; std::vector<std::string> names = { "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE" };
    for (auto& x : A.strings) if (x.size() > 2 && x.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") == std::string::npos) names.push_back(x);
    for (auto& x : names) setenv(x.c_str(), "tr_TR.UTF-8", 1);
    for (size_t k = 0; k < n; ++k) at(k, own[k].data(), formOf(calls[k], 0));
    for (auto& x : names) unsetenv(x.c_str());
    for (size_t k = 0; k < n; ++k) at(k, own[k].data(), formOf(calls[k], 0));
}
static void often(Rng& r, uint64_t times) {
    ctx = "very often"; size_t n = calls.size(); std::vector<size_t> cheap; for (size_t j = 0; j < 400 && cheap.size() < 12; ++j) { size_t k = r.below(n); if (calls[k].x.size() < 12) cheap.push_back(k); }
    for (size_t k : cheap) { for (uint64_t j = 0; j < times; ++j) at(k, own[k].data(), formOf(calls[k], 0)); }
    // each operation often enough for a counter of sixteen bits to go round
    for (int o = 0; o < nOps; ++o) { if (o % A.nshards != A.shard % nOps && !A.thorough) continue; for (size_t k = 0; k < n; ++k) if (calls[k].op == o && calls[k].x.size() && calls[k].x.size() < 8) { for (uint64_t j = 0; j < 70000; ++j) at(k, own[k].data(), formOf(calls[k], 0)); break; } }
}

// every character, by itself, in several orders: what was asked before may not matter
static void sweeps(Rng& r) {
    struct S { const char* op; int cond; }; static const S what[] = { { "pred32", 1 }, { "pred32", 2 }, { "pred32", 3 }, { "pred32", 4 }, { "pred16", 1 }, { "pred16", 4 }, { "isUcs4", 1 }, { "isUcs4", 3 }, { "isUcs2", 2 }, { "isUtf16", 1 }, { "isUtf8", 1 }, { "isUtf8", 0 },
        { "isUtf16", 0 }, { "lower32", 0 }, { "lower8", 0 }, { "lower16", 0 }, { "toUtf8_32", 0 }, { "toUtf16_32", 0 }, { "toUcs2_32", 0 }, { "toUcs4_8", 0 }, { "toUtf16_8", 0 }, { "toUtf8_16", 0 }, { "toUcs4_16", 0 }, { "trimWS32", 0 }, { "trimWS8", 0 }, { "ulen8", 0 }, { "ulen16", 0 }, { "ulen32", 0 }, { "decode8", 0 }, { "toUcs2_8", 0 } };
    int idx = 0;
    for (auto& s : what) {
        if (!mine(uint64_t(idx++)) && !A.thorough) continue;
        ACall c; c.a = 6; for (int o = 0; o < nOps; ++o) if (!strcmp(ops[o].name, s.op)) c.op = o;
        if (!strncmp(s.op, "lower", 5)) c.a = int(r.below(8)); if (s.cond) c.p.push_back({ s.cond, 1 }); c.q = build(c.p);
        int w = widthOf(c); uint32_t top = !strcmp(s.op, "pred16") || !strcmp(s.op, "isUcs2") ? 0x10000 : 0x110000;
        auto source = [&](uint32_t cp) { c.x.clear(); if (w == 32) c.x.push_back(cp); else if (w == 16) { if (cp < 0x10000) c.x.push_back(cp); else { c.x.push_back(0xd800 + ((cp - 0x10000) >> 10)); c.x.push_back(0xdc00 + (cp & 0x3ff)); } }
            else if (cp < 0x80) c.x.push_back(cp); else if (cp < 0x800) { c.x.push_back(0xc0 | cp >> 6); c.x.push_back(0x80 | (cp & 63)); } else if (cp < 0x10000) { c.x.push_back(0xe0 | cp >> 12); c.x.push_back(0x80 | (cp >> 6 & 63)); c.x.push_back(0x80 | (cp & 63)); }
            else { c.x.push_back(0xf0 | cp >> 18); c.x.push_back(0x80 | (cp >> 12 & 63)); c.x.push_back(0x80 | (cp >> 6 & 63)); c.x.push_back(0x80 | (cp & 63)); } };
        uint64_t buf[4]; auto one = [&](uint32_t cp) { source(cp); store(c, buf); ++g_total; ++oCall.all; return runAt(c, buf, formOf(c, 0)); };
        auto hash = [](const U& u) { uint32_t h = uint32_t(u.size()) * 0x9e3779b1u; for (auto x : u) h = (h ^ x) * 0x85ebca6bu + (h >> 13); return h; };
        std::vector<uint32_t> first(top); for (uint32_t cp = 1; cp < top; ++cp) first[cp] = hash(one(cp));
        int bad = 0;
        auto again = [&](uint32_t cp) { if (!cp || cp >= top || bad > 3) return; U u = one(cp); if (hash(u) != first[cp]) { ++bad; one(cp ^ 0x5a5a); one(0x41); one(0x4e5a); U v = one(cp); source(cp); calls.push_back(c); memo.push_back(v == u ? U{ 0xffffffffu, first[cp] } : v); differ(calls.size() - 1, &u, "ok"); calls.pop_back(); memo.pop_back(); said.clear(); } };
        ctx = "after its neighbour above"; for (uint32_t cp = top; cp-- > 1; ) again(cp);
        ctx = "after something like it"; for (uint32_t i = 1; i < top; ++i) { uint32_t cp = uint32_t((uint64_t(i) * 0x9e3b1) % top); again(cp); if (i % 4 == 0) { again(cp ^ (1u << r.below(21))); } else if (i % 4 == 2) again((cp ^ (uint32_t(1 + r.below(16)) << 16))); again(cp); }
        if (g_stop) return;
    }
}

struct Event { uint64_t seq; int t, ret; uint32_t call; int res; };
static void threads(int rounds) {
    ctx = "in eight threads"; const int T = 8; size_t n = calls.size();
    for (int round = 0; round < rounds; ++round) {
        std::atomic<uint64_t> seq(0); std::atomic<int> ready(0); std::vector<std::vector<Event>> logs(T); std::vector<std::thread> th; std::atomic<size_t> bad(0);
        // in some rounds everyone makes the same few calls, at the same time
        size_t few = round % 3 == 0 ? n : round % 3 == 1 ? 16 : 3, from = Rng(A.seed + uint64_t(round) * 131 + uint64_t(A.shard)).below(n);
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
            Rng r(A.seed * 31 + uint64_t(round) * 8 + uint64_t(t) + 1000u * uint64_t(A.shard)); std::vector<Event>& lg = logs[t]; size_t m = 500; lg.reserve(2 * m);
            ready.fetch_add(1); while (ready.load() < T) {}
            for (size_t j = 0; j < m; ++j) {
                size_t k = (from + r.below(few)) % n; const ACall& c = calls[k]; Form f = formOf(c, int(r.below(3)));
                lg.push_back(Event{ seq.fetch_add(1), t, 0, uint32_t(k), 0 });
                int res = 0; try { U u = runAt(c, own[k].data(), f); if (u != memo[k]) { res = 1; differ(k, &u, "ok"); bad.fetch_add(1); } } catch (...) { res = -1; differ(k, nullptr, "throw"); }
                lg.push_back(Event{ seq.fetch_add(1), t, 1, uint32_t(k), res });
            } });
        for (auto& t : th) t.join();
        g_total += T * 500; oThread.all += T * 500;
        if (round < 12 && !bad.load()) {                         // a window of what happened, for TLC
            std::vector<Event> all; for (auto& l : logs) all.insert(all.end(), l.begin(), l.end()); std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.seq < b.seq; });
            std::map<uint32_t, int> id; std::set<int> open; std::string s = "{\"k\":\"pure\",\"threads\":8,\"log\":["; bool first = true; size_t m = 0;
            for (size_t i = all.size() / 2; i < all.size() && m < 300; ++i) { const Event& e = all[i]; if (e.ret && !open.count(e.t)) continue; if (!e.ret) open.insert(e.t); ++m;
                int& d = id[e.call]; if (!d) d = int(id.size()); if (!first) s += ','; first = false; s += '[' + std::to_string(e.t) + ',' + std::to_string(e.ret) + ',' + std::to_string(d) + ',' + std::to_string(e.res) + ']'; }
            s += "],\"n\":" + std::to_string(id.size()) + ",\"ctx\":\"threads\"}"; writeLine(g_smp, s);
        }
    }
}

// ------------------------------------------------------------------ which calls
static U someSource(Rng& r, int w) {
    size_t m = r.below(30) == 0 ? 120 : r.below(5) == 0 ? 24 : 5; U x;
    if (w == 8) { B8 s = random8(r, m); x.assign(s.begin(), s.end()); }
    else if (w == 16) { B16 s = random16(r, m); x.assign(s.begin(), s.end()); }
    else { B32 s = random32(r, m); x.assign(s.begin(), s.end()); }
    while (std::find(x.begin(), x.end(), 0u) != x.end()) x.erase(std::find(x.begin(), x.end(), 0u));
    if (r.below(200) == 0 && !x.empty()) { U y = x; while (x.size() < 3000) x.insert(x.end(), y.begin(), y.end()); }
    return x;
}
static void makeCalls(Rng& r, size_t n) {
    std::vector<U> src[3], fam[3];
    for (int i = 0; i < 3; ++i) for (size_t j = 0; j < n / 12 + 4; ++j) { U x = someSource(r, i == 0 ? 8 : i == 1 ? 16 : 32); src[i].push_back(x);
        if (!x.empty() && r.below(2)) { U y = x; y[r.below(y.size())] = i == 0 ? 0x41 + uint32_t(r.below(60)) : 0xc0 + uint32_t(r.below(800)); src[i].push_back(y); } }     // one of the same length that differs somewhere
    // families of sources of one length that something remembering the last one might confuse: each a bit, a step or a plane away
    for (int i = 0; i < 3; ++i) for (size_t j = 0; j < n / 60 + 4; ++j) { int w = i == 0 ? 8 : i == 1 ? 16 : 32; uint32_t c = w == 8 ? 0x20 + uint32_t(r.below(0x5f)) : w == 16 ? uint32_t(r.below(0xffff)) + 1 : r.below(4) ? uint32_t(r.below(0x110000)) + 1 : uint32_t(r.next()) | 1;
        U pre = r.below(2) ? U() : someSource(r, w); if (pre.size() > 3) pre.resize(3); std::vector<U>& v = fam[i];
        auto add = [&](uint32_t d) { d &= w == 8 ? 0xffu : w == 16 ? 0xffffu : ~0u; if (!d) return; U x = pre; x.push_back(d); v.push_back(x); };
        for (int k = 0; k < 2; ++k) { add(c); add(c + 1 + uint32_t(r.below(16))); add(c ^ (1u << r.below(21))); add(c ^ (uint32_t(1 + r.below(16)) << 16)); add(c ^ (uint32_t(1 + r.below(255)) << 8)); } }
    for (int o = 0; o < nOps; ++o) { ACall c; c.op = o; c.a = 1; c.q = build(c.p); calls.push_back(c); }     // of the empty string
    while (calls.size() < n) {
        ACall c; c.op = int(r.below(uint64_t(nOps))); int w = widthOf(c); std::vector<U>& v = src[w == 8 ? 0 : w == 16 ? 1 : 2]; c.x = v[r.below(v.size())]; c.a = int(r.below(7));
        if (!strcmp(ops[c.op].name, "split8")) c.a = c.x.empty() ? 65 : int(int8_t(c.x[r.below(c.x.size())]));
        if (r.below(2)) for (size_t i = 0, m = 1 + r.below(3); i < m; ++i) c.p.push_back({ 1 + int(r.below(4)), int(r.below(2)) });
        c.q = build(c.p); calls.push_back(c);
    }
    for (int i = 0; i < 3; ++i) for (size_t j = 0; j + 10 <= fam[i].size(); j += 10) {      // the same operation for each of a family, side by side
        ACall c; do c.op = int(r.below(uint64_t(nOps))); while (widthOf(c) != (i == 0 ? 8 : i == 1 ? 16 : 32)); c.a = int(r.below(7));
        if (!strncmp(ops[c.op].name, "is", 2) || !strncmp(ops[c.op].name, "pred", 4)) for (size_t q = 0, m = 1 + r.below(2); q < m; ++q) c.p.push_back({ 1 + int(r.below(4)), int(r.below(2)) });
        c.q = build(c.p); for (size_t q = 0; q < 10; ++q) { c.x = fam[i][j + q]; calls.push_back(c); } }
    memo.resize(calls.size()); own.resize(calls.size());
    for (size_t k = 0; k < calls.size(); ++k) { own[k].assign(bytesOf(calls[k]) / 8 + 2, 0x8080808080808080ull); store(calls[k], own[k].data()); }
}

int main(int argc, char** argv) {
    parseArgs(argc, argv);
    std::string mode = A.more.count("mode") ? A.more["mode"] : "all"; bool san = A.more.count("sanitized") != 0;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, san ? SIG_DFL : onDeath);
    signal(SIGALRM, onHang);
    Rng r(A.seed * 911 + uint64_t(A.shard));
    size_t n = mode == "all" ? (A.thorough ? 6000 : 2400) : A.thorough ? 2000 : 400;
    family("making calls"); makeCalls(r, n);
    family("fresh process");
    if (san) { for (size_t k = 0; k < calls.size(); ++k) memo[k] = runAt(calls[k], own[k].data(), formOf(calls[k], 0)); }     // a baseline; the others have fork
    else fresh();
    if (mode == "threads") { family("threads"); threads(A.thorough ? 60 : 6); }
    else {
        family("orders"); orders(r);
        if (!san) { family("places"); places(r); family("sweeps"); sweeps(r); } else {            // exact heap blocks: nothing around them may be touched
            ctx = "heap block"; for (size_t k = 0; k < calls.size(); ++k) { const ACall& c = calls[k]; size_t len = bytesOf(c, !lengthOp(c)); void* p = malloc(len ? len : 1); if (!len) continue; store(c, p, !lengthOp(c)); at(k, p, formOf(c, 0)); free(p); } }
        family("threads"); threads(A.thorough ? 120 : san ? 2 : 30);
        if (!san) { family("often"); often(r, A.thorough ? 300000 : 70000); }
    }
    finish();
    return 0;
}
