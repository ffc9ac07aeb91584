// Calls made over and over, with memory refused at one place after the other, each history in a process of its own.
#include "gen.hpp"
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#include <sys/wait.h>
#include <new>
using namespace ansak;

// ---- memory that can be refused, and that knows what was taken during a call
static bool g_armed; static long g_count, g_k, g_live; static int g_how;
struct Head { uint64_t tag; uint64_t size; };
static const uint64_t kPlain = 0x706c61696e5f5f21ull, kTaken = 0x74616b656e5f5f21ull;
static void* take(size_t n) {
    bool in = g_armed;
    if (in) { ++g_count; if (g_k && (g_count == g_k || (g_how == 2 && g_count > g_k))) return nullptr; }
    Head* h = static_cast<Head*>(malloc(n + sizeof(Head))); if (!h) return nullptr;
    h->tag = in ? kTaken : kPlain; h->size = n; if (in) ++g_live; return h + 1;
}
static void give(void* p) { if (!p) return; Head* h = static_cast<Head*>(p) - 1; if (h->tag == kTaken) --g_live; else if (h->tag != kPlain) abort(); h->tag = 0; free(h); }
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

struct OomOp { const char* name; const char* spec; int w; bool inplace; };       // spec: its name in Api.tla
static const OomOp ops[] = {
    { "toUcs4_8p", "toUcs4_8", 8, 0 }, { "toUcs4_8", "toUcs4_8", 8, 0 }, { "toUtf16_8p", "toUtf16_8", 8, 0 }, { "toUtf16_8", "toUtf16_8", 8, 0 }, { "toUcs2_8p", "toUcs2_8", 8, 0 }, { "toUcs2_8", "toUcs2_8", 8, 0 },
    { "toUtf8_16p", "toUtf8_16", 16, 0 }, { "toUtf8_16", "toUtf8_16", 16, 0 }, { "toUcs4_16p", "toUcs4_16", 16, 0 }, { "toUcs4_16", "toUcs4_16", 16, 0 },
    { "toUtf8_32p", "toUtf8_32", 32, 0 }, { "toUtf8_32", "toUtf8_32", 32, 0 }, { "toUtf16_32p", "toUtf16_32", 32, 0 }, { "toUtf16_32", "toUtf16_32", 32, 0 }, { "toUcs2_32p", "toUcs2_32", 32, 0 }, { "toUcs2_32", "toUcs2_32", 32, 0 },
    { "lower8", "lower8", 8, 0 }, { "lower16", "lower16", 16, 0 }, { "lower32", "lower32", 32, 0 }, { "fromSource", "fromSource", 8, 0 },
    { "trim", "trim", 8, 1 }, { "trimA7", "trimA7", 8, 1 }, { "trimWS8", "trimWS8", 8, 1 }, { "trimWS16", "trimWS16", 16, 1 }, { "trimWS32", "trimWS32", 32, 1 },
    { "split", "split", 8, 0 }, { "split16", "split", 16, 0 }, { "split32", "split", 32, 0 }, { "join", "join", 8, 0 }, { "join32", "join", 32, 0 },
    { "isUtf8", "isUtf8", 8, 0 }, { "isUtf16", "isUtf16", 16, 0 }, { "isUcs4", "isUcs4", 32, 0 }, { "ulen8", "ulen8", 8, 0 },
    { "wToUtf8", "toUtf8_32", 33, 0 }, { "wToUtf16", "toUtf16_32", 33, 0 }, { "wToUcs2", "toUcs2_32", 33, 0 }, { "toW8", "toUcs4_8", 8, 0 }, { "toW16", "toUcs4_16", 16, 0 } };
static const int nOps = int(sizeof ops / sizeof *ops);

struct End { int how = 3; std::string r, x; long kept = 0, made = 0; bool nested = false; };
template <class C> static std::string arr(const std::basic_string<C>& s) { std::string t; putArr(t, ::unitsOf(s)); return t; }
static std::string arr(bool b) { return b ? "[1]" : "[0]"; }
static std::string arr(unsigned n) { return "[" + std::to_string(n) + "]"; }
template <class C> static std::string arr(const std::vector<std::basic_string<C>>& v) { std::string t = "["; for (auto& s : v) { if (t.size() > 1) t += ','; t += arr(s); } return t + "]"; }

template <class S, class F> static void guarded(End& e, long k, int how, S& src, F f) {
    g_count = 0; g_k = k; g_how = how; g_live = 0;
    try { g_armed = true; auto res = f(src); g_armed = false; e.r = arr(res); e.how = 0; }
    catch (const std::bad_alloc&) { g_armed = false; e.how = 1; }
    catch (...) { g_armed = false; e.how = 2; }
    g_armed = false; e.made = g_count; e.x = arr(src);
}
struct Nothing {};
template <class S, class F> static void inPlace(End& e, long k, int how, S& src, F f) { guarded(e, k, how, src, [&](S& s) { f(s); return false; }); e.r = e.how == 0 ? e.x : "[]"; }
template <class C> static std::basic_string<C> str(const U& x) { std::basic_string<C> s; for (auto u : x) s.push_back(C(u)); return s; }
static std::wstring wstr(const U& x) { std::wstring s; for (auto u : x) s.push_back(wchar_t(u)); return s; }
template <class C> static std::vector<std::basic_string<C>> pieces(const U& x, int a) { std::vector<std::basic_string<C>> v(1); for (auto u : x) if (u == uint32_t(a)) v.emplace_back(); else v.back().push_back(C(u)); if (x.empty()) v.clear(); return v; }

#define DO(n, src, body) if (o == n) { { auto s = src; guarded(e, k, how, s, [&](decltype(s)& s) { return body; }); } e.kept = g_live; return e; }
#define CHANGE(n, src, body) if (o == n) { { auto s = src; inPlace(e, k, how, s, [&](decltype(s)& s) { body; }); } e.kept = g_live; return e; }
static End run(int op, const U& x, int a, long k, int how) {
    const std::string o = ops[op].name; End e;
    DO("toUcs4_8p", str<char>(x), toUcs4(s.c_str())) DO("toUcs4_8", str<char>(x), toUcs4(s)) DO("toUtf16_8p", str<char>(x), toUtf16(s.c_str())) DO("toUtf16_8", str<char>(x), toUtf16(s)) DO("toUcs2_8p", str<char>(x), toUcs2(s.c_str())) DO("toUcs2_8", str<char>(x), toUcs2(s))
    DO("toUtf8_16p", str<char16_t>(x), toUtf8(s.c_str())) DO("toUtf8_16", str<char16_t>(x), toUtf8(s)) DO("toUcs4_16p", str<char16_t>(x), toUcs4(s.c_str())) DO("toUcs4_16", str<char16_t>(x), toUcs4(s))
    DO("toUtf8_32p", str<char32_t>(x), toUtf8(s.c_str())) DO("toUtf8_32", str<char32_t>(x), toUtf8(s)) DO("toUtf16_32p", str<char32_t>(x), toUtf16(s.c_str())) DO("toUtf16_32", str<char32_t>(x), toUtf16(s)) DO("toUcs2_32p", str<char32_t>(x), toUcs2(s.c_str())) DO("toUcs2_32", str<char32_t>(x), toUcs2(s))
    DO("lower8", str<char>(x), toLower(s)) DO("lower16", str<char16_t>(x), toLower(s)) DO("lower32", str<char32_t>(x), toLower(s)) DO("fromSource", str<char>(x), toUtf8(s.c_str(), SourceEncoding(a)))
    CHANGE("trim", str<char>(x), trim(s)) CHANGE("trimA7", str<char>(x), trimAscii7WhiteSpace(s)) CHANGE("trimWS8", str<char>(x), trimWhiteSpace(s)) CHANGE("trimWS16", str<char16_t>(x), trimWhiteSpace(s)) CHANGE("trimWS32", str<char32_t>(x), trimWhiteSpace(s))
    DO("split", str<char>(x), split(s, char(a))) DO("split16", str<char16_t>(x), split(s, char16_t(a))) DO("split32", str<char32_t>(x), split(s, char32_t(a)))
    DO("join", pieces<char>(x, a), join(s, char(a))) DO("join32", pieces<char32_t>(x, a), join(s, char32_t(a)))
    DO("isUtf8", str<char>(x), isUtf8(s, RangeType(a))) DO("isUtf16", str<char16_t>(x), isUtf16(s, RangeType(a))) DO("isUcs4", str<char32_t>(x), isUcs4(s, RangeType(a))) DO("ulen8", str<char>(x), unicodeLength(s))
    DO("wToUtf8", wstr(x), toUtf8(s)) DO("wToUtf16", wstr(x), toUtf16(s)) DO("wToUcs2", wstr(x), toUcs2(s)) DO("toW8", str<char>(x), toWstring(s)) DO("toW16", str<char16_t>(x), toWstring(s))
    abort();
}
static std::string given(int op, const U& x, int a) { const std::string o = ops[op].name; return o == "join" ? arr(pieces<char>(x, a)) : o == "join32" ? arr(pieces<char32_t>(x, a)) : arr(ops[op].w == 8 ? [&] { U u(x); for (auto& y : u) y &= 0xff; return str<char32_t>(u); }() : str<char32_t>(x)); }

// ---- one history in a process of its own
struct Shared { long attempts; long k; int how; bool bad, done; size_t len; char text[1 << 20]; };
static Shared* sh;
static Op oHist("history"), oCall("call");
static std::string line(int op, const U& x, int a, const std::string& ref, const std::string& ev) {
    std::string s = "{\"k\":\"oom\",\"op\":\"" + std::string(ops[op].spec) + "\",\"form\":\"" + ops[op].name + "\",\"a\":[" + (!strncmp(ops[op].name, "trim", 4) || ops[op].spec[0] == 't' || ops[op].spec[0] == 'l' || !strcmp(ops[op].spec, "ulen8") ? std::string() : std::to_string(a)) + "],\"v\":" + std::to_string(A.v) + ",\"x\":" + given(op, x, a) + ",\"ref\":" + ref + ",\"inplace\":" + (ops[op].inplace ? "1" : "0") + ",\"fam\":\"" + g_family + "\",\"ev\":[" + ev + "]}";
    return s;
}
static std::string event(long k, int how, const End& e) { return "[" + std::to_string(k) + "," + std::to_string(how) + "," + std::to_string(e.how) + "," + (e.r.empty() ? "[]" : e.r) + "," + (e.x.empty() ? "[]" : e.x) + "," + std::to_string(e.kept) + "]"; }
// cold = 0: in plenty first, then refused everywhere; cold = n: the first call of the process is refused its n-th block
static void inChild(int op, const U& x, int a, long cold) {
    std::string ev, ref, want = given(op, x, a); bool bad = false; size_t evs = 0;
    auto one = [&](long k, int how) {
        sh->k = k; sh->how = how; ++sh->attempts;
        End e = run(op, x, a, k, how); if (e.kept > 0) { End f = run(op, x, a, k, how); ++sh->attempts; if (f.kept == 0) e.kept = 0; }     // a block that stays for good, once, is a cache
        if (ref.empty() && e.how == 0 && k == 0) ref = e.r;
        bool good = e.kept == 0 && (e.how == 0 ? e.x == (ops[op].inplace ? e.r : want) : e.how == 1 && k > 0 && e.x == want) && (e.how != 0 || ref.empty() || e.r == ref);
        if (ops[op].inplace && e.how == 0 && !ref.empty() && e.x != ref) good = false;
        bool late = e.how == 0 && ref.empty();
        if (!good) bad = true;
        if (!good || late || evs < 6 || k == 0) { std::string t = event(k, how, e); if (!good || ev.empty() || ev.size() + t.size() < 3000) { if (!ev.empty()) ev += ','; ev += t; ++evs; } }
        return e; };
    if (cold) { End f = one(cold, 2); End e = one(0, 0); if (f.how == 0 && f.r != e.r) bad = true; one(cold, 1); one(0, 0); }
    else { End e = one(0, 0); if (e.made) one(0, 0); for (long k = 1; k <= e.made + 1 && k < 400 && !bad; ++k) for (int how = 1; how <= 2 && !bad; ++how) { one(k, how); if (k < 4 || k % 7 == 0) one(0, 0); } if (!bad) one(0, 0); }
    sh->bad = bad; std::string t = line(op, x, a, ref.empty() ? "[]" : ref, ev);
    sh->len = std::min(t.size(), sizeof sh->text - 1); memcpy(sh->text, t.data(), sh->len); sh->done = true;
}
static bool history(int op, const U& x, int a, long cold) {
    if (g_stop) { finish(); _exit(0); }
    sh->attempts = 0; sh->k = 0; sh->how = 0; sh->bad = sh->done = false; sh->len = 0;
    fflush(g_mis); fflush(g_smp);
    pid_t p = fork(); if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTERM }) signal(s, SIG_DFL); alarm(20); inChild(op, x, a, cold); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0) {}
    g_total += sh->attempts; oCall.all += sh->attempts;
    if (!sh->done) { End e; e.how = 3; mismatch(line(op, x, a, "[]", event(sh->k, sh->how, e))); return false; }
    std::string t(sh->text, sh->len);
    if (sh->bad) { mismatch(t); return false; }
    if (oHist.sampleNow()) oHist.store(std::move(t));
    return true;
}

int main(int argc, char** argv) {
    parseArgs(argc, argv);
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); exit(2); }
    Rng r(A.seed * 6151 + A.shard);
    uint64_t k = 0;
    auto spelled = [](int w, const U& cps) { U x; for (auto c : cps) { if (w == 8) { if (c <= 0x7fffffff) enc8(c, x); } else if (w == 16) { if (c <= 0x10ffff) enc16(c, x); } else x.push_back(c); } return x; };
    auto arg = [&](int op) { const char* s = ops[op].spec; return !strcmp(s, "fromSource") ? int(r.below(3)) : !strcmp(s, "split") || !strcmp(s, "join") ? int(';') : !strncmp(s, "is", 2) ? int(r.below(6)) : 0; };
    auto text = [&](size_t len, int kind) { U u; for (size_t i = 0; i < len; ++i) u.push_back(kind == 0 ? 'A' + i % 26 : kind == 1 ? (r.below(4) ? 'a' + uint32_t(r.below(26)) : r.below(2) ? ' ' : ';') : kind == 2 ? someCp(r, 0xffff) : kind == 3 ? someCp(r, 0x10ffff) : 0x1f600); return u; };
    const size_t lens[] = { 0, 1, 5, 15, 16, 17, 40, 100, 300, 1000, 5000 };
    family("first calls of a process"); A.samples = 60;
    for (int op = 0; op < nOps; ++op) for (size_t len : { size_t(3), size_t(40), size_t(300) }) for (int kind = 0; kind < 4; ++kind) for (long c = 1; c <= 12; ++c) { if (!mine(k++)) continue; U x = spelled(ops[op].w, text(len, kind)); history(op, x, arg(op), c); }
    family("every block of every call");
    for (int op = 0; op < nOps; ++op) for (size_t len : lens) for (int kind = 0; kind < 5; ++kind) for (int bl = 0; bl < 3; ++bl) { if (!mine(k++) || (len > 2000 && bl)) continue;
        U t = text(len, kind); if (bl == 1) { t.insert(t.begin(), { ' ', '\t' }); t.push_back(' '); t.push_back('\n'); } if (bl == 2 && ops[op].w != 33) { t.insert(t.begin(), 0x3000); t.push_back(';'); t.push_back(0x2003); }
        U x = spelled(ops[op].w, t); if (!history(op, x, arg(op), 0)) continue;
        if (bl == 0 && len) { x.push_back(ops[op].w == 8 ? 0xff : 0xdc00); history(op, x, arg(op), 0); x.back() = ops[op].w == 8 ? 0xe2 : 0xd83d; history(op, x, arg(op), 0); } }
    family("random calls");
    for (uint64_t i = 0, n = (A.thorough ? 60000 : 4000) / A.nshards; i < n; ++i) { int op = int(r.below(nOps)); size_t len = r.below(20) == 0 ? r.below(20000) : r.below(4) == 0 ? r.below(600) : r.below(60); U x = spelled(ops[op].w, text(len, int(r.below(4)))); if (r.below(6) == 0 && !x.empty()) x[r.below(x.size())] = 1 + uint32_t(r.next() & 0xff); history(op, x, arg(op), r.below(3) ? 0 : 1 + long(r.below(8))); }
    finish();
    return 0;
}
