// Walks of strings through the encodings: all code points, random texts, and the walks that TLC generated from
// Session.tla. Lockstep with the one encoding each code point sequence has.
#include "gen.hpp"
#include "string.hxx"
using namespace ansak;

struct Step { int t, own; U r; };
struct Walk { int e; U x; std::vector<Step> ev; };
static Walk W;
static Op oWalk("walk"), oConv("conversion");
static bool g_bad;

static std::string walkJson() {
    std::string s = "{\"k\":\"walk\",\"e\":" + std::to_string(W.e) + ",\"x\":"; putArr(s, W.x); s += ",\"ev\":[";
    for (size_t i = 0; i < W.ev.size(); ++i) { if (i) s += ','; s += '[' + std::to_string(W.ev[i].t) + ',' + std::to_string(W.ev[i].own) + ','; putArr(s, W.ev[i].r); s += ']'; }
    return s + "]}";
}
static void onDeath(int sig) { signal(sig, SIG_DFL); writeLine(g_mis, walkJson()); fflush(g_mis); fflush(g_smp); _exit(0); }
static void onHang(int) { static uint64_t last = ~0ull; if (g_total == last) onDeath(SIGALRM); last = g_total; alarm(30); }

// the program's string, in the type that its encoding has
struct Held { int e; std::string s8; std::u16string s16; std::u32string s32; };
static U unitsOf(const Held& h) { return h.e == 8 ? ::unitsOf(h.s8) : h.e == 32 ? ::unitsOf(h.s32) : ::unitsOf(h.s16); }
static Held held(int e, const U& x) { Held h; h.e = e; for (auto u : x) if (e == 8) h.s8 += char(uint8_t(u)); else if (e == 32) h.s32 += char32_t(u); else h.s16 += char16_t(u); return h; }
static Held conv(const Held& h, int t, bool ptr) {
    Held r; r.e = t;
    if (h.e == 8)       { if (t == 16) r.s16 = ptr ? toUtf16(h.s8.c_str()) : toUtf16(h.s8); else if (t == 2) r.s16 = ptr ? toUcs2(h.s8.c_str()) : toUcs2(h.s8); else r.s32 = ptr ? toUcs4(h.s8.c_str()) : toUcs4(h.s8); }
    else if (h.e == 32) { if (t == 16) r.s16 = ptr ? toUtf16(h.s32.c_str()) : toUtf16(h.s32); else if (t == 2) r.s16 = ptr ? toUcs2(h.s32.c_str()) : toUcs2(h.s32); else r.s8 = ptr ? toUtf8(h.s32.c_str()) : toUtf8(h.s32); }
    else                { if (t == 8) r.s8 = ptr ? toUtf8(h.s16.c_str()) : toUtf8(h.s16); else r.s32 = ptr ? toUcs4(h.s16.c_str()) : toUcs4(h.s16); }
    return r;
}
static bool own(const Held& h) { return h.e == 8 ? isUtf8(h.s8) : h.e == 16 ? isUtf16(h.s16) : h.e == 2 ? isUcs2(h.s16) : isUcs4(h.s32); }
static const int targets[4][3] = { { 16, 2, 32 }, { 8, 32, 0 }, { 8, 32, 0 }, { 8, 16, 2 } };
static const int* targetsOf(int e) { return targets[e == 8 ? 0 : e == 16 ? 1 : e == 2 ? 2 : 3]; }

struct Canon { U cps, e8, e16; bool fit16 = true, fit2 = true, stuck = false; };
static Canon canon(const U& cps) { Canon c; c.cps = cps; for (auto x : cps) if (x > 0x7fffffff) c.stuck = true; if (c.stuck) return c; for (auto x : cps) { enc8(x, c.e8); if (x > 0xffff) c.fit2 = false; if (x > 0x10ffff) c.fit16 = false; } if (c.fit16) for (auto x : cps) enc16(x, c.e16); return c; }
static const U none;
static const U& want(const Canon& c, int t) { return c.stuck ? none : t == 8 ? c.e8 : t == 16 ? (c.fit16 ? c.e16 : none) : t == 2 ? (c.fit2 ? c.cps : none) : c.cps; }

static Held H; static Canon K;
static void begin(int e, const U& x, const U& cps) { W = Walk{ e, x, {} }; H = held(e, x); K = canon(cps); g_bad = false; }
static void step(int t, bool ptr) {
    if (g_bad) return;
    ++g_total; ++oConv.all; if (g_stop) { finish(); _exit(0); }
    W.ev.push_back(Step{ t, -1, U() });
    try {
        Held r = conv(H, t, ptr); U u = unitsOf(r); bool o = own(r);
        W.ev.back().own = o; W.ev.back().r = u;
        if (u != want(K, t) || (!u.empty() && !o)) { g_bad = true; mismatch(walkJson()); return; }
        if (!u.empty()) H = r;
    } catch (...) { g_bad = true; mismatch(walkJson()); }
}
static void end() { if (g_bad || W.ev.empty()) return; if (oWalk.sampleNow()) oWalk.store(walkJson()); }

// a code point spelled in some way its encoding has
static bool spell(Rng& r, int e, uint32_t c, U& x) {
    if (e == 8) { if (c > 0x7fffffff) return false; if (c >= 0x10000 && c <= 0x10ffff && r.below(2)) { U h; enc16(c, h); for (auto y : h) encWith(T_enc8, T_enc8_n, y, x); } else enc8(c, x); return true; }
    if (e == 16) { if (c > 0x10ffff) return false; enc16(c, x); return true; }
    if (e == 2 && c > 0xffff) return false;
    x.push_back(c); return true;
}
static void cutEnd(Rng& r, int e, U& x) {
    if (e == 16) x.push_back(0xd800 + uint32_t(r.below(0x400)));
    if (e == 8) { U t; uint32_t c = someCp(r, 0x7fffffff); if (c > 0xffff && c <= 0x10ffff && r.below(2)) { U h; enc16(c, h); for (auto y : h) encWith(T_enc8, T_enc8_n, y, t); } else enc8(c, t); if (t.size() > 1) { t.resize(1 + r.below(t.size() - 1)); x.insert(x.end(), t.begin(), t.end()); } }
}
static void everyWalk(int e, const U& x, const U& cps, int depth) {          // all chains of a length
    std::vector<int> path(depth, 0);
    for (;;) {
        begin(e, x, cps); for (int i = 0; i < depth && !g_bad; ++i) { const int* t = targetsOf(H.e); step(t[path[i]] ? t[path[i]] : t[0], (i + path[i]) & 1); } end();
        if (g_bad) return;
        int i = depth - 1; while (i >= 0 && ++path[i] == 3) path[i--] = 0;
        if (i < 0) break;
    }
}
static void randomWalk(Rng& r, int e, const U& x, const U& cps, int steps) {
    begin(e, x, cps); for (int i = 0; i < steps && !g_bad; ++i) { const int* t = targetsOf(H.e); int k = int(r.below(t[2] ? 3 : 2)); step(t[k], r.below(2)); } end();
}
// a string that may be broken: every chain from it fails at every step, or is one of a text
static void anyStart(Rng& r, int e, const U& x, int steps) {
    Scanned sc; (e == 8 ? M8 : e == 16 ? M16 : e == 2 ? MU2 : MU4).scan(x.data(), x.size(), sc);
    if (e == 2 && sc.st == BAD) { Scanned s16; M16.scan(x.data(), x.size(), s16); if (s16.st != BAD) return; }     // no UCS-2, but UTF-16
    if (x.empty() || (sc.st != BAD && sc.cps.empty())) return;
    begin(e, x, sc.st == BAD ? U() : sc.cps); if (sc.st == BAD) K.stuck = true;
    if (K.stuck) for (int i = 0; i < 3 && !g_bad; ++i) { if (targetsOf(e)[i]) { step(targetsOf(e)[i], false); step(targetsOf(e)[i], true); } }
    else for (int i = 0; i < steps && !g_bad; ++i) { const int* t = targetsOf(H.e); int k = int(r.below(t[2] ? 3 : 2)); step(t[k], r.below(2)); }
    end();
}
static void spoil(Rng& r, int e, U& x) {
    uint32_t m = e == 8 ? 0xff : e == 32 ? 0xffffffffu : 0xffff; size_t i = size_t(r.below(x.size()));
    switch (r.below(6)) {
    case 0: x[i] ^= 1u << r.below(e == 8 ? 8 : e == 32 ? 32 : 16); break;
    case 1: x.erase(x.begin() + i); break;
    case 2: x.insert(x.begin() + i, x[i]); break;
    case 3: x.insert(x.begin() + i, e == 8 ? 0x80 + uint32_t(r.below(128)) : 0xd800 + uint32_t(r.below(0x800))); break;
    case 4: x[i] = (e == 8 ? 0x80 + uint32_t(r.below(128)) : r.below(2) ? 0xd800 + uint32_t(r.below(0x800)) : (x[i] | 0x80000000u)) & m; break;
    default: x[i] = uint32_t(r.next()) & m;
    }
    for (auto& u : x) if (!u) u = 1;
}
static const int encs[4] = { 8, 16, 2, 32 };

int main(int argc, char** argv) {
    parseArgs(argc, argv);
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, onDeath);
    signal(SIGALRM, onHang);
    Rng r(A.seed * 7727 + A.shard);
    family("script from TLC"); A.samples = 100000;
    if (A.more.count("script") && A.shard == 0) {
        FILE* f = fopen(A.more["script"].c_str(), "r"); char op[16]; int n;
        if (f) { bool open = false;
            while (fscanf(f, "%15s %d", op, &n) == 2) { U x; for (int i = 0; i < n; ++i) { long long v; if (fscanf(f, "%lld", &v) != 1) break; x.push_back(uint32_t(v)); }
                if (!strcmp(op, "begin")) { if (open) end(); int e = int(x[0]); x.erase(x.begin()); Scanned sc; (e == 8 ? M8 : e == 16 ? M16 : e == 2 ? MU2 : MU4).scan(x.data(), x.size(), sc); begin(e, x, sc.st == BAD ? U() : sc.cps); if (sc.st == BAD) K.stuck = true; open = true; }
                else { bool ok = false; for (int i = 0; i < 3; ++i) ok = ok || targetsOf(H.e)[i] == int(x[0]); if (ok) step(int(x[0]), r.below(2)); } }
            if (open) end(); fclose(f); } }
    family("every code point"); A.samples = 40;
    { uint64_t k = 0; for (uint32_t c = 1; c < 0x110000; ++c) { if (isSurr(c) || !mine(k++)) continue; for (int e : encs) { U x; if (spell(r, e, c, x)) everyWalk(e, x, U{ c }, A.thorough ? 4 : 2); } }
      for (uint32_t c : hotCps()) { if (!isSurr(c) && c < 0x80000000u) for (int e : encs) { U x; if (spell(r, e, c, x)) everyWalk(e, x, U{ c }, 4); } } }
    family("short texts");
    { std::vector<uint32_t> cs = { 0x01, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff }; uint64_t k = 0;
      for (auto a : cs) for (auto b : cs) { if (!mine(k++)) continue; for (int e : encs) { U x; if (spell(r, e, a, x) && spell(r, e, b, x)) { everyWalk(e, x, U{ a, b }, 4); U y = x; cutEnd(r, e, y); everyWalk(e, y, U{ a, b }, 3); }
          for (auto c : cs) { U z; if (spell(r, e, a, z) && spell(r, e, b, z) && spell(r, e, c, z)) randomWalk(r, e, z, U{ a, b, c }, 8); } } } }
    family("key texts");
    for (int e : encs) keyTexts([&](const U& c) { U x; for (auto y : c) if (!spell(r, e, y, x)) return; if (c.size() == 2) everyWalk(e, x, c, 2); else randomWalk(r, e, x, c, 5); }, e == 2 ? 0xffffu : e == 16 ? 0x10ffffu : 0x7fffffffu);
    family("broken starts");
    { uint64_t k = 0; U odd; for (uint32_t c = 0xd800; c < 0xe000; ++c) odd.push_back(c); for (uint32_t c : hotCps()) { odd.push_back(c | 0x80000000u); if (c < 0x200000u) odd.push_back(c | 0x40000000u); }
      for (auto c : odd) { if (!mine(k++)) continue; for (const U& x : { U{ c }, U{ 'a', c }, U{ c, 'b' }, U{ 0x1f600, c, 0xe9 } }) { anyStart(r, 32, x, 3); if (c <= 0xffff) { anyStart(r, 2, x[0] > 0xffff ? U{ 0x20ac, c } : x, 3); U y; for (auto u : x) if (u == c) y.push_back(u); else enc16(u, y); anyStart(r, 16, y, 3); U z; for (auto u : x) if (u == c) encWith(T_enc8, T_enc8_n, u, z); else enc8(u, z); anyStart(r, 8, z, 3); } } }
      for (auto a : keyCps()) { if (!mine(k++)) continue; for (uint32_t h : { 0xd800u, 0xd801u, 0xd83du, 0xdbffu, 0xdc00u, 0xdd0cu, 0xde00u, 0xdfffu, 0x80000041u, 0x80000000u | a, 0xffffffffu }) for (const U& x : { U{ a, h }, U{ h, a }, U{ 'x', a, h, 'y' } }) { anyStart(r, 32, x, 3);
          if (h <= 0xffff) { U y, z; for (auto u : x) if (isSurr(u)) { y.push_back(u); encWith(T_enc8, T_enc8_n, u, z); } else { if (u <= 0x10ffff) enc16(u, y); enc8(u, z); } anyStart(r, 16, y, 3); anyStart(r, 8, z, 3); } } }
      for (uint32_t b = 0x80 + A.shard; b < 0x100; b += A.nshards) for (uint32_t d = 1; d < 0x100; ++d) { anyStart(r, 8, U{ b, d }, 3); anyStart(r, 8, U{ 'a', b, d, 0x80, 'c' }, 3); anyStart(r, 8, U{ b, d, 0xbf, 0xbf }, 3); anyStart(r, 8, U{ b, 0x80, d, 'c' }, 3); }
      for (uint64_t i = 0, n = (A.thorough ? 6000000 : 300000) / A.nshards; i < n; ++i) { int e = encs[r.below(4)]; U x; for (size_t j = 0, m = 1 + r.below(r.below(40) == 0 ? 200 : 8); j < m; ++j) spell(r, e, someCp(r, e == 2 ? 0xffffu : r.below(3) ? 0x10ffffu : 0x7fffffffu), x); if (x.empty()) continue; spoil(r, e, x); if (!x.empty()) anyStart(r, e, x, 5); } }
    A.samples = 12;
    gen8([&](const uint8_t* p, size_t n) { anyStart(r, 8, U(p, p + n), 2); }, 0.15); gen16([&](const char16_t* p, size_t n) { anyStart(r, 16, U(p, p + n), 2); }, 0.15); gen32([&](const char32_t* p, size_t n) { anyStart(r, 32, U(p, p + n), 2); }, 0.15);
    A.samples = 40;
    family("random texts");
    for (uint64_t i = 0, n = (A.thorough ? 6000000 : 400000) / A.nshards; i < n; ++i) {
        int e = encs[r.below(4)]; U x, cps; uint32_t top = e == 2 || r.below(3) == 0 ? 0xffffu : e == 16 || r.below(2) ? 0x10ffffu : 0x7fffffffu;
        for (size_t j = 0, m = 1 + r.below(r.below(40) == 0 ? 300 : 12); j < m; ++j) { uint32_t c = someCp(r, top); if (spell(r, e, c, x)) cps.push_back(c); }
        if (r.below(3) == 0) cutEnd(r, e, x);
        if (!cps.empty()) randomWalk(r, e, x, cps, 4 + int(r.below(8)));
    }
    family("long texts");
    { uint64_t k = 0; for (size_t len : hotLengths()) { if (!mine(k++) || len < 20) continue; int e = encs[r.below(4)]; U x, cps; uint32_t c = r.below(2) ? someCp(r, e == 2 ? 0xffff : 0x10ffff) : 'q';
        for (size_t j = 0; j < len; ++j) { uint32_t d = r.below(200) == 0 ? someCp(r, e == 2 ? 0xffff : 0x10ffff) : c; if (spell(r, e, d, x)) cps.push_back(d); } randomWalk(r, e, x, cps, 8); } }
    finish();
    return 0;
}
