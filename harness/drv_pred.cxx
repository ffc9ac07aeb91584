// Sessions with EncodingCheckPredicate objects: random walks, all short chains of conditions, and scripts that
// TLC generated from PredSession.tla. Lockstep with a set of conditions per variable.
#include "drv.hpp"
#include "string.hxx"
#include <climits>
using namespace ansak;

static const int NS = 4;
struct Ev { const char* op; int s, o; int64_t t, w; int r; uint8_t base[4]; };
static std::vector<Ev> g_log;           // the session in hand
static EncodingCheckPredicate P[NS + 1];
static uint32_t C[NS + 1];              // conditions: bit 2(t-1) for wanted, bit 2(t-1)+1 for not
static Op oSession("session"), oEval("eval"), oEq("eq"), oAct("act");
static bool g_badSession;

static std::string sessionJson() {
    std::string s = "{\"k\":\"pred\",\"ev\":[";
    for (size_t i = 0; i < g_log.size(); ++i) {
        const Ev& e = g_log[i]; if (i) s += ','; s += "[\""; s += e.op; s += "\","; putInt(s, e.s); s += ','; putInt(s, e.o); s += ','; putInt(s, e.t); s += ','; putInt(s, e.w); s += ','; s += std::to_string(e.r);
        if (!strcmp(e.op, "eval")) for (int k = 0; k < 4; ++k) { s += ','; s += e.base[k] ? '1' : '0'; }
        s += ']';
    }
    s += "]}"; return s;
}
static void reset() { g_log.clear(); g_badSession = false; for (int i = 0; i <= NS; ++i) { P[i] = EncodingCheckPredicate(); C[i] = 0; } }
static void endSession() { ++oSession.n; ++oSession.all; if (oSession.n == oSession.next && !g_badSession) oSession.store(sessionJson()); else if (oSession.n == oSession.next) oSession.next = oSession.n + 1; --oSession.all; }
static void bad() { if (!g_badSession) mismatch(sessionJson()); g_badSession = true; }
static void onDeath(int sig) { signal(sig, SIG_DFL); writeLine(g_mis, sessionJson()); fflush(g_mis); fflush(g_smp); _exit(0); }

static uint32_t bitOf(int64_t t, int w) { return t >= 1 && t <= 4 ? 1u << (2 * (t - 1) + (w ? 0 : 1)) : 0; }
static bool contradictory(uint32_t c) { return (c & (c >> 1) & 0x55) != 0; }
static bool holds(uint32_t c, const uint8_t base[4]) { for (int t = 0; t < 4; ++t) { if ((c >> (2 * t) & 1) && !base[t]) return false; if ((c >> (2 * t + 1) & 1) && base[t]) return false; } return true; }

static void log(const char* op, int s, int o, int64_t t, int64_t w) { g_log.push_back(Ev{ op, s, o, t, w, -1, { 0, 0, 0, 0 } }); }
template <class F> static void act(F f) { ++g_total; if (g_stop) { finish(); _exit(0); } try { f(); g_log.back().r = 0; ++oAct.all; } catch (...) { bad(); } }

static void doMake(int s, int64_t t, int w) { log("make", s, 0, t, w); act([&] { P[s] = w ? validIf(EncodingType(int(t))) : validIfNot(EncodingType(int(t))); }); C[s] = bitOf(t, w); }
static void doDefault(int s) { log("default", s, 0, 0, 0); act([&] { P[s] = EncodingCheckPredicate(); }); C[s] = 0; }
static void doCopy(int s, int o) { log("copy", s, o, 0, 0); act([&] { P[s] = P[o]; }); C[s] = C[o]; }
static void doNarrow(int s, int o, int64_t t, int w) {
    log("narrow", s, o, t, w);
    act([&] { if (o == s) { if (w) P[s].andIf(EncodingType(int(t))); else P[s].andIfNot(EncodingType(int(t))); }
              else P[o] = w ? P[s].andIf(EncodingType(int(t))) : P[s].andIfNot(EncodingType(int(t))); });
    C[s] |= bitOf(t, w); C[o] = C[s];
}
static unsigned g_turn;
static void doEval(int s, int kind, uint32_t c) {
    log("eval", s, 0, kind, c); Ev& e = g_log.back(); ++g_total; ++oEval.all;
    try {
        const EncodingCheckPredicate& q = P[s]; bool r;
        // the single conditions are asked before or after, with or without another character in between: nothing may be left over
        auto base = [&] { for (int t = 1; t <= 4; ++t) { EncodingCheckPredicate b = validIf(EncodingType(t)); e.base[t - 1] = kind == 8 ? inClassOfChar(t, c) : kind == 16 ? b(char16_t(c)) : b(char32_t(c)); } };
        auto other = [&] { if (!(g_turn & 2)) return; EncodingCheckPredicate b = validIf(EncodingType(1)); uint32_t d = (c ^ 0x5a5a) & 0xffff; volatile bool x = b(char16_t(d)); x = b(char32_t(d)); (void)x; };
        unsigned turn = g_turn++;
        if (turn & 1) { base(); other(); }
        r = kind == 8 ? q(char(uint8_t(c))) : kind == 16 ? q(char16_t(c)) : q(char32_t(c));
        if (!(turn & 1)) { other(); base(); }
        e.r = r ? 1 : 0; if (r != holds(C[s], e.base)) bad();
    } catch (...) { bad(); }
}
static void doEq(int s, int o) {
    log("eq", s, o, 0, 0); Ev& e = g_log.back(); ++g_total; ++oEq.all;
    try {
        bool a = P[s] == P[o], b = P[s] != P[o]; e.r = a == b ? 2 : a ? 1 : 0;
        bool both = contradictory(C[s]) && contradictory(C[o]);
        if (a == b || (C[s] == C[o] ? !contradictory(C[s]) && !a : !both && a)) bad();
    } catch (...) { bad(); }
}

static std::vector<uint32_t> g_chars;
static uint32_t g_prev;
// a character that something remembering the last one might take for it
static uint32_t nearby(Rng& r, uint32_t c) {
    switch (r.below(6)) {
    case 0: return c ^ (1u << r.below(21));
    case 1: return c + uint32_t(r.below(17));
    case 2: return c - uint32_t(r.below(17));
    case 3: return c ^ (uint32_t(r.below(17)) << 16);
    case 4: return c ^ (uint32_t(r.below(256)) << 8);
    default: return c; }
}
static uint32_t someChar(Rng& r, int kind);
static uint32_t oneChar(Rng& r, int kind) { uint32_t c = r.below(2) ? nearby(r, g_prev) : someChar(r, kind); if (kind == 8) c &= 0xff; if (kind == 16) c &= 0xffff; return g_prev = c; }
static uint32_t someChar(Rng& r, int kind) {
    for (;;) { uint32_t c = r.below(4) ? g_chars[r.below(g_chars.size())] : uint32_t(r.below(4) ? r.below(0x110000) : r.next()); if (kind == 8) c &= 0xff; if (kind == 16) c &= 0xffff; return c; }
}
static const int kinds[3] = { 8, 16, 32 };
static int64_t someType(Rng& r) { static const int64_t odd[] = { 0, 5, 6, -1, 31, 32, 33, 34, 64, 100, 256, 1 << 20, INT_MAX, INT_MIN }; return r.below(6) ? 1 + int64_t(r.below(4)) : odd[r.below(sizeof odd / sizeof *odd)]; }

static void walk(Rng& r, int steps) {
    reset();
    for (int i = 0; i < steps && !g_badSession; ++i) {
        int s = 1 + int(r.below(NS)), o = 1 + int(r.below(NS));
        switch (r.below(12)) {
        case 0: doMake(s, someType(r), int(r.below(2))); break;
        case 1: if (r.below(3) == 0) doDefault(s); break;
        case 2: if (s != o) doCopy(s, o); break;
        case 3: case 4: case 5: doNarrow(s, r.below(2) ? s : o, someType(r), int(r.below(2))); break;
        case 6: doEq(s, o); break;
        default: { int k = kinds[r.below(3)]; doEval(s, k, oneChar(r, k)); } }
    }
    endSession();
}
// every chain of up to `depth` conditions from one start, evaluated over one character of every kind of interest
static void chains(int depth) {
    uint64_t k = 0; std::vector<int> ch;
    std::function<void(int)> go = [&](int d) {
        if (!ch.empty() && int(k++ % uint64_t(A.nshards)) == A.shard) for (int start = 0; start < 3; ++start) {
            reset(); size_t i = 0;
            if (start == 0) { doMake(1, 1 + ch[0] / 2, ch[0] & 1); i = 1; }
            for (; i < ch.size(); ++i) doNarrow(1, start == 2 ? 1 + int(i % 2) : 1, 1 + ch[i] / 2, ch[i] & 1);
            doMake(3, 1 + ch[0] / 2, ch[0] & 1); for (size_t j = ch.size(); j-- > 1; ) doNarrow(3, 3, 1 + ch[j] / 2, ch[j] & 1);
            doEq(1, 3); doEq(3, 1); doEq(1, 4);
            for (int c : { 0, 9, 0x20, 0x41, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff }) doEval(1, 8, uint32_t(c));
            for (uint32_t c : { 0u, 9u, 0x20u, 0x41u, 0x85u, 0xa0u, 0x378u, 0x2028u, 0x3000u, 0xd800u, 0xe000u, 0xf8ffu, 0xfffeu, 0xffffu }) { doEval(1, 16, c); doEval(3, 32, c); }
            for (uint32_t c : { 0x10000u, 0x1f600u, 0x1ffffu, 0xf0000u, 0xfffffu, 0x10fffdu, 0x10ffffu, 0x110000u, 0x7fffffffu, 0xffffffffu }) doEval(1, 32, c);
            endSession();
        }
        if (d == depth) return;
        for (int c = 0; c < 8; ++c) { ch.push_back(c); go(d + 1); ch.pop_back(); }
    };
    go(0);
}
static void script(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) return; char op[16]; int s, o, t, w; Rng r(A.seed * 5 + 1);
    while (fscanf(f, "%15s %d %d %d %d", op, &s, &o, &t, &w) == 5) {
        std::string k = op;
        if (k == "reset") { if (!g_log.empty()) endSession(); reset(); continue; }
        if (g_badSession) continue;
        if (k == "make") doMake(s, t, w); else if (k == "default") doDefault(s); else if (k == "copy") doCopy(s, o); else if (k == "narrow") doNarrow(s, o, t, w);
        else if (k == "eq") doEq(s, o); else for (int n = 0; n < 3; ++n) { int kd = kinds[n]; doEval(s, kd, oneChar(r, kd)); }
    }
    if (!g_log.empty()) endSession(); fclose(f);
}

int main(int argc, char** argv) {
    parseArgs(argc, argv);
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, onDeath);
    for (uint32_t c : { 0x0u, 0x1u, 0x9u, 0xau, 0xbu, 0xdu, 0x1fu, 0x20u, 0x21u, 0x41u, 0x7eu, 0x7fu, 0x80u, 0x84u, 0x85u, 0x86u, 0x9fu, 0xa0u, 0xa1u, 0xadu, 0xffu, 0x378u, 0x1680u, 0x180eu, 0x2000u, 0x200au, 0x200bu, 0x2028u, 0x2029u, 0x202fu, 0x205fu, 0x3000u,
                        0x4e00u, 0xd7ffu, 0xd800u, 0xdfffu, 0xe000u, 0xf8ffu, 0xf900u, 0xfdd0u, 0xfffdu, 0xfffeu, 0xffffu, 0x10000u, 0x1f600u, 0x1fffeu, 0xe0001u, 0xeffffu, 0xf0000u, 0xffffdu, 0xffffeu, 0x100000u, 0x10fffdu, 0x10fffeu, 0x10ffffu, 0x110000u, 0x7fffffffu, 0x80000000u, 0xffffffffu }) g_chars.push_back(c);
    for (auto d : A.dict) g_chars.push_back(d);
    for (int k = 0; k < 40; ++k) for (auto d : A.novel) g_chars.push_back(d);
    Rng r(A.seed * 7717 + A.shard);
    family("script from TLC"); if (A.more.count("script") && A.shard == 0) { A.samples = 100000; script(A.more["script"].c_str()); }
    family("chains"); A.samples = 60; chains(A.scale < 1 ? 3 : A.thorough ? 6 : 4);
    family("walks"); A.samples = 60;
    for (uint64_t i = 0, n = uint64_t((A.thorough ? 2000000 : 120000) * A.scale) / A.nshards; i < n; ++i) walk(r, 10 + int(r.below(50)));
    family("one predicate, all characters");
    for (int i = 0; i < (A.scale < 1 ? 1 : A.thorough ? 64 : 6); ++i) {
        reset(); for (int j = 0, m = 1 + int(r.below(4)); j < m; ++j) doNarrow(1, 1, 1 + int64_t(r.below(4)), int(r.below(2)));
        size_t keep = g_log.size();
        for (uint32_t c = 0; c < 0x110000 && !g_badSession; ++c) { if (c % 3 == 0) doEval(1, 32, nearby(r, c)); doEval(1, 32, c); if (!g_badSession) g_log.resize(keep); }
        for (uint32_t c = 0; c < 0x10000 && !g_badSession; ++c) { if (c % 3 == 0) doEval(1, 16, nearby(r, c) & 0xffff); doEval(1, 16, c); if (!g_badSession) g_log.resize(keep); }
        for (uint32_t c = 0; c < 0x100 && !g_badSession; ++c) { doEval(1, 8, c); if (!g_badSession) g_log.resize(keep); }
    }
    finish();
    return 0;
}
