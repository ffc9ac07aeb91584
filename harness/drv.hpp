// Common parts of the conformance drivers: arguments, events, sampling, crash and hang capture, guarded memory.
#pragma once
#include "oracle.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <map>
#include <set>
#include <functional>
#include <limits>
#include <exception>

struct Rng {                            // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return next() % n; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[below(v.size())]; }
};

struct Args {
    int shard = 0, nshards = 1, v = 16; uint64_t seed = 1; bool thorough = false;
    std::string prop, out = "out", ucd; std::vector<uint32_t> dict, novel; std::vector<std::string> strings; std::map<std::string, std::string> more;
    double scale = 1.0;
    size_t samples = 12;                // per op and family
};
static Args A;
static Ucd UC;

// ------------------------------------------------------------------ events
static FILE* g_mis; static FILE* g_smp;
static uint64_t g_total, g_mismatches;
static volatile sig_atomic_t g_stop = 0;   // SIGTERM: end with what there is
static std::string g_family = "none"; static uint64_t g_famN;
static std::map<std::string, uint64_t> g_famCount;

struct Cur {                            // the call in progress, for the crash handler
    const char* kind; const char* op; const char* form;
    const void* x; size_t n; int width; const std::vector<int64_t>* a; const Conds* p;
};
static Cur g_cur = { "api", "none", "", nullptr, 0, 8, nullptr, nullptr };

inline void putInt(std::string& s, int64_t v) { if (v > 0x7fffffffll) v -= 0x100000000ll; s += std::to_string(v); }
template <class V> inline void putArr(std::string& s, const V& v) { s += '['; bool f = true; for (auto x : v) { if (!f) s += ','; f = false; putInt(s, int64_t(x)); } s += ']'; }

typedef std::vector<int64_t> L;
inline std::string eventJson(const char* kind, const char* op, const char* form, const L& a, const Conds& p, const U& x, const U& r, const char* out, const std::string& extra = std::string()) {
    std::string s = "{\"k\":\""; s += kind; s += "\",\"op\":";
    if (op[0] == '[') s += op; else { s += '"'; s += op; s += '"'; }
    s += ",\"a\":"; putArr(s, a); s += ",\"p\":[";
    for (size_t i = 0; i < p.size(); ++i) { if (i) s += ','; s += '['; putInt(s, p[i].first); s += ','; putInt(s, p[i].second); s += ']'; }
    s += "],\"v\":"; putInt(s, A.v); s += ",\"x\":"; putArr(s, x); s += ",\"r\":"; putArr(s, r);
    s += ",\"out\":\""; s += out; s += "\",\"form\":\""; s += form; s += "\",\"fam\":\""; s += g_family; s += "\""; s += extra; s += "}";
    return s;
}
template <class V> inline std::string field(const char* name, const V& v) { std::string s = ",\""; s += name; s += "\":"; putArr(s, v); return s; }
template <class C> inline U units(const C* p, size_t n) { U u(n); for (size_t i = 0; i < n; ++i) u[i] = static_cast<uint32_t>(static_cast<typename std::make_unsigned<C>::type>(p[i])); return u; }
template <> inline U units<char16_t>(const char16_t* p, size_t n) { return U(p, p + n); }
template <> inline U units<char32_t>(const char32_t* p, size_t n) { return U(p, p + n); }
template <> inline U units<wchar_t>(const wchar_t* p, size_t n) { U u(n); for (size_t i = 0; i < n; ++i) u[i] = uint32_t(p[i]); return u; }
template <class S> inline U unitsOf(const S& s) { return units(s.data(), s.size()); }

inline void writeLine(FILE* f, const std::string& s) { fputs(s.c_str(), f); fputc('\n', f); }

struct Op {                             // statistics and reservoir sample of one operation
    const char* name; uint64_t n = 0, all = 0, hits = 0; double w = 1; uint64_t next = 1; std::vector<std::string> res;
    Rng rng{12345};
    explicit Op(const char* nm) : name(nm) { list().push_back(this); for (const char* p = nm; *p; ++p) rng.s = rng.s * 131 + uint8_t(*p); }
    static std::vector<Op*>& list() { static std::vector<Op*> l; return l; }
    void flush() { for (auto& s : res) writeLine(g_smp, s); res.clear(); all += n; n = 0; next = 1; w = 1; }
    bool sampleNow() {                  // Algorithm L with A.samples slots
        ++n; if (n != next) return false;
        return true;
    }
    void store(std::string&& s) {
        if (s.size() > 4000) { next = n + 1; return; }      // TLC need not read the longest ones
        size_t k = A.samples;
        if (res.size() < k) { res.push_back(std::move(s)); next = n + 1; if (res.size() == k) { w = std::exp(std::log(rng.unit() + 1e-12) / k); skip(); } }
        else { res[rng.below(k)] = std::move(s); w *= std::exp(std::log(rng.unit() + 1e-12) / k); skip(); }
    }
    void skip() { double g = std::floor(std::log(rng.unit() + 1e-12) / std::log(1 - w)) + 1; next = n + (g < 1e15 ? uint64_t(g) : uint64_t(1e15)); if (next <= n) next = n + 1; }
};

inline void family(const char* name) {
    for (auto* o : Op::list()) o->flush();
    g_famCount[g_family] += g_total - g_famN; g_famN = g_total;
    g_family = name;
}
inline void finish();

// for comparing the deviations of one version with those of another: all of them, as numbers
static FILE* g_hashes; static uint64_t g_find;
inline uint64_t hashOf(const std::string& l) { size_t a = l.find("\"v\":"), b = l.find(',', a); uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < l.size(); ++i) if (a == std::string::npos || i < a || i >= b) h = (h ^ uint8_t(l[i])) * 1099511628211ull; return h | 1; }
inline void mismatch(const std::string& line) {
    if (g_find) { if (hashOf(line) == g_find) { writeLine(g_mis, line); finish(); _exit(0); } return; }
    if (g_hashes) { uint64_t h = hashOf(line); fwrite(&h, 8, 1, g_hashes); if (++g_mismatches >= 1500000) { fclose(g_hashes); finish(); _exit(0); } return; }
    if (++g_mismatches <= 40) { writeLine(g_mis, line); fflush(g_mis); }
    if (g_mismatches >= 2000) { finish(); _exit(0); }
}

// compares; `fill` makes the event when it is needed
template <class F> inline void judge(Op& o, bool same, F fill) {
    ++g_total;
    if (g_stop) { finish(); _exit(0); }
    if (!same) { mismatch(fill("ok")); return; }
    if (o.sampleNow()) o.store(fill("ok"));
}

inline void finish() {
    family("end");
    std::string s = "{\"total\":" + std::to_string(g_total) + ",\"mismatches\":" + std::to_string(g_mismatches) + ",\"ops\":{";
    bool f = true; for (auto* o : Op::list()) if (o->all) { if (!f) s += ','; f = false; s += "\""; for (const char* p = o->name; *p; ++p) if (*p != '"') s += *p; s += "\":" + std::to_string(o->all); }
    s += "},\"families\":{"; f = true; for (auto& x : g_famCount) if (x.second) { if (!f) s += ','; f = false; s += "\"" + x.first + "\":" + std::to_string(x.second); }
    s += "}}";
    FILE* st = fopen((A.out + ".stats.json").c_str(), "w"); if (st) { writeLine(st, s); fclose(st); }
    fflush(g_mis); fflush(g_smp); if (g_hashes) fflush(g_hashes);
}

// ------------------------------------------------------------------ crashes, hangs
inline std::string currentEvent(const char* out) {
    U x; const Cur& c = g_cur;
    for (size_t i = 0; i < c.n && i < 200000 && c.x; ++i)
        x.push_back(c.width == 8 ? static_cast<const uint8_t*>(c.x)[i] : c.width == 16 ? static_cast<const uint16_t*>(c.x)[i] : static_cast<const uint32_t*>(c.x)[i]);
    return eventJson(c.kind, c.op, c.form, c.a ? *c.a : L(), c.p ? *c.p : Conds(), x, U(), out);
}
static void onCrash(int sig) {
    signal(sig, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(10);
    writeLine(g_mis, currentEvent(sig == SIGALRM ? "hang" : "crash")); fflush(g_mis); fflush(g_smp);
    _exit(0);
}
static void onAlarm(int) {
    static uint64_t last = ~0ull;
    if (g_total == last) onCrash(SIGALRM);
    last = g_total; alarm(30);
}
inline void threwEvent() { mismatch(currentEvent("throw")); }

static bool g_noLimit = false;
static void onTerm(int) { g_stop = 1; }
inline void installHandlers() {
    static char alt[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    sa.sa_handler = onAlarm; sigaction(SIGALRM, &sa, nullptr); alarm(30); signal(SIGTERM, onTerm);
    if (!g_noLimit) { struct rlimit rl = { 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_AS, &rl); }
}

// ------------------------------------------------------------------ guarded memory
template <class C> struct Guarded {     // strings are placed so that the byte behind them is not mapped
    char* base; size_t cap;
    explicit Guarded(size_t c = 1 << 20) : cap(c) {
        base = static_cast<char*>(mmap(nullptr, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED) { perror("mmap"); exit(2); }
        mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + cap, 4096, PROT_NONE);
    }
    C* end() { return reinterpret_cast<C*>(base + 4096 + cap); }
    C* first() { return reinterpret_cast<C*>(base + 4096); }
    template <class D> C* putz(const D* s, size_t n) { C* p = end() - n - 1; for (size_t i = 0; i < n; ++i) p[i] = static_cast<C>(s[i]); p[n] = 0; return p; }
    template <class D> C* put(const D* s, size_t n) { C* p = end() - n; for (size_t i = 0; i < n; ++i) p[i] = static_cast<C>(s[i]); return p; }
};

inline void parseArgs(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") A.prop = v; else if (k == "--shard") A.shard = atoi(v.c_str()); else if (k == "--nshards") A.nshards = atoi(v.c_str());
        else if (k == "--seed") A.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "--tier") A.thorough = v == "thorough";
        else if (k == "--out") A.out = v; else if (k == "--ucd") A.ucd = v; else if (k == "--samples") A.samples = size_t(atoi(v.c_str()));
        else if (k == "--scale") A.scale = atof(v.c_str());
        else if (k == "--dict") { FILE* f = fopen(v.c_str(), "r"); unsigned long x; if (f) { while (fscanf(f, "%lu", &x) == 1) A.dict.push_back(uint32_t(x)); fclose(f); } }
        else if (k == "--novel") { FILE* f = fopen(v.c_str(), "r"); unsigned long x; if (f) { while (fscanf(f, "%lu", &x) == 1) A.novel.push_back(uint32_t(x)); fclose(f); } }
        else if (k == "--strings") { FILE* f = fopen(v.c_str(), "r"); char b[1024]; if (f) { while (fgets(b, sizeof b, f)) { std::string s; for (size_t j = 0; b[j] > ' ' && b[j + 1] > ' '; j += 2) { unsigned x; if (sscanf(b + j, "%2x", &x) == 1 && x) s += char(x); } if (!s.empty()) A.strings.push_back(s); } fclose(f); } }
        else if (k == "--hashes") g_hashes = fopen(v.c_str(), "wb"); else if (k == "--find") g_find = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--sanitized") { A.more["sanitized"] = v; g_noLimit = true; }
        else A.more[k.substr(2)] = v;
    }
    g_mis = fopen((A.out + ".mis.ndjson").c_str(), "w"); g_smp = fopen((A.out + ".smp.ndjson").c_str(), "w");
    if (!g_mis || !g_smp) { perror("out"); exit(2); }
    if (!A.ucd.empty()) { UC.load(A.ucd.c_str()); A.v = UC.v; }
    installHandlers();
}
