// The same calls in every phase of a program: while its static objects are made, in main, in a function registered with
// atexit, while thread_local and static objects are destroyed (the library's own first), in a thread that outlives main.
// What a call gives in main is known from a child process, so that main need not have made any before the end comes.
#define main pure_main
#include "drv_pure.cxx"
#undef main

// one process makes its calls in some of the phases only: nothing may have to be got ready by an earlier call
enum { BEFORE = 1, MAIN = 2, AFTER = 4, LEFT = 8 };
static const int plans[] = { BEFORE | MAIN | AFTER, AFTER, BEFORE | AFTER, MAIN | AFTER | LEFT, BEFORE | MAIN | LEFT, AFTER | LEFT, BEFORE, MAIN | AFTER };

struct Step { int t, kind; uint32_t call; int res; };        // kind: 0 call, 1 return, 2 phase
static std::vector<Step> steps; static std::map<uint32_t, U> before; static std::set<uint32_t> bad;
static int plan, phase; static bool sani, known; static std::atomic<bool> stop(false); static std::thread left; static std::atomic<uint64_t> leftCalls(0);
static Op oBefore("before main"), oMain("in main"), oAfter("after main"), oLeft("in a thread left running");

static std::string lifeJson(const std::vector<Step>& st, const std::vector<uint32_t>& which, const char* out, const U* first = nullptr, const U* then = nullptr) {
    std::map<uint32_t, int> id; for (auto k : which) { int d = int(id.size()) + 1; id[k] = d; }
    std::string s = "{\"k\":\"life\",\"n\":" + std::to_string(id.size()) + ",\"log\":["; bool f = true;
    for (auto& e : st) { if (e.kind < 2 && !id.count(e.call)) continue; if (!f) s += ','; f = false; s += '[' + std::to_string(e.t) + ',' + std::to_string(e.kind) + ',' + std::to_string(e.kind < 2 ? uint32_t(id[e.call]) : e.call) + ',' + std::to_string(e.res) + ']'; }
    s += "],\"plan\":" + std::to_string(plan) + ",\"ctx\":\"" + ctx + "\",\"out\":\"" + out + "\",\"calls\":["; f = true; for (auto k : which) { if (!f) s += ','; f = false; s += describe(calls[k]); }
    s += "]"; if (first) { s += ",\"inMain\":"; putArr(s, *first); } if (then) { s += ",\"here\":"; putArr(s, *then); } return s + "}";
}
// the history of one call, with what main gives where no process has made it
static void wrong(int t, uint32_t k, int ph, const U* got, const char* out) {
    std::lock_guard<std::mutex> g(mx); if (!bad.insert(k).second) return;
    std::vector<Step> st; int r = got ? 1 : -1;
    if (ph == 0) { st = { { 0, 0, k, 0 }, { 0, 1, k, r }, { 0, 2, 1, 0 }, { 0, 0, k, 0 }, { 0, 1, k, 0 } }; }
    else { st = { { 0, 2, 1, 0 }, { 0, 0, k, 0 }, { 0, 1, k, 0 } }; if (ph == 2) st.push_back({ 0, 2, 2, 0 }); st.push_back({ t, 0, k, 0 }); st.push_back({ t, 1, k, r }); }
    mismatch(lifeJson(st, { k }, out, known ? &memo[k] : nullptr, got));
}
// the heap may be what is broken: nothing is allocated here
static int deathFd = -1;
static void lifeDeath(int sig) {
    signal(sig, SIG_DFL); static char buf[1 << 16]; size_t n = 0, m = sizeof buf - 64; const char* out = sig == SIGALRM ? "hang" : "crash";
    auto put = [&](const char* f, auto... a) { if (n < m) n += size_t(snprintf(buf + n, sizeof buf - n, f, a...)); };
    put("{\"k\":\"life\",\"n\":1,\"log\":["); if (phase == 0) put("[0,0,1,0],[0,1,1,-1]%s", ""); else put("[0,2,1,0],[0,0,1,0],[0,1,1,0],%s[0,0,1,0],[0,1,1,-1]", phase == 2 ? "[0,2,2,0]," : "");
    put("],\"plan\":%d,\"ctx\":\"%s\",\"out\":\"%s\",\"calls\":[", plan, phase == 0 ? "before main" : phase == 1 ? "main" : "after main", out);
    if (g_now < calls.size()) { const ACall& c = calls[g_now]; put("{\"op\":\"%s\",\"a\":%d,\"x\":[", ops[c.op].name, c.a); for (size_t i = 0; i < c.x.size() && n < m - 20; ++i) put(i ? ",%u" : "%u", unsigned(c.x[i] & 0x7fffffffu)); put("]}%s", ""); }
    put("]}%s", "\n"); if (write(deathFd, buf, n) < 0) {} _exit(0);
}
static void lifeHang(int) { static uint64_t last = ~0ull; if (g_total == last) lifeDeath(SIGALRM); last = g_total; alarm(30); }

static U call(uint32_t k) { ACall c = calls[k]; c.q = build(c.p); return runAt(c, own[k].data(), formOf(c, int((k + uint32_t(phase)) % 3))); }
static void all(Op& o) {
    for (uint32_t k = 0; k < calls.size(); ++k) {
        g_now = k; ++g_total; ++o.all; steps.push_back({ 0, 0, k, 0 });
        try { U u = call(k); if (!known) before[k] = u; else if (u != memo[k]) { wrong(0, k, phase, &u, "ok"); } } catch (...) { wrong(0, k, phase, nullptr, "throw"); }
        steps.push_back({ 0, 1, k, bad.count(k) ? 1 : 0 });
    }
}
static void ask() {                     // what main gives, from a child
    size_t cap = 1 << 20; uint32_t* sh = static_cast<uint32_t*>(mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) { for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) signal(s, SIG_DFL); alarm(60); size_t n = 1; for (uint32_t k = 0; k < calls.size(); ++k) { U u; try { u = call(k); } catch (...) { u = U{ 0xdeadbeefu }; } if (n + u.size() + 1 >= cap) _exit(1); sh[n++] = uint32_t(u.size()); for (auto x : u) sh[n++] = x; } sh[0] = 1; _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (sh[0] != 1) { writeLine(g_smp, ""); fprintf(stderr, "no answers from main\n"); _exit(0); }       // crashes in main are others' business
    size_t n = 1; for (auto& m : memo) { m.assign(sh + n + 1, sh + n + 1 + sh[n]); n += 1 + sh[n]; }
    munmap(sh, cap * 4); known = true;
    for (auto& b : before) if (b.second != memo[b.first]) wrong(0, b.first, 0, &b.second, "ok");
}
static void prepare() { Rng r(A.seed * 1913 + uint64_t(A.shard)); makeCalls(r, A.thorough ? 1500 : 400); for (size_t k = calls.size(); k-- > 0; ) if (calls[k].x.size() > 400) { calls.erase(calls.begin() + long(k)); own.erase(own.begin() + long(k)); } memo.resize(calls.size()); }

struct Life {                           // made after everything above, and before anything of the library
    Life() {
        static std::vector<std::string> arg; static std::vector<char*> argv; FILE* f = fopen("/proc/self/cmdline", "rb"); std::string s; int ch; if (!f) { perror("cmdline"); _exit(2); }
        while ((ch = fgetc(f)) != EOF) { if (ch) s += char(ch); else { arg.push_back(s); s.clear(); } } fclose(f); for (auto& a : arg) argv.push_back(&a[0]);
        parseArgs(int(argv.size()), argv.data()); deathFd = dup(fileno(g_mis)); plan = plans[A.shard % 8]; sani = A.more.count("sanitized") != 0;
        for (int sg : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(sg, sani ? SIG_DFL : lifeDeath); signal(SIGALRM, lifeHang);
        ctx = "before main"; if (plan & BEFORE) { prepare(); all(oBefore); }
    }
    ~Life() {
        ctx = "after main"; if (plan & AFTER) all(oAfter);
        stop = true; if (left.joinable()) left.join();
        oLeft.all += leftCalls.load(); g_total += leftCalls.load();
        std::vector<uint32_t> which; for (uint32_t k = 0; k < calls.size() && which.size() < 25; ++k) if (!bad.count(k) && (k * 7919u + uint32_t(A.seed)) % 11 < 2) which.push_back(k);
        if (known) writeLine(g_smp, lifeJson(steps, which, "ok"));
        finish(); fclose(g_mis); fclose(g_smp);
    }
};
static Life life;
struct Last { ~Last() { if (phase == 2 ? plan & AFTER : plan & MAIN) { std::string was = ctx; ctx = "thread_local destructor"; all(phase == 2 ? oAfter : oMain); ctx = was; } } };
static void atEnd() { if (plan & AFTER) { ctx = "atexit"; all(oAfter); } }

int main() {
    phase = 1; steps.push_back({ 0, 2, 1, 0 }); ctx = "main";
    if (calls.empty()) prepare();
    ask();
    thread_local Last last; (void)&last;
    std::thread([] { thread_local Last l; (void)&l; }).join();
    if (plan & MAIN) all(oMain);
    if (plan & LEFT) left = std::thread([] { Rng r(77); while (!stop) { uint32_t k = uint32_t(r.below(calls.size())); try { U u = runAt(calls[k], own[k].data(), formOf(calls[k], 0)); if (u != memo[k]) wrong(1, k, phase, &u, "ok"); } catch (...) { wrong(1, k, phase, nullptr, "throw"); } ++leftCalls; } });
    atexit(atEnd);
    phase = 2; steps.push_back({ 0, 2, 2, 0 });
    return 0;
}
