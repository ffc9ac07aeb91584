// Sweeps the character classes and the lower-case mapping of one build over 32-bit values and writes what it
// finds as intervals and pairs; Sweep.tla compares them with the specification.
#include "drv.hpp"
#include "string.hxx"
#include <atomic>
using namespace ansak;

typedef std::vector<std::pair<uint64_t, uint64_t>> Iv;
static uint64_t g_calls;

// one after the other; or, when `order` is 1 or 2, downwards or in no order at all, one class after the other, and
// with other questions between: the answers must not depend on it
static EncodingCheckPredicate Q[5];
static uint32_t other(uint64_t i, uint32_t c, uint32_t mask) {      // what to ask before c
    switch (i % 32) {
    case 21: return c - 1; case 22: return c + 1; case 23: return c - 1 - uint32_t(i / 32 % 16); case 24: return c + 1 + uint32_t(i / 32 % 16); case 25: return c - 1 - uint32_t(i / 32 % 300);
    case 26: return (c & 0xffff) | uint32_t(i / 32 % 17) << 16; case 27: return (c & 0xff) | uint32_t(i / 32 % 4352) << 8; case 28: return (c & ~0xffu) | uint32_t(i / 32 % 256); case 29: return c | 0x80000000u; case 30: return c << 16 | c; case 31: return ~c;
    default: return (c ^ 1u << (i % 32)) & mask; }
}
static Iv intervals(const std::vector<bool>& bit) {
    Iv r; bool in = false; uint64_t from = 0, c = 0;
    for (; c < bit.size(); ++c) if (bit[c] && !in) { in = true; from = c; } else if (!bit[c] && in) { in = false; r.push_back({ from, c - 1 }); }
    if (in) r.push_back({ from, c - 1 });
    return r;
}
static char32_t g_x;
static void sweepAll32(int order, Iv* out) {
    std::vector<bool> bit[5]; for (int t = 1; t <= 4; ++t) bit[t].assign(0x200000, false);
    g_cur.n = 1; g_cur.width = 32; g_cur.x = &g_x;
    for (uint64_t i = 0; i < 0x200000; ++i) {
        uint32_t c = order == 1 ? 0x1fffff - uint32_t(i) : uint32_t((i * 1640531527u + 77) & 0x1fffff); g_x = c;
        if (order == 2) { uint32_t y = other(i, c, 0x1fffff); volatile bool k = i & 1 ? Q[1 + i / 32 % 4](char32_t(y)) : Q[1 + i / 32 % 4](char16_t(y)); (void)k; }
        for (int t = 0; t < 4; ++t) { int u = 1 + int((uint64_t(t) + i / 3) & 3); bit[u][c] = Q[u](char32_t(c)); }
        g_calls += 4; ++g_total;
    }
    for (int t = 1; t <= 4; ++t) out[t] = intervals(bit[t]);
}
static void sweepAll16(int order, Iv* out) {
    std::vector<bool> bit[5]; for (int t = 1; t <= 4; ++t) bit[t].assign(0x10000, false);
    for (uint64_t i = 0; i < 0x10000; ++i) {
        uint32_t c = order == 1 ? 0xffff - uint32_t(i) : uint32_t((i * 40503u + 77) & 0xffff);
        for (int t = 0; t < 4; ++t) { int u = 1 + int((uint64_t(t) + i / 3) & 3);
            if (order == 2) { uint32_t y = other(i * 4 + uint64_t(t), c, 0xffff); volatile bool k = i & 1 ? Q[1 + i / 8 % 4](char32_t(y)) : Q[1 + i / 8 % 4](char16_t(y)); (void)k; }
            bit[u][c] = Q[u](char16_t(c)); }
        g_calls += 4; ++g_total;
    }
    for (int t = 1; t <= 4; ++t) out[t] = intervals(bit[t]);
}
static Iv sweep32(const EncodingCheckPredicate& q, uint64_t top) {
    Iv r; bool in = false; uint64_t from = 0; g_cur.n = 1; g_cur.width = 32; g_cur.x = &g_x;
    for (uint64_t c = 0; c <= top; ++c) {
        g_x = char32_t(c); bool k = q(g_x); ++g_calls; ++g_total;
        if (k && !in) { in = true; from = c; } else if (!k && in) { in = false; r.push_back({ from, c - 1 }); }
    }
    if (in) r.push_back({ from, top });
    return r;
}
static void put(FILE* f, const Iv& v) { fputc('[', f); for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s[%d,%d]", i ? "," : "", int(uint32_t(v[i].first)), int(uint32_t(v[i].second))); fputc(']', f); }

static std::vector<std::pair<uint32_t, uint32_t>> g_low[2];
static void lower(uint32_t c, int turkic) {
    static std::u32string s(1, U'x'); s[0] = c;
    g_cur = Cur{ "api", "lower32", turkic ? "tr" : "", s.data(), 1, 32, nullptr, nullptr };
    std::u32string t = toLower(s, turkic ? "tr" : nullptr); ++g_calls; ++g_total;
    if (t.size() != 1) g_low[turkic].push_back({ c, 0xfffffffeu }); else if (t[0] != char32_t(c)) g_low[turkic].push_back({ c, uint32_t(t[0]) });
}

int main(int argc, char** argv) {
    parseArgs(argc, argv);
    bool full = A.more.count("full") > 0; std::string what = A.prop == "C12" ? "c" : A.prop == "C13" ? "l" : "cl";
    Rng r(A.seed * 91 + 3);
    std::vector<uint32_t> high;         // values above the code space
    for (uint64_t c = 0x200000; c <= 0xffffffffull; c += 4099) high.push_back(uint32_t(c));
    for (int i = 0; i < 300000; ++i) { high.push_back(uint32_t(r.below(0x110000)) | uint32_t(r.next() & 0xffe00000u)); high.push_back(uint32_t(r.below(0x10000)) | uint32_t(r.next() & 0xffff0000u)); high.push_back(uint32_t(r.below(0x3000)) | (uint32_t(0x200000) << r.below(11))); }
    for (int b = 0; b < 32; ++b) for (int d = -300; d < 300; ++d) high.push_back((1u << b) + uint32_t(d));
    for (auto x : A.dict) for (uint32_t y : { x, 0u - x, ~x, x | 0x80000000u, x << 8, x << 16, x * 65537u }) for (int d = -1; d <= 1; ++d) high.push_back(y + uint32_t(d));
    std::sort(high.begin(), high.end()); high.erase(std::unique(high.begin(), high.end()), high.end());
    high.erase(high.begin(), std::lower_bound(high.begin(), high.end(), 0x200000u));
    uint64_t top = full ? 0xffffffffull : 0x1fffffull;
    std::vector<std::string> seen; uint64_t all = top;
    for (int order = 0; order < 3; ++order) {
        char* text = nullptr; size_t size = 0; FILE* f = open_memstream(&text, &size); if (!f) return 2; top = order ? 0x1fffffull : all;
        fprintf(f, "{\"v\":%d,\"report\":\"", A.v);
        for (char c : getUnicodeVersionSupported()) if (c >= ' ' && c != '"' && c != '\\') fputc(c, f); else fprintf(f, "<%02x>", unsigned(uint8_t(c)));
        fprintf(f, "\"");
        if (what.find('c') != std::string::npos) {
            fprintf(f, ",\"iv\":[");
            static Iv above[5]; Iv all32[5], all16[5]; for (int t = 1; t <= 4; ++t) Q[t] = validIf(EncodingType(t));
            if (order) { sweepAll32(order, all32); sweepAll16(order, all16); }
            for (int t = 1; t <= 4; ++t) {
                g_cur = Cur{ "api", "class32", "", nullptr, 0, 32, nullptr, nullptr };
                EncodingCheckPredicate q = validIf(EncodingType(t)); Iv v = order ? all32[t] : sweep32(q, top);
                if (order == 0) { if (!full) for (auto c : high) { ++g_calls; if (q(char32_t(c))) above[t].push_back({ c, c }); }
                    if (full) for (auto& i : v) if (i.second > 0x1fffff) above[t].push_back({ i.first > 0x1fffff ? i.first : 0x200000, i.second }); }
                if (!(full && order == 0)) v.insert(v.end(), above[t].begin(), above[t].end());
                if (t > 1) fputc(',', f); put(f, v);
            }
            fprintf(f, "],\"iv16\":[");
            for (int t = 1; t <= 4; ++t) {
                EncodingCheckPredicate q = validIf(EncodingType(t)); Iv v = all16[t];
                if (!order) { std::vector<bool> bit(0x10000, false); for (uint32_t c = 0; c < 0x10000; ++c) { bit[c] = q(char16_t(c)); ++g_calls; } v = intervals(bit); }
                if (t > 1) fputc(',', f); put(f, v);
            }
            fprintf(f, "]");
        }
        if (what.find('l') != std::string::npos) {
            static std::vector<std::pair<uint32_t, uint32_t>> above[2];
            if (order) {
                g_low[0].clear(); g_low[1].clear();
                for (uint64_t i = 0; i < 0x200000; ++i) { uint32_t c = order == 1 ? 0x1fffff - uint32_t(i) : uint32_t((i * 1640531527u + 77) & 0x1fffff);
                    if (order == 2) { static std::u32string y(1, U'x'); y[0] = other(i, c, 0x1fffff); toLower(y, i & 64 ? "tr" : nullptr); }
                    lower(c, int(i & 1)); lower(c, int(~i & 1)); }
                for (int k = 0; k < 2; ++k) { auto& g = g_low[k]; std::sort(g.begin(), g.end()); g.insert(g.end(), above[k].begin(), above[k].end()); }
            }
            for (int k = 0; k < 2; ++k) {
                auto& g = g_low[k];
                if (order == 0) { for (uint64_t c = 0; c <= (k ? 0x1fffffull : top); ++c) lower(uint32_t(c), k); if (!full || k) for (auto c : high) lower(c, k); for (auto& x : g) if (x.first > 0x1fffff) above[k].push_back(x); }
                fprintf(f, ",\"%s\":[", k ? "lowerTr" : "lower");
                for (size_t i = 0; i < g.size() && i < 20000; ++i) fprintf(f, "%s[%d,%d]", i ? "," : "", int(g[i].first), int(g[i].second));
                fprintf(f, "]");
            }
        }
        fprintf(f, "}\n"); fclose(f); std::string got(text, size); free(text);
        if (std::find(seen.begin(), seen.end(), got) != seen.end()) continue;
        FILE* o = fopen((A.out + ".sweep" + (seen.empty() ? "" : std::to_string(seen.size())) + ".json").c_str(), "w"); if (!o) return 2;
        fputs(got.c_str(), o); fclose(o); seen.push_back(got);
    }
    g_total = g_calls; g_famN = 0; g_family = full ? "all 32-bit values" : "all values up to 0x1fffff, others above"; family("end"); finish();
    return 0;
}
