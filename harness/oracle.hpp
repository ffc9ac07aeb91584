// The specification, interpreted: everything here is driven by the tables that TLC wrote from the TLA+
// modules (tables.gen.h, ucd<v>.txt). A disagreement with the library found with it is only a suspicion;
// TLC judges the recorded call against the specification itself before anything is reported.
#pragma once
#include "tables.gen.h"
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>

typedef std::vector<uint32_t> U;        // units or code points

enum St { OK = 0, CUT = 1, BAD = 2 };
struct Scanned { St st; U cps; size_t used; bool inside; };     // inside: broken after part of a sequence

struct Machine {
    const Row* rows; const int* start; int nq; uint32_t maxUnit;
    std::vector<const Row*> fast;       // for 8- and 16-bit units: [q * (maxUnit+1) + u]
    Machine(const Row* r, const int* s, int n, uint32_t mx) : rows(r), start(s), nq(n), maxUnit(mx) {
        if (mx <= 0xffff) {
            fast.assign(size_t(nq) * (mx + 1), nullptr);
            for (int q = 0; q < nq; ++q) for (int i = start[q]; i < start[q + 1]; ++i)
                for (uint32_t u = rows[i].lo; u <= rows[i].hi; ++u) fast[size_t(q) * (mx + 1) + u] = &rows[i];
        }
    }
    const Row& at(int q, uint32_t u) const {
        if (!fast.empty()) return *fast[size_t(q) * (maxUnit + 1) + u];
        for (int i = start[q]; i < start[q + 1]; ++i) if (u >= rows[i].lo && u <= rows[i].hi) return rows[i];
        abort();
    }
    template <class C> void scan(const C* p, size_t n, Scanned& s) const {
        int q = 0; int64_t acc = 0; s.cps.clear(); s.used = 0;
        for (size_t i = 0; i < n; ++i) {
            const Row& r = at(q, static_cast<uint32_t>(p[i]));
            if (r.to == 1) { s.st = BAD; s.inside = q != 0; return; }
            int64_t v = r.mul * acc + (int64_t(static_cast<uint32_t>(p[i])) + r.add);
            if (r.emit) { s.cps.push_back(uint32_t(v)); s.used = i + 1; q = 0; acc = 0; }
            else { q = r.to; acc = v; }
        }
        s.st = q == 0 ? OK : CUT;
    }
    // units at which transitions from q change, and some inside of each run
    std::vector<uint32_t> interesting(int q) const {
        std::vector<uint32_t> v;
        for (int i = start[q]; i < start[q + 1]; ++i) {
            v.push_back(rows[i].lo); v.push_back(rows[i].hi);
            v.push_back(rows[i].lo + (rows[i].hi - rows[i].lo) / 2);
        }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }
};
static const Machine M8(T_m8_rows, T_m8_start, T_m8_nq, 0xff), M16(T_m16_rows, T_m16_start, T_m16_nq, 0xffff),
                     MU2(T_mu2_rows, T_mu2_start, T_mu2_nq, 0xffff), MU4(T_mu4_rows, T_mu4_start, T_mu4_nq, 0xffffffffu);

inline bool isSurr(uint32_t c) { return c >= 0xd800 && c <= 0xdfff; }
inline bool inRange(int r, uint32_t c) { return !isSurr(c) && c <= T_tops[r]; }
inline bool allIn(int r, const U& c) { for (auto x : c) if (!inRange(r, x)) return false; return true; }

inline void encWith(const EncRow* rows, int n, uint32_t c, U& out) {
    for (int i = 0; i < n; ++i) if (c <= rows[i].top) {
        for (int k = 0; k < rows[i].n; ++k) {
            const EncUnit& u = rows[i].u[k];
            out.push_back(u.base + ((c - rows[i].bias) / u.div) % u.mod);
        }
        return;
    }
    fprintf(stderr, "oracle: %x not encodable\n", c); abort();
}
inline void enc8(uint32_t c, U& o) { encWith(T_enc8, T_enc8_n, c, o); }
inline void enc16(uint32_t c, U& o) { encWith(T_enc16, T_enc16_n, c, o); }
inline U encAll8(const U& c) { U o; for (auto x : c) enc8(x, o); return o; }
inline U encAll16(const U& c) { U o; for (auto x : c) enc16(x, o); return o; }

enum { kA = 0, k8 = 1, k2 = 2, k16 = 3, k4 = 4, kU = 5 };

template <class Fits> inline bool isWith(const Scanned& s, int r, Fits fits) {
    if (r < 0 || r > 5) return false;
    if (s.st == BAD || !allIn(r, s.cps)) return false;
    return s.st != CUT || fits();
}
template <class C> inline bool is8(const Scanned& s, const C* p, int r) { return isWith(s, r, [&] { return T_fits8[r][uint8_t(p[s.used])] != 0; }); }
inline bool is16(const Scanned& s, int r) { return isWith(s, r, [&] { return T_fits16[r] != 0; }); }
inline bool isFlat(const Scanned& s, int r) { return isWith(s, r, [] { return true; }); }

inline U convert(const Scanned& s, int r, int toWidth) {
    if (s.st == BAD || !allIn(r, s.cps)) return U();
    return toWidth == 8 ? encAll8(s.cps) : toWidth == 16 ? encAll16(s.cps) : s.cps;
}
inline uint32_t countCps(const Scanned& s, int r) { return s.st == BAD || !allIn(r, s.cps) ? 0 : uint32_t(s.cps.size()); }

// ---- character data of one version
struct Ucd {
    int v = 0;
    std::vector<uint8_t> cls = std::vector<uint8_t>(0x110000, 0);      // bit t-1 for class t
    std::vector<uint32_t> low = std::vector<uint32_t>(0x110000);
    void load(const char* path) {
        FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(2); }
        int na, nl; if (fscanf(f, "%d %d %d", &v, &na, &nl) != 3) exit(2);
        for (int i = 0; i < na; ++i) { unsigned a, b; if (fscanf(f, "%u %u", &a, &b) != 2) exit(2); for (unsigned c = a; c <= b; ++c) cls[c] |= 1; }
        for (uint32_t c = 0; c < low.size(); ++c) low[c] = c;
        for (int i = 0; i < nl; ++i) { unsigned a, b, s; int d; if (fscanf(f, "%u %u %u %d", &a, &b, &s, &d) != 4) exit(2); for (unsigned c = a; c <= b; c += s) low[c] = c + d; }
        fclose(f);
        auto put = [&](const uint32_t (*iv)[2], int n, int bit) { for (int i = 0; i < n; ++i) for (uint32_t c = iv[i][0]; c <= iv[i][1]; ++c) cls[c] |= bit; };
        put(T_private, T_private_n, 2); put(T_control, T_control_n, 4); put(T_white, T_white_n, 8);
    }
    bool in(int t, uint32_t c) const { return c < 0x110000 && (cls[c] >> (t - 1) & 1); }
    uint32_t lower(uint32_t c, bool turkic) const { return turkic && c == 'I' ? 0x131 : c < 0x110000 ? low[c] : c; }
};
inline bool inClassOfChar(int t, uint32_t b) {
    auto has = [&](const uint32_t (*iv)[2], int n) { for (int i = 0; i < n; ++i) if (b >= iv[i][0] && b <= iv[i][1]) return true; return false; };
    return t == 1 ? true : t == 2 ? false : t == 3 ? has(T_control, T_control_n) : has(T_white, T_white_n);
}
typedef std::vector<std::pair<int, int>> Conds;     // <t, wanted>
inline bool condsHold(const Ucd& u, const Conds& k, uint32_t c) {
    for (auto& x : k) if (x.first >= 1 && x.first <= 4 && u.in(x.first, c) != (x.second == 1)) return false;
    return true;
}
inline bool isTurkicCode(const std::string& l) { for (int i = 0; i < T_turkic_n; ++i) if (l == T_turkic[i]) return true; return false; }
