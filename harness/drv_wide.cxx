// Conformance driver for the wchar_t and TCHAR adapters. BUILD 32: native wchar_t; 16: wchar_t of 16 bits; 1: Windows,
// narrow TCHAR; 2: Windows, wide TCHAR. A wchar_t of 16 bits is had by compiling the header with the name replaced.
#include "gen.hpp"
#include <string>
#include <vector>
#include <list>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <cwchar>
#include <cstddef>
#include <cstdint>
#include <utility>
#include <iterator>
#include <array>
#include <stdexcept>
#include <memory>
#include <locale>
#include <sstream>
#include <wchar.h>
#include <stdint.h>
#if BUILD != 32
namespace std { typedef basic_string<unsigned short> wstring16; }
#define wchar_t unsigned short
#define wstring wstring16
#undef WCHAR_MAX
#define WCHAR_MAX 0xffff
#undef WCHAR_MIN
#define WCHAR_MIN 0
#undef __WCHAR_MAX__
#define __WCHAR_MAX__ 0xffff
#undef __SIZEOF_WCHAR_T__
#define __SIZEOF_WCHAR_T__ 2
#endif
#if BUILD == 1 || BUILD == 2
#define WIN32 1
#endif
#if BUILD == 1
#define _MBCS 1
#define NAME "tn"
#elif BUILD == 2
#define _UNICODE 1
#define NAME "tw"
#endif
#if BUILD == 32
#define WN "w32"
#define WB "32"
#else
#define WN "w16"
#define WB "16"
#endif
#include "string.hxx"
typedef wchar_t W; typedef std::wstring WS;
#if BUILD != 32
#undef wchar_t
#undef wstring
#endif
using namespace ansak;

static Rng R(1);
static const Conds noP; static const L noA;
static const void* srcP; static size_t srcN; static int srcW;
static U srcU() { U u(srcN); for (size_t i = 0; i < srcN; ++i) u[i] = srcW == 8 ? static_cast<const uint8_t*>(srcP)[i] : srcW == 16 ? static_cast<const uint16_t*>(srcP)[i] : static_cast<const uint32_t*>(srcP)[i]; return u; }
template <class S> static U un(const S& s) { typedef typename S::value_type C; typedef typename std::conditional<sizeof(C) == 1, uint8_t, typename std::conditional<sizeof(C) == 2, uint16_t, uint32_t>::type>::type V;
    U u; u.reserve(s.size()); for (auto c : s) u.push_back(static_cast<V>(c)); return u; }

template <class F> static void isOp(Op& o, const char* form, bool want, F f) {
    g_cur = Cur{ "wide", o.name, form, srcP, srcN, srcW, &noA, &noP };
    try { bool g = f(); judge(o, g == want, [&](const char* out) { return eventJson("wide", o.name, form, noA, noP, srcU(), U{ g ? 1u : 0u }, out); }); } catch (...) { threwEvent(); }
}
template <class F> static void toOp(Op& o, const char* form, const U& want, F f) {
    g_cur = Cur{ "wide", o.name, form, srcP, srcN, srcW, &noA, &noP };
    try { U g = un(f()); judge(o, g == want, [&](const char* out) { return eventJson("wide", o.name, form, noA, noP, srcU(), g, out); }); } catch (...) { threwEvent(); }
}
static Op oRel("wideRel");
template <class F, class G> static void relOp(const char* what, const char* form, F f, G base) {      // the same as another function of the same values
    std::string name = std::string(what) + " " + form;
    g_cur = Cur{ "rel", "wideRel", what, srcP, srcN, srcW, &noA, &noP };
    try { U g = un(f()), b = un(base()); judge(oRel, g == b, [&](const char* out) { return eventJson("rel", "wideRel", name.c_str(), noA, noP, srcU(), g, out, field("b", b)); }); } catch (...) { threwEvent(); }
}
#define WOP(v, b, f, w) static Op v("[\"" b "\",\"" f "\"," w "]")
WOP(wI8, WN, "isUtf8", WB); WOP(wI16, WN, "isUtf16", WB); WOP(wI2, WN, "isUcs2", WB); WOP(wI4, WN, "isUcs4", WB);
WOP(wIW8, WN, "isWstring", "8"); WOP(wIW16, WN, "isWstring", "16"); WOP(wIW32, WN, "isWstring", "32");
WOP(wT2, WN, "toUcs2", WB); WOP(wT16, WN, "toUtf16", WB); WOP(wT4, WN, "toUcs4", WB); WOP(wTW16, WN, "toWstring", "16"); WOP(wTW32, WN, "toWstring", "32");

template <class C> struct Forms {      // pointer and string of a source; sometimes with a NUL and more behind it
    static Guarded<C>& mem() { static Guarded<C> g(9 << 20); return g; }
    const C* z; std::basic_string<C> s, t;
    template <class D> Forms(const D* p, size_t n) { z = mem().putz(p, n); for (size_t i = 0; i < n; ++i) s.push_back(static_cast<C>(p[i])); t = s; t.push_back(0); t.push_back(C('q')); t.push_back(C(0xdfff)); }
};
static bool tail() { return R.below(8) == 0; }

static Scanned X, Y;
// the wide string itself
static void onWide(const void* p0, size_t n) {
#if BUILD == 32
    const char32_t* p = static_cast<const char32_t*>(p0); MU4.scan(p, n, X); srcW = 32; typedef char32_t B;
    bool all = isFlat(X, k16), two = isFlat(X, k2);
#else
    const char16_t* p = static_cast<const char16_t*>(p0); M16.scan(p, n, X); srcW = 16; typedef char16_t B;
    bool all = is16(X, k16), two = is16(X, k2);
#endif
    srcP = p; srcN = n; Forms<W> f(p, n); const W* z = f.z; const WS& s = f.s; const std::basic_string<B> b(p, n);
    isOp(wI8, "ptr", all, [&] { return isUtf8(z); }); isOp(wI16, "ptr", all, [&] { return isUtf16(z); }); isOp(wI4, "ptr", all, [&] { return isUcs4(z); }); isOp(wI2, "ptr", two, [&] { return isUcs2(z); });
    for (int k = 0; k < 2; ++k) { const WS& q = k ? f.t : s; if (k && !tail()) break; const char* fm = k ? "str, NUL inside" : "str";
        isOp(wI8, fm, all, [&] { return isUtf8(q); }); isOp(wI16, fm, all, [&] { return isUtf16(q); }); isOp(wI4, fm, all, [&] { return isUcs4(q); }); isOp(wI2, fm, two, [&] { return isUcs2(q); });
        relOp("toUtf8", fm, [&] { return toUtf8(q); }, [&] { return toUtf8(b); });
#if BUILD == 32
        relOp("toUtf16", fm, [&] { return toUtf16(q); }, [&] { return toUtf16(b); }); relOp("toUcs2", fm, [&] { return toUcs2(q); }, [&] { return toUcs2(b); });
        toOp(wT4, fm, all ? X.cps : U(), [&] { return toUcs4(q); });
#else
        U same(p, p + n); relOp("toUcs4", fm, [&] { return toUcs4(q); }, [&] { return toUcs4(b); });
        MU2.scan(p, n, Y); toOp(wT16, fm, all ? same : U(), [&] { return toUtf16(q); }); toOp(wT2, fm, isFlat(Y, k2) ? same : U(), [&] { return toUcs2(q); });
#endif
    }
    relOp("toUtf8", "ptr", [&] { return toUtf8(z); }, [&] { return toUtf8(b); });
#if BUILD == 32
    relOp("toUtf16", "ptr", [&] { return toUtf16(z); }, [&] { return toUtf16(b); }); relOp("toUcs2", "ptr", [&] { return toUcs2(z); }, [&] { return toUcs2(b); });
    toOp(wT4, "ptr", all ? X.cps : U(), [&] { return toUcs4(z); });
#else
    U same(p, p + n); relOp("toUcs4", "ptr", [&] { return toUcs4(z); }, [&] { return toUcs4(b); });
    toOp(wT16, "ptr", all ? same : U(), [&] { return toUtf16(z); }); toOp(wT2, "ptr", isFlat(Y, k2) ? same : U(), [&] { return toUcs2(z); });
#endif
}
#if BUILD == 32
#define BASE toUcs4
#else
#define BASE toUtf16
#endif
static void toWide8(const uint8_t* p, size_t n) {
    M8.scan(p, n, X); srcP = p; srcN = n; srcW = 8; Forms<char> f(p, n); bool w = is8(X, p, k16);
    isOp(wIW8, "ptr", w, [&] { return isWstring(f.z); }); isOp(wIW8, "str", w, [&] { return isWstring(f.s); });
    relOp("toWstring", "ptr", [&] { return toWstring(f.z); }, [&] { return BASE(f.s); }); relOp("toWstring", "str", [&] { return toWstring(f.s); }, [&] { return BASE(f.s); });
    if (tail()) { isOp(wIW8, "str, NUL inside", w, [&] { return isWstring(f.t); }); relOp("toWstring", "str, NUL inside", [&] { return toWstring(f.t); }, [&] { return BASE(f.s); }); }
}
static void toWide16(const char16_t* p, size_t n) {
    M16.scan(p, n, X); srcP = p; srcN = n; srcW = 16; Forms<char16_t> f(p, n); bool w = is16(X, k16);
    isOp(wIW16, "ptr", w, [&] { return isWstring(f.z); }); isOp(wIW16, "str", w, [&] { return isWstring(f.s); }); if (tail()) isOp(wIW16, "str, NUL inside", w, [&] { return isWstring(f.t); });
#if BUILD == 32
    relOp("toWstring", "ptr", [&] { return toWstring(f.z); }, [&] { return toUcs4(f.s); }); relOp("toWstring", "str", [&] { return toWstring(f.s); }, [&] { return toUcs4(f.s); }); if (tail()) relOp("toWstring", "str, NUL inside", [&] { return toWstring(f.t); }, [&] { return toUcs4(f.s); });
#else
    U same; if (w) same.assign(p, p + n); toOp(wTW16, "ptr", same, [&] { return toWstring(f.z); }); toOp(wTW16, "str", same, [&] { return toWstring(f.s); }); if (tail()) toOp(wTW16, "str, NUL inside", same, [&] { return toWstring(f.t); });
#endif
}
static void toWide32(const char32_t* p, size_t n) {
    MU4.scan(p, n, X); srcP = p; srcN = n; srcW = 32; Forms<char32_t> f(p, n); bool w = isFlat(X, k16);
    isOp(wIW32, "ptr", w, [&] { return isWstring(f.z); }); isOp(wIW32, "str", w, [&] { return isWstring(f.s); }); if (tail()) isOp(wIW32, "str, NUL inside", w, [&] { return isWstring(f.t); });
#if BUILD == 32
    U same; if (w) same = X.cps; toOp(wTW32, "ptr", same, [&] { return toWstring(f.z); }); toOp(wTW32, "str", same, [&] { return toWstring(f.s); }); if (tail()) toOp(wTW32, "str, NUL inside", same, [&] { return toWstring(f.t); });
#else
    relOp("toWstring", "ptr", [&] { return toWstring(f.z); }, [&] { return toUtf16(f.s); }); relOp("toWstring", "str", [&] { return toWstring(f.s); }, [&] { return toUtf16(f.s); }); if (tail()) relOp("toWstring", "str, NUL inside", [&] { return toWstring(f.t); }, [&] { return toUtf16(f.s); });
#endif
}

#if BUILD == 1 || BUILD == 2
WOP(tI8, NAME, "isTstring", "8"); WOP(tI16, NAME, "isTstring", "16"); WOP(tI32, NAME, "isTstring", "32"); WOP(tN16, NAME, "isUtf16", "8"); WOP(tN2, NAME, "isUcs2", "8"); WOP(tN4, NAME, "isUcs4", "8"); WOP(tT8, NAME, "toUtf8", "8");
WOP(tS8, NAME, "toTstring", "8"); WOP(tS16, NAME, "toTstring", "16"); WOP(tS32, NAME, "toTstring", "32");
template <class C> static void toT(Op& oi, Op& ot, const Forms<C>& f, bool is, const U& to) {
    isOp(oi, "ptr", is, [&] { return isTstring(f.z); }); isOp(oi, "str", is, [&] { return isTstring(f.s); });
    toOp(ot, "ptr", to, [&] { return toTstring(f.z); }); toOp(ot, "str", to, [&] { return toTstring(f.s); });
    if (tail()) { isOp(oi, "str, NUL inside", is, [&] { return isTstring(f.t); }); toOp(ot, "str, NUL inside", to, [&] { return toTstring(f.t); }); }
}
static void t8(const uint8_t* p, size_t n) {
    M8.scan(p, n, X); srcP = p; srcN = n; srcW = 8; Forms<char> f(p, n); U same(p, p + n);
    toT(tI8, tS8, f, is8(X, p, k16), BUILD == 1 ? (is8(X, p, kA) ? same : U()) : convert(X, k16, 16));
    for (int k = 0; k < 2; ++k) { const std::string& q = k ? f.t : f.s; if (k && !tail()) break; const char* fm = k ? "str, NUL inside" : "str";
        isOp(tN16, fm, is8(X, p, k16), [&] { return isUtf16(q); }); isOp(tN2, fm, is8(X, p, k2), [&] { return isUcs2(q); }); isOp(tN4, fm, is8(X, p, k4), [&] { return isUcs4(q); });
        toOp(tT8, fm, is8(X, p, k8) ? same : U(), [&] { return toUtf8(q); }); }
    isOp(tN16, "ptr", is8(X, p, k16), [&] { return isUtf16(f.z); }); isOp(tN2, "ptr", is8(X, p, k2), [&] { return isUcs2(f.z); }); isOp(tN4, "ptr", is8(X, p, k4), [&] { return isUcs4(f.z); });
    toOp(tT8, "ptr", is8(X, p, k8) ? same : U(), [&] { return toUtf8(f.z); });
}
static void t16(const char16_t* p, size_t n) {
    M16.scan(p, n, X); srcP = p; srcN = n; srcW = 16; Forms<char16_t> f(p, n); U same(p, p + n);
    toT(tI16, tS16, f, is16(X, k16), is16(X, BUILD == 1 ? kA : k16) ? same : U());
}
static void t32(const char32_t* p, size_t n) {
    MU4.scan(p, n, X); srcP = p; srcN = n; srcW = 32; Forms<char32_t> f(p, n); U same(p, p + n);
    toT(tI32, tS32, f, isFlat(X, k16), BUILD == 1 ? (isFlat(X, kA) ? same : U()) : convert(X, k16, 16));
}
#endif

static void nulls() {
    family("null pointers"); srcP = nullptr; srcN = 0; srcW = 8;
    const char* a = nullptr; const char16_t* b = nullptr; const char32_t* c = nullptr; const W* w = nullptr;
    if (A.prop == "C18") {
        isOp(wI8, "null", true, [&] { return isUtf8(w); }); isOp(wI16, "null", true, [&] { return isUtf16(w); }); isOp(wI2, "null", true, [&] { return isUcs2(w); }); isOp(wI4, "null", true, [&] { return isUcs4(w); });
        isOp(wIW8, "null", true, [&] { return isWstring(a); }); isOp(wIW16, "null", true, [&] { return isWstring(b); }); isOp(wIW32, "null", true, [&] { return isWstring(c); });
        relOp("toUtf8", "null", [&] { return toUtf8(w); }, [] { return std::string(); }); relOp("toUtf16", "null", [&] { return toUtf16(w); }, [] { return std::string(); });
        relOp("toUcs2", "null", [&] { return toUcs2(w); }, [] { return std::string(); }); relOp("toUcs4", "null", [&] { return toUcs4(w); }, [] { return std::string(); });
        relOp("toWstring 8", "null", [&] { return toWstring(a); }, [] { return std::string(); }); relOp("toWstring 16", "null", [&] { return toWstring(b); }, [] { return std::string(); }); relOp("toWstring 32", "null", [&] { return toWstring(c); }, [] { return std::string(); });
    }
#if BUILD == 1 || BUILD == 2
    else {
        isOp(tI8, "null", true, [&] { return isTstring(a); }); isOp(tI16, "null", true, [&] { return isTstring(b); }); isOp(tI32, "null", true, [&] { return isTstring(c); });
        toOp(tS8, "null", U(), [&] { return toTstring(a); }); toOp(tS16, "null", U(), [&] { return toTstring(b); }); toOp(tS32, "null", U(), [&] { return toTstring(c); });
        isOp(tN16, "null", true, [&] { return isUtf16(a); }); isOp(tN2, "null", true, [&] { return isUcs2(a); }); isOp(tN4, "null", true, [&] { return isUcs4(a); }); toOp(tT8, "null", U(), [&] { return toUtf8(a); });
    }
#endif
}

int main(int argc, char** argv) {
    parseArgs(argc, argv); R.s = A.seed * 31 + uint64_t(A.shard);
    if (A.shard == 0) nulls();
    if (A.prop == "C18") {
        double sc = BUILD == 32 || BUILD == 16 ? 0.15 : 0.05;
#if BUILD == 32
        gen32([](const char32_t* p, size_t n) { onWide(p, n); toWide32(p, n); }, sc); gen16(toWide16, sc); gen8(toWide8, sc);
#else
        gen16([](const char16_t* p, size_t n) { onWide(p, n); toWide16(p, n); }, sc); gen32(toWide32, sc); gen8(toWide8, sc);
#endif
    }
#if BUILD == 1 || BUILD == 2
    else { gen8(t8, 0.3); gen16(t16, 0.3); gen32(t32, 0.3); }
#endif
    finish(); return 0;
}
