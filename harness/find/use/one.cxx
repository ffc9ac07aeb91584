#ifdef AS_SUB
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#include "string.hxx"
#else
#include <ansak/string_trim.hxx>
#include <ansak/string_splitjoin.hxx>
#include <ansak/string.hxx>
#endif
#include <cstdio>
#include <vector>

bool two();
bool three();

int main()
{
    using namespace ansak;
    std::u16string u = toUtf16("a\xc3\x89\xf0\x9f\x98\x80");
    bool ok = u == u"a\u00c9\U0001F600" && toUtf8(u.c_str()) == "a\xc3\x89\xf0\x9f\x98\x80";
    std::string t = "  x ", y = "\xe3\x80\x80y";
    trim(t);
    trimWhiteSpace(y);
    ok = ok && t == "x" && y == "y" && join(split(std::string("a,b"), ','), ',') == "a,b";
    ok = ok && toLower("A\xc3\x89") == "a\xc3\xa9" && unicodeLength(u) == 3 && isUtf8(L"x");
    ok = ok && isUtf8("x", kAscii, validIf(kIsAssigned));
    EncodingCheckPredicate p = validIf(kIsAssigned), q, r = p.andIfNot(kIsControl), none = validIf(kIsPrivate);
    ok = ok && p == r && p != q && q == EncodingCheckPredicate() && p(U'x') && !p('\n') && q('\n') && !none(u'x') && none(u'\ue000');
    ok = ok && !isUtf8("x\n", p) && isUtf8("x\n", q) && !isUcs4(U"x", none) && isUtf16(u"\ue000", none) && !isUtf8("\xc3\x89", kAscii, r);
    if (!ok || !two() || !three()) return 1;
    std::puts(getUnicodeVersionSupported().c_str());
    return 0;
}
