#ifdef AS_SUB
#include "string.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#else
#include <ansak/string.hxx>
#include <ansak/string_splitjoin.hxx>
#include <ansak/string_trim.hxx>
#endif

bool two()
{
    using namespace ansak;
    std::string z = "\tz";
    trimAscii7WhiteSpace(z);
    return z == "z" && split(std::u32string(U"a;b"), U';').size() == 2
        && toUcs4("\xc3\x89") == U"\u00c9" && toUcs2(U"A") == u"A" && toLower(U"B") == U"b" && toUtf8(L"w") == "w" && toWstring("w") == L"w";
}
