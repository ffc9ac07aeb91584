// one header alone
#ifdef AS_SUB
#include "string_splitjoin.hxx"
#else
#include <ansak/string_splitjoin.hxx>
#endif

bool three()
{
    std::vector<std::u16string> p = ansak::split(std::u16string(u",a,,b"), u',');
    return p.size() == 4 && p[1] == u"a" && p[2].empty() && ansak::join(p, u'-') == u"-a--b"
        && ansak::join(ansak::split(std::wstring(L"x y"), L' '), L'+') == L"x+y";
}
