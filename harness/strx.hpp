// string generators
#pragma once
#include "mon.hpp"
#include "str.hpp"
using pyincpp::Str;

inline std::string raw(const Str& s)
{
    return std::string(s.begin(), s.end());
}
inline std::string gen_bytes(Rng& r, int maxlen)
{
    const int n = r.chance(1, 12) ? 0 : int(r.chance(2, 3) ? r.range(1, std::min(8, maxlen)) : r.range(1, maxlen));
    std::string s;
    const int kind = r.range(0, 6);
    for (int i = 0; i < n; ++i)
    {
        switch (kind)
        {
            case 0: s += char(r.range(0, 255)); break;                                           // any byte
            case 1: s += char('a' + r.range(0, 1)); break;                                       // two letters
            case 2: s += r.of<char>({'a', 'b', ' ', '\t', 'A', 'Z', 'z', '\n', '\0'}); break;
            case 3: s += char(r.range(0x20, 0x7e)); break;
            case 4: s += r.of<char>({char(0x80), char(0xff), char(0xc3), char(0xa9), 'a', '\x7f', '\x01'}); break;
            case 5: s += 'a'; break;
            default: s += r.of<char>({'0', '1', '9', '.', 'e', '-', '+', ' '});
        }
    }
    return s;
}
