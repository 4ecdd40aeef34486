// Int oracle (boost::multiprecision::cpp_int) and generators of integers
#pragma once
#include "mon.hpp"
#include "int.hpp"
#include <boost/multiprecision/cpp_int.hpp>

using Big = boost::multiprecision::cpp_int;
using pyincpp::Int;

inline std::string text(const Int& x)
{
    std::ostringstream o;
    o << x;
    return o.str();
}
inline std::string text(const Big& b)
{
    return b.str();
}
// decimal string with sign -> Big; cpp_int takes a leading 0 for octal
inline Big big(const std::string& s)
{
    std::size_t i = (s[0] == '+' || s[0] == '-');
    Big r = 0;
    std::uint64_t acc = 0, mul = 1;
    for (; i < s.size(); ++i)
    {
        acc = acc * 10 + (s[i] - '0');
        mul *= 10;
        if (mul == 1000000000000000000ull)
        {
            r = r * mul + acc;
            acc = 0, mul = 1;
        }
    }
    r = r * mul + acc;
    return s[0] == '-' ? Big(-r) : r;
}
inline Int mk(const std::string& s)
{
    return Int(s.c_str());
}
inline Int mk(const Big& b)
{
    return Int(b.str().c_str());
}
inline std::string brief(const std::string& s)
{
    return s.size() <= 90 ? s : s.substr(0, 40) + "...(" + std::to_string(s.size()) + " chars)..." + s.substr(s.size() - 40);
}
// longer form, for replay files
inline std::string full(const std::string& s)
{
    return s.size() <= 600 ? s : brief(s);
}

// x denotes exactly b, in canonical form, and every query agrees
inline void check_int(const Int& x, const Big& b, const char* key, const std::string& ctx)
{
    const std::string want = b.str();
    const std::string got = text(x);
    EXPECT(got == want, key, ctx << ": got " << full(got) << " want " << full(want));
    const int sg = b.sign();
    EXPECT(x.is_zero() == (sg == 0) && x.is_positive() == (sg > 0) && x.is_negative() == (sg < 0), std::string(key) + ":sign", ctx << ": sign queries of " << full(got) << " are zero=" << x.is_zero() << " pos=" << x.is_positive() << " neg=" << x.is_negative());
    const int nd = sg == 0 ? 0 : int(want.size()) - (sg < 0);
    EXPECT(x.digits() == nd, std::string(key) + ":digits", ctx << ": digits() of " << full(got) << " is " << x.digits());
    const bool odd = (want.back() - '0') & 1;
    EXPECT(x.is_odd() == odd && x.is_even() == !odd, std::string(key) + ":parity", ctx << ": parity of " << full(got));
    const Int y = mk(want);
    EXPECT(x == y && !(x != y) && !(x < y) && !(x > y), std::string(key) + ":canonical", ctx << ": " << full(got) << " is not equal to the same integer built from its literal");
}

inline std::string pow10s(int k)
{
    return "1" + std::string(k, '0');
}

// unsigned decimal digits without leading zero ("0" possible)
inline std::string gen_digits(Rng& r, int maxlen)
{
    int len;
    const int z = r.range(1, 100);
    if (z <= 25)
        len = r.range(1, 3);
    else if (z <= 55)
        len = r.range(4, 12);
    else if (z <= 80)
        len = r.range(13, 40);
    else
        len = r.range(1, maxlen);
    len = std::min(len, maxlen);
    std::string s;
    switch (r.range(0, 10))
    {
        case 0: // all nines
            s = std::string(len, '9');
            break;
        case 1: // power of ten +- small
        {
            Big b = big(pow10s(len - 1));
            b += r.range(-12, 12);
            if (b < 0)
                b = -b;
            s = b.str();
            break;
        }
        case 2: // runs of 0 and 9
        case 3: // runs of any digit
        {
            const bool zn = r.chance(1, 2);
            while (int(s.size()) < len)
            {
                s += std::string(r.range(1, std::max(1, len / 2)), zn ? (r.chance(1, 2) ? '0' : '9') : char('0' + r.range(0, 9)));
            }
            s.resize(len);
            break;
        }
        case 4: // power of two +- small
        {
            Big b = Big(1) << r.range(0, std::max(1, int(len * 3.32)));
            b += r.range(-3, 3);
            if (b < 0)
                b = -b;
            s = b.str();
            break;
        }
        case 5: // sparse
        {
            s = std::string(len, '0');
            s[0] = char('1' + r.range(0, 8));
            for (int i = r.range(0, 3); i > 0; --i)
                s[r.range(0, len - 1)] = char('0' + r.range(0, 9));
            break;
        }
        case 6: // mostly nines with a dent
        {
            s = std::string(len, '9');
            s[r.range(0, len - 1)] = char('0' + r.range(0, 9));
            break;
        }
        default:
            for (int i = 0; i < len; ++i)
                s += char('0' + r.range(0, 9));
    }
    const auto p = s.find_first_not_of('0');
    return p == std::string::npos ? "0" : s.substr(p);
}
inline std::string sgn(Rng& r, std::string s)
{
    return s != "0" && r.chance(1, 2) ? "-" + s : s;
}
inline std::string gen_int(Rng& r, int maxlen)
{
    if (r.chance(1, 16))
        return r.of<std::string>({"0", "1", "-1", "2", "-2", "9", "10", "-10", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616"});
    return sgn(r, gen_digits(r, maxlen));
}
// an operand that is close to or structurally related with a
inline std::string related(Rng& r, const std::string& a, int maxlen)
{
    Big b = big(a);
    switch (r.range(0, 9))
    {
        case 0:
            break; // equal
        case 1:
            b = -b;
            break;
        case 2:
            b += r.range(-11, 11);
            break;
        case 3: // one digit changed
        {
            std::string s = a;
            const int lo = s[0] == '-';
            s[r.range(lo, s.size() - 1)] = char('0' + r.range(0, 9));
            b = big(s);
            break;
        }
        case 4: // prefix
        {
            std::string s = b < 0 ? Big(-b).str() : b.str();
            b = big(s.substr(0, r.range(1, s.size())));
            break;
        }
        case 5: // complement to a power of ten
        {
            const int n = b.str().size();
            b = big(pow10s(n + r.range(-1, 1) > 0 ? n + r.range(-1, 0) : n)) - (b < 0 ? Big(-b) : b) + r.range(-2, 2);
            break;
        }
        case 6: // small multiple +- small
            b = b * r.range(1, 12) + r.range(-2, 2);
            break;
        case 7: // shifted by a power of ten
            b = b * big(pow10s(r.range(1, 8))) + r.range(-1, 1);
            break;
        case 8:
            b /= r.range(1, 12);
            break;
        default:
            return gen_int(r, maxlen);
    }
    if (r.chance(1, 3))
        b = -b;
    return b.str();
}
inline std::uint64_t hash2(std::string_view op, const std::string& a, const std::string& b)
{
    return mon::hash_str(b, mon::hash_str("|", mon::hash_str(a, mon::hash_str("|", mon::hash_str(op)))));
}
// integers at representation boundaries
inline const std::vector<std::string>& boundary_ints(int maxk)
{
    static std::vector<std::string> v;
    if (v.empty())
    {
        std::vector<Big> b;
        for (int i = -12; i <= 12; ++i)
            b.push_back(i);
        for (int k = 1; k <= maxk; ++k)
            for (int d : {-1, 0, 1})
                for (int s : {-1, 1})
                    b.push_back(s * (big(pow10s(k)) + d));
        for (int k : {7, 8, 15, 16, 31, 32, 33, 53, 62, 63, 64, 127, 128})
            for (int d : {-1, 0, 1})
                for (int s : {-1, 1})
                    b.push_back(s * ((Big(1) << k) + d));
        for (const char* s : {"5", "50", "500", "99999", "909090909", "990099009900", "100000000000000000001", "123456789012345678901234567890"})
        {
            b.push_back(big(s));
            b.push_back(-big(s));
        }
        for (auto& x : b)
            v.push_back(x.str());
    }
    return v;
}
